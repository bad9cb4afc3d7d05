import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from b3 import H
BUGS=[
dict(id="blake-whole-block", property="P23",
 edits=[("addressEncoder/blake256/blake256.go","	if len(p) >= BlockSize {\n		n := len(p) &^","	if len(p) > BlockSize {\n		n := len(p) &^")],
 needs="a write whose unbuffered part is exactly one block of 64 bytes, followed by a sum", breaks="the BLAKE hash of such a message is not the hash of the message",
 demo='''package main
import (
	"bytes"
	"fmt"
	"os"
	"github.com/blocktree/go-owcdrivers/addressEncoder/blake256"
)
func main() {
	m := make([]byte, 256)
	for i := range m { m[i] = byte(i * 5) }
	for n := 0; n <= len(m); n++ {
		one := blake256.New()
		one.Write(m[:n])
		each := blake256.New()
		for i := 0; i < n; i++ { each.Write(m[i:i+1]) }
		if !bytes.Equal(one.Sum(nil), each.Sum(nil)) { fmt.Println("WRONG: the hash of", n, "bytes depends on how they were written"); os.Exit(1) }
	}
}
'''),
dict(id="b58-wide-last", property="P23",
 edits=[("vollarTransaction/base58.go","for i := 0; i < len(alphabet.unicodeDecodeTable); i += 2 {","for i := 0; i < len(alphabet.unicodeDecodeTable)-2; i += 2 {")],
 needs="an alphabet with characters beyond one byte and a text holding the last of them", breaks="text the package itself encoded is refused",
 demo=H("vollarTransaction").replace('"encoding/hex"','"encoding/hex"\n\t"bytes"')+'''
func main() {
	rs := []rune{}
	for i := 0; i < 58; i++ { rs = append(rs, rune(0x4e00+i*3)) }
	a := d.NewAlphabet(string(rs))
	for n := 0; n < 300; n++ {
		b := []byte{byte(n >> 8), byte(n), byte(n * 7)}
		got, err := d.Decode(d.Encode(b, a), a)
		if err != nil || !bytes.Equal(got, b) { fail(fmt.Sprintf("%x comes back as %x, %v", b, got, err)) }
	}
}
'''),
]
