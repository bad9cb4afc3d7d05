H='''package main
import (
	"fmt"
	"os"
	"encoding/hex"
	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	kc "github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcrypt"
)
var _ = hex.EncodeToString
var _ = owcrypt.Hash
var _ = ae.AddressEncode
var _ = kc.OWDecode
func fail(s string) { fmt.Println("WRONG:", s); os.Exit(1) }
func seq(n int, s byte) []byte { b := make([]byte, n); for i := range b { b[i] = s + byte(i)*7 }; return b }
'''
BUGS=[
dict(id="addr-xmr-pad", property="P01",
 edits=[("addressEncoder/addressEncoder.go","if len(blockBase58) < 11 {\n				cycle := 11 - len(blockBase58)","if cycle := 10 - len(blockBase58); cycle > 0 {\n				cycle++")],
 needs="a Monero address in which one 8-byte block encodes to exactly ten base58 digits", breaks="the block is not padded, so the address is one character short and cannot be decoded",
 demo=H+'''
func main() {
	for i := 0; i < 400; i++ {
		h := append(seq(8, byte(i)), append(seq(24, byte(i*3)), seq(32, byte(i*5))...)...)
		h[8], h[9] = byte(i%8), byte(i)
		h[7] = byte(i % 3)
		a := ae.AddressEncode(h, ae.XMR_mainnetPublicAddress)
		if len(a) != 95 { fail(fmt.Sprint("length ", len(a), " for ", hex.EncodeToString(h))) }
		d, err := ae.AddressDecode(a, ae.XMR_mainnetPublicAddress)
		if err != nil || hex.EncodeToString(d) != hex.EncodeToString(h) { fail("round trip") }
	}
}
'''),
dict(id="addr-checksum-xor", property="P02",
 edits=[("addressEncoder/addressEncoder.go","	for i := 0; i < 4; i++ {\n		if checksum[i] != data[len(data)-4+i] {\n			return false\n		}\n	}\n	return true","	var diff byte\n	for i := 0; i < 4; i++ {\n		diff ^= checksum[i] ^ data[len(data)-4+i]\n	}\n	return diff == 0")],
 needs="a corrupted base58 address whose four checksum byte differences cancel out when xored together", breaks="about one corrupted address in 256 is accepted as valid",
 demo=H+'''
func main() {
	ty := ae.BTC_mainnetAddressP2PKH
	for i := 0; i < 20; i++ {
		p := append([]byte{0}, seq(20, byte(i))...)
		c := owcrypt.Hash(p, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
		b := append(append([]byte{}, p...), c[0]^0x11, c[1]^0x11, c[2], c[3])
		t := ae.Base58Encode(b, ae.NewBase58Alphabet(ty.Alphabet))
		if _, err := ae.AddressDecode(t, ty); err == nil { fail("accepted " + t) }
	}
}
'''),
dict(id="addr-check-qtum-test", property="P03",
 edits=[("addressEncoder/addressCheck.go","_, err = AddressDecode(addr, QTUM_testnetAddressP2SH)","_, err = AddressDecode(addr, QTUM_mainnetAddressP2SH)")],
 needs="a Qtum test-network script address", breaks="valid Qtum test-network script addresses are reported invalid",
 demo=H+'''
func main() {
	for i := 0; i < 20; i++ {
		a := ae.AddressEncode(seq(20, byte(i*11)), ae.QTUM_testnetAddressP2SH)
		if a[0] != 'm' { continue }
		if ok, _ := ae.AddressCheck(a, "QTUM"); !ok { fail(a) }
	}
}
'''),
dict(id="hd-pasta-chain", property="P04",
 edits=[("owkeychain/extendedkey.go","	parentFP := getFP(k.key, k.isPrivate, typeChoose)\n","	parentFP := getFP(k.key, k.isPrivate, k.curveType)\n	if serializes >= HardenedKeyStart && k.curveType == owcrypt.ECC_CURVE_X25519 {\n		parentFP = getFP(k.key, false, typeChoose)\n	}\n")],
 needs="a hardened private child of an X25519 key", breaks="the child carries a fingerprint that is not the parent's, so its text differs from the one the scheme defines",
 demo=H+'''
func main() {
	r, _ := kc.InitRootKeyFromSeed(seq(32, 9), owcrypt.ECC_CURVE_X25519)
	c, err := r.GenPrivateChild(kc.HardenedKeyStart + 5)
	if err != nil { fail("derive") }
	d, _ := r.GenPrivateChild(5)
	t := func(k *kc.ExtendedKey) string { b, _ := kc.Decode(k.OWEncode(), kc.BitcoinAlphabet); n := len(b); return hex.EncodeToString(b[n-4-33-32-4-4 : n-4-33-32-4]) }
	if t(c) != t(d) { fail("fingerprints differ: " + t(c) + " " + t(d)) }
}
'''),
dict(id="hd-pub-hardened0", property="P05",
 edits=[("owkeychain/extendedkey.go","		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展","		if serializes > HardenedKeyStart { //不能从父公钥强化扩展")],
 needs="hardened index 0' exactly, from a public extended key", breaks="a public key yields a bogus hardened child instead of an error",
 demo=H+'''
func main() {
	r, _ := kc.InitRootKeyFromSeed(seq(32, 9), owcrypt.ECC_CURVE_SECP256K1)
	p := r.GetPublicKey()
	if _, err := p.GenPublicChild(kc.HardenedKeyStart); err == nil { fail("public key derived child 0'") }
}
'''),
dict(id="hd-depth-sign", property="P06",
 edits=[("owkeychain/owencode.go","	depth := decodeBytes[4]\n","	depth := decodeBytes[4] &^ (decodeBytes[13] & 0x80)\n")],
 needs="an extended key deeper than level 127 whose chain code starts with a set top bit", breaks="the decoded key has the wrong depth, so it does not round-trip",
 demo=H+'''
func main() {
	k, _ := kc.InitRootKeyFromSeed(seq(32, 9), owcrypt.ECC_CURVE_SECP256K1)
	for i := 0; i < 200; i++ {
		k, _ = k.GenPrivateChild(uint32(i))
		d, err := kc.OWDecode(k.OWEncode())
		if err != nil || d.OWEncode() != k.OWEncode() { fail(k.OWEncode()) }
	}
}
'''),
dict(id="addr-recover-suffix", property="P02",
 edits=[("addressEncoder/addressEncoder.go","		for i := 0; i < len(suffix); i++ {","		for i := 0; i < len(suffix) && i < len(prefix)-1; i++ {")],
 needs="a base58check text with the right prefix, length and checksum whose suffix is not the profile's", breaks="texts with a foreign suffix are accepted as addresses of a network that defines one",
 demo=H+'''
func main() {
	ty := ae.BTC_mainnetAddressP2PKH
	ty.Suffix = []byte{0x01}
	o := ty
	o.Suffix = []byte{0x02}
	a := ae.AddressEncode(seq(20, 3), o)
	if _, err := ae.AddressDecode(a, ty); err == nil { fail("accepted " + a) }
}
'''),
]
