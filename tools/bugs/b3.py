def H(pk, extra=""): return '''package main
import (
	"fmt"
	"os"
	"strings"
	"encoding/hex"
	d "github.com/blocktree/go-owcdrivers/%s"
	"github.com/blocktree/go-owcrypt"
%s
)
var _ = hex.EncodeToString
var _ = strings.Repeat
var _ = owcrypt.Hash
func fail(s string) { fmt.Println("WRONG:", s); os.Exit(1) }
func must(err error) { if err != nil { fail(err.Error()) } }
func seq(n int, s byte) []byte { b := make([]byte, n); for i := range b { b[i] = s + byte(i)*7 }; return b }
func key(s byte) ([]byte, []byte) { k := seq(32, s); p, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1); return k, owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1) }
func h160(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_HASH160) }
func pkh(p []byte) string { return "76a914" + hex.EncodeToString(h160(p)) + "88ac" }
''' % (pk, extra)
BUGS=[
dict(id="hd-seed-65", property="P05",
 edits=[("owkeychain/extendedkey.go","len(seed) > MAxRecommendedSeedLen {","len(seed) > MAxRecommendedSeedLen+1 {")],
 needs="a seed of 65 bytes", breaks="a root key is made from a seed of unsupported length",
 demo=H("owkeychain")+'''
func main() {
	for n := 0; n < 100; n++ {
		_, err := d.InitRootKeyFromSeed(seq(n, 5), owcrypt.ECC_CURVE_SECP256K1)
		if (err == nil) != (n >= d.MinRecommendedSeedLen && n <= d.MAxRecommendedSeedLen) { fail(fmt.Sprint("seed of ", n, " bytes: ", err)) }
	}
}
'''),
dict(id="xrp-memo-format", property="P14",
 edits=[("rippleTransaction/txStruct.go",'''		if memoFormat != "" {
			memoBytes''','''		if memoType != "" && memoFormat != "" {
			memoBytes''')],
 needs="a memo with a format but without a type", breaks="the memo format the caller asked for is left out of the signed transaction",
 demo=H("rippleTransaction")+'''
func main() {
	_, p := key(3)
	a := "rrrrrrrrrrrrrrrrrrrrrhoLvTp"
	tx, _, err := d.CreateEmptyRawTransactionAndHash(a, hex.EncodeToString(p), -1, 5, a, 7, 10, 99, "", "abcdef", "text/plain")
	must(err)
	if !strings.Contains(strings.ToLower(tx), hex.EncodeToString([]byte("text/plain"))) { fail(tx) }
}
'''),
dict(id="dot-tip-wide", property="P15",
 edits=[("polkadotTransaction/txStruct.go","fee := Encode( uint64(tx.Fee))","fee := Encode(uint64(uint32(tx.Fee)))")],
 needs="a tip of 2^32 or more (0.43 DOT)", breaks="another tip is signed and sent",
 demo=H("polkadotTransaction")+'''
func main() {
	mk := func(fee uint64) string {
		_, m, err := d.TxStruct{SenderPubkey: strings.Repeat("12", 32), RecipientPubkey: strings.Repeat("ab", 32), Amount: 5, Fee: fee, Nonce: 1, BlockHeight: 77, BlockHash: strings.Repeat("cd", 32), GenesisHash: strings.Repeat("ef", 32), SpecVersion: 3, TxVersion: 4}.CreateEmptyTransactionAndMessage("0400")
		must(err)
		return m
	}
	if m := mk(1<<32 + 7); !strings.Contains(m, "070700000001") { fail(m) }
}
'''),
dict(id="cosmos-account-wide", property="P16",
 edits=[("cosmosTransaction/txStruct.go","AccountNumber: strconv.FormatInt(int64(accountNumber), 10)","AccountNumber: strconv.FormatUint(uint64(uint32(accountNumber)), 10)")],
 needs="an account number of 2^32 or more", breaks="the signed document names another account number",
 demo=H("cosmosTransaction")+'''
func main() {
	fee := d.NewStdFee(7, d.Coins{d.NewCoin("uatom", 3)})
	t := d.NewTxStruct("c", "m", 1<<32+5, 1, &fee, nil)
	if t.AccountNumber != "4294967301" { fail(t.AccountNumber) }
}
'''),
dict(id="xvg-digest-sibling", property="P17",
 edits=[("vergeTransaction/txStruct.go","			if index == i {\n				data = append(data, in.LockScript...)","			if index == i || string(in.TxID) == string(ts.Vin[i].TxID) {\n				data = append(data, in.LockScript...)")],
 needs="two inputs spending outputs of the same earlier transaction", breaks="the digests cover the lock scripts of both inputs, so the signatures are invalid on chain",
 demo=H("vergeTransaction")+'''
func main() {
	_, p := key(3)
	_, q := key(9)
	to := d.EncodeCheck(30, seq(20, 1))
	one := func(l string) string {
		_, h, err := d.CreateEmptyTransactionAndHash([]d.Vin{{TxID: strings.Repeat("ab", 32), Vout: 0, LockScript: pkh(p)}, {TxID: strings.Repeat("ab", 32), Vout: 1, LockScript: l}}, []d.Vout{{Address: to, Amount: 5}}, 0, 77)
		must(err)
		return h[0]
	}
	if one(pkh(p)) != one(pkh(q)) { fail("digest of input 0 depends on the script of input 1") }
}
'''),
dict(id="ela-owner-order", property="P18",
 edits=[("elastosTransaction/transaction.go","		for _, txHash := range txHashes {\n			if txHash.Address == in.Address {\n				continue loop\n			}\n		}","		if n := len(txHashes); n > 0 && txHashes[n-1].Address == in.Address {\n			continue loop\n		}")],
 needs="inputs of one owner with another owner's input in between", breaks="the owner is asked to sign twice and the combined transaction carries a superfluous program",
 demo=H("elastosTransaction")+'''
func main() {
	a, b := d.EncodeCheck([]byte{0x21}, seq(20, 1)), d.EncodeCheck([]byte{0x21}, seq(20, 2))
	v := func(i uint16, x string) d.Vin { return d.Vin{TxID: strings.Repeat("ab", 32), Vout: i, Address: x} }
	_, h, err := d.CreateEmptyRawTransactionAndHash([]d.Vin{v(0, a), v(1, b), v(2, a)}, []d.Vout{{AssetID: strings.Repeat("cd", 32), Amount: 5, Address: b}})
	must(err)
	if len(h) != 2 { fail(fmt.Sprint(len(h), " digests for two owners")) }
}
'''),
dict(id="wicc-varint-edge", property="P19",
 edits=[("waykichainTransaction/txUtils.go","		ret++\n		if n <= 0x7f {","		ret++\n		if n < 0x7f {"),("waykichainTransaction/txUtils.go","		if n <= 0x7f {\n			break\n		}\n\n		n = (n >> 7) - 1\n		len++","		if n < 0x7f {\n			break\n		}\n\n		n = (n >> 7) - 1\n		len++")],
 needs="a number whose base-128 form has a group of 0x7f at the top, such as 127 or 16511", breaks="the number is encoded wrongly (or the call does not come back), so the chain reads another amount, fee or height",
 demo=H("waykichainTransaction")+'''
func main() {
	to := d.EncodeCheck([]byte{0x49}, seq(20, 1))
	done := make(chan string, 1)
	go func() {
		defer func() { if r := recover(); r != nil { done <- fmt.Sprint(r) } }()
		tx, _, err := d.CreateEmptyRawTransactionAndHash("5-1", to, "", 16511, 10000, 5, d.TxType_COMMON)
		if err != nil { done <- err.Error(); return }
		done <- tx
	}()
	if tx := <-done; !strings.Contains(tx, "ff7f") || strings.Contains(tx, "ffff7f") { fail(tx) }
}
'''),
dict(id="dot-verify-pub", property="P20",
 edits=[("polkadotTransaction/transaction.go","	if err != nil || len(sig) != 64{\n		return \"\", false\n	}","	if err != nil || len(sig) < 64{\n		return \"\", false\n	}\n	sig = sig[:64]"),("polkadotTransaction/txStruct.go","if err != nil || len(sig) != 64 {","if err != nil || len(sig) < 64 {")],
 needs="a valid signature followed by further bytes", breaks="the check succeeds on a signature that is not one, and the trailing bytes shift the rest of the transaction",
 demo=H("polkadotTransaction")+'''
func main() {
	k := seq(32, 4)
	k[0] &= 248
	k[31] = k[31]&63 | 64
	p := owcrypt.Point_mulBaseG(k, owcrypt.ECC_CURVE_ED25519)
	ts := d.TxStruct{SenderPubkey: hex.EncodeToString(p), RecipientPubkey: strings.Repeat("ab", 32), Amount: 5, Nonce: 1, BlockHeight: 77, BlockHash: strings.Repeat("cd", 32), GenesisHash: strings.Repeat("ef", 32), SpecVersion: 3, TxVersion: 4}
	e, m, err := ts.CreateEmptyTransactionAndMessage("0400")
	must(err)
	s, err := d.SignTransaction(m, k)
	must(err)
	if _, ok := d.VerifyAndCombineTransaction("0400", e, hex.EncodeToString(s)); !ok { fail("valid signature refused") }
	if _, ok := d.VerifyAndCombineTransaction("0400", e, hex.EncodeToString(s)+"00"); ok { fail("overlong signature accepted") }
}
'''),
dict(id="ali-scratch", property="P21",
 edits=[("aliencoinTransaction/txStruct.go","func (ts TxStruct) GetHash() ([]string, error) {","var hashScratch = make([]byte, 0, 4096)\n\nfunc (ts TxStruct) GetHash() ([]string, error) {"),("aliencoinTransaction/txStruct.go","		data := []byte{}\n		data = append(data, ts.Version...)\n		data = append(data, byte(len(ts.Vin)))\n		for index","		data := hashScratch[:0]\n		data = append(data, ts.Version...)\n		data = append(data, byte(len(ts.Vin)))\n		for index")],
 needs="two transactions being created at the same time", breaks="the digests of one are computed over bytes of the other",
 demo=H("aliencoinTransaction",'	"sync"')+'''
func main() {
	_, p := key(3)
	to := d.EncodeCheck(0x17, seq(20, 1))
	mk := func(i uint32) string {
		in := []d.Vin{}
		for j := uint32(0); j < 20; j++ { in = append(in, d.Vin{TxID: strings.Repeat("ab", 32), Vout: i*100 + j, LockScript: pkh(p)}) }
		_, h, err := d.CreateEmptyTransactionAndHash(in, []d.Vout{{Address: to, Amount: 5}}, 0)
		must(err)
		return strings.Join(h, "")
	}
	var want [8]string
	for i := range want { want[i] = mk(uint32(i)) }
	var wg sync.WaitGroup
	bad := make(chan int, 100000)
	for i := range want {
		wg.Add(1)
		go func(i int) { defer wg.Done(); for n := 0; n < 400; n++ { if mk(uint32(i)) != want[i] { bad <- i; return } } }(i)
	}
	wg.Wait()
	if len(bad) > 0 { fail("digests depend on concurrent calls") }
}
'''),
dict(id="leg-trailing", property="P22",
 edits=[("btcLikeTxDriver/txStruct.go","	if index != limit {\n		return nil, errors.New(\"Too much","	if index > limit {\n		return nil, errors.New(\"Too much")],
 needs="a signed transaction with bytes appended after the lock time", breaks="verification accepts a text that is not a transaction",
 demo=H("btcLikeTxDriver")+'''
func main() {
	k, p := key(3)
	to := d.EncodeCheck(d.P2PKHPrefix, seq(20, 1))
	tx, err := d.CreateEmptyRawTransaction([]d.Vin{{TxID: strings.Repeat("ab", 32), Vout: 0}}, []d.Vout{{Address: to, Amount: 5}}, 0, false)
	must(err)
	un := []d.TxUnlock{{LockScript: pkh(p), PrivateKey: k}}
	s, err := d.SignEmptyRawTransaction(tx, un)
	must(err)
	if !d.VerifyRawTransaction(s, un) { fail("valid transaction refused") }
	if d.VerifyRawTransaction(s+"00", un) { fail("extended transaction accepted") }
}
'''),
]
