def H(pk): return '''package main
import (
	"fmt"
	"os"
	"strings"
	"encoding/hex"
	d "github.com/blocktree/go-owcdrivers/%s"
	"github.com/blocktree/go-owcrypt"
)
var _ = hex.EncodeToString
var _ = strings.Repeat
var _ = owcrypt.Hash
var _ = d.EncodeCheck
func fail(s string) { fmt.Println("WRONG:", s); os.Exit(1) }
func seq(n int, s byte) []byte { b := make([]byte, n); for i := range b { b[i] = s + byte(i)*7 }; return b }
func key(s byte) ([]byte, []byte) { k := seq(32, s); p, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1); return k, owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1) }
func h160(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_HASH160) }
func pkh(p []byte) string { return "76a914" + hex.EncodeToString(h160(p)) + "88ac" }
var A = d.AddressPrefix{P2PKHPrefix: []byte{0x00}, P2WPKHPrefix: []byte{0x05}}
''' % pk
BUGS=[
dict(id="bch-seq-locktime", property="P07",
 edits=[("bitcoincashTransaction/txIn.go","} else if lockTime != 0 {","} else if int32(lockTime) > 0 {")],
 needs="a lock time of 2^31 or later (a date after 2038) without replaceability", breaks="the inputs are marked final, so the requested lock time has no effect",
 demo=H("bitcoincashTransaction")+'''
func main() {
	to := d.EncodeCheck([]byte{0}, seq(20, 1))
	tx, err := d.CreateEmptyRawTransaction([]d.Vin{{TxID: strings.Repeat("ab", 32), Vout: 1}}, []d.Vout{{Address: to, Amount: 5}}, 0x80000001, false, A)
	if err != nil { fail(err.Error()) }
	if strings.Contains(tx, "00ffffffff") || !strings.Contains(tx, "00feffffff") { fail(tx) }
}
'''),
dict(id="hc-digest-stale", property="P08",
 edits=[("hcTransaction/txHash.go","			t.Vins[j].setEmpty()\n","			if j == i || len(t.Vins[j].scriptPub) <= 0x20 {\n				t.Vins[j].setEmpty()\n			}\n")],
 needs="a multi-signature input followed by a plain input in one transaction", breaks="the digest of the later input covers the redeem script of the earlier one, so its signature is invalid on chain",
 demo=H("hcTransaction")+'''
func main() {
	_, p1 := key(1)
	_, p2 := key(2)
	_, rd, err := d.CreateMultiSig(1, [][]byte{p1, p2}, false, A)
	if err != nil { fail(err.Error()) }
	rb, _ := hex.DecodeString(rd)
	to := d.EncodeCheck([]byte{0}, seq(20, 1))
	vin := []d.Vin{{TxID: strings.Repeat("ab", 32), Vout: 1}, {TxID: strings.Repeat("cd", 32), Vout: 2}}
	tx, err := d.CreateEmptyRawTransaction(vin, []d.Vout{{Address: to, Amount: 5}}, 0, false, A)
	if err != nil { fail(err.Error()) }
	plain := d.TxUnlock{LockScript: pkh(p1), Amount: 7, SigType: d.SigHashAll}
	multi := d.TxUnlock{LockScript: "a914" + hex.EncodeToString(h160(rb)) + "87", RedeemScript: rd, Amount: 7, SigType: d.SigHashAll}
	a, err := d.CreateRawTransactionHashForSig(tx, []d.TxUnlock{multi, plain}, false, A)
	if err != nil { fail(err.Error()) }
	b, err := d.CreateRawTransactionHashForSig(tx, []d.TxUnlock{plain, plain}, false, A)
	if err != nil { fail(err.Error()) }
	if a[1].Hash != b[1].Hash { fail("digest of the plain input depends on how the other input is spent") }
}
'''),
dict(id="cxc-der-80", property="P09",
 edits=[("cxcTransaction/SignaturePubkey.go","	if r[0]&0x80 == 0x80 {\n		r = append([]byte{0x00}, r...)\n	} else {\n		for i := 0; i < 32; i++ {\n			if len(r)","	if r[0] > 0x80 {\n		r = append([]byte{0x00}, r...)\n	} else {\n		for i := 0; i < 32; i++ {\n			if len(r)")],
 needs="a signature whose r starts with the byte 0x80", breaks="r is encoded as a negative number, which the chain refuses",
 demo=H("cxcTransaction")+'''
func main() {
	_, p := key(1)
	to := d.EncodeCheck([]byte{0}, seq(20, 1))
	tx, err := d.CreateEmptyRawTransaction([]d.Vin{{TxID: strings.Repeat("ab", 32), Vout: 1}}, []d.Vout{{Address: to, Amount: 5}}, 0, false, A)
	if err != nil { fail(err.Error()) }
	u := []d.TxUnlock{{LockScript: pkh(p), Amount: 7, SigType: d.SigHashAll}}
	h, err := d.CreateRawTransactionHashForSig(tx, u, false, A)
	if err != nil { fail(err.Error()) }
	for _, f := range []byte{0x7f, 0x80, 0x81, 0xff} {
		s := seq(64, 3)
		s[0], s[32] = f, 0x11
		h[0].Normal.SigPub = d.SignaturePubkey{Signature: s, Pubkey: p}
		o, err := d.InsertSignatureIntoEmptyTransaction(tx, h, u, false)
		if err != nil { fail(err.Error()) }
		want := "0220"
		if f >= 0x80 { want = "022100" }
		if !strings.Contains(o, want+hex.EncodeToString(s[:32])) { fail(o) }
	}
}
'''),
dict(id="btc-verify-cache", property="P10",
 edits=[("btcTransaction/transaction.go","			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)\n","			if first, seen := checked[string(t.Normal.SigPub.Pubkey)]; seen && first < n {\n				continue\n			}\n			checked[string(t.Normal.SigPub.Pubkey)] = n\n			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)\n"),
        ("btcTransaction/transaction.go","	for _, t := range txHash {\n		th, _ := hex.DecodeString(t.Hash)\n		if t.NRequired == 0 {","	checked := map[string]int{}\n	for n, t := range txHash {\n		th, _ := hex.DecodeString(t.Hash)\n		if t.NRequired == 0 {")],
 needs="two inputs of the same key, the second carrying a wrong signature", breaks="only the first signature of each key is checked",
 demo=H("btcTransaction")+'''
func main() {
	k, p := key(1)
	to := d.EncodeCheck([]byte{0}, seq(20, 1))
	vin := []d.Vin{{TxID: strings.Repeat("ab", 32), Vout: 1}, {TxID: strings.Repeat("cd", 32), Vout: 2}}
	tx, err := d.CreateEmptyRawTransaction(vin, []d.Vout{{Address: to, Amount: 5}}, 0, false, A)
	if err != nil { fail(err.Error()) }
	u := []d.TxUnlock{{LockScript: pkh(p), Amount: 7, SigType: d.SigHashAll}, {LockScript: pkh(p), Amount: 7, SigType: d.SigHashAll}}
	h, err := d.CreateRawTransactionHashForSig(tx, u, false, A)
	if err != nil { fail(err.Error()) }
	sp, err := d.SignRawTransactionHash(h[0].Hash, k)
	if err != nil { fail(err.Error()) }
	s2, _ := d.SignRawTransactionHash(h[1].Hash, k)
	h[0].Normal.SigPub = *sp
	h[1].Normal.SigPub = *s2
	o, _ := d.InsertSignatureIntoEmptyTransaction(tx, h, u, false)
	if !d.VerifyRawTransaction(o, u, false, A) { fail("valid transaction refused") }
	h[1].Normal.SigPub = *sp
	o, _ = d.InsertSignatureIntoEmptyTransaction(tx, h, u, false)
	if d.VerifyRawTransaction(o, u, false, A) { fail("input 1 carries the signature of input 0 and is accepted") }
}
'''),
dict(id="bsv-multi-keylen", property="P11",
 edits=[("bitcoinsvTransaction/txMultiSig.go","		if len(k) != 33 && len(k) != 65 {","		if len(k)%32 != 1 {")],
 needs="a malformed key of 1 or 97 bytes in a multi-signature address", breaks="an address is created that nobody can spend from",
 demo=H("bitcoinsvTransaction")+"""
func main() {
	_, p := key(1)
	for _, n := range []int{1, 32, 34, 97} {
		if a, _, err := d.CreateMultiSig(1, [][]byte{p, seq(n, 2)}, false, A); err == nil { fail(fmt.Sprint(n, a)) }
	}
	if _, _, err := d.CreateMultiSig(1, [][]byte{p, p}, false, A); err != nil { fail(err.Error()) }
}
"""),
dict(id="omni-revoke-test", property="P12",
 edits=[("omniTransaction/txPayload.go","	messageType := uint16(56)\n	messageVer := uint16(0)\n\n	ret := []byte{}\n","	messageType := uint16(56)\n	messageVer := uint16(0)\n\n	if propertyID>>31 != 0 {\n		propertyID &= 0x7FFFFFFF\n	}\n	ret := []byte{}\n")],
 needs="revoking tokens of the test ecosystem (property id with the top bit set)", breaks="the tokens of another property are revoked",
 demo=H("omniTransaction")+'''
func main() {
	to := d.EncodeCheck([]byte{0}, seq(20, 1))
	for _, id := range []uint32{3, 0x80000003} {
		tx, err := d.CreateEmptyRawTransaction([]d.Vin{{TxID: strings.Repeat("ab", 32), Vout: 1}}, []d.Vout{{Address: to, Amount: 546}}, d.OmniStruct{TxType: d.Revoke, PropertyId: id, Amount: 9, Memo: "m"}, 0, false, A)
		if err != nil { fail(err.Error()) }
		if !strings.Contains(tx, fmt.Sprintf("00000038%08x", id)) { fail(tx) }
	}
}
'''),
dict(id="zen-decode-vout", property="P13",
 edits=[("zencashTransaction/txIn.go","	return littleEndianBytesToUint32(in.Vout)","	return uint32(littleEndianBytesToUint16(in.Vout)) | uint32(in.Vout[2])<<16")],
 needs="an input that refers to an output index of 2^24 or more", breaks="decoding reports another output as the one spent",
 demo=H("zencashTransaction")+'''
func main() {
	for _, n := range []uint32{1, 70000, 0x01000002} {
		le := fmt.Sprintf("%02x%02x%02x%02x", byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
		b, _ := hex.DecodeString("01000000" + "01" + strings.Repeat("ab", 32) + le + "00" + "ffffffff" + "01" + "0500000000000000" + "1976a914" + strings.Repeat("11", 20) + "88ac" + "00000000")
		t, err := d.DecodeRawTransaction(b, false)
		if err != nil { fail(err.Error()) }
		if t.Vins[0].GetVout() != n { fail(fmt.Sprint(n, t.Vins[0].GetVout())) }
	}
}
'''),
]
