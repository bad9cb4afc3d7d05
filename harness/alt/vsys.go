//go:build go1.22

package main

import (
	"encoding/hex"
	"math/rand"

	"github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

type vsys struct{}
type vsysQ struct {
	ty       byte
	to       string
	amt, fee uint64
	scale    uint16
	attach   string
}

func (vsys) Ed()          {}
func (vsys) Name() string { return "vsys" }
func (vsys) Multi() bool  { return false }
func (vsys) Key(r *rand.Rand) ([]byte, string) {
	k := edKey(r)
	p, _ := owcrypt.CURVE25519_convert_Ed_to_X(edPub(k))
	return k, vlib.H(p)
}
func vsysAddr(b []byte) string {
	h := owcrypt.Hash(owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)
	return addressEncoder.Base58Encode(append(append([]byte{}, b...), h[:4]...), addressEncoder.NewBase58Alphabet(b58))
}
func vsysTo(r *rand.Rand) string {
	v := append([]byte{5, 'M'}, vlib.HashN(r, 20)...)
	switch r.Intn(4) {
	case 0:
		v[1] = 'T'
	case 1:
		v[0], v[1] = 0, byte(r.Intn(2))
	}
	return vsysAddr(v)
}
func (vsys) Gen(r *rand.Rand, keys [][]byte) interface{} {
	q := vsysQ{2, vsysTo(r), vlib.Amount(r, 64), vlib.Amount(r, 64), uint16(vlib.Amount(r, 16)), ""}
	if r.Intn(3) == 0 {
		q.ty = byte(r.Intn(256))
	}
	return q
}
func (vsys) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(vsysQ)
	switch r.Intn(5) {
	case 0:
		q.to = vsysTo(r)
	case 1:
		q.amt++
	case 2:
		q.fee++
	case 3:
		q.scale++
	case 4:
		q.ty++
	}
	return q
}
func (d vsys) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() vsysQ { return d.Gen(r, nil).(vsysQ) }
	for _, x := range bounds64 {
		q := g()
		q.amt = x
		emit(q)
		q = g()
		q.fee = x
		emit(q)
		if x < 1<<16 {
			q = g()
			q.scale = uint16(x)
			emit(q)
			q = g()
			q.ty = byte(x)
			emit(q)
		}
	}
	good := vsysTo(r)
	for _, op := range []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "empty"} {
		for k := 0; k < 3; k++ {
			q := g()
			q.to = vlib.CorruptText(r, op, good, b58)
			emit(q)
		}
	}
	for _, n := range []int{0, 1, 20, 21, 23, 24, 28} {
		q := g()
		q.to = vsysAddr(vlib.Bytes(r, n))
		emit(q)
	}
	for z := 0; z < 5; z++ {
		b := vlib.Bytes(r, 22)
		for k := 0; k < z; k++ {
			b[k] = 0
		}
		q := g()
		q.to = vsysAddr(b)
		emit(q)
		q.to = "1" + q.to
		emit(q)
	}
	for _, t := range []string{"a", "0", "attachment", " "} {
		q := g()
		q.attach = t
		emit(q)
	}
}
func (vsys) Ev(x interface{}) Ev {
	q := x.(vsysQ)
	return Ev{"type": int(q.ty), "to": text(q.to), "amt": vlib.U64(q.amt), "fee": vlib.U64(q.fee), "scale": vlib.U32(uint32(q.scale)), "attach": q.attach}
}
func (vsys) Create(x interface{}) Out {
	q := x.(vsysQ)
	tx, err := virtualeconomyTransaction.CreateEmptyTransaction(virtualeconomyTransaction.TxStruct{TxType: q.ty, To: q.to, Amount: q.amt, Fee: q.fee, FeeScale: q.scale, Attachment: q.attach})
	return outOf(tx, tx, err)
}
func (d vsys) Sign(msg string, prv []byte) (string, error) {
	s, _, err := d.SignPub(msg, prv)
	return s, err
}
func (vsys) SignPub(msg string, prv []byte) (string, string, error) {
	s, err := virtualeconomyTransaction.SignTransaction(msg, vlib.B(prv))
	if s == nil {
		return "", "", err
	}
	return vlib.H(s.Signature), vlib.H(s.PublicKey), err
}
func (vsys) X(x interface{}) Ev { return Ev{} }
func vsysSP(sp []SP) *virtualeconomyTransaction.SignaturePubkey {
	s, ok := single(sp)
	if !ok {
		return nil
	}
	g, err := hex.DecodeString(s.Sig)
	if err != nil {
		return nil
	}
	p, err := hex.DecodeString(s.Pub)
	if err != nil {
		return nil
	}
	return vlib.A(&virtualeconomyTransaction.SignaturePubkey{Signature: vlib.B(g), PublicKey: vlib.B(p)})
}
func (vsys) Verify(tx string, sp []SP) bool {
	k := vsysSP(sp)
	return k != nil && virtualeconomyTransaction.VerifyTransaction(tx, k)
}
func (vsys) Form(tx string, sp []SP) (bool, string) {
	k := vsysSP(sp)
	if k == nil || len(sp) != 1 {
		return false, ""
	}
	j, err := virtualeconomyTransaction.CreateJSONRawForSendTransaction(tx, k)
	if err != nil {
		return false, ""
	}
	return true, j.Raw
}
func (d vsys) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	if !d.Verify(tx, sp) {
		return false, "", nil
	}
	ok, out := d.Form(tx, sp)
	return ok, out, nil
}
