//go:build go1.22

package main

import (
	"encoding/base32"
	"encoding/hex"
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/bigbangTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

const bbcAlpha = "0123456789abcdefghjkmnpqrstvwxyz"

type bbc struct{}
type bbcQ struct {
	lock     uint32
	anchor   string
	ins      []bigbangTransaction.Vin
	to       string
	amt, fee uint64
	data     string
}

func crc24(b []byte) []byte {
	c := uint32(0)
	for _, x := range b {
		c ^= uint32(x) << 16
		for k := 0; k < 8; k++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864CFB
			}
		}
	}
	return []byte{byte(c >> 16), byte(c >> 8), byte(c)}
}
func bbcAddr(pub []byte) string {
	return "1" + base32.NewEncoding(bbcAlpha).WithPadding(base32.NoPadding).EncodeToString(append(append([]byte{}, pub...), crc24(pub)...))
}
func (bbc) Ed()          {}
func (bbc) Name() string { return "bbc" }
func (bbc) Multi() bool  { return false }
func (bbc) Key(r *rand.Rand) ([]byte, string) {
	k := edKey(r)
	return k, vlib.H(edPub(k))
}
func bbcIns(r *rand.Rand, n int) (l []bigbangTransaction.Vin) {
	for i := 0; i < n; i++ {
		l = append(l, bigbangTransaction.Vin{TxID: hexCase(r, vlib.Hash32(r)), Vout: byte(vlib.Amount(r, 8))})
	}
	return
}
func bbcData(r *rand.Rand) string {
	n := []int{0, 0, 1, 10, 127, 128, 200, 251, 252}[r.Intn(9)]
	if r.Intn(2) == 0 {
		return string(vlib.Bytes(r, n))
	}
	return strings.Repeat("d", n)
}
func (bbc) Gen(r *rand.Rand, keys [][]byte) interface{} {
	n := []int{1, 1, 2, 3, 8, 40}[r.Intn(6)]
	return bbcQ{uint32(vlib.Amount(r, 32)), hexCase(r, vlib.Hash32(r)), bbcIns(r, n), bbcAddr(vlib.Hash32(r)), vlib.Amount(r, 64) | 1<<uint(r.Intn(9)), vlib.Amount(r, 64) | 1<<uint(r.Intn(9)), bbcData(r)}
}
func (bbc) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(bbcQ)
	q.ins = append([]bigbangTransaction.Vin{}, q.ins...)
	switch r.Intn(9) {
	case 0:
		q.lock++
	case 1:
		q.anchor = vlib.H(vlib.Hash32(r))
	case 2:
		q.ins[r.Intn(len(q.ins))].Vout++
	case 3:
		q.ins[r.Intn(len(q.ins))].TxID = vlib.H(vlib.Hash32(r))
	case 4:
		q.ins = append(q.ins, bbcIns(r, 1)...)
	case 5:
		q.to = bbcAddr(vlib.Hash32(r))
	case 6:
		q.amt += 2
	case 7:
		q.fee += 2
	case 8:
		q.data += "."
	}
	return q
}
func (d bbc) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() bbcQ { return d.Gen(r, nil).(bbcQ) }
	for _, x := range bounds64 {
		q := g()
		q.amt = x
		emit(q)
		q = g()
		q.fee = x
		emit(q)
		if x < 1<<32 {
			q = g()
			q.lock = uint32(x)
			emit(q)
		}
	}
	for v := 0; v < 256; v += 1 + r.Intn(8) {
		q := g()
		q.ins[len(q.ins)-1].Vout = byte(v)
		emit(q)
	}
	for _, n := range []int{0, 1, 2, 126, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 300} {
		q := g()
		q.ins = bbcIns(r, n)
		emit(q)
		q = g()
		q.data = strings.Repeat("x", n)
		emit(q)
	}
	for _, t := range badHex(r, 32) {
		q := g()
		q.anchor = t
		emit(q)
		q = g()
		q.ins[r.Intn(len(q.ins))].TxID = t
		emit(q)
	}
	good := bbcAddr(vlib.Hash32(r))
	for _, op := range []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "empty"} {
		for k := 0; k < 3; k++ {
			q := g()
			q.to = vlib.CorruptText(r, op, good, bbcAlpha)
			emit(q)
		}
	}
	b := vlib.Bytes(r, 32)
	for _, t := range []string{bbcAddr(b[:31]), bbcAddr(append(b, 0)), "2" + bbcAddr(b)[1:], "0" + bbcAddr(b)[1:], bbcAddr(b)[1:], bbcAddr(b) + "\n", bbcAddr(b) + "=", bbcAddr(b)[:20] + "\n" + bbcAddr(b)[20:], bbcAddr(make([]byte, 32)),
		"1" + base32.NewEncoding(bbcAlpha).EncodeToString(b)[:56]} {
		q := g()
		q.to = t
		emit(q)
	}
}
func (bbc) Ev(x interface{}) Ev {
	q := x.(bbcQ)
	l := []Ev{}
	for _, i := range q.ins {
		l = append(l, Ev{"txid": i.TxID, "vout": int(i.Vout)})
	}
	return Ev{"lock": vlib.U32(q.lock), "anchor": q.anchor, "ins": l, "to": text(q.to), "amt": vlib.U64(q.amt), "fee": vlib.U64(q.fee), "data": text(q.data)}
}
func (bbc) Create(x interface{}) Out {
	q := x.(bbcQ)
	return outOf(bigbangTransaction.CreateEmptyTransactionAndHash(q.lock, q.anchor, vlib.A(q.ins), q.to, q.amt, q.fee, q.data))
}
func (bbc) Sign(msg string, prv []byte) (string, error) { return bigbangTransaction.SignTransactionHash(msg, vlib.B(prv)) }
func (bbc) X(x interface{}) Ev                          { return Ev{} }
func (bbc) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	s, ok := single(sp)
	if !ok {
		return false, "", nil
	}
	p, err := hex.DecodeString(s.Pub)
	if err != nil {
		return false, "", err
	}
	pass, out := bigbangTransaction.VerifyAndCombineTransaction(tx, s.Sig, vlib.B(p))
	return pass, out, nil
}
