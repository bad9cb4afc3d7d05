//go:build go1.22

package main

import (
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/filenetTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type fn struct{}
type fnQ struct {
	from string
	outs filenetTransaction.Vouts
}

func fnText(t string) string {
	return addressEncoder.Base58Encode([]byte(t), addressEncoder.NewBase58Alphabet(b58))
}
func fnAddr(r *rand.Rand) string {
	t := vlib.H(vlib.HashN(r, 20))
	if r.Intn(8) == 0 {
		t = strings.ToUpper(t)
	}
	return fnText(t)
}
func (fn) Name() string { return "fn" }
func (fn) Multi() bool  { return false }
func (fn) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubK1(k))
}
func fnOuts(r *rand.Rand, n int) (l filenetTransaction.Vouts) {
	for i := 0; i < n; i++ {
		a := fnAddr(r)
		if i > 0 && r.Intn(3) == 0 {
			a = l[r.Intn(i)].Address
		}
		l = append(l, filenetTransaction.Vout{Address: a, Amount: vlib.Amount(r, 50) + 1})
	}
	return
}
func (fn) Gen(r *rand.Rand, keys [][]byte) interface{} {
	return fnQ{fnAddr(r), fnOuts(r, []int{1, 1, 2, 3, 5, 9, 20}[r.Intn(7)])}
}
func (fn) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(fnQ)
	q.outs = append(filenetTransaction.Vouts{}, q.outs...)
	i := r.Intn(len(q.outs))
	switch r.Intn(4) {
	case 0:
		q.from = fnAddr(r)
	case 1:
		q.outs[i].Amount += 2
	case 2:
		q.outs[i].Address = fnAddr(r)
	case 3:
		q.outs = append(q.outs, fnOuts(r, 1)...)
	}
	return q
}
func (d fn) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() fnQ { return d.Gen(r, nil).(fnQ) }
	for _, x := range bounds64 {
		q := g()
		q.outs = q.outs[:1]
		q.outs[0].Amount = x
		emit(q)
		q = g()
		q.outs[len(q.outs)-1].Amount = x
		emit(q)
		q = g()
		q.outs = append(q.outs[:1], filenetTransaction.Vout{Address: fnAddr(r), Amount: -x}) // around 2^64 in total
		q.outs[0].Amount = x + uint64(r.Intn(3)) - 1
		emit(q)
	}
	for _, n := range []int{0, 1, 2, 10, 50} {
		q := g()
		q.outs = fnOuts(r, n)
		emit(q)
	}
	good := fnAddr(r)
	for _, op := range []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "empty"} {
		for k := 0; k < 2; k++ {
			q := g()
			q.outs[r.Intn(len(q.outs))].Address = vlib.CorruptText(r, op, good, b58)
			emit(q)
			q = g()
			q.from = vlib.CorruptText(r, op, good, b58)
			emit(q)
		}
	}
	h := vlib.H(vlib.Bytes(r, 20))
	for _, t := range []string{"", h[2:], h + "00", h[1:], "0x" + h[2:], "zz" + h[2:], string(vlib.Bytes(r, 40)), strings.ToUpper(h), h[:20] + strings.ToUpper(h[20:]), "\x00" + h} {
		q := g()
		q.outs[r.Intn(len(q.outs))].Address = fnText(t)
		emit(q)
		q = g()
		q.from = fnText(t)
		emit(q)
	}
	// same amount and address twice; addresses that are prefixes or share prefixes
	q := g()
	q.outs = append(q.outs, q.outs...)
	emit(q)
}
func (fn) Ev(x interface{}) Ev {
	q := x.(fnQ)
	l := []Ev{}
	for _, o := range q.outs {
		l = append(l, Ev{"to": text(o.Address), "amt": vlib.U64(o.Amount)})
	}
	return Ev{"from": text(q.from), "outs": l}
}
func (fn) Create(x interface{}) Out {
	q := x.(fnQ)
	return outOf(filenetTransaction.CreateEmptyTransactionAndHash(filenetTransaction.Vin{Address: q.from}, vlib.A(append(filenetTransaction.Vouts{}, q.outs...))))
}
func (fn) Sign(msg string, prv []byte) (string, error) { return filenetTransaction.SignTransaction(msg, vlib.B(prv)) }
func (fn) X(x interface{}) Ev                          { return Ev{} }
func (fn) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	s, ok := single(sp)
	if !ok {
		return false, "", nil
	}
	out, pass := filenetTransaction.VerifyAndCombineTransaction(tx, s.Sig, s.Pub)
	return pass, out, nil
}
func (fn) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderK1) }) }
func (fn) Craft(r *rand.Rand, msg string, want []byte) (string, string, bool) {
	s, _, p, ok := craftK1(r, vlib.U(msg), want)
	return vlib.H(s), vlib.H(p), ok
}
