//go:build go1.22

package main

import (
	"math/big"
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/moacchainTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type moac struct{}
type moacQ struct {
	to                 string
	nonce              uint64
	amt, limit, price  *big.Int
	test               bool
}

func (moac) Name() string { return "moac" }
func (moac) Multi() bool  { return false }
func (moac) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	p := vlib.H(pubK1(k))
	if r.Intn(4) == 0 {
		p = strings.ToUpper(p)
	}
	return k, p
}
func bigAny(r *rand.Rand) *big.Int {
	switch r.Intn(3) {
	case 0:
		return new(big.Int).SetUint64(vlib.Amount(r, 64))
	case 1:
		return new(big.Int).SetBytes(vlib.Bytes(r, r.Intn(33)))
	}
	return new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(255))), uint(8*r.Intn(32)))
}
func ethAddr(r *rand.Rand) string {
	a := vlib.H(vlib.HashN(r, 20))
	switch r.Intn(3) {
	case 0:
		a = strings.ToUpper(a)
	case 1:
		b := []byte(a)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		a = string(b)
	}
	return "0x" + a
}
func (moac) Gen(r *rand.Rand, keys [][]byte) interface{} {
	return moacQ{ethAddr(r), vlib.Amount(r, 64), bigAny(r), bigAny(r), bigAny(r), r.Intn(2) == 0}
}
func (moac) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(moacQ)
	inc := func(b *big.Int) *big.Int {
		if b.BitLen() > 255 {
			return new(big.Int).Rsh(b, 1)
		}
		return new(big.Int).Add(b, big.NewInt(1))
	}
	switch r.Intn(5) {
	case 0:
		q.to = ethAddr(r)
	case 1:
		q.nonce ^= 1
	case 2:
		q.amt = inc(q.amt)
	case 3:
		q.limit = inc(q.limit)
	case 4:
		q.price = inc(q.price)
	}
	return q
}
func (d moac) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() moacQ { return d.Gen(r, nil).(moacQ) }
	for _, x := range bounds64 {
		q := g()
		q.nonce = x
		emit(q)
	}
	for f := 0; f < 3; f++ {
		for k := uint(0); k <= 257; k++ {
			for dd := int64(-1); dd <= 1; dd++ {
				if k%8 != 0 && (k%8 != 7 || dd != 0) && k > 16 {
					continue
				}
				q := g()
				b := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(dd))
				*[]**big.Int{&q.amt, &q.limit, &q.price}[f] = b
				emit(q)
			}
		}
		for _, b := range []*big.Int{nil, big.NewInt(-1), big.NewInt(-256), big.NewInt(0)} {
			q := g()
			*[]**big.Int{&q.amt, &q.limit, &q.price}[f] = b
			emit(q)
		}
	}
	for n := 0; n <= 32; n++ { // every total length around the list header's change of form
		q := g()
		q.nonce, q.limit, q.price = 1<<40, big.NewInt(21000), big.NewInt(1)
		q.amt = new(big.Int).SetBytes(append([]byte{0x9c}, vlib.Bytes(r, n)...))
		emit(q)
	}
	a := vlib.H(vlib.Bytes(r, 20))
	for _, t := range []string{"", "0", "0x", a, "0X" + a, "0x" + a[2:], "0x" + a + "00", "0x" + a[1:], "0x0x" + a[4:], "0x" + a[:38] + "zz", "0x" + a[:39] + " ", " 0x" + a, "1x" + a, "mo" + a} {
		q := g()
		q.to = t
		emit(q)
	}
}
func bigEv(b *big.Int) Ev {
	if b == nil {
		return Ev{"k": "nil", "v": ""}
	}
	if b.Sign() < 0 {
		return Ev{"k": "neg", "v": ""}
	}
	return Ev{"k": "int", "v": vlib.H(b.Bytes())}
}
func (moac) Ev(x interface{}) Ev {
	q := x.(moacQ)
	return Ev{"to": text(q.to), "nonce": vlib.U64(q.nonce), "amt": bigEv(q.amt), "limit": bigEv(q.limit), "price": bigEv(q.price), "test": q.test}
}
func (moac) Create(x interface{}) Out {
	q := x.(moacQ)
	tx, h, err := moacchainTransaction.CreateEmptyRawTransactionAndHash(q.to, q.nonce, vlib.A(q.amt), vlib.A(q.limit), vlib.A(q.price), q.test)
	o := Out{OK: err == nil, Tx: tx}
	if h != "" {
		o.Msgs = []string{h}
	}
	return o
}
func (moac) Sign(msg string, prv []byte) (string, error) {
	s, err := moacchainTransaction.SignRawTransaction(msg, vlib.B(prv))
	return vlib.H(s), err
}
func (moac) X(x interface{}) Ev { return Ev{"test": x.(moacQ).test} }
func (moac) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	if len(sp) != 1 {
		if len(sp) == 0 {
			sp = []SP{{}}
		} else {
			return false, "", nil
		}
	}
	ok, out := moacchainTransaction.VerifyAndCombineRawTransaction(tx, sp[0].Sig, sp[0].Pub, x.(moacQ).test)
	return ok, out, nil
}
func (moac) Craft(r *rand.Rand, msg string, want []byte) (string, string, bool) {
	s, v, p, ok := craftK1(r, vlib.U(msg), want)
	return vlib.H(append(append([]byte{}, s...), v)), vlib.H(p), ok
}
func (moac) HighS(sig string) string {
	return hexTry(sig, func(b []byte) []byte {
		h := hiS(b, orderK1)
		if len(h) == 65 {
			h[64] ^= 1
		}
		return h
	})
}
