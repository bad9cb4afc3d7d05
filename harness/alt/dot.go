//go:build go1.22

package main

import (
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/polkadotTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

func edKey(r *rand.Rand) []byte {
	b := vlib.Hash32(r)
	b[0] &= 248
	b[31] &= 63
	b[31] |= 64
	return b
}
func edPub(prv []byte) []byte { return owcrypt.Point_mulBaseG(prv, owcrypt.ECC_CURVE_ED25519) }

// hexCase gives the hex of b in lower, upper or mixed case
func hexCase(r *rand.Rand, b []byte) string {
	t := vlib.H(b)
	switch r.Intn(5) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		return t[:len(t)/2] + strings.ToUpper(t[len(t)/2:])
	}
	return t
}

// badHex gives texts that are not n bytes in hex
func badHex(r *rand.Rand, n int) []string {
	t := vlib.H(vlib.Bytes(r, n))
	return []string{"", "00", t[2:], t + "00", t[1:], "0" + t, "zz" + t[2:], t[:len(t)-1] + "g", "0x" + t, "0x" + t[2:], " " + t[1:], t + t, "\n" + t[1:], t[:len(t)-2] + "é"}
}

type dot struct{}
type dotQ struct {
	code, from, to, block, genesis string
	amt, nonce, fee, height        uint64
	spec, txv                      uint32
}

func (dot) Ed()          {}
func (dot) Name() string { return "dot" }
func (dot) Multi() bool  { return false }
func (dot) Key(r *rand.Rand) ([]byte, string) {
	k := edKey(r)
	return k, vlib.H(edPub(k))
}
func (dot) Gen(r *rand.Rand, keys [][]byte) interface{} {
	k := edKey(r)
	if len(keys) > 0 {
		k = keys[0]
	}
	nz := func() uint64 { return vlib.Amount(r, 64) | 1<<uint(r.Intn(8)) }
	return dotQ{pick(r, "040000", "050000", "0400", "05"), hexCase(r, edPub(k)), hexCase(r, vlib.Hash32(r)), hexCase(r, vlib.Hash32(r)), hexCase(r, vlib.Hash32(r)),
		nz(), vlib.Amount(r, 64), vlib.Amount(r, 64), nz(), uint32(vlib.Amount(r, 32)), uint32(vlib.Amount(r, 32))}
}
func (dot) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(dotQ)
	switch r.Intn(9) {
	case 0:
		q.to = vlib.H(vlib.Hash32(r))
	case 1:
		q.amt += 2
	case 2:
		q.nonce++
	case 3:
		q.fee++
	case 4:
		q.height += 1 + uint64(r.Intn(63))
	case 5:
		q.block = vlib.H(vlib.Hash32(r))
	case 6:
		q.genesis = vlib.H(vlib.Hash32(r))
	case 7:
		q.spec++
	case 8:
		q.txv++
	}
	return q
}
func (d dot) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() dotQ { return d.Gen(r, nil).(dotQ) }
	for _, x := range append([]uint64{3, 62, 63, 64, 65, 16382, 16383, 16384, 16385, 1<<30 - 1, 1 << 30, 1<<30 + 1}, bounds64...) {
		q := g()
		q.amt = x
		emit(q)
		q = g()
		q.nonce = x
		emit(q)
		q = g()
		q.fee = x
		emit(q)
		q = g()
		q.height = x
		emit(q)
		if x < 1<<32 {
			q = g()
			q.spec = uint32(x)
			emit(q)
			q = g()
			q.txv = uint32(x)
			emit(q)
		}
	}
	for h := uint64(0); h < 70; h++ {
		q := g()
		q.height = h + uint64(r.Intn(2))<<uint(6+r.Intn(40))
		emit(q)
	}
	for f := 0; f < 4; f++ {
		for _, t := range badHex(r, 32) {
			q := g()
			*[]*string{&q.from, &q.to, &q.block, &q.genesis}[f] = t
			emit(q)
		}
	}
	for _, t := range []string{"", "0", "04000", "zz", "0x0400", "04 0", "040000\"", "ff"} {
		q := g()
		q.code = t
		emit(q)
	}
}
func (dot) Ev(x interface{}) Ev {
	q := x.(dotQ)
	return Ev{"code": q.code, "from": q.from, "to": q.to, "block": q.block, "genesis": q.genesis, "amt": vlib.U64(q.amt), "nonce": vlib.U64(q.nonce),
		"fee": vlib.U64(q.fee), "height": vlib.U64(q.height), "spec": vlib.U32(q.spec), "txv": vlib.U32(q.txv)}
}
func (dot) Create(x interface{}) Out {
	q := x.(dotQ)
	ts := polkadotTransaction.TxStruct{SenderPubkey: q.from, RecipientPubkey: q.to, Amount: q.amt, Nonce: q.nonce, Fee: q.fee, BlockHeight: q.height,
		BlockHash: q.block, GenesisHash: q.genesis, SpecVersion: q.spec, TxVersion: q.txv}
	tx, m, err := ts.CreateEmptyTransactionAndMessage(q.code)
	return outOf(tx, m, err)
}
func outOf(tx, msg string, err error) Out {
	o := Out{OK: err == nil, Tx: tx}
	if msg != "" {
		o.Msgs = []string{msg}
	}
	return o
}
func (dot) Sign(msg string, prv []byte) (string, error) {
	s, err := polkadotTransaction.SignTransaction(msg, vlib.B(prv))
	return vlib.H(s), err
}
func (dot) X(x interface{}) Ev { return Ev{"code": x.(dotQ).code} }

// single: combination of a driver that takes one signature
func single(sp []SP) (SP, bool) {
	if len(sp) == 0 {
		return SP{}, true
	}
	return sp[0], len(sp) == 1
}
func (dot) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	s, ok := single(sp)
	if !ok {
		return false, "", nil
	}
	out, pass := polkadotTransaction.VerifyAndCombineTransaction(x.(dotQ).code, tx, s.Sig)
	return pass, out, nil
}
