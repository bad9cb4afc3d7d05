//go:build go1.22

package main

import (
	"math"
	"math/rand"
	"strconv"

	"github.com/blocktree/go-owcdrivers/elastosTransaction"
	"github.com/blocktree/go-owcdrivers/fiiiTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

var b58ops = []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "empty"}

// Elastos: one signature per owner
type ela struct{}
type elaQ struct {
	ins  []elastosTransaction.Vin
	outs []elastosTransaction.Vout
}

func elaAddr(h []byte) string { return b58chk("ela", append([]byte{0x21}, h...)) }
func elaOuts(r *rand.Rand, n int) (l []elastosTransaction.Vout) {
	for i := 0; i < n; i++ {
		a := elastosTransaction.AssetID_ELA
		if r.Intn(3) == 0 {
			a = hexCase(r, vlib.Hash32(r))
		}
		l = append(l, elastosTransaction.Vout{AssetID: a, Amount: vlib.Amount(r, 64), Address: elaAddr(vlib.HashN(r, 20))})
	}
	return
}
func (ela) Name() string { return "ela" }
func (ela) Multi() bool  { return true }
func (ela) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubR1(k))
}
func (ela) Gen(r *rand.Rand, keys [][]byte) interface{} {
	n := len(keys)
	if n == 0 {
		n = 1 + r.Intn(3)
	}
	var q elaQ
	own := []string{}
	for i := 0; i < n; i++ { // every owner once, in order, and some again
		a := elaAddr(vlib.Hash32(r)[:20])
		own = append(own, a)
		for j := 0; j < 2; j++ {
			if j == 1 {
				if r.Intn(3) > 0 {
					break
				}
				a = own[r.Intn(len(own))]
			}
			q.ins = append(q.ins, elastosTransaction.Vin{TxID: hexCase(r, vlib.Hash32(r)), Vout: uint16(vlib.Amount(r, 16)), Address: a})
		}
	}
	q.outs = elaOuts(r, []int{1, 1, 2, 2, 3, 5, 17}[r.Intn(7)])
	return q
}
func (q elaQ) clone() elaQ {
	q.ins = append([]elastosTransaction.Vin{}, q.ins...)
	q.outs = append([]elastosTransaction.Vout{}, q.outs...)
	return q
}
func (ela) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(elaQ).clone()
	i, o := r.Intn(len(q.ins)), r.Intn(len(q.outs))
	switch r.Intn(6) {
	case 0:
		q.ins[i].TxID = vlib.H(vlib.Hash32(r))
	case 1:
		q.ins[i].Vout ^= 1 << uint(r.Intn(16))
	case 2:
		q.outs[o].Amount ^= 1 << uint(r.Intn(64))
	case 3:
		q.outs[o].Address = elaAddr(vlib.Bytes(r, 20))
	case 4:
		q.outs[o].AssetID = vlib.H(vlib.Hash32(r))
	case 5:
		q.outs = append(q.outs, elaOuts(r, 1)...)
	}
	return q
}
func (d ela) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() elaQ { return d.Gen(r, nil).(elaQ) }
	for _, x := range bounds64 {
		q := g()
		q.outs[r.Intn(len(q.outs))].Amount = x
		emit(q)
		if x < 1<<16 {
			q = g()
			q.ins[r.Intn(len(q.ins))].Vout = uint16(x)
			emit(q)
		}
	}
	for _, n := range []int{0, 1, 2, 15, 16, 100, 126, 127, 128, 129, 251, 252, 253, 254, 255, 256, 300} {
		q := g()
		for len(q.ins) < n {
			q.ins = append(q.ins, g().ins...)
		}
		q.ins = q.ins[:n]
		emit(q)
		q = g()
		q.outs = elaOuts(r, n)
		emit(q)
	}
	for _, t := range badHex(r, 32) {
		q := g()
		q.ins[r.Intn(len(q.ins))].TxID = t
		emit(q)
		q = g()
		q.outs[r.Intn(len(q.outs))].AssetID = t
		emit(q)
	}
	good := elaAddr(vlib.HashN(r, 20))
	for _, op := range b58ops {
		for k := 0; k < 3; k++ {
			q := g()
			q.outs[r.Intn(len(q.outs))].Address = vlib.CorruptText(r, op, good, b58)
			emit(q)
		}
	}
	for k := 0; k < 14; k++ {
		q := g()
		b := append([]byte{[]byte{0x20, 0x22, 0, 0x12, 0x4b, byte(r.Intn(256))}[r.Intn(6)]}, vlib.Bytes(r, 20)...)
		if k%2 == 0 {
			b = append([]byte{0x21}, vlib.Bytes(r, []int{0, 1, 18, 19, 21, 22, 32}[k/2])...)
		}
		q.outs[r.Intn(len(q.outs))].Address = b58chk("ela", b)
		emit(q)
		q = g()
		q.outs[r.Intn(len(q.outs))].Address = b58chk("hyc", append([]byte{0x21}, vlib.Bytes(r, 20)...))
		emit(q)
	}
	for k := 0; k < 4; k++ { // same owner everywhere, and owners that differ little
		q := g()
		for i := range q.ins {
			q.ins[i].Address = []string{"", good, good[:20], good + " "}[(k*i)%4]
		}
		emit(q)
	}
}
func (ela) Ev(x interface{}) Ev {
	q := x.(elaQ)
	is, os := []Ev{}, []Ev{}
	for _, i := range q.ins {
		is = append(is, Ev{"txid": i.TxID, "vout": vlib.U32(uint32(i.Vout)), "from": i.Address})
	}
	for _, o := range q.outs {
		os = append(os, Ev{"asset": o.AssetID, "amt": vlib.U64(o.Amount), "to": text(o.Address)})
	}
	return Ev{"ins": is, "outs": os}
}
func (ela) X(x interface{}) Ev { return Ev{} }
func (ela) Create(x interface{}) Out {
	q := x.(elaQ)
	tx, hs, err := elastosTransaction.CreateEmptyRawTransactionAndHash(vlib.A(q.ins), vlib.A(q.outs))
	o := Out{OK: err == nil, Tx: tx}
	for _, h := range hs {
		o.Msgs, o.Who = append(o.Msgs, h.Hash), append(o.Who, h.Address)
	}
	return o
}
func (ela) Sign(msg string, prv []byte) (string, error) {
	s, err := elastosTransaction.SignRawTransaction(msg, vlib.B(prv))
	return vlib.H(s), err
}
func (ela) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	l, ok := rawSPs(sp)
	if !ok {
		return false, "", nil
	}
	var ps []elastosTransaction.SigPub
	for _, s := range l {
		ps = append(ps, elastosTransaction.SigPub{Signature: vlib.B(s[0]), PublicKey: vlib.B(s[1])})
	}
	pass, out := elastosTransaction.VerifyAndCombineRawTransaction(tx, vlib.A(ps))
	return pass, out, nil
}
func (ela) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderR1) }) }

// FIII
type fiii struct{}
type fiiiQ struct {
	ins                       []fiiiTransaction.Vin
	outs                      []fiiiTransaction.Vout
	version                   int
	locktime, expired         int64
}

func fiiiOuts(r *rand.Rand, n int) (l []fiiiTransaction.Vout) {
	for i := 0; i < n; i++ {
		p := []byte{0x40, 0xe7, 0xe9, 0x15}
		switch r.Intn(6) {
		case 0:
			p = []byte{0x40, 0xe7, 0xe9, 0xaa}
		case 1:
			p = vlib.Bytes(r, r.Intn(6))
		}
		l = append(l, fiiiTransaction.Vout{AddressPrefix: p, Address: b58chk("fiii", append(append([]byte{}, p...), vlib.HashN(r, 20)...)), Amount: int64(vlib.Amount(r, 62)) + 1})
	}
	return
}
func (fiii) Ed()          {}
func (fiii) Name() string { return "fiii" }
func (fiii) Multi() bool  { return true }
func (fiii) Key(r *rand.Rand) ([]byte, string) {
	k := edKey(r)
	return k, vlib.H(edPub(k))
}
func (fiii) Gen(r *rand.Rand, keys [][]byte) interface{} {
	n := len(keys)
	if n == 0 {
		n = 1 + r.Intn(3)
	}
	q := fiiiQ{outs: fiiiOuts(r, []int{1, 1, 2, 2, 3, 5, 17}[r.Intn(7)]), version: 1 + r.Intn(3)}
	for i := 0; i < n; i++ {
		q.ins = append(q.ins, fiiiTransaction.Vin{TxID: hexCase(r, vlib.Hash32(r)), Vout: int(vlib.Amount(r, 32))})
	}
	if r.Intn(2) == 0 {
		q.locktime, q.expired = int64(vlib.Amount(r, 64)), int64(vlib.Amount(r, 64))
	}
	return q
}
func (q fiiiQ) clone() fiiiQ {
	q.ins = append([]fiiiTransaction.Vin{}, q.ins...)
	q.outs = append([]fiiiTransaction.Vout{}, q.outs...)
	return q
}
func (fiii) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(fiiiQ).clone()
	i, o := r.Intn(len(q.ins)), r.Intn(len(q.outs))
	switch r.Intn(7) {
	case 0, 1:
		q.ins[i].TxID = vlib.H(vlib.Hash32(r))
	case 2, 3:
		q.ins[i].Vout ^= 1 << uint(r.Intn(32))
	case 4:
		q.outs[o].Amount ^= 1 << 40
	case 5:
		q.outs = append(q.outs, fiiiOuts(r, 1)...)
	case 6:
		q.locktime++
	}
	return q
}
func (d fiii) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() fiiiQ { return d.Gen(r, nil).(fiiiQ) }
	for _, x := range bounds64 {
		q := g()
		q.outs[r.Intn(len(q.outs))].Amount = int64(x)
		emit(q)
		q = g()
		q.locktime = int64(x)
		emit(q)
		q = g()
		q.expired = int64(x)
		emit(q)
		q = g()
		q.ins[r.Intn(len(q.ins))].Vout = int(x)
		emit(q)
		if x < 1<<31 {
			q = g()
			q.version = int(x)
			emit(q)
		}
	}
	for _, x := range []int64{-1, -2, -255, -256, -1 << 31, -1 << 32, math.MinInt64, math.MinInt64 + 1, math.MaxInt64} {
		q := g()
		q.ins[r.Intn(len(q.ins))].Vout = int(x)
		emit(q)
		q = g()
		q.outs[r.Intn(len(q.outs))].Amount = x
		emit(q)
		q = g()
		q.locktime, q.expired = x, x+1
		emit(q)
	}
	for _, n := range []int{0, 1, 2, 15, 16, 60, 127, 128, 129, 200, 255, 256, 257} {
		q := g()
		for len(q.ins) < n {
			q.ins = append(q.ins, g().ins...)
		}
		q.ins = q.ins[:n]
		emit(q)
		q = g()
		q.outs = fiiiOuts(r, n)
		emit(q)
	}
	for _, t := range badHex(r, 32) {
		q := g()
		q.ins[r.Intn(len(q.ins))].TxID = t
		emit(q)
	}
	for _, op := range b58ops {
		for k := 0; k < 3; k++ {
			q := g()
			o := r.Intn(len(q.outs))
			q.outs[o].Address = vlib.CorruptText(r, op, q.outs[o].Address, b58)
			emit(q)
		}
	}
	for _, n := range []int{0, 1, 18, 19, 20, 21, 22, 24, 32} {
		q := g()
		o := r.Intn(len(q.outs))
		q.outs[o].Address = b58chk("fiii", append(append([]byte{}, q.outs[o].AddressPrefix...), vlib.Bytes(r, n)...))
		emit(q)
		q = g()
		q.outs[o%len(q.outs)].AddressPrefix = []byte{0x40, 0xe7, 0xe9, 0x15, 0x16}[:r.Intn(6)]
		emit(q)
	}
}
func (fiii) Ev(x interface{}) Ev {
	q := x.(fiiiQ)
	is, os := []Ev{}, []Ev{}
	for _, i := range q.ins {
		is = append(is, Ev{"txid": i.TxID, "vout": strconv.Itoa(i.Vout)})
	}
	for _, o := range q.outs {
		os = append(os, Ev{"pre": vlib.H(o.AddressPrefix), "to": text(o.Address), "amt": strconv.FormatInt(o.Amount, 10)})
	}
	return Ev{"ins": is, "outs": os, "version": strconv.Itoa(q.version), "locktime": strconv.FormatInt(q.locktime, 10), "expired": strconv.FormatInt(q.expired, 10)}
}
func (fiii) X(x interface{}) Ev { return Ev{} }
func (fiii) Create(x interface{}) Out {
	q := x.(fiiiQ)
	tx, ms, err := fiiiTransaction.CreateEmptyTransactionAndMessage(vlib.A(q.ins), vlib.A(q.outs), q.version, q.locktime, q.expired)
	return Out{OK: err == nil, Tx: tx, Msgs: ms}
}
func (fiii) Sign(msg string, prv []byte) (string, error) {
	s, err := fiiiTransaction.SignTransactionMessage(msg, vlib.B(prv))
	return vlib.H(s), err
}
func (fiii) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	l, ok := rawSPs(sp)
	if !ok {
		return false, "", nil
	}
	var ps []fiiiTransaction.SigPub
	for _, s := range l {
		ps = append(ps, fiiiTransaction.SigPub{Signature: vlib.B(s[0]), Pubkey: vlib.B(s[1])})
	}
	return fiiiTransaction.VerifyAndCombineTransaction(tx, vlib.A(ps))
}
