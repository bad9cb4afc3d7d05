//go:build go1.22

package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/bytomTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

// Bytom
type btm struct{}
type btmQ struct {
	ins  []bytomTransaction.Vin
	outs []bytomTransaction.Vout
	time uint64
	test bool
}

const b32al = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func btmHrp(test bool) string {
	if test {
		return "tm"
	}
	return "bm"
}
func five(b []byte) []byte {
	f, err := bytomTransaction.ConvertBits(b, 8, 5, true)
	if err != nil {
		panic(err)
	}
	return f
}
func b32chk(hrp string, ver byte, b []byte) string {
	t, err := bytomTransaction.Bech32Encode(hrp, append([]byte{ver}, five(b)...))
	if err != nil {
		panic(err)
	}
	return t
}
func sha3(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA3_256) }
func btmIns(r *rand.Rand, n int, keys [][]byte) (l []bytomTransaction.Vin) {
	for i := 0; i < n; i++ {
		p := append([]byte{0, 0x14}, vlib.HashN(r, 20)...)
		if i < len(keys) {
			p = append([]byte{0, 0x14}, h160(edPub(keys[i]))...)
		} else if r.Intn(3) == 0 {
			p = append([]byte{0, 0x20}, vlib.Hash32(r)...)
		}
		a := bytomTransaction.BTMAssetID
		if r.Intn(3) == 0 {
			a = hexCase(r, vlib.Hash32(r))
		}
		l = append(l, bytomTransaction.Vin{SourceID: hexCase(r, vlib.Hash32(r)), SourcePosition: vlib.Amount(r, 63), AssetID: a, Amount: vlib.Amount(r, 63), ControlProgram: hexCase(r, p)})
	}
	return
}
func btmOuts(r *rand.Rand, n int, test bool) (l []bytomTransaction.Vout) {
	for i := 0; i < n; i++ {
		l = append(l, bytomTransaction.Vout{Address: b32chk(btmHrp(test), 0, vlib.HashN(r, []int{20, 20, 32}[r.Intn(3)])), Amount: vlib.Amount(r, 63)})
	}
	return
}
func (btm) Ed()          {}
func (btm) Name() string { return "btm" }
func (btm) Multi() bool  { return true }
func (btm) Key(r *rand.Rand) ([]byte, string) {
	k := edKey(r)
	return k, vlib.H(edPub(k))
}
func (btm) Gen(r *rand.Rand, keys [][]byte) interface{} {
	n := len(keys)
	if n == 0 {
		n = 1 + r.Intn(3)
	}
	test := r.Intn(3) == 0
	return btmQ{btmIns(r, n, keys), btmOuts(r, []int{1, 1, 2, 2, 3, 5}[r.Intn(6)], test), vlib.Amount(r, 63), test}
}
func (q btmQ) clone() btmQ {
	q.ins = append([]bytomTransaction.Vin{}, q.ins...)
	q.outs = append([]bytomTransaction.Vout{}, q.outs...)
	return q
}
func (btm) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(btmQ).clone()
	i, o := r.Intn(len(q.ins)), r.Intn(len(q.outs))
	switch r.Intn(9) {
	case 0:
		q.ins[i].SourceID = vlib.H(vlib.Hash32(r))
	case 1:
		q.ins[i].SourcePosition ^= 1 << uint(r.Intn(60))
	case 2:
		q.ins[i].Amount ^= 1 << uint(r.Intn(60))
	case 3:
		q.ins[i].AssetID = vlib.H(vlib.Bytes(r, 32))
	case 4:
		q.ins[i].ControlProgram = vlib.H(append([]byte{0, 0x14}, vlib.Bytes(r, 20)...))
	case 5:
		q.outs[o].Amount ^= 1 << uint(r.Intn(60))
	case 6:
		q.outs[o].Address = b32chk(btmHrp(q.test), 0, vlib.Bytes(r, 20))
	case 7:
		q.time ^= 1 << uint(r.Intn(60))
	case 8:
		q.outs = append(q.outs, btmOuts(r, 1, q.test)...)
	}
	return q
}
func (d btm) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() btmQ { return d.Gen(r, nil).(btmQ) }
	for _, x := range bounds64 {
		q := g()
		q.outs[r.Intn(len(q.outs))].Amount = x
		emit(q)
		q = g()
		q.ins[r.Intn(len(q.ins))].Amount = x
		emit(q)
		q = g()
		q.ins[r.Intn(len(q.ins))].SourcePosition = x
		emit(q)
		q = g()
		q.time = x
		emit(q)
	}
	for _, n := range []int{0, 1, 2, 10, 20, 125, 126, 127, 128, 129, 255, 256, 257} {
		q := g()
		q.ins = btmIns(r, n, nil)
		emit(q)
		q = g()
		q.outs = btmOuts(r, n, q.test)
		if n < 60 || n > 127 { // output entries are quadratic
			emit(q)
		} else if n == 127 {
			q.ins = q.ins[:1]
			emit(q)
		}
	}
	for _, t := range badHex(r, 32) {
		q := g()
		q.ins[r.Intn(len(q.ins))].SourceID = t
		emit(q)
		q = g()
		q.ins[r.Intn(len(q.ins))].AssetID = t
		emit(q)
	}
	for _, t := range append(badHex(r, 22), badHex(r, 34)...) {
		q := g()
		q.ins[r.Intn(len(q.ins))].ControlProgram = t
		emit(q)
	}
	for _, op := range b58ops {
		for k := 0; k < 3; k++ {
			q := g()
			o := r.Intn(len(q.outs))
			q.outs[o].Address = vlib.CorruptText(r, op, q.outs[o].Address, b32al)
			emit(q)
		}
	}
	for _, n := range []int{0, 1, 2, 19, 20, 21, 31, 32, 33, 40, 41} {
		for _, v := range []byte{0, 1, 16, 17, 31} {
			q := g()
			o := r.Intn(len(q.outs))
			q.outs[o].Address = b32chk(btmHrp(q.test), v, vlib.Bytes(r, n))
			emit(q)
		}
	}
	for _, h := range []string{"bm", "tm", "bc", "tb", "bmx", "bm1", "b", "sm", "tmtm", "BM"} {
		q := g()
		q.outs[r.Intn(len(q.outs))].Address = b32chk(h, 0, vlib.Bytes(r, 20))
		emit(q)
		q = g()
		q.outs[0].Address = strings.ToUpper(q.outs[0].Address)
		emit(q)
	}
	for k := 0; k < 6; k++ { // paddings that are not zero or too long
		q := g()
		f := five(vlib.Bytes(r, 32))
		f[len(f)-1] |= 1 << uint(r.Intn(4))
		if k%2 == 1 {
			f = append(five(vlib.Bytes(r, 20)), 0)
		}
		q.outs[0].Address, _ = bytomTransaction.Bech32Encode(btmHrp(q.test), append([]byte{0}, f...))
		emit(q)
	}
}
func (btm) Ev(x interface{}) Ev {
	q := x.(btmQ)
	is, os := []Ev{}, []Ev{}
	for _, i := range q.ins {
		is = append(is, Ev{"src": i.SourceID, "pos": vlib.U64(i.SourcePosition), "asset": i.AssetID, "amt": vlib.U64(i.Amount), "prog": i.ControlProgram})
	}
	for _, o := range q.outs {
		os = append(os, Ev{"to": text(o.Address), "amt": vlib.U64(o.Amount)})
	}
	return Ev{"ins": is, "outs": os, "time": vlib.U64(q.time), "test": q.test}
}
func (btm) X(x interface{}) Ev { return Ev{} }
func (btm) Create(x interface{}) Out {
	q := x.(btmQ)
	tx, err := bytomTransaction.CreateEmptyRawTransaction(vlib.A(q.ins), vlib.A(q.outs), q.time, q.test)
	if err != nil {
		return Out{Tx: tx}
	}
	hs, err := bytomTransaction.CreateRawTransactionHashForSig(tx, q.test)
	if err != nil {
		return Out{OK: true, Tx: tx}
	}
	o := Out{OK: true, Tx: tx}
	for _, h := range hs {
		w := "multi"
		if !h.IsMultiSig() {
			w = h.Normal.Address
		}
		o.Msgs, o.Who = append(o.Msgs, h.Hash), append(o.Who, w)
	}
	return o
}
func (btm) SignPub(msg string, prv []byte) (string, string, error) {
	s, err := bytomTransaction.SignRawTransactionHash(msg, vlib.B(prv))
	if err != nil || s == nil {
		return "", "", err
	}
	return vlib.H(s.Signature), vlib.H(s.Pubkey), nil
}
func (d btm) Sign(msg string, prv []byte) (string, error) {
	s, _, err := d.SignPub(msg, prv)
	return s, err
}
func (btm) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	var its []btmItem
	for _, s := range sp {
		its = append(its, btmItem{0, []SP{s}})
	}
	hs, ok := btmHashes(its)
	if !ok {
		return false, "", nil
	}
	out, err := bytomTransaction.InsertSignatureIntoEmptyTransaction(tx, vlib.A(hs))
	if err != nil || !bytomTransaction.VerifyRawTransaction(out) {
		return false, "", err
	}
	return true, out, nil
}

// ---- multi-signature spends
type btmItem struct {
	m   int
	sps []SP
}

func btmHashes(its []btmItem) (l []bytomTransaction.TxHash, ok bool) {
	for _, it := range its {
		h := bytomTransaction.TxHash{NRequired: byte(it.m)}
		for _, s := range it.sps {
			g, e1 := hex.DecodeString(s.Sig)
			p, e2 := hex.DecodeString(s.Pub)
			if e1 != nil || e2 != nil {
				return nil, false
			}
			if len(g) == 0 {
				g = nil
			}
			if it.m == 0 {
				h.Normal = &bytomTransaction.NormalTx{SigPub: bytomTransaction.SigPub{Signature: g, Pubkey: p}}
			} else {
				h.Multi = append(h.Multi, bytomTransaction.MultiTx{Pubkey: s.Pub, SigPub: bytomTransaction.SigPub{Signature: g, Pubkey: p}})
			}
		}
		l = append(l, h)
	}
	return l, true
}
func btmInsert(tx string, its []btmItem) string {
	hs, ok := btmHashes(its)
	if !ok {
		return ""
	}
	var out string
	var err error
	p := vlib.Call(func() { out, err = bytomTransaction.InsertSignatureIntoEmptyTransaction(tx, vlib.A(hs)) })
	l := []Ev{}
	for _, it := range its {
		s := []Ev{}
		for _, x := range it.sps {
			s = append(s, Ev{"sig": x.Sig, "pub": x.Pub})
		}
		l = append(l, Ev{"m": it.m, "sps": s})
	}
	vlib.Rec(Ev{"op": "btminsert", "tx": tx, "its": l, "ok": err == nil && p == "", "out": out, "panic": p})
	return out
}
func btmVerify(tx string) {
	var ok bool
	p := vlib.Call(func() { ok = bytomTransaction.VerifyRawTransaction(tx) })
	vlib.Rec(Ev{"op": "btmverify", "tx": tx, "ok": ok, "panic": p})
}
func btmMulti(m int, keys [][]byte, test bool) string {
	var a, s string
	var err error
	p := vlib.Call(func() { a, s, err = bytomTransaction.CreateMultiSig(byte(m), vlib.A(keys), test) })
	l := []string{}
	for _, k := range keys {
		l = append(l, vlib.H(k))
	}
	vlib.Rec(Ev{"op": "btmmulti", "m": m, "keys": l, "test": test, "ok": err == nil && p == "", "addr": a, "script": s, "panic": p})
	return s
}
func btmPad(script string) {
	var h bytomTransaction.TxHash
	var err error
	p := vlib.Call(func() { err = h.PadMultiSig(script) })
	l := []string{}
	for _, k := range h.Multi {
		l = append(l, k.Pubkey)
	}
	vlib.Rec(Ev{"op": "btmpad", "script": script, "ok": err == nil && p == "", "m": int(h.NRequired), "keys": l, "panic": p})
}

// Extra: addresses, spends of m-of-n inputs beside plain ones, every way to get them wrong
func (d btm) Extra() {
	for n := 0; n <= 18; n++ {
		for m := 0; m <= n+1; m++ {
			vlib.Scn(fmt.Sprintf("btm/multi/%d/%d", n, m), func(r *rand.Rand) {
				var ks [][]byte
				for i := 0; i < n; i++ {
					ks = append(ks, vlib.Bytes(r, 32))
				}
				if n > 1 && r.Intn(5) == 0 {
					ks[n-1] = ks[0]
				}
				s := btmMulti(m, ks, r.Intn(2) == 0)
				btmPad(s)
				btmPad(vlib.CorruptText(r, []string{"subst", "delete", "insert", "swap", "trunc", "append"}[r.Intn(6)], s+"00", "0123456789abcdef"))
				if b := vlib.U(s); len(b) > 3 {
					for _, at := range []int{0, len(b) - 1, len(b) - 2, len(b) - 3} {
						c := append([]byte{}, b...)
						c[at] = byte(r.Intn(256))
						btmPad(vlib.H(c))
					}
				}
				if n > 0 {
					ks[r.Intn(n)] = vlib.Bytes(r, []int{0, 31, 33, 64}[r.Intn(4)])
					btmMulti(m, ks, false)
				}
			})
		}
	}
	for k := 0; k < 240**vlib.FScale; k++ {
		vlib.Scn(fmt.Sprintf("btm/spend/%d", k), func(r *rand.Rand) { d.spend(r, k) })
	}
}
func (d btm) spend(r *rand.Rand, k int) {
	q := d.Gen(r, nil).(btmQ)
	n := 1 + k%3
	q.ins = btmIns(r, n, nil)
	type own struct {
		m    int
		keys [][]byte
	}
	os := make([]own, n)
	for i := range os {
		nk := 1
		if i == (k/3)%n || r.Intn(2) == 0 {
			nk = 1 + r.Intn(5)
			if r.Intn(12) == 0 {
				nk = 16
			}
			os[i].m = 1 + r.Intn(nk)
		}
		for j := 0; j < nk; j++ {
			os[i].keys = append(os[i].keys, edKey(r))
		}
		if nk > 1 && r.Intn(8) == 0 {
			os[i].keys[nk-1] = os[i].keys[0]
		}
		prog := append([]byte{0, 0x14}, h160(edPub(os[i].keys[0]))...)
		if os[i].m > 0 {
			var ps [][]byte
			for _, x := range os[i].keys {
				ps = append(ps, edPub(x))
			}
			s := btmMulti(os[i].m, ps, q.test)
			prog = append([]byte{0, 0x20}, sha3(vlib.U(s))...)
		}
		q.ins[i].ControlProgram = vlib.H(prog)
	}
	o := create(d, q)
	if !o.OK || len(o.Msgs) != n {
		return
	}
	other := create(d, d.Vary(r, q))
	its := make([]btmItem, n)
	for i := range os {
		its[i].m = os[i].m
		order := r.Perm(len(os[i].keys))
		skip := map[int]bool{}
		if os[i].m > 0 && r.Intn(2) == 0 {
			for _, j := range order[os[i].m:] {
				skip[j] = true
			}
		}
		for j, x := range os[i].keys {
			s := SP{"", vlib.H(edPub(x))}
			if !skip[j] {
				s.Sig = sign(d, o.Msgs[i], x)
			}
			its[i].sps = append(its[i].sps, s)
		}
	}
	if k%4 != 0 { // one thing wrong
		i := r.Intn(n)
		it := &its[i]
		j := r.Intn(len(it.sps))
		switch r.Intn(14) {
		case 0:
			it.sps[j].Sig = ""
		case 1:
			it.sps[j].Sig = flipText(r, it.sps[j].Sig)
		case 2:
			it.sps[j].Pub = vlib.H(edPub(edKey(r)))
		case 3:
			it.sps[j].Pub = it.sps[j].Pub[2:]
		case 4:
			if len(other.Msgs) == n {
				it.sps[j].Sig = sign(d, other.Msgs[i], os[i].keys[j])
			}
		case 5:
			it.sps[j].Sig = sign(d, o.Msgs[i], edKey(r))
		case 6:
			it.sps[j].Sig = it.sps[0].Sig
		case 7:
			l := r.Intn(len(it.sps))
			it.sps[j], it.sps[l] = it.sps[l], it.sps[j]
		case 8:
			l := r.Intn(len(it.sps))
			it.sps[j].Sig, it.sps[l].Sig = it.sps[l].Sig, it.sps[j].Sig
		case 9:
			it.m = r.Intn(len(it.sps) + 2)
		case 10:
			it.sps = append(it.sps, it.sps[j])
		case 11:
			its = its[:n-1]
		case 12:
			its = append(its, its[i])
		case 13:
			l := r.Intn(n)
			its[i], its[l] = its[l], its[i]
		}
	}
	for i := range its { // plain data is one signature
		if its[i].m == 0 && len(its[i].sps) > 1 {
			its[i].sps = its[i].sps[:1]
		}
	}
	tx := o.Tx
	if k%17 == 0 && other.OK {
		tx = other.Tx
	}
	out := btmInsert(tx, its)
	if out == "" {
		return
	}
	btmVerify(out)
	for c := 0; c < 3; c++ {
		btmVerify(flipText(r, out))
	}
	b := vlib.U(out)
	btmVerify(vlib.H(b[:r.Intn(len(b))]))
	btmVerify(out + "00")
	btmVerify(tx)
	if other.OK {
		if t := btmInsert(other.Tx, its); t != "" {
			btmVerify(t)
		}
	}
	btmInsert(out, its)
}
