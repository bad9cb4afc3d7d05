//go:build go1.22

package main

import (
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/mateverseTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

// Metaverse: the node builds the unsigned transaction
type etp struct{}
type etpLock struct{ k, h, model, ref, text string }
type etpQ struct {
	tx    string
	locks []etpLock
}

// scriptText is how the node writes the script
func (l etpLock) scriptText() string {
	pkh := "dup hash160 [ " + l.h + " ] equalverify checksig"
	switch l.k {
	case "pkh":
		return pkh
	case "att":
		return "[ " + l.model + " ] [ " + l.ref + " ] checkattenuationverify " + pkh
	case "raw":
		return l.h
	}
	return l.text
}
func count16(n int) []byte {
	if n < 0xfd {
		return []byte{byte(n)}
	}
	return []byte{0xfd, byte(n), byte(n >> 8)}
}
func etpLocks(r *rand.Rand, n int, keys [][]byte) (l []etpLock) {
	for i := 0; i < n; i++ {
		h := vlib.H(vlib.HashN(r, 20))
		if i < len(keys) {
			h = vlib.H(h160(pubK1(keys[i])))
		}
		switch r.Intn(6) {
		case 0, 1:
			l = append(l, etpLock{k: "att", h: h, model: vlib.H(vlib.Bytes(r, []int{1, 37, 75, 76, 100, 182, 183, 184, 185, 186, 187, 188, 189, 190, 255, 256, 300}[r.Intn(17)])), ref: vlib.H(vlib.Bytes(r, 36))})
		case 2:
			l = append(l, etpLock{k: "raw", h: vlib.H(vlib.Bytes(r, []int{25, 26, 75, 76, 127, 128, 251, 252, 253, 254, 255, 256, 257, 600}[r.Intn(14)]))})
		default:
			l = append(l, etpLock{k: "pkh", h: h})
		}
	}
	return
}

type etpIn struct {
	txid      []byte
	vout, seq uint32
}

func etpIns(r *rand.Rand, n int) (l []etpIn) {
	for i := 0; i < n; i++ {
		seq := uint32(0xffffffff)
		if r.Intn(3) == 0 {
			seq = uint32(vlib.Amount(r, 32))
		}
		l = append(l, etpIn{vlib.Hash32(r), uint32(vlib.Amount(r, 32)), seq})
	}
	return
}
func etpTx(ins []etpIn, rest []byte) string {
	b := append([]byte{4, 0, 0, 0}, count16(len(ins))...)
	for _, i := range ins {
		b = append(append(append(append(append(b, i.txid...), le32(i.vout)...), 0)), le32(i.seq)...)
	}
	return vlib.H(append(b, rest...))
}
func etpRest(r *rand.Rand) []byte {
	n := 1 + r.Intn(3)
	b := []byte{byte(n)}
	for i := 0; i < n; i++ {
		b = append(append(append(b, le64(vlib.Amount(r, 64))...), 0x19), pkhScript(vlib.HashN(r, 20))...)
		b = append(b, 1, 0, 0, 0, 0, 0, 0, 0)
	}
	return append(b, 0, 0, 0, 0)
}
func (etp) Name() string { return "etp" }
func (etp) Multi() bool  { return true }
func (etp) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubK1(k))
}
func (etp) Gen(r *rand.Rand, keys [][]byte) interface{} {
	n := len(keys)
	if n == 0 {
		n = 1 + r.Intn(3)
	}
	return etpQ{etpTx(etpIns(r, n), etpRest(r)), etpLocks(r, n, keys)}
}
func (etp) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(etpQ)
	q.locks = append([]etpLock{}, q.locks...)
	b := vlib.U(q.tx)
	if r.Intn(5) == 0 {
		q.locks[r.Intn(len(q.locks))] = etpLocks(r, 1, nil)[0]
		return q
	}
	for { // any byte but those that carry the structure of the inputs
		k := 5 + r.Intn(len(b)-5)
		o := (k - 5) % 41
		if k < 5+41*len(q.locks) && o == 36 {
			continue
		}
		b[k] ^= 1 << uint(r.Intn(8))
		q.tx = vlib.H(b)
		return q
	}
}
func (d etp) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() etpQ { return d.Gen(r, nil).(etpQ) }
	for _, n := range []int{1, 2, 15, 16, 60, 127, 128, 251, 252, 253, 254, 256, 260} {
		ls := etpLocks(r, n, nil)
		if n > 60 {
			for i := range ls {
				ls[i] = etpLock{k: "pkh", h: vlib.H(vlib.HashN(r, 20))}
			}
		}
		emit(etpQ{etpTx(etpIns(r, n), etpRest(r)), ls})
	}
	for _, x := range bounds64 {
		if x < 1<<32 {
			ins := etpIns(r, 1+r.Intn(3))
			ins[len(ins)-1].vout = uint32(x)
			emit(etpQ{etpTx(ins, etpRest(r)), etpLocks(r, len(ins), nil)})
			ins[0].seq = uint32(x)
			emit(etpQ{etpTx(ins, etpRest(r)), etpLocks(r, len(ins), nil)})
		}
	}
	for n := 1; n < 320; n += 1 + r.Intn(9) {
		q := g()
		q.locks[0] = etpLock{k: "att", h: vlib.H(vlib.HashN(r, 20)), model: vlib.H(vlib.Bytes(r, n)), ref: vlib.H(vlib.Bytes(r, 36))}
		emit(q)
		q = g()
		q.locks[len(q.locks)-1] = etpLock{k: "raw", h: vlib.H(vlib.Bytes(r, n))}
		emit(q)
	}
	for _, t := range []string{"", " ", "dup", "dup hash160 equalverify checksig", "dup hash160 [ 00 ] equalverify checksig", "dup hash160 [ ] equalverify checksig",
		"dup hash160 [ zz" + vlib.H(vlib.Bytes(r, 19)) + " ] equalverify checksig", strings.Repeat("z", 60), vlib.H(vlib.Bytes(r, 30))[1:], "return " + strings.Repeat("00", 30),
		"] ] ] " + strings.Repeat("00", 30), "[ " + vlib.H(vlib.Bytes(r, 30)) + " ] checksig"} {
		q := g()
		q.locks[r.Intn(len(q.locks))] = etpLock{k: "bad", text: t}
		emit(q)
	}
	q := g()
	b := vlib.U(q.tx)
	for _, f := range []func() []byte{
		func() []byte { b[0] = byte(r.Intn(256)) &^ 4; return b },
		func() []byte { b[1+r.Intn(3)] = 1; return b },
		func() []byte { b[4] = 0; return b },
		func() []byte { b[4]++; return b },
		func() []byte { b[4] = 0xfe; return b },
		func() []byte { b[4] = 0xff; return b },
		func() []byte { b[4] = 0xfd; return b },
		func() []byte { b[5+36] = 1; return b },
		func() []byte { return b[:r.Intn(len(b))] },
		func() []byte { return b[:5+41*len(q.locks)] },
		func() []byte { return b[:5+41*len(q.locks)+1] },
		func() []byte { return append(append([]byte{4, 0, 0, 0, 0xfd}, b[4], 0), b[5:]...) },
		func() []byte { return nil }} {
		q = g()
		b = vlib.U(q.tx)
		b = f()
		q.tx = vlib.H(b)
		emit(q)
	}
	for _, t := range []string{"zz", "0", " "} {
		q = g()
		q.tx += t
		emit(q)
	}
	q = g()
	q.locks = append(q.locks, q.locks[0])
	emit(q)
}
func lockEvs(q etpQ) []Ev {
	l := []Ev{}
	for _, x := range q.locks {
		l = append(l, Ev{"k": x.k, "h": x.h, "model": x.model, "ref": x.ref})
	}
	return l
}
func (etp) Ev(x interface{}) Ev { q := x.(etpQ); return Ev{"tx": q.tx, "locks": lockEvs(q)} }
func (etp) X(x interface{}) Ev  { q := x.(etpQ); return Ev{"tx": q.tx, "locks": lockEvs(q)} }
func etpInputs(q etpQ) ([]*mateverseTransaction.TxInput, error) {
	ins, err := mateverseTransaction.GetInputsFromEmptyRawTransaction(q.tx)
	if err != nil {
		return nil, err
	}
	for len(ins) < len(q.locks) {
		c := *ins[0]
		ins = append(ins, &c)
	}
	for i := range q.locks {
		ins[i].SetLockScript(q.locks[i].scriptText())
	}
	return ins, mateverseTransaction.GetSigHash(q.tx, &ins)
}
func (etp) Create(x interface{}) Out {
	q := x.(etpQ)
	ins, err := etpInputs(q)
	if err != nil {
		return Out{}
	}
	o := Out{OK: true, Tx: q.tx}
	for _, i := range ins {
		o.Msgs = append(o.Msgs, i.GetHash())
	}
	return o
}
func (etp) Sign(msg string, prv []byte) (string, error) { return mateverseTransaction.SignTransaction(msg, vlib.B(prv)) }
func (etp) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	ins, err := etpInputs(x.(etpQ))
	if err != nil {
		return false, "", err
	}
	for len(ins) < len(sp) {
		c := *ins[len(ins)-1]
		ins = append(ins, &c)
	}
	ins = ins[:len(sp)]
	for i, s := range sp {
		ins[i].SetSignature(s.Sig)
		ins[i].SetPubKey(s.Pub)
	}
	pass, out := mateverseTransaction.VerifyAndCombineTransaction(tx, ins)
	return pass, out, nil
}
func (etp) List(tx string) (l []Ev, ok bool) {
	ins, err := mateverseTransaction.GetInputsFromEmptyRawTransaction(tx)
	for _, i := range ins {
		l = append(l, Ev{"txid": i.GetTxID(), "vout": vlib.U32(i.GetVout())})
	}
	return l, err == nil
}
func (etp) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderK1) }) }
func (etp) Craft(r *rand.Rand, msg string, want []byte) (string, string, bool) {
	s, _, p, ok := craftK1(r, vlib.U(msg), want)
	return vlib.H(s), vlib.H(p), ok
}
