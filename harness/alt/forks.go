//go:build go1.22

package main

import (
	"encoding/hex"
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	"github.com/blocktree/go-owcdrivers/vergeTransaction"
	"github.com/blocktree/go-owcdrivers/vollarTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

// Bitcoin forks whose unsigned text is the transaction and the lock scripts
type fkIn struct {
	txid          string
	vout          uint32
	lock          string
	amt           uint64 // HyperCash
	height, index uint32
	tree          byte
}
type fkOut struct {
	to  string
	amt uint64
	ver uint16 // HyperCash
}
type fkQ struct {
	ins          []fkIn
	outs         []fkOut
	lock, span   uint32
	expiry, prop uint32 // HyperCash
	tokens       uint64
	omni         bool
}
type fork struct{ name string }

func chk(name string, b []byte) []byte {
	if name == "hyc" {
		return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
	}
	return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
}
func b58chk(name string, b []byte) string {
	return addressEncoder.Base58Encode(append(append([]byte{}, b...), chk(name, b)...), addressEncoder.NewBase58Alphabet(b58))
}

var fkPre = map[string][][]byte{"xvg": {{0x1e}, {0x21}}, "ali": {{0x17}, {0x30}}, "vds": {{0x10, 0x1c}, {0x10, 0x41}}, "hyc": {{0x09, 0x7f}}}

func fkAddr(r *rand.Rand, name string) string {
	p := fkPre[name][r.Intn(len(fkPre[name]))]
	return b58chk(name, append(append([]byte{}, p...), vlib.HashN(r, 20)...))
}
func h160(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_HASH160) }
func pkhScript(h []byte) []byte {
	return append(append([]byte{0x76, 0xa9, 0x14}, h...), 0x88, 0xac)
}
func fkIns(r *rand.Rand, n int, keys [][]byte) (l []fkIn) {
	for i := 0; i < n; i++ {
		lock := pkhScript(vlib.HashN(r, 20))
		if i < len(keys) {
			lock = pkhScript(h160(pubK1(keys[i])))
		} else if r.Intn(4) == 0 {
			lock = vlib.Bytes(r, []int{0, 1, 22, 23, 34, 35, 105, 127, 128, 200, 251, 252}[r.Intn(12)])
		}
		t := hexCase(r, lock)
		l = append(l, fkIn{hexCase(r, vlib.Hash32(r)), uint32(vlib.Amount(r, 32)), t, vlib.Amount(r, 64), uint32(vlib.Amount(r, 32)), uint32(vlib.Amount(r, 32)), 0})
		if i > 0 && r.Intn(8) == 0 {
			l[i].txid = l[r.Intn(i)].txid
		}
	}
	return
}
func fkOuts(r *rand.Rand, name string, n int) (l []fkOut) {
	for i := 0; i < n; i++ {
		l = append(l, fkOut{fkAddr(r, name), vlib.Amount(r, 64), 0})
	}
	return
}
func (d fork) Name() string { return d.name }
func (fork) Multi() bool    { return true }
func (fork) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubK1(k))
}
func (d fork) Gen(r *rand.Rand, keys [][]byte) interface{} {
	n := len(keys)
	if n == 0 {
		n = 1 + r.Intn(3)
	}
	q := fkQ{ins: fkIns(r, n, keys), outs: fkOuts(r, d.name, []int{1, 1, 2, 2, 3, 5, 17}[r.Intn(7)]), lock: uint32(vlib.Amount(r, 32)), span: uint32(r.Intn(100000)),
		expiry: uint32(vlib.Amount(r, 32))}
	if d.name == "hyc" && (r.Intn(3) == 0 || *vlib.FMode == "p12") {
		q.omni, q.prop, q.tokens = true, uint32(vlib.Amount(r, 32)), vlib.Amount(r, 64)
		q.outs = fkOuts(r, d.name, 1+r.Intn(2))
	}
	return q
}
func (q fkQ) clone() fkQ {
	q.ins = append([]fkIn{}, q.ins...)
	q.outs = append([]fkOut{}, q.outs...)
	return q
}
func (d fork) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(fkQ).clone()
	i, o := r.Intn(len(q.ins)), r.Intn(len(q.outs))
	switch r.Intn(9) {
	case 0:
		q.ins[i].txid = vlib.H(vlib.Hash32(r))
	case 1:
		q.ins[i].vout++
	case 2:
		q.ins[i].lock = vlib.H(pkhScript(vlib.HashN(r, 20)))
	case 3:
		q.outs[o].to = fkAddr(r, d.name)
	case 4:
		q.outs[o].amt++
	case 5:
		if d.name == "vds" {
			q.outs[o].amt ^= 1 << 63
		} else {
			q.lock++
		}
	case 6:
		if !q.omni {
			q.outs = append(q.outs, fkOuts(r, d.name, 1)...)
		} else {
			q.tokens++
		}
	case 7:
		switch {
		case d.name == "xvg":
			q.span += 1000
		case q.omni:
			q.prop++
		case d.name == "hyc":
			q.expiry++
		default:
			q.outs[o].amt += 256
		}
	case 8:
		if len(q.ins) > 1 && q.ins[0] != q.ins[1] {
			q.ins[0], q.ins[1] = q.ins[1], q.ins[0]
		} else {
			q.ins[0].vout ^= 1 << 31
		}
	}
	return q
}
func (d fork) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() fkQ { return d.Gen(r, nil).(fkQ) }
	for _, x := range bounds64 {
		q := g()
		q.outs[r.Intn(len(q.outs))].amt = x
		emit(q)
		if d.name == "hyc" {
			q = g()
			q.ins[r.Intn(len(q.ins))].amt = x
			emit(q)
			q = g()
			q.omni, q.tokens, q.outs = true, x, q.outs[:1]
			emit(q)
		}
		if x < 1<<32 {
			q = g()
			q.lock = uint32(x)
			emit(q)
			q = g()
			q.ins[r.Intn(len(q.ins))].vout = uint32(x)
			emit(q)
			if d.name == "xvg" {
				q = g()
				q.span = uint32(x)
				emit(q)
			}
			if d.name == "hyc" {
				q = g()
				q.expiry, q.ins[0].height, q.ins[0].index = uint32(x), uint32(vlib.Amount(r, 32)), uint32(x)
				emit(q)
				q = g()
				q.ins[0].height = uint32(x)
				emit(q)
				q = g()
				q.omni, q.prop, q.outs = true, uint32(x), q.outs[:1]
				emit(q)
			}
		}
	}
	for _, n := range []int{1, 2, 15, 16, 100, 127, 128, 251, 252, 253, 254, 256, 257, 300} {
		q := g()
		q.ins = fkIns(r, n, nil)
		if d.name == "hyc" && n > 130 { // its digests are quadratic
			q.ins = fkIns(r, n, nil)
			for i := range q.ins {
				q.ins[i].lock = ""
			}
		}
		emit(q)
		q = g()
		q.omni = false
		q.outs = fkOuts(r, d.name, n)
		emit(q)
		q = g()
		q.ins[r.Intn(len(q.ins))].lock = vlib.H(vlib.Bytes(r, n))
		emit(q)
	}
	for _, t := range badHex(r, 32) {
		q := g()
		q.ins[r.Intn(len(q.ins))].txid = t
		emit(q)
	}
	for _, t := range []string{"0", "zz", "76a91", "76a9zz", " 76", "0x76", "76:a9", ":", "/"} {
		q := g()
		q.ins[r.Intn(len(q.ins))].lock = t
		emit(q)
	}
	good := fkAddr(r, d.name)
	for _, op := range []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "empty"} {
		for k := 0; k < 3; k++ {
			q := g()
			q.outs[r.Intn(len(q.outs))].to = vlib.CorruptText(r, op, good, b58)
			emit(q)
		}
	}
	for name, ps := range fkPre { // other chains' addresses, other checks, other lengths
		for _, p := range ps {
			for _, n := range []int{19, 20, 21, 32} {
				q := g()
				q.outs[r.Intn(len(q.outs))].to = b58chk(d.name, append(append([]byte{}, p...), vlib.Bytes(r, n)...))
				emit(q)
			}
			q := g()
			q.outs[r.Intn(len(q.outs))].to = b58chk(name, append(append([]byte{}, p...), vlib.Bytes(r, 20)...))
			emit(q)
		}
	}
	for k := 0; k < 6; k++ {
		q := g()
		p := append([]byte{}, fkPre[d.name][0]...)
		p[r.Intn(len(p))] ^= 1 << uint(r.Intn(8))
		q.outs[0].to = b58chk(d.name, append(p, vlib.Bytes(r, 20)...))
		emit(q)
		q = g()
		q.outs[0].to = b58chk("xvg", vlib.Bytes(r, []int{0, 1, 2, 19, 20, 21, 22}[k]))
		emit(q)
		q = g()
		q.outs[0].to = b58chk(d.name, vlib.Bytes(r, []int{0, 1, 2, 19, 20, 21, 22}[k]))
		emit(q)
	}
	if d.name == "hyc" {
		for k := 0; k < 4; k++ {
			q := g()
			q.ins[r.Intn(len(q.ins))].tree = byte(k)
			emit(q)
			q = g()
			q.outs[r.Intn(len(q.outs))].ver = uint16(k)
			emit(q)
		}
		q := g()
		q.ins = nil
		emit(q)
		q = g()
		q.omni, q.outs = false, nil
		emit(q)
	}
}
func (d fork) Ev(x interface{}) Ev {
	q := x.(fkQ)
	is, os := []Ev{}, []Ev{}
	for _, i := range q.ins {
		e := Ev{"txid": i.txid, "vout": vlib.U32(i.vout), "lock": i.lock}
		if d.name == "hyc" {
			e["amt"], e["height"], e["index"], e["tree"] = vlib.U64(i.amt), vlib.U32(i.height), vlib.U32(i.index), int(i.tree)
		}
		is = append(is, e)
	}
	for _, o := range q.outs {
		os = append(os, Ev{"to": text(o.to), "amt": vlib.U64(o.amt), "ver": int(o.ver)})
	}
	e := Ev{"ins": is, "outs": os, "lock": vlib.U32(q.lock), "span": vlib.U32(q.span)}
	if d.name == "hyc" {
		e["expiry"], e["omni"], e["prop"], e["tokens"] = vlib.U32(q.expiry), q.omni, vlib.U32(q.prop), vlib.U64(q.tokens)
	}
	return e
}
func outs(tx string, msgs []string, err error) Out { return Out{OK: err == nil, Tx: tx, Msgs: msgs} }
func (d fork) Create(x interface{}) Out {
	q := x.(fkQ)
	switch d.name {
	case "xvg":
		var is []vergeTransaction.Vin
		var os []vergeTransaction.Vout
		for _, i := range q.ins {
			is = append(is, vergeTransaction.Vin{TxID: i.txid, Vout: i.vout, LockScript: i.lock})
		}
		for _, o := range q.outs {
			os = append(os, vergeTransaction.Vout{Address: o.to, Amount: o.amt})
		}
		return outs(vergeTransaction.CreateEmptyTransactionAndHash(vlib.A(is), vlib.A(os), q.lock, q.span))
	case "ali":
		var is []aliencoinTransaction.Vin
		var os []aliencoinTransaction.Vout
		for _, i := range q.ins {
			is = append(is, aliencoinTransaction.Vin{TxID: i.txid, Vout: i.vout, LockScript: i.lock})
		}
		for _, o := range q.outs {
			os = append(os, aliencoinTransaction.Vout{Address: o.to, Amount: o.amt})
		}
		return outs(aliencoinTransaction.CreateEmptyTransactionAndHash(vlib.A(is), vlib.A(os), q.lock))
	}
	var is []vollarTransaction.Vin
	var os []vollarTransaction.Vout
	for _, i := range q.ins {
		is = append(is, vollarTransaction.Vin{TxID: i.txid, Vout: i.vout, LockScript: i.lock})
	}
	for _, o := range q.outs {
		os = append(os, vollarTransaction.Vout{Address: o.to, Amount: o.amt})
	}
	return outs(vollarTransaction.CreateEmptyRawTransactionAndHash(vlib.A(is), vlib.A(os)))
}
func (d fork) Sign(msg string, prv []byte) (string, error) {
	var s []byte
	var err error
	switch d.name {
	case "xvg":
		s, err = vergeTransaction.SignTransaction(msg, vlib.B(prv))
	case "ali":
		s, err = aliencoinTransaction.SignTransaction(msg, vlib.B(prv))
	default:
		s, err = vollarTransaction.SignRawTransaction(msg, vlib.B(prv))
	}
	return vlib.H(s), err
}

// rawSPs gives the bytes of the presented pairs
func rawSPs(sp []SP) (l [][2][]byte, ok bool) {
	for _, s := range sp {
		a, e1 := hex.DecodeString(s.Sig)
		b, e2 := hex.DecodeString(s.Pub)
		if e1 != nil || e2 != nil {
			return nil, false
		}
		l = append(l, [2][]byte{a, b})
	}
	return l, true
}
func (d fork) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	l, ok := rawSPs(sp)
	if !ok {
		return false, "", nil
	}
	switch d.name {
	case "xvg":
		var ps []vergeTransaction.SigPub
		for _, s := range l {
			ps = append(ps, vergeTransaction.SigPub{Signature: vlib.B(s[0]), Pubkey: vlib.B(s[1])})
		}
		return vergeTransaction.VerifyAndCombineTransaction(tx, vlib.A(ps))
	case "ali":
		var ps []aliencoinTransaction.SigPub
		for _, s := range l {
			ps = append(ps, aliencoinTransaction.SigPub{Signature: vlib.B(s[0]), Pubkey: vlib.B(s[1])})
		}
		return aliencoinTransaction.VerifyAndCombineTransaction(tx, vlib.A(ps))
	}
	var ps []vollarTransaction.SigPub
	for _, s := range l {
		ps = append(ps, vollarTransaction.SigPub{Signature: vlib.B(s[0]), Pubkey: vlib.B(s[1])})
	}
	return vollarTransaction.VerifyAndCombineRawTransaction(tx, vlib.A(ps))
}
func (fork) X(x interface{}) Ev { return Ev{} }
func (fork) HighS(sig string) string {
	return hexTry(sig, func(b []byte) []byte { return hiS(b, orderK1) })
}
func (fork) Craft(r *rand.Rand, msg string, want []byte) (string, string, bool) {
	s, _, p, ok := craftK1(r, vlib.U(msg), want)
	return vlib.H(s), vlib.H(p), ok
}

// TamperTx alters one byte of one of the parts behind the transaction, or of the header
func (fork) TamperTx(r *rand.Rand, tx string) string {
	ps := strings.Split(tx, ":")
	k := r.Intn(len(ps))
	if k == 0 && len(ps[0]) > 24 {
		i := r.Intn(24)
		ps[0] = flipText(r, ps[0][:i+1]) + ps[0][i+1:]
	} else {
		ps[k] = flipText(r, ps[k])
	}
	if r.Intn(12) == 0 {
		ps = append(ps, "00")
	}
	if r.Intn(12) == 0 && len(ps) > 1 {
		ps = ps[:len(ps)-1]
	}
	return strings.Join(ps, ":")
}
