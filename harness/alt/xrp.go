//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/rippleTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

type xrp struct{}
type xrpQ struct {
	from, pub          string
	tag                int64
	seq                uint32
	to                 string
	amt, fee           uint64
	lls                uint32
	mtype, mdata, mfmt string
}

func (xrp) Name() string { return "xrp" }
func (xrp) Multi() bool  { return false }
func (xrp) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubK1(k))
}
func xrpAddr(h []byte) string {
	b := append([]byte{0}, h...)
	return addressEncoder.Base58Encode(append(b, owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]...), addressEncoder.NewBase58Alphabet("rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"))
}
func xrpAmt(r *rand.Rand) uint64 {
	a := vlib.Amount(r, 62)
	if a == 0 {
		a = 1
	}
	return a
}
func memoText(r *rand.Rand) string {
	n := []int{0, 0, 1, 5, 20, 191, 192, 193, 194, 255, 256, 300}[r.Intn(12)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	if r.Intn(2) == 0 {
		return strings.Repeat("memo é世\"s", 1+n/12)[:n]
	}
	return string(b)
}
func (xrp) Gen(r *rand.Rand, keys [][]byte) interface{} {
	k := ecKey(r)
	if len(keys) > 0 {
		k = keys[0]
	}
	p := pubK1(k)
	from := owcrypt.Hash(p, 0, owcrypt.HASH_ALG_HASH160)
	tag := int64(-1)
	switch r.Intn(3) {
	case 0:
		tag = int64(vlib.Amount(r, 32))
	case 1:
		tag = int64(r.Intn(3)) - 1
	}
	return xrpQ{xrpAddr(from), vlib.H(p), tag, uint32(vlib.Amount(r, 32)), xrpAddr(vlib.HashN(r, 20)), xrpAmt(r), xrpAmt(r), uint32(vlib.Amount(r, 32)),
		memoText(r), memoText(r), memoText(r)}
}
func (xrp) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(xrpQ)
	switch r.Intn(9) {
	case 0:
		q.to = xrpAddr(vlib.HashN(r, 20))
	case 1:
		if q.tag < 0 {
			q.tag = 7
		} else {
			q.tag ^= 1
		}
	case 2:
		q.seq ^= 1
	case 3:
		q.amt ^= 2
		if q.amt == 0 {
			q.amt = 5
		}
	case 4:
		q.fee ^= 2
		if q.fee == 0 {
			q.fee = 5
		}
	case 5:
		q.lls ^= 1 << 31
	case 6:
		q.mdata += "x"
	case 7:
		q.from = xrpAddr(vlib.HashN(r, 20))
	case 8:
		q.mdata, q.mfmt = "d", q.mfmt+"f"
	}
	return q
}
func (d xrp) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() xrpQ { return d.Gen(r, nil).(xrpQ) }
	for _, x := range bounds64 {
		q := g()
		q.amt = x
		emit(q)
		q = g()
		q.fee = x
		emit(q)
		q = g()
		q.tag = int64(x)
		emit(q)
		if x < 1<<32 {
			q = g()
			q.seq = uint32(x)
			emit(q)
			q = g()
			q.lls = uint32(x)
			emit(q)
		}
	}
	for f := 0; f < 3; f++ {
		for _, n := range []int{0, 1, 2, 127, 128, 191, 192, 193, 194, 255, 256, 257, 448, 449, 450, 1000, 12479, 12480, 12481, 12482} {
			q := g()
			if f != 1 && q.mdata == "" {
				q.mdata = "x"
			}
			*[]*string{&q.mtype, &q.mdata, &q.mfmt}[f] = strings.Repeat("m", n)
			emit(q)
		}
	}
	for _, n := range []int{12481 + 65535, 12481 + 65536, 918744, 918745} {
		q := g()
		q.mtype, q.mdata, q.mfmt = "", strings.Repeat("m", n), ""
		emit(q)
	}
	h := vlib.Bytes(r, 20)
	good := xrpAddr(h)
	al := "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
	for _, op := range []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "empty"} {
		q := g()
		q.to = vlib.CorruptText(r, op, good, al)
		emit(q)
		q = g()
		q.from = vlib.CorruptText(r, op, q.from, al)
		emit(q)
	}
	for _, n := range []int{0, 19, 21, 32} {
		q := g()
		q.to = xrpAddr(vlib.Bytes(r, n))
		emit(q)
	}
	for _, v := range []byte{1, 5, 0xff} {
		q := g()
		b := append([]byte{v}, h...)
		q.to = addressEncoder.Base58Encode(append(b, owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]...), addressEncoder.NewBase58Alphabet(al))
		emit(q)
	}
	for _, p := range []string{"", "02", strings.Repeat("00", 33), "04" + strings.Repeat("11", 32), "02" + strings.Repeat("11", 31), "03" + strings.Repeat("11", 33), "zz" + strings.Repeat("11", 32)} {
		q := g()
		q.pub = p
		emit(q)
	}
	q := g()
	q.pub = strings.ToUpper(q.pub)
	emit(q)
}
func (xrp) Ev(x interface{}) Ev {
	q := x.(xrpQ)
	tag := Ev{"k": "none", "v": ""}
	if q.tag > 1<<32-1 {
		tag["k"] = "big"
	} else if q.tag >= 0 {
		tag = Ev{"k": "tag", "v": vlib.U32(uint32(q.tag))}
	}
	return Ev{"from": text(q.from), "pub": q.pub, "tag": tag, "seq": vlib.U32(q.seq), "to": text(q.to), "amt": vlib.U64(q.amt), "fee": vlib.U64(q.fee),
		"lls": vlib.U32(q.lls), "mtype": text(q.mtype), "mdata": text(q.mdata), "mfmt": text(q.mfmt)}
}
func (xrp) Create(x interface{}) Out {
	q := x.(xrpQ)
	tx, h, err := rippleTransaction.CreateEmptyRawTransactionAndHash(q.from, q.pub, q.tag, q.seq, q.to, q.amt, q.fee, q.lls, q.mtype, q.mdata, q.mfmt)
	o := Out{OK: err == nil, Tx: tx}
	if h != "" {
		o.Msgs = []string{h}
	}
	return o
}
func (xrp) Sign(msg string, prv []byte) (string, error) { return rippleTransaction.SignRawTransaction(msg, prv) }
func (xrp) X(x interface{}) Ev                          { return Ev{} }
func (xrp) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	if len(sp) != 1 {
		if len(sp) == 0 {
			sp = []SP{{}}
		} else {
			return false, "", nil
		}
	}
	ok, out := rippleTransaction.VerifyAndCombinRawTransaction(tx, sp[0].Sig, sp[0].Pub)
	return ok, out, nil
}
func (xrp) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderK1) }) }

// Extra: the public key is part of the signed message, so no key can be made to fit a wanted
// signature; instead the nonce is searched for r and the sequence number for s
func (d xrp) Extra() {
	type want struct {
		name string
		ok   func(b []byte) bool
	}
	top := func(lo, hi byte) func([]byte) bool { return func(b []byte) bool { return b[0] >= lo && b[0] <= hi } }
	zero := func(lo, hi byte) func([]byte) bool {
		return func(b []byte) bool { return b[0] == 0 && b[1] >= lo && b[1] <= hi }
	}
	// nonces by the leading bytes of their r
	rs := []struct {
		name string
		n    []int64
	}{{"80", []int64{39, 253, 335, 1013}}, {"81", []int64{385, 501, 802, 845}}, {"fe", []int64{24, 42, 284, 309}}, {"ff", []int64{6, 201, 786, 919}},
		{"7f", []int64{209, 666, 754, 939}}, {"00-lo", []int64{246, 1158, 1436, 1661}}, {"00-hi", []int64{153, 886, 1417, 2302}},
		{"00-00-lo", []int64{58165, 63439, 68831}}, {"00-00-hi", []int64{44629, 127948}}, {"00-7f", []int64{56596, 130472}}, {"00-80", []int64{41064, 155666}}, {"short", []int64{0}}}
	ss := []want{{"any", func([]byte) bool { return true }}, {"0-lo", zero(0, 0x7f)}, {"0-hi", zero(0x80, 0xff)}, {"7f", top(0x7f, 0x7f)}, {"1", top(1, 1)}}
	half := new(big.Int).Rsh(orderK1, 1)
	for k := 0; k < 60**vlib.FScale; k++ {
		rw, sw := rs[k%len(rs)], ss[k/len(rs)%len(ss)]
		vlib.Scn(fmt.Sprintf("xrp/craft/%s/%s/%d", rw.name, sw.name, k), func(r *rand.Rand) {
			prv, p := d.Key(r)
			q := d.Gen(r, [][]byte{prv}).(xrpQ)
			q.mtype, q.mdata, q.mfmt = "", "", ""
			n := big.NewInt(rw.n[r.Intn(len(rw.n))])
			if n.Sign() == 0 {
				n.Add(half, big.NewInt(1))
			}
			pt, _ := owcrypt.GenPubkey(fix(n), owcrypt.ECC_CURVE_SECP256K1)
			x := new(big.Int).Mod(new(big.Int).SetBytes(pt[:32]), orderK1)
			inv := new(big.Int).ModInverse(n, orderK1)
			for t := 0; t < 4000; t++ {
				q.seq = uint32(t)
				var o Out
				quiet(func() { o = d.Create(q) })
				if !o.OK || len(o.Msgs) != 1 {
					return
				}
				e, ok := new(big.Int).SetString(o.Msgs[0], 16)
				if !ok {
					return
				}
				s := new(big.Int).Mul(x, new(big.Int).SetBytes(prv))
				s.Add(s, e).Mul(s, inv).Mod(s, orderK1)
				if s.Cmp(half) > 0 {
					s.Sub(orderK1, s)
				}
				if sw.ok(fix(s)) && s.Sign() > 0 {
					o = create(d, q)
					combine(d, q, o.Tx, []SP{{vlib.H(append(fix(x), fix(s)...)), p}})
					return
				}
			}
		})
	}
}

// quiet: a call that is only part of a search and is not recorded
func quiet(f func()) {
	defer func() { recover() }()
	f()
}
