//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"

	"github.com/blocktree/go-owcdrivers/ontologyTransaction"
	"github.com/blocktree/go-owcdrivers/waykichainTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

// WaykiChain
type wicc struct{}
type wiccQ struct {
	from, to, app    string
	amt, fee, height int64
	typ              byte
}

var wiccTypes = []byte{2, 3, 4, 11}

// the values at which the number takes one digit more
var wiccBounds = func() (l []int64) {
	x := int64(0)
	for k := uint(7); k < 63; k += 7 {
		x += 1 << k
		l = append(l, x-1, x, x+1)
	}
	return append(l, math.MaxInt64, math.MaxInt64-1)
}()

func wiccAmt(r *rand.Rand) int64 {
	if r.Intn(4) == 0 {
		return wiccBounds[r.Intn(len(wiccBounds))]
	}
	return int64(vlib.Amount(r, 63))
}
func wiccReg(r *rand.Rand) string {
	t := fmt.Sprintf("%d-%d", wiccAmt(r), vlib.Amount(r, 16))
	if r.Intn(8) == 0 {
		t = []string{" ", "\t", "\n ", "0"}[r.Intn(4)] + t
	}
	if r.Intn(8) == 0 {
		t += []string{" ", "\r\n", "\f"}[r.Intn(3)]
	}
	return t
}
func wiccAddr(h []byte, r *rand.Rand) string {
	return b58chk("wicc", append([]byte{[]byte{0x49, 0x87}[r.Intn(2)]}, h...))
}
func (wicc) Name() string { return "wicc" }
func (wicc) Multi() bool  { return false }
func (wicc) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubK1(k))
}
func wiccOf(r *rand.Rand, typ byte, key []byte) wiccQ {
	q := wiccQ{wiccReg(r), wiccAddr(vlib.HashN(r, 20), r), "", wiccAmt(r), wiccAmt(r), wiccAmt(r), typ}
	switch typ {
	case 2:
		q.from = hexCase(r, pubK1(key))
	case 4:
		q.app = wiccReg(r)
		q.to = hexCase(r, vlib.Bytes(r, []int{0, 1, 2, 40, 75, 76, 127, 128, 251, 252, 253, 254, 255, 256, 300}[r.Intn(15)]))
	case 11:
		q.app = []string{"WICC", "WUSD", "WGRT", "W", "a coin", string(vlib.Bytes(r, 1+r.Intn(300)))}[r.Intn(6)]
	}
	return q
}
func (wicc) Gen(r *rand.Rand, keys [][]byte) interface{} {
	k := ecKey(r)
	if len(keys) > 0 {
		k = keys[0]
	}
	return wiccOf(r, wiccTypes[r.Intn(4)], k)
}
func (wicc) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(wiccQ)
	for {
		switch r.Intn(6) {
		case 0:
			q.fee ^= 1 << uint(r.Intn(62))
		case 1:
			q.height ^= 1 << uint(r.Intn(62))
		case 2:
			if q.typ == 2 {
				continue
			}
			q.amt ^= 1 << uint(r.Intn(62))
		case 3:
			if q.typ == 2 {
				q.from = vlib.H(pubK1(ecKey(r)))
			} else {
				q.from = wiccReg(r) + "1"
			}
		case 4:
			switch q.typ {
			case 2:
				continue
			case 4:
				q.to += "00"
			default:
				q.to = wiccAddr(vlib.Hash32(r)[:20], r)
			}
		case 5:
			switch q.typ {
			case 4:
				q.app = wiccReg(r)
			case 11:
				q.app += "x"
			default:
				continue
			}
		}
		return q
	}
}
func (d wicc) Grid(r *rand.Rand, emit func(interface{})) {
	k := ecKey(r)
	for _, typ := range wiccTypes {
		g := func() wiccQ { return wiccOf(r, typ, k) }
		nums := append([]int64{0, 1, -1, -2, -127, -128, -129, -1 << 31, math.MinInt64}, wiccBounds...)
		for j := 0; j < 20; j++ {
			nums = append(nums, int64(bounds64[r.Intn(len(bounds64))]))
		}
		for _, x := range nums {
			q := g()
			q.amt = x
			emit(q)
			q = g()
			q.fee = x
			emit(q)
			q = g()
			q.height = x
			emit(q)
			if x >= 0 && typ != 2 {
				q = g()
				q.from = fmt.Sprintf("%d-%d", x, wiccAmt(r))
				emit(q)
				q = g()
				q.from = fmt.Sprintf("%d-%d", wiccAmt(r), x)
				emit(q)
				if typ == 4 {
					q.app = fmt.Sprintf("%d-%d", x, x)
					emit(q)
				}
			}
		}
		for _, t := range []string{"", "-", "1-", "-1", "1", "1-2-3", "1--2", "a-1", "1-a", "1 -2", "1- 2", " 1-2", "1-2\t", "\v1-2", "\u00a01-2", "1-2\u3000", "+1-2", "0x1-2", "1.0-2", "٣-1",
			"9223372036854775808-1", "1-9223372036854775807", "99999999999999999999999-1", "00000000000000000000000000001-02", "1_0-2", "\n1-2\n\r\f", "1-2\x00"} {
			q := g()
			q.from = t
			emit(q)
			q = g()
			q.app = t
			emit(q)
		}
		for _, t := range badHex(r, 33) {
			q := g()
			q.from = t
			emit(q)
			q = g()
			q.to = t
			emit(q)
		}
		for _, op := range b58ops {
			for j := 0; j < 2; j++ {
				q := g()
				q.to = vlib.CorruptText(r, op, wiccAddr(vlib.HashN(r, 20), r), b58)
				emit(q)
			}
		}
		for _, n := range []int{0, 1, 18, 19, 20, 21, 22, 32} {
			q := g()
			q.to = b58chk("wicc", append([]byte{0x49}, vlib.Bytes(r, n)...))
			emit(q)
			q = g()
			q.to = b58chk("wicc", append([]byte{[]byte{0x48, 0x4a, 0x86, 0x88, 0, 5, 0x6f, 0xff}[r.Intn(8)]}, vlib.Bytes(r, 20)...))
			emit(q)
		}
	}
	for typ := 0; typ < 256; typ++ {
		q := d.Gen(r, nil).(wiccQ)
		q.typ = byte(typ)
		emit(q)
	}
	for n := 240; n < 260; n++ {
		q := wiccOf(r, 4, k)
		q.to = vlib.H(vlib.Bytes(r, n))
		emit(q)
		q = wiccOf(r, 11, k)
		q.app = string(vlib.Bytes(r, n))
		emit(q)
	}
	for _, n := range []int{65535, 65536, 65537} {
		if r.Intn(4) == 0 {
			q := wiccOf(r, 4, k)
			q.to = vlib.H(vlib.Bytes(r, n))
			emit(q)
		}
	}
}
func (wicc) Ev(x interface{}) Ev {
	q := x.(wiccQ)
	d := func(n int64) string { return strconv.FormatInt(n, 10) }
	return Ev{"from": text(q.from), "to": text(q.to), "app": text(q.app), "amt": d(q.amt), "fee": d(q.fee), "height": d(q.height), "type": int(q.typ)}
}
func (wicc) X(x interface{}) Ev { return Ev{} }
func (wicc) Create(x interface{}) Out {
	q := x.(wiccQ)
	tx, msg, err := waykichainTransaction.CreateEmptyRawTransactionAndHash(q.from, q.to, q.app, q.amt, q.fee, q.height, q.typ)
	return outOf(tx, msg, err)
}
func (wicc) Sign(msg string, prv []byte) (string, error) {
	s, err := waykichainTransaction.SignRawTransaction(msg, vlib.B(prv))
	return vlib.H(s), err
}
func (wicc) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	l, ok := rawSPs(sp)
	if !ok || len(l) != 1 {
		return false, "", nil
	}
	pass, out := waykichainTransaction.VerifyAndCombineRawTransaction(tx, waykichainTransaction.SigPub{Signature: vlib.B(l[0][0]), PublicKey: vlib.B(l[0][1])})
	return pass, out, nil
}
func (wicc) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderK1) }) }
func (wicc) Craft(r *rand.Rand, msg string, want []byte) (string, string, bool) {
	sig, _, pub, ok := craftK1(r, vlib.U(msg), want)
	return vlib.H(sig), vlib.H(pub), ok
}

// Ontology: signatures of the payer and of the sender
type ont struct{}
type ontQ struct {
	asset           int
	payer, from, to string
	amt             *big.Int
	price, limit    uint64
	v2              bool
}

func ontAddr(h []byte) string { return b58chk("ont", append([]byte{0x17}, h...)) }
func (ont) Name() string      { return "ont" }
func (ont) Multi() bool       { return true }
func (ont) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubR1(k))
}
func ontAmt(r *rand.Rand) *big.Int { return new(big.Int).SetUint64(vlib.Amount(r, 64)) }
func (ont) Gen(r *rand.Rand, keys [][]byte) interface{} {
	n := len(keys)
	if n == 0 {
		n = 1 + r.Intn(2)
	}
	q := ontQ{r.Intn(3), "", ontAddr(vlib.HashN(r, 20)), ontAddr(vlib.HashN(r, 20)), ontAmt(r), vlib.Amount(r, 64), vlib.Amount(r, 64), r.Intn(2) == 0}
	if n > 1 {
		q.payer = ontAddr(vlib.Hash32(r)[:20])
	} else if r.Intn(2) == 0 {
		q.payer = q.from
	}
	if q.v2 && r.Intn(2) == 0 {
		q.amt = new(big.Int).SetBytes(vlib.Bytes(r, 1+r.Intn(33)))
	}
	if r.Intn(6) == 0 {
		q.to = q.from
	}
	return q
}
func (ont) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(ontQ)
	switch r.Intn(6) {
	case 0:
		q.amt = new(big.Int).Xor(q.amt, big.NewInt(1<<uint(r.Intn(62))))
	case 1:
		q.to = ontAddr(vlib.Bytes(r, 20))
	case 2:
		same := q.payer == q.from
		q.from = ontAddr(vlib.Bytes(r, 20))
		if same {
			q.payer = q.from
		}
	case 3:
		q.price ^= 1 << uint(r.Intn(64))
	case 4:
		q.limit ^= 1 << uint(r.Intn(64))
	case 5:
		q.asset = (q.asset + 1) % 3
	}
	return q
}
func (d ont) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() ontQ { return d.Gen(r, nil).(ontQ) }
	var nums []*big.Int
	for k := int64(0); k < 20; k++ {
		nums = append(nums, big.NewInt(k))
	}
	for _, x := range bounds64 {
		nums = append(nums, new(big.Int).SetUint64(x))
	}
	for k := uint(64); k <= 300; k += 4 {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		nums = append(nums, p, new(big.Int).Sub(p, big.NewInt(1)))
	}
	for k := uint(72) * 8; k <= 77*8; k += 4 {
		nums = append(nums, new(big.Int).Lsh(big.NewInt(1), k-1))
	}
	for k := uint(100); k <= 170; k++ {
		nums = append(nums, new(big.Int).Lsh(big.NewInt(1), 8*k))
	}
	for j, x := range nums {
		for v := 0; v < 2; v++ {
			if v == 1 && (x.BitLen() > 64 || j%2 == 0 && j > 60) {
				continue
			}
			q := g()
			q.amt, q.v2 = x, v == 0
			emit(q)
		}
		if j%3 == 0 && x.BitLen() <= 64 {
			q := g()
			q.price = x.Uint64()
			emit(q)
			q = g()
			q.limit = x.Uint64()
			emit(q)
		}
	}
	for _, x := range []int64{-1, -2, -16, -127, -128, -129, -255, -256, math.MinInt64} {
		q := g()
		q.amt, q.v2 = big.NewInt(x), true
		emit(q)
	}
	q := g()
	q.amt, q.v2 = nil, true
	emit(q)
	for _, a := range []int{-1, 3, 4, 255, 256, math.MinInt32} {
		for v := 0; v < 2; v++ {
			q := g()
			q.asset = a
			if v == 0 {
				q.v2, q.amt = false, ontAmt(r)
			} else {
				q.v2 = true
			}
			emit(q)
		}
	}
	put := func(t string) {
		for f := 0; f < 3; f++ {
			q := g()
			*[]*string{&q.payer, &q.from, &q.to}[f] = t
			emit(q)
		}
	}
	put("")
	for _, op := range b58ops {
		put(vlib.CorruptText(r, op, ontAddr(vlib.HashN(r, 20)), b58))
		put(vlib.CorruptText(r, op, ontAddr(vlib.HashN(r, 20)), b58))
	}
	for _, n := range []int{0, 1, 18, 19, 21, 22, 32} {
		put(b58chk("ont", append([]byte{0x17}, vlib.Bytes(r, n)...)))
	}
	for _, p := range []byte{0, 0x16, 0x18, 0x41, 0x97, 0xff} {
		put(b58chk("ont", append([]byte{p}, vlib.Bytes(r, 20)...)))
	}
}
func (ont) Ev(x interface{}) Ev {
	q := x.(ontQ)
	a := "nil"
	if q.amt != nil {
		a = q.amt.String()
	}
	return Ev{"asset": q.asset, "payer": text(q.payer), "from": text(q.from), "to": text(q.to), "amt": a, "price": vlib.U64(q.price), "limit": vlib.U64(q.limit), "v2": q.v2}
}
func (ont) X(x interface{}) Ev { return Ev{} }
func (ont) Create(x interface{}) Out {
	q := x.(ontQ)
	var tx string
	var th *ontologyTransaction.TxHash
	var err error
	if q.v2 {
		var a *big.Int
		if q.amt != nil {
			a = new(big.Int).Set(q.amt)
		}
		tx, th, err = ontologyTransaction.CreateRawTransactionAndHashV2(q.price, q.limit, ontologyTransaction.TxStateV2{AssetType: q.asset, Payer: q.payer, From: q.from, To: q.to, Amount: vlib.A(a)})
	} else {
		tx, th, err = ontologyTransaction.CreateRawTransactionAndHash(q.price, q.limit, ontologyTransaction.TxState{AssetType: q.asset, Payer: q.payer, From: q.from, To: q.to, Amount: q.amt.Uint64()})
	}
	o := Out{OK: err == nil, Tx: tx}
	if th != nil {
		for _, a := range th.Addresses {
			o.Msgs, o.Who = append(o.Msgs, th.GetTxHashHex()), append(o.Who, text(a))
		}
	}
	return o
}
func (ont) SignPub(msg string, prv []byte) (string, string, error) {
	s, err := ontologyTransaction.SignRawTransactionHash(msg, vlib.B(prv))
	if err != nil || s == nil {
		return "", "", err
	}
	return vlib.H(s.Signature), vlib.H(s.PublicKey), nil
}
func (d ont) Sign(msg string, prv []byte) (string, error) {
	s, _, err := d.SignPub(msg, prv)
	return s, err
}
func (ont) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	l, ok := rawSPs(sp)
	if !ok {
		return false, "", nil
	}
	var ps []ontologyTransaction.SigPub
	for _, s := range l {
		ps = append(ps, ontologyTransaction.SigPub{Signature: vlib.B(s[0]), PublicKey: vlib.B(s[1])})
	}
	return ontologyTransaction.VerifyAndCombineRawTransaction(tx, vlib.A(ps))
}
func (ont) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderR1) }) }

func ontRead(tx string) {
	b := vlib.U(tx)
	e := Ev{"op": "ontread", "drv": "ont", "tx": tx, "ok": false, "out": "", "got": Ev{}, "head": ""}
	var t *ontologyTransaction.Transaction
	var err error
	p := vlib.Call(func() {
		if t, err = ontologyTransaction.DecodeRawTransaction(vlib.B(b)); err == nil && t != nil {
			out, _ := t.ToBytes()
			e["ok"], e["out"] = true, vlib.H(out)
			e["head"] = vlib.H([]byte{t.GetVersion(), t.GetTxType()})
			e["got"] = Ev{"nonce": vlib.U32(t.GetNonce()), "price": vlib.U64(t.GetGasPrice()), "limit": vlib.U64(t.GetGasLimit()), "payload": t.GetPayLoad(), "payer": t.GetPayer()}
		}
	})
	e["panic"] = p
	vlib.Rec(e)
}
func (d ont) Extra() {
	for k := 0; k < 60**vlib.FScale; k++ {
		vlib.Scn(fmt.Sprintf("ont/read/%d", k), func(r *rand.Rand) {
			s := open(d, r, 1+k%2)
			if !s.create() && len(s.o.Msgs) == 0 {
				return
			}
			tx := s.o.Tx
			ontRead(tx)
			var sp []SP
			for j := 0; j < []int{1, 2, 1, 2, 3, 5, 17}[k%7]; j++ {
				i := j % len(s.prv)
				sp = append(sp, SP{sign(d, s.o.Msgs[0], s.prv[i]), s.pub[i]})
			}
			if ok, out := combine(d, s.q, tx, sp); ok {
				ontRead(out)
				combine(d, s.q, out, sp) // signed already
				ontRead(out[:r.Intn(len(out))/2*2])
				ontRead(out + []string{"00", "ff"}[r.Intn(2)])
				tx = out
			}
			for j := 0; j < 4; j++ {
				b := vlib.U(tx)
				at := []int{0, 1, 42, len(b) - 1, r.Intn(len(b)), r.Intn(len(b))}[r.Intn(6)]
				b[at] ^= 1 << uint(r.Intn(8))
				ontRead(vlib.H(b))
			}
			ontRead(tx[:r.Intn(50)*2])
			for j := 0; k%10 == 1 && j < len(tx); j += 2 {
				ontRead(tx[:j])
			}
		})
	}
}
