//go:build go1.22

package main

import (
	"encoding/hex"
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/cosmosTransaction"
	"github.com/blocktree/go-owcdrivers/evaioTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

type coin struct {
	denom string
	amt   int64
}
type cosMsg struct {
	ty, from, to string
	coins        []coin
}
type cosQ struct {
	chain, memo  string
	acct, seq    int
	gas          int64
	fee          []coin
	nilFee       bool
	msgs         []cosMsg
	ktype, mode  string
}
type cos struct{ eva bool }

func (d cos) Name() string {
	if d.eva {
		return "eva"
	}
	return "atom"
}
func (cos) Multi() bool { return false }
func (cos) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	p, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
	return k, vlib.H(p)
}

// unicode texts with everything JSON treats specially
var specials = []string{"", "memo", "\"", "\\", "a\"b\\c", "<script>&amp;</script>", "\n\r\t", "\b\f", "\x00\x01\x1f\x7f", "é世界", "\u2028\u2029", "😀", "null", "{\"memo\":\"x\"}", " lead and trail ", "'", "/", "%s%d", "\\u0041"}

func anyText(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return strings.Repeat("m", r.Intn(300))
	}
	t := ""
	for k := r.Intn(4); k >= 0; k-- {
		t += specials[r.Intn(len(specials))]
	}
	return t
}
func posAmt(r *rand.Rand) int64 {
	a := int64(vlib.Amount(r, 63))
	if a <= 0 {
		a = 1
	}
	return a
}
func coins(r *rand.Rand, n int) (l []coin) {
	for i := 0; i < n; i++ {
		l = append(l, coin{pick(r, "muon", "uatom", "photon", "neva", "a<b", "stake"), posAmt(r)})
	}
	return
}
func cosAddr(r *rand.Rand) string { return "cosmos1" + vlib.H(vlib.Bytes(r, 19)) }
func (cos) Gen(r *rand.Rand, keys [][]byte) interface{} {
	q := cosQ{chain: pick(r, "gaia-13003", "cosmoshub-4", "evaio-dev", "x&y"), memo: anyText(r), acct: int(vlib.Amount(r, 62)), seq: int(vlib.Amount(r, 62)), gas: int64(vlib.Amount(r, 62)),
		fee: coins(r, r.Intn(4)), ktype: pick(r, "tendermint/PubKeySecp256k1", "other"), mode: pick(r, "block", "sync", "async")}
	for i := range q.fee {
		if r.Intn(3) == 0 {
			q.fee[i].amt = 0
		}
	}
	q.nilFee = len(q.fee) == 0 && r.Intn(2) == 0
	for k := r.Intn(3); k >= 0; k-- {
		q.msgs = append(q.msgs, cosMsg{pick(r, "cosmos-sdk/MsgSend", "other/Msg"), cosAddr(r), cosAddr(r), coins(r, 1+r.Intn(3))})
	}
	return q
}
func (cos) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(cosQ)
	ms := append([]cosMsg{}, q.msgs...)
	for i := range ms {
		ms[i].coins = append([]coin{}, ms[i].coins...)
	}
	q.msgs = ms
	m := &q.msgs[r.Intn(len(q.msgs))]
	switch r.Intn(10) {
	case 0:
		q.chain += "x"
	case 1:
		q.memo += "x"
	case 2:
		q.acct++
	case 3:
		q.seq++
	case 4:
		q.gas++
	case 5:
		q.fee, q.nilFee = append(append([]coin{}, q.fee...), coins(r, 1)...), false
	case 6:
		m.to = cosAddr(r)
	case 7:
		m.coins[0].amt ^= 2
		if m.coins[0].amt == 0 {
			m.coins[0].amt = 9
		}
	case 8:
		m.coins[0].denom += "z"
	case 9:
		m.from = cosAddr(r)
	}
	return q
}
func (d cos) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() cosQ { return d.Gen(r, nil).(cosQ) }
	for _, x := range bounds64 {
		if x >= 1<<63 {
			continue
		}
		q := g()
		q.acct = int(x)
		emit(q)
		q = g()
		q.seq = int(x)
		emit(q)
		q = g()
		q.gas = int64(x)
		emit(q)
		q = g()
		q.msgs[0].coins[0].amt = int64(x)
		emit(q)
		q = g()
		q.fee, q.nilFee = []coin{{"f", int64(x)}}, false
		emit(q)
		q = g()
		q.fee, q.nilFee = append(coins(r, 1), coin{"f", int64(x)}), false
		emit(q)
		q = g()
		q.fee, q.nilFee = append([]coin{{"f", int64(x)}}, coins(r, 1)...), false
		emit(q)
	}
	for _, t := range specials {
		for f := 0; f < 8; f++ {
			q := g()
			m := &q.msgs[len(q.msgs)-1]
			q.fee, q.nilFee = append(q.fee, coin{"f", 1}), false
			*[]*string{&q.memo, &q.chain, &m.ty, &m.from, &m.to, &m.coins[0].denom, &q.fee[0].denom, &q.mode}[f] = t
			emit(q)
		}
	}
	for n := 0; n < 20; n++ {
		q := g()
		q.fee, q.nilFee = coins(r, n), false
		emit(q)
		q = g()
		q.msgs = nil
		for k := 0; k <= n; k++ {
			q.msgs = append(q.msgs, cosMsg{"t", cosAddr(r), cosAddr(r), coins(r, 1+r.Intn(2))})
		}
		emit(q)
		q = g()
		q.msgs[0].coins = coins(r, 1+n)
		emit(q)
		q.msgs[0].coins[n/2].amt = 0
		emit(q)
	}
	for _, nf := range []bool{true, false} {
		q := g()
		q.fee, q.nilFee = nil, nf
		emit(q)
	}
}
func coinsEv(l []coin) []Ev {
	o := []Ev{}
	for _, c := range l {
		o = append(o, Ev{"denom": c.denom, "amt": vlib.U64(uint64(c.amt))})
	}
	return o
}
func (cos) Ev(x interface{}) Ev {
	q := x.(cosQ)
	ms := []Ev{}
	for _, m := range q.msgs {
		ms = append(ms, Ev{"type": m.ty, "from": m.from, "to": m.to, "coins": coinsEv(m.coins)})
	}
	return Ev{"chain": q.chain, "memo": q.memo, "acct": vlib.U64(uint64(q.acct)), "seq": vlib.U64(uint64(q.seq)), "gas": vlib.U64(uint64(q.gas)), "fee": coinsEv(q.fee),
		"msgs": ms, "ktype": q.ktype, "mode": q.mode}
}
func atomTx(q cosQ) cosmosTransaction.TxStruct {
	var fc cosmosTransaction.Coins
	if !q.nilFee {
		fc = cosmosTransaction.Coins{}
	}
	for _, c := range q.fee {
		fc = append(fc, cosmosTransaction.NewCoin(c.denom, c.amt))
	}
	var ms []cosmosTransaction.Message
	for _, m := range q.msgs {
		var cs cosmosTransaction.Coins
		for _, c := range m.coins {
			cs = append(cs, cosmosTransaction.NewCoin(c.denom, c.amt))
		}
		ms = append(ms, cosmosTransaction.NewMessage(m.ty, cosmosTransaction.NewMsgSend(m.from, m.to, cs)))
	}
	fee := cosmosTransaction.NewStdFee(q.gas, fc)
	return cosmosTransaction.NewTxStruct(q.chain, q.memo, q.acct, q.seq, &fee, ms)
}
func evaTx(q cosQ) evaioTransaction.TxStruct {
	var fc evaioTransaction.Coins
	if !q.nilFee {
		fc = evaioTransaction.Coins{}
	}
	for _, c := range q.fee {
		fc = append(fc, evaioTransaction.NewCoin(c.denom, c.amt))
	}
	var ms []evaioTransaction.Message
	for _, m := range q.msgs {
		var cs evaioTransaction.Coins
		for _, c := range m.coins {
			cs = append(cs, evaioTransaction.NewCoin(c.denom, c.amt))
		}
		ms = append(ms, evaioTransaction.NewMessage(m.ty, evaioTransaction.NewMsgSend(m.from, m.to, cs)))
	}
	fee := evaioTransaction.NewStdFee(q.gas, fc)
	return evaioTransaction.NewTxStruct(q.chain, q.memo, q.acct, q.seq, &fee, ms)
}
func (d cos) Create(x interface{}) Out {
	if d.eva {
		return outOf(vlib.A(evaTx(x.(cosQ))).CreateEmptyTransactionAndHash())
	}
	return outOf(vlib.A(atomTx(x.(cosQ))).CreateEmptyTransactionAndHash())
}
func (d cos) Sign(msg string, prv []byte) (string, error) {
	if d.eva {
		return evaioTransaction.SignTransactionHash(msg, vlib.B(prv))
	}
	return cosmosTransaction.SignTransactionHash(msg, vlib.B(prv))
}
func (d cos) X(x interface{}) Ev { return d.Ev(x) }
func (d cos) Verify(tx string, sp []SP) bool {
	s, ok := single(sp)
	if !ok {
		return false
	}
	p, err := hex.DecodeString(s.Pub)
	if err != nil {
		return false
	}
	if d.eva {
		return evaioTransaction.VerifyTransactionSig(tx, s.Sig, vlib.B(p))
	}
	return cosmosTransaction.VerifyTransactionSig(tx, s.Sig, vlib.B(p))
}
func (d cos) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	s, ok := single(sp)
	if !ok {
		return false, "", nil
	}
	p, err := hex.DecodeString(s.Pub)
	if err != nil {
		return false, "", err
	}
	q := x.(cosQ)
	if d.eva {
		if !evaioTransaction.VerifyTransactionSig(tx, s.Sig, vlib.B(p)) {
			return false, "", nil
		}
		j, err := vlib.A(evaTx(q)).CreateJsonForSend(s.Sig, owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1), q.ktype, q.mode)
		if err != nil {
			return false, "", err
		}
		return true, j.Raw, nil
	}
	if !cosmosTransaction.VerifyTransactionSig(tx, s.Sig, vlib.B(p)) {
		return false, "", nil
	}
	j, err := vlib.A(atomTx(q)).CreateJsonForSend(s.Sig, owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1), q.ktype, q.mode)
	if err != nil {
		return false, "", err
	}
	return true, j.Raw, nil
}
func (cos) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderK1) }) }
