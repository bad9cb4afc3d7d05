//go:build go1.22

package main

import (
	"math/rand"
	"strings"

	"github.com/binance-chain/go-sdk/types/msg"
	"github.com/blocktree/go-owcdrivers/binancechainTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/btcsuite/btcutil/bech32"
)

type bnb struct{}
type bnbQ struct {
	from, to, denom          string
	amt, acct, seq, source   int64
	memo                     string
}

const b32alpha = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func b32(hrp string, b []byte) string {
	d, _ := bech32.ConvertBits(b, 8, 5, true)
	t, _ := bech32.Encode(hrp, d)
	return t
}
func bnbAddr(b []byte) string {
	return b32("bnb", b)
}
func (bnb) Name() string { return "bnb" }
func (bnb) Multi() bool  { return false }
func (bnb) Key(r *rand.Rand) ([]byte, string) {
	k := ecKey(r)
	return k, vlib.H(pubK1(k))
}
func (bnb) Gen(r *rand.Rand, keys [][]byte) interface{} {
	s := func() int64 {
		if r.Intn(4) == 0 {
			return 0
		}
		return int64(vlib.Amount(r, 63))
	}
	return bnbQ{bnbAddr(vlib.HashN(r, 20)), bnbAddr(vlib.HashN(r, 20)), pick(r, "BNB", "COS-2E4", "a<&>\"b"), int64(vlib.Amount(r, 53)) + 1, s(), s(), s(), anyText(r)}
}
func (bnb) Vary(r *rand.Rand, x interface{}) interface{} {
	q := x.(bnbQ)
	switch r.Intn(8) {
	case 0:
		q.from = bnbAddr(vlib.HashN(r, 20))
	case 1:
		q.to = bnbAddr(vlib.HashN(r, 20))
	case 2:
		q.denom += "X"
	case 3:
		q.amt = q.amt/2 + 7
	case 4:
		q.acct ^= 1
	case 5:
		q.seq ^= 1
	case 6:
		q.source ^= 1
	case 7:
		q.memo += "m"
	}
	return q
}
func (d bnb) Grid(r *rand.Rand, emit func(interface{})) {
	g := func() bnbQ { return d.Gen(r, nil).(bnbQ) }
	for _, x := range append([]uint64{9007199254740993, 123456789012345678, 100000000000000000, 9000000000000000000, 1<<53 + 2}, bounds64...) {
		if x >= 1<<63 {
			continue
		}
		if x > 0 {
			q := g()
			q.amt = int64(x)
			emit(q)
		}
		q := g()
		q.acct = int64(x)
		emit(q)
		q = g()
		q.seq = int64(x)
		emit(q)
		q = g()
		q.source = int64(x)
		emit(q)
	}
	for _, t := range specials {
		q := g()
		q.memo = t
		emit(q)
		if t != "" {
			q = g()
			q.denom = t
			emit(q)
		}
	}
	good := bnbAddr(vlib.HashN(r, 20))
	for _, op := range []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "empty"} {
		for k := 0; k < 3; k++ {
			q := g()
			q.to = vlib.CorruptText(r, op, good, b32alpha)
			emit(q)
			q = g()
			q.from = vlib.CorruptText(r, op, good, b32alpha)
			emit(q)
		}
	}
	b := vlib.Bytes(r, 20)
	for _, t := range []string{strings.ToUpper(good), bnbAddr(b[:19]), bnbAddr(append(b, 1)), bnbAddr(nil), bnbAddr(vlib.Bytes(r, 32)), b32("tbnb", b),
		b32("cosmos", b), "bnb", "bnb1", "BNB" + good[3:], good[:3] + strings.ToUpper(good[3:])} {
		q := g()
		q.to = t
		emit(q)
		q = g()
		q.from = t
		emit(q)
	}
}
func (bnb) Ev(x interface{}) Ev {
	q := x.(bnbQ)
	return Ev{"from": text(q.from), "to": text(q.to), "denom": q.denom, "amt": vlib.U64(uint64(q.amt)), "acct": vlib.U64(uint64(q.acct)), "seq": vlib.U64(uint64(q.seq)),
		"source": vlib.U64(uint64(q.source)), "memo": q.memo}
}
func (bnb) Create(x interface{}) Out {
	q := x.(bnbQ)
	return outOf(binancechainTransaction.CreateEmptyTransactionAndHash(q.from, q.to, q.denom, q.amt, q.acct, q.seq, q.source, q.memo))
}
func (bnb) Sign(msg string, prv []byte) (string, error) {
	s, err := binancechainTransaction.SignRawTransaction(msg, vlib.B(prv))
	return vlib.H(s), err
}
func (bnb) X(x interface{}) Ev { return Ev{} }
func (bnb) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	s, ok := single(sp)
	if !ok {
		return false, "", nil
	}
	pass, out := binancechainTransaction.VerifyAndCombineRawTransaction(tx, s.Sig, s.Pub)
	return pass, out, nil
}
func (bnb) Read(out string) Ev {
	t, err := binancechainTransaction.DecodeRawTransaction(vlib.B(vlib.U(out)))
	if err != nil || t == nil {
		return nil
	}
	if len(t.Msgs) != 1 || len(t.Signatures) != 1 || t.Signatures[0].PubKey == nil {
		return Ev{"ok": true, "form": false}
	}
	m, is := t.Msgs[0].(msg.SendMsg)
	if !is || len(m.Inputs) != 1 || len(m.Outputs) != 1 || len(m.Inputs[0].Coins) != 1 || len(m.Outputs[0].Coins) != 1 || m.Inputs[0].Coins[0] != m.Outputs[0].Coins[0] {
		return Ev{"ok": true, "form": false}
	}
	c, g := m.Inputs[0].Coins[0], t.Signatures[0]
	key := g.PubKey.Bytes()
	q := bnbQ{bnbAddr(m.Inputs[0].Address), bnbAddr(m.Outputs[0].Address), c.Denom, c.Amount, g.AccountNumber, g.Sequence, t.Source, t.Memo}
	return Ev{"ok": true, "form": true, "q": bnb{}.Ev(q), "sig": vlib.H(g.Signature), "pub": vlib.H(key[len(key)-33:]), "data": vlib.H(t.Data)}
}
func (bnb) HighS(sig string) string { return hexTry(sig, func(b []byte) []byte { return hiS(b, orderK1) }) }
func (bnb) TamperTx(r *rand.Rand, tx string) string {
	i := strings.Index(tx, "\"msgs\":[") + 8
	j := strings.LastIndex(tx, "],\"sequence\"")
	if j < i {
		return tx
	}
	switch r.Intn(5) {
	case 0:
		return tx[:i] + tx[j:]
	case 1:
		return tx[:j] + "," + tx[i:j] + tx[j:]
	case 2:
		return strings.Replace(tx, "Binance-Chain-Tigris", "Binance-Chain-Nile", 1)
	case 3:
		return strings.Replace(tx, "\"data\":null", "\"data\":\"AQ==\"", 1)
	}
	return strings.Replace(tx, "\"outputs\":[", "\"outputs\":[{\"address\":\""+bnbAddr(vlib.HashN(r, 20))+"\",\"coins\":[{\"amount\":5,\"denom\":\"BNB\"}]},", 1)
}
