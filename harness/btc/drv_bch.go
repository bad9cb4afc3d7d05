//go:build go1.22

// Generated by tools/genbtc.py.
package main

import (
	"errors"

	d "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type drvBch struct{}

func preBch(p *Prof) d.AddressPrefix {
	return d.AddressPrefix{P2PKHPrefix: vlib.B(p.PKH), P2WPKHPrefix: vlib.B(p.SH), P2SHPrefix: vlib.B(p.SH2), Bech32Prefix: p.HRP}
}
func insBch(v []Vin) (r []d.Vin) {
	for _, x := range v {
		r = append(r, d.Vin{TxID: x.TxID, Vout: x.Vout})
	}
	return
}
func outsBch(v []Vout) (r []d.Vout) {
	for _, x := range v {
		r = append(r, d.Vout{Address: x.Addr, Amount: x.Amt})
	}
	return
}
func unBch(v []Un) (r []d.TxUnlock) {
	for _, x := range v {
		r = append(r, d.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amt, SigType: x.ST})
	}
	return
}
func hsBch(v []Hash) (r []d.TxHash) {
	for _, x := range v {
		h := d.TxHash{Hash: x.Hash, NRequired: x.N}
		if x.N == 0 {
			if !x.NoNorm {
				h.Normal = &d.NormalTx{Address: x.Addr}
				if len(x.Sigs) > 0 {
					h.Normal.SigType = x.Sigs[0].ST
					h.Normal.SigPub = d.SignaturePubkey{Signature: vlib.B(x.Sigs[0].Sig), Pubkey: vlib.B(x.Sigs[0].Pub)}
				}
			}
		} else {
			for i, s := range x.Sigs {
				k := ""
				if i < len(x.Keys) {
					k = x.Keys[i]
				}
				h.Multi = append(h.Multi, d.MultiTx{Pubkey: k, SigType: s.ST, SigPub: d.SignaturePubkey{Signature: vlib.B(s.Sig), Pubkey: vlib.B(s.Pub)}})
			}
		}
		r = append(r, h)
	}
	return
}

func (drvBch) Create(q *Req, p *Prof) (string, error) {
	return d.CreateEmptyRawTransaction(vlib.A(insBch(q.Vins)), vlib.A(outsBch(q.Vouts)), q.Lock, q.RBF, preBch(p))
}
func (drvBch) CreateOmni(q *Req, o *Omni, p *Prof) (string, error) {
	return d.CreateEmptyOmniRawTransaction(vlib.A(insBch(q.Vins)), vlib.A(outsBch(q.Vouts)), d.OmniStruct{TxType: o.Typ, PropertyId: o.Prop, Amount: o.Amt, Ecosystem: o.Eco, Memo: o.Memo, Address: o.Addr}, q.Lock, q.RBF, preBch(p))
}
func (drvBch) CreateAsset(q *Req, to []Asset, change Vout, p *Prof) (string, error) {
	return "", errors.New("none")
}

func (drvBch) Nets() []*Prof {
	mk := func(net string, a d.AddressPrefix) *Prof {
		return &Prof{"bch", net, a.P2PKHPrefix, a.P2WPKHPrefix, a.P2SHPrefix, a.Bech32Prefix}
	}
	return []*Prof{mk("BTCMainnet", d.BTCMainnetAddressPrefix), mk("BTCTestnet", d.BTCTestnetAddressPrefix), mk("LTCMainnet", d.LTCMainnetAddressPrefix), mk("LTCTestnet", d.LTCTestnetAddressPrefix), mk("ZECMainnet", d.ZECMainnetAddressPrefix), mk("ZECTestnet", d.ZECTestnetAddressPrefix), mk("BCHMainnet", d.BCHMainnetAddressPrefix), mk("BCHTestnet", d.BCHTestnetAddressPrefix)}
}
func (drvBch) Digest(tx string, un []Un, seg bool, p *Prof) ([]Hash, error) {
	r, err := d.CreateRawTransactionHashForSig(tx, vlib.A(unBch(un)), seg, preBch(p))
	vlib.Res(r)
	var out []Hash
	for _, h := range r {
		x := Hash{Hash: h.GetTxHashHex(), N: h.NRequired}
		if h.IsMultisig() {
			x.Keys = h.GetMultiTxPubkeys()
			for _, m := range h.Multi {
				x.Sigs = append(x.Sigs, Sig{ST: m.SigType})
			}
		} else {
			x.Addr = h.GetNormalTxAddress()
			x.Sigs = []Sig{{ST: h.Normal.SigType}}
		}
		out = append(out, x)
	}
	return out, err
}
func (drvBch) Sign(hash string, prv []byte) ([]byte, []byte, error) {
	s, err := d.SignRawTransactionHash(hash, vlib.B(prv))
	if s == nil {
		return nil, nil, err
	}
	vlib.Res(s)
	return append([]byte{}, s.Signature...), append([]byte{}, s.Pubkey...), err
}
func (drvBch) Insert(tx string, hs []Hash, un []Un, seg bool) (string, error) {
	return d.InsertSignatureIntoEmptyTransaction(tx, vlib.A(hsBch(hs)), vlib.A(unBch(un)), seg)
}
func (drvBch) Verify(tx string, un []Un, seg bool, p *Prof) bool {
	return d.VerifyRawTransaction(tx, vlib.A(unBch(un)), seg, preBch(p))
}
func (drvBch) Multi(m byte, keys [][]byte, seg bool, p *Prof) (string, string, error) {
	return d.CreateMultiSig(m, vlib.A(keys), seg, preBch(p))
}
func (drvBch) Decode(tx []byte, seg bool) (*Dec, error) {
	t, err := d.DecodeRawTransaction(vlib.B(tx), seg)
	if t == nil || err != nil {
		return nil, err
	}
	r := &Dec{Ver: t.Version, Lock: t.LockTime, Wit: t.Witness, NOut: len(t.Vouts)}
	for _, v := range t.Vins {
		r.Ins = append(r.Ins, DecIn{v.GetTxID(), v.GetVout(), v.GetUTXOType()})
	}
	return r, nil
}
