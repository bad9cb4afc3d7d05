//go:build go1.22

// Generated by tools/genbtc.py.
package main

import (
	"errors"

	d "github.com/blocktree/go-owcdrivers/hcTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type drvHc struct{}

func preHc(p *Prof) d.AddressPrefix {
	return d.AddressPrefix{P2PKHPrefix: vlib.B(p.PKH), P2WPKHPrefix: vlib.B(p.SH), Bech32Prefix: p.HRP}
}
func insHc(v []Vin) (r []d.Vin) {
	for _, x := range v {
		r = append(r, d.Vin{TxID: x.TxID, Vout: x.Vout})
	}
	return
}
func outsHc(v []Vout) (r []d.Vout) {
	for _, x := range v {
		r = append(r, d.Vout{Address: x.Addr, Amount: x.Amt})
	}
	return
}
func unHc(v []Un) (r []d.TxUnlock) {
	for _, x := range v {
		r = append(r, d.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amt, SigType: x.ST})
	}
	return
}
func hsHc(v []Hash) (r []d.TxHash) {
	for _, x := range v {
		h := d.TxHash{Hash: x.Hash, NRequired: x.N}
		if x.N == 0 {
			if !x.NoNorm {
				h.Normal = &d.NormalTx{Address: x.Addr}
				if len(x.Sigs) > 0 {
					h.Normal.SigType = x.Sigs[0].ST
					h.Normal.SigPub = d.SignaturePubkey{Signature: vlib.B(x.Sigs[0].Sig), Pubkey: vlib.B(x.Sigs[0].Pub)}
				}
			}
		} else {
			for i, s := range x.Sigs {
				k := ""
				if i < len(x.Keys) {
					k = x.Keys[i]
				}
				h.Multi = append(h.Multi, d.MultiTx{Pubkey: k, SigType: s.ST, SigPub: d.SignaturePubkey{Signature: vlib.B(s.Sig), Pubkey: vlib.B(s.Pub)}})
			}
		}
		r = append(r, h)
	}
	return
}

func (drvHc) Create(q *Req, p *Prof) (string, error) {
	return d.CreateEmptyRawTransaction(vlib.A(insHc(q.Vins)), vlib.A(outsHc(q.Vouts)), q.Lock, q.RBF, preHc(p))
}
func (drvHc) CreateOmni(q *Req, o *Omni, p *Prof) (string, error) { return "", errors.New("none") }
func (drvHc) CreateAsset(q *Req, to []Asset, change Vout, p *Prof) (string, error) {
	return "", errors.New("none")
}

func (drvHc) Nets() []*Prof {
	mk := func(net string, a d.AddressPrefix) *Prof {
		return &Prof{"hc", net, a.P2PKHPrefix, a.P2WPKHPrefix, nil, a.Bech32Prefix}
	}
	return []*Prof{mk("HCMainnet", d.HCMainnetAddressPrefix), mk("HCTestnet", d.HCTestnetAddressPrefix)}
}
func (drvHc) Digest(tx string, un []Un, seg bool, p *Prof) ([]Hash, error) {
	r, err := d.CreateRawTransactionHashForSig(tx, vlib.A(unHc(un)), seg, preHc(p))
	vlib.Res(r)
	var out []Hash
	for _, h := range r {
		x := Hash{Hash: h.GetTxHashHex(), N: h.NRequired}
		if h.IsMultisig() {
			x.Keys = h.GetMultiTxPubkeys()
			for _, m := range h.Multi {
				x.Sigs = append(x.Sigs, Sig{ST: m.SigType})
			}
		} else {
			x.Addr = h.GetNormalTxAddress()
			x.Sigs = []Sig{{ST: h.Normal.SigType}}
		}
		out = append(out, x)
	}
	return out, err
}
func (drvHc) Sign(hash string, prv []byte) ([]byte, []byte, error) {
	s, err := d.SignRawTransactionHash(hash, vlib.B(prv))
	if s == nil {
		return nil, nil, err
	}
	vlib.Res(s)
	return append([]byte{}, s.Signature...), append([]byte{}, s.Pubkey...), err
}
func (drvHc) Insert(tx string, hs []Hash, un []Un, seg bool) (string, error) {
	return d.InsertSignatureIntoEmptyTransaction(tx, vlib.A(hsHc(hs)), vlib.A(unHc(un)), seg)
}
func (drvHc) Verify(tx string, un []Un, seg bool, p *Prof) bool {
	return d.VerifyRawTransaction(tx, vlib.A(unHc(un)), seg, preHc(p))
}
func (drvHc) Multi(m byte, keys [][]byte, seg bool, p *Prof) (string, string, error) {
	return d.CreateMultiSig(m, vlib.A(keys), seg, preHc(p))
}
func (drvHc) Decode(tx []byte, seg bool) (*Dec, error) {
	t, err := d.DecodeRawTransaction(vlib.B(tx), seg)
	if t == nil || err != nil {
		return nil, err
	}
	r := &Dec{Ver: t.Version, Lock: t.LockTime, Wit: t.Witness, NOut: len(t.Vouts)}
	for _, v := range t.Vins {
		r.Ins = append(r.Ins, DecIn{v.GetTxID(), v.GetVout(), v.GetUTXOType()})
	}
	return r, nil
}
