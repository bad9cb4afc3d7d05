//go:build go1.22

// The legacy Bitcoin test-network driver (P22).
package main

import (
	"encoding/hex"
	"errors"

	d "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type drvLeg struct{}

func unLeg(v []Un, prvs [][]byte) (r []d.TxUnlock) {
	for i, x := range v {
		u := d.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amt}
		if i < len(prvs) {
			u.PrivateKey = vlib.B(prvs[i])
		}
		r = append(r, u)
	}
	return
}

// one signature for a single-key input, every signature present for a multisig one
func sigsLeg(hs []Hash) (r []d.SignaturePubkey) {
	for _, h := range hs {
		if h.N == 0 {
			x := d.SignaturePubkey{}
			if !h.NoNorm && len(h.Sigs) > 0 {
				x = d.SignaturePubkey{Signature: vlib.B(h.Sigs[0].Sig), Pubkey: vlib.B(h.Sigs[0].Pub)}
			}
			r = append(r, x)
			continue
		}
		for _, s := range h.Sigs {
			if len(s.Sig) != 0 || len(s.Pub) != 0 {
				r = append(r, d.SignaturePubkey{Signature: vlib.B(s.Sig), Pubkey: vlib.B(s.Pub)})
			}
		}
	}
	return
}
func (drvLeg) Nets() []*Prof {
	hrp := d.Bech32Prefix
	return []*Prof{{"leg", "BTCTestnet", []byte{d.P2PKHPrefix}, []byte{d.P2SHPrefix}, nil, hrp[:len(hrp)-1]}}
}
func (drvLeg) Create(q *Req, p *Prof) (string, error) {
	var vi []d.Vin
	var vo []d.Vout
	for _, v := range q.Vins {
		vi = append(vi, d.Vin{TxID: v.TxID, Vout: v.Vout})
	}
	for _, v := range q.Vouts {
		vo = append(vo, d.Vout{Address: v.Addr, Amount: v.Amt})
	}
	return d.CreateEmptyRawTransaction(vlib.A(vi), vlib.A(vo), q.Lock, q.RBF)
}
func (drvLeg) CreateOmni(q *Req, o *Omni, p *Prof) (string, error) { return "", errors.New("none") }
func (drvLeg) CreateAsset(q *Req, to []Asset, change Vout, p *Prof) (string, error) {
	return "", errors.New("none")
}
func (drvLeg) Digest(tx string, un []Un, seg bool, p *Prof) ([]Hash, error) {
	r, err := d.CreateRawTransactionHashForSig(tx, vlib.A(unLeg(un, nil)))
	vlib.Res(r)
	var out []Hash
	for i, h := range r {
		x := Hash{Hash: h, Sigs: []Sig{{ST: 1}}}
		if i < len(un) {
			if rd, _ := hex.DecodeString(un[i].Redeem); len(rd) >= 37 && len(un[i].Lock) == 46 {
				x.N = rd[0] - 0x50
				x.Sigs = nil
				for k := 1; k+34 <= len(rd); k += 34 {
					x.Keys = append(x.Keys, vlib.H(rd[k+1:k+34]))
					x.Sigs = append(x.Sigs, Sig{ST: 1})
				}
			}
		}
		out = append(out, x)
	}
	return out, err
}
func (drvLeg) Sign(hash string, prv []byte) ([]byte, []byte, error) {
	s, err := d.SignRawTransactionHash([]string{hash}, vlib.A([]d.TxUnlock{{PrivateKey: vlib.B(prv)}}))
	if len(s) != 1 {
		return nil, nil, err
	}
	vlib.Res(s)
	return append([]byte{}, s[0].Signature...), append([]byte{}, s[0].Pubkey...), err
}
func (drvLeg) Insert(tx string, hs []Hash, un []Un, seg bool) (string, error) {
	return d.InsertSignatureIntoEmptyTransaction(tx, vlib.A(sigsLeg(hs)), vlib.A(unLeg(un, nil)))
}
func (drvLeg) Direct(tx string, un []Un, prvs [][]byte) (string, error) {
	return d.SignEmptyRawTransaction(tx, vlib.A(unLeg(un, prvs)))
}
func (drvLeg) Verify(tx string, un []Un, seg bool, p *Prof) bool {
	return d.VerifyRawTransaction(tx, vlib.A(unLeg(un, nil)))
}
func (drvLeg) Multi(m byte, keys [][]byte, seg bool, p *Prof) (string, string, error) {
	return d.CreateMultiSig(m, vlib.A(keys))
}
func (drvLeg) Decode(tx []byte, seg bool) (*Dec, error) {
	t, err := d.DecodeRawTransaction(vlib.B(tx))
	if t == nil || err != nil {
		return nil, err
	}
	r := &Dec{Ver: t.Version, Lock: t.LockTime, Wit: t.Witness != nil, NOut: len(t.Vouts)}
	for _, v := range t.Vins {
		r.Ins = append(r.Ins, DecIn{v.GetTxID(), v.GetVout(), 0})
	}
	return r, nil
}
