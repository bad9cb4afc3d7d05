#!/usr/bin/env python3
"""Writes the adapters harness/btc/drv_*.go from one template."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = '''//go:build go1.22

// Generated by tools/genbtc.py.
package main

import (
	"errors"

	d "github.com/blocktree/go-owcdrivers/@PKG@"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type drv@N@ struct{}

func pre@N@(p *Prof) d.AddressPrefix {
	return d.AddressPrefix{P2PKHPrefix: vlib.B(p.PKH), P2WPKHPrefix: vlib.B(p.SH), @SH2@Bech32Prefix: p.HRP}
}
func ins@N@(v []Vin) (r []d.Vin) {
	for _, x := range v {
		r = append(r, d.Vin{TxID: x.TxID, Vout: x.Vout})
	}
	return
}
func outs@N@(v []Vout) (r []d.Vout) {
	for _, x := range v {
		r = append(r, d.Vout{Address: x.Addr, Amount: x.Amt})
	}
	return
}
func un@N@(v []Un) (r []d.TxUnlock) {
	for _, x := range v {
		r = append(r, d.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amt, SigType: x.ST})
	}
	return
}
func hs@N@(v []Hash) (r []d.TxHash) {
	for _, x := range v {
		h := d.TxHash{Hash: x.Hash, NRequired: x.N}
		if x.N == 0 {
			if !x.NoNorm {
				h.Normal = &d.NormalTx{Address: x.Addr}
				if len(x.Sigs) > 0 {
					h.Normal.SigType = x.Sigs[0].ST
					h.Normal.SigPub = d.SignaturePubkey{Signature: vlib.B(x.Sigs[0].Sig), Pubkey: vlib.B(x.Sigs[0].Pub)}
				}
			}
		} else {
			for i, s := range x.Sigs {
				k := ""
				if i < len(x.Keys) {
					k = x.Keys[i]
				}
				h.Multi = append(h.Multi, d.MultiTx{Pubkey: k, SigType: s.ST, SigPub: d.SignaturePubkey{Signature: vlib.B(s.Sig), Pubkey: vlib.B(s.Pub)}})
			}
		}
		r = append(r, h)
	}
	return
}

@CREATE@
func (drv@N@) Nets() []*Prof {
	mk := func(net string, a d.AddressPrefix) *Prof {
		return &Prof{"@L@", net, a.P2PKHPrefix, a.P2WPKHPrefix, @ASH2@, a.Bech32Prefix}
	}
	return []*Prof{@NETS@}
}
func (drv@N@) Digest(tx string, un []Un, seg bool, p *Prof) ([]Hash, error) {
	r, err := d.CreateRawTransactionHashForSig(tx, vlib.A(un@N@(un))@SEG@, pre@N@(p))
	vlib.Res(r)
	var out []Hash
	for _, h := range r {
		x := Hash{Hash: h.GetTxHashHex(), N: h.NRequired}
		if h.IsMultisig() {
			x.Keys = h.GetMultiTxPubkeys()
			for _, m := range h.Multi {
				x.Sigs = append(x.Sigs, Sig{ST: m.SigType})
			}
		} else {
			x.Addr = h.GetNormalTxAddress()
			x.Sigs = []Sig{{ST: h.Normal.SigType}}
		}
		out = append(out, x)
	}
	return out, err
}
func (drv@N@) Sign(hash string, prv []byte) ([]byte, []byte, error) {
	s, err := d.SignRawTransactionHash(hash, vlib.B(prv))
	if s == nil {
		return nil, nil, err
	}
	vlib.Res(s)
	return append([]byte{}, s.Signature...), append([]byte{}, s.Pubkey...), err
}
func (drv@N@) Insert(tx string, hs []Hash, un []Un, seg bool) (string, error) {
	return d.InsertSignatureIntoEmptyTransaction(tx, vlib.A(hs@N@(hs)), vlib.A(un@N@(un))@SEG@)
}
func (drv@N@) Verify(tx string, un []Un, seg bool, p *Prof) bool {
	return d.VerifyRawTransaction(tx, vlib.A(un@N@(un))@SEG@, pre@N@(p))
}
func (drv@N@) Multi(m byte, keys [][]byte, seg bool, p *Prof) (string, string, error) {
	return d.CreateMultiSig(m, vlib.A(keys)@SEG@, pre@N@(p))
}
func (drv@N@) Decode(tx []byte, seg bool) (*Dec, error) {
	t, err := d.DecodeRawTransaction(vlib.B(tx), seg)
	if t == nil || err != nil {
		return nil, err
	}
	r := &Dec{Ver: t.Version, Lock: t.LockTime, Wit: t.Witness, NOut: len(t.Vouts)}
	for _, v := range t.Vins {
		r.Ins = append(r.Ins, DecIn{v.GetTxID(), v.GetVout(), v.GetUTXOType()})
	}
	return r, nil
}
'''
PLAIN = '''func (drv@N@) Create(q *Req, p *Prof) (string, error) {
	return d.CreateEmptyRawTransaction(vlib.A(ins@N@(q.Vins)), vlib.A(outs@N@(q.Vouts)), q.Lock, q.RBF, pre@N@(p))
}
'''
ZEN = '''func (drv@N@) Create(q *Req, p *Prof) (string, error) {
	return d.CreateEmptyRawTransaction(vlib.A(ins@N@(q.Vins)), vlib.A(outs@N@(q.Vouts)), q.Lock, q.RBF, pre@N@(p), q.BH, q.Height)
}
'''
NOCREATE = '''func (drv@N@) Create(q *Req, p *Prof) (string, error) { return "", errors.New("none") }
'''
OM = '''func (drv@N@) CreateOmni(q *Req, o *Omni, p *Prof) (string, error) {
	return d.@OF@(vlib.A(ins@N@(q.Vins)), vlib.A(outs@N@(q.Vouts)), d.OmniStruct{TxType: o.Typ, PropertyId: o.Prop, Amount: o.Amt, Ecosystem: o.Eco, Memo: o.Memo, Address: o.Addr}, q.Lock, q.RBF, pre@N@(p))
}
'''
NOOM = '''func (drv@N@) CreateOmni(q *Req, o *Omni, p *Prof) (string, error) { return "", errors.New("none") }
'''
AS = '''func (drv@N@) CreateAsset(q *Req, to []Asset, change Vout, p *Prof) (string, error) {
	var ts []d.AssetTransfer
	for _, x := range to {
		ts = append(ts, d.AssetTransfer{FirstSellTxID: x.ID, Address: x.Addr, Amount: x.Amt})
	}
	return d.CreateEmptyAssetRawTransaction(vlib.A(ins@N@(q.Vins)), vlib.A(ts), d.Vout{Address: change.Addr, Amount: change.Amt}, q.Lock, q.RBF, pre@N@(p))
}
'''
NOAS = '''func (drv@N@) CreateAsset(q *Req, to []Asset, change Vout, p *Prof) (string, error) {
	return "", errors.New("none")
}
'''
D = [("btc", "btcTransaction"), ("hc", "hcTransaction"), ("cxc", "cxcTransaction"), ("zen", "zencashTransaction"),
     ("omni", "omniTransaction"), ("bch", "bitcoincashTransaction"), ("bsv", "bitcoinsvTransaction")]
for n, pkg in D:
    c = (ZEN if n == "zen" else NOCREATE if n == "omni" else PLAIN) + (OM if n in ("omni", "bch", "bsv") else NOOM) + (AS if n == "cxc" else NOAS)
    s = T.replace("@CREATE@", c).replace("@OF@", "CreateEmptyRawTransaction" if n == "omni" else "CreateEmptyOmniRawTransaction")
    s = s.replace("@SEG@", "" if n == "omni" else ", seg").replace("@SH2@", "P2SHPrefix: vlib.B(p.SH2), " if n in ("btc", "bch", "bsv") else "")
    nets = {"omni": "BTCMainnet BTCTestnet", "zen": "ZENMainnet", "hc": "HCMainnet HCTestnet"}.get(n, "BTCMainnet BTCTestnet LTCMainnet LTCTestnet ZECMainnet ZECTestnet BCHMainnet BCHTestnet").split()
    s = s.replace("@NETS@", ", ".join('mk("%s", d.%sAddressPrefix)' % (x, x) for x in nets)).replace("@L@", n)
    s = s.replace("@ASH2@", "a.P2SHPrefix" if n in ("btc", "bch", "bsv") else "nil")
    s = s.replace("@N@", n.capitalize()).replace("@PKG@", pkg)
    if "errors.New" not in s:
        s = s.replace('\t"errors"\n\n', "")
    open(f"{V}/harness/btc/drv_{n}.go", "w").write(s)
