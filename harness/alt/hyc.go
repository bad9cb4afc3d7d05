//go:build go1.22

package main

import (
	"github.com/blocktree/go-owcdrivers/hypercashTransaction"
	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

// HyperCash
type hyc struct{ fork }

func hycIns(q fkQ) (is []hypercashTransaction.Vin) {
	for _, i := range q.ins {
		is = append(is, hypercashTransaction.Vin{TxID: i.txid, Vout: i.vout, Tree: i.tree, Amount: i.amt, LockScript: i.lock, BlockHeight: i.height, BlockIndex: i.index})
	}
	return
}
func (d hyc) Create(x interface{}) Out {
	q := x.(fkQ)
	var os []hypercashTransaction.Vout
	for _, o := range q.outs {
		os = append(os, hypercashTransaction.Vout{Address: o.to, Amount: o.amt, PkScriptVersion: o.ver})
	}
	if !q.omni {
		return outs(hypercashTransaction.CreateEmptyTransactionAndHash(vlib.A(hycIns(q)), vlib.A(os), q.lock, q.expiry))
	}
	var ch *hypercashTransaction.Vout
	if len(os) > 1 {
		ch = &os[1]
	}
	return outs(hypercashTransaction.CreateOmniEmptyTransactionAndHash(vlib.A(hycIns(q)), &vlib.A(os)[0], vlib.A(ch), q.tokens, q.prop, q.lock, q.expiry))
}
func (hyc) Sign(msg string, prv []byte) (string, error) {
	s, err := hypercashTransaction.SignTransaction(msg, vlib.B(prv))
	return vlib.H(s), err
}
func (hyc) Combine(x interface{}, tx string, sp []SP) (bool, string, error) {
	l, ok := rawSPs(sp)
	if !ok {
		return false, "", nil
	}
	var ps []*hypercashTransaction.SigPub
	for _, s := range l {
		ps = append(ps, &hypercashTransaction.SigPub{Signature: vlib.B(s[0]), PublicKey: vlib.B(s[1])})
	}
	pass, out := hypercashTransaction.VerifyAndCombineTransaction(tx, vlib.A(ps))
	return pass, out, nil
}
func (hyc) List(tx string) (l []Ev, ok bool) {
	vs, err := hypercashTransaction.GetVinList(tx)
	for _, v := range vs {
		l = append(l, Ev{"txid": v.TxID, "vout": vlib.U32(v.Vout)})
	}
	return l, err == nil
}
