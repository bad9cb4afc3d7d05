//go:build go1.22

// Recorder of the Bitcoin-family drivers (P07-P13).
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

type Ev = vlib.Ev

var drvs = map[string]Drv{"btc": drvBtc{}, "hc": drvHc{}, "cxc": drvCxc{}, "zen": drvZen{}, "omni": drvOmni{}, "bch": drvBch{}, "bsv": drvBsv{}, "leg": drvLeg{}}
var names = []string{"btc", "hc", "cxc", "zen", "omni", "bch", "bsv"}

func fork(p *Prof) bool { return p.Drv == "bch" || p.Drv == "bsv" }
func sigAll(p *Prof) byte {
	if fork(p) {
		return 0x41
	}
	return 1
}
func ver(p *Prof) uint32 {
	if p.Drv == "btc" || p.Drv == "hc" || p.Drv == "omni" || p.Drv == "leg" {
		return 2
	}
	return 1
}
// the network a driver is explored deepest with
func isMain(p *Prof) bool { return strings.HasSuffix(p.Net, "Mainnet") || p.Drv == "leg" }
func le32(x uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, x); return b }
func le64(x uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, x); return b }
func h160(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_HASH160) }
func sha(b []byte) []byte  { h := sha256.Sum256(b); return h[:] }
func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func ok(err error) bool { return err == nil }

// ---- events
func recProfile(p *Prof) {
	vlib.Rec(Ev{"op": "profile", "drv": p.Drv, "net": p.Net, "pkh": vlib.H(p.PKH), "sh": vlib.H(p.SH), "sh2": vlib.H(p.SH2), "hrp": p.HRP})
}
func evReq(e Ev, q *Req) Ev {
	vi, vo := []Ev{}, []Ev{}
	for _, v := range q.Vins {
		vi = append(vi, Ev{"txid": vlib.H([]byte(v.TxID)), "vout": vlib.U32(v.Vout)})
	}
	for _, v := range q.Vouts {
		vo = append(vo, Ev{"addr": vlib.H([]byte(v.Addr)), "amt": vlib.U64(v.Amt)})
	}
	e["vins"], e["vouts"], e["lock"], e["rbf"] = vi, vo, vlib.U32(q.Lock), q.RBF
	e["bh"], e["height"] = vlib.H([]byte(q.BH)), vlib.U64(q.Height)
	return e
}
func evUn(un []Un) []Ev {
	r := []Ev{}
	for _, u := range un {
		r = append(r, Ev{"lock": u.Lock, "redeem": u.Redeem, "amt": vlib.U64(u.Amt), "st": int(u.ST)})
	}
	return r
}
func evHs(hs []Hash) []Ev {
	r := []Ev{}
	for _, h := range hs {
		s := []Ev{}
		if !h.NoNorm {
			for _, x := range h.Sigs {
				s = append(s, Ev{"sig": vlib.H(x.Sig), "pub": vlib.H(x.Pub), "st": int(x.ST)})
			}
		}
		r = append(r, Ev{"n": int(h.N), "sigs": s})
	}
	return r
}
func doCreate(d Drv, p *Prof, q *Req) string {
	var out string
	var err error
	pn := vlib.Call(func() { out, err = d.Create(q, p) })
	vlib.Rec(evReq(Ev{"op": "create", "out": out, "ok": ok(err), "panic": pn}, q))
	return out
}
func doOmni(d Drv, p *Prof, q *Req, o *Omni) string {
	var out string
	var err error
	pn := vlib.Call(func() { out, err = d.CreateOmni(q, o, p) })
	vlib.Rec(evReq(Ev{"op": "omni", "out": out, "ok": ok(err), "panic": pn,
		"omni": Ev{"typ": o.Typ, "prop": vlib.U32(o.Prop), "amt": vlib.U64(o.Amt), "eco": int(o.Eco), "memo": vlib.H([]byte(o.Memo)), "addr": vlib.H([]byte(o.Addr))}}, q))
	return out
}
func doAsset(d Drv, p *Prof, q *Req, to []Asset, ch Vout) string {
	var out string
	var err error
	pn := vlib.Call(func() { out, err = d.CreateAsset(q, to, ch, p) })
	ts := []Ev{}
	for _, t := range to {
		ts = append(ts, Ev{"id": vlib.H([]byte(t.ID)), "addr": vlib.H([]byte(t.Addr)), "amt": vlib.U64(t.Amt)})
	}
	vlib.Rec(evReq(Ev{"op": "asset", "out": out, "ok": ok(err), "panic": pn, "to": ts, "change": Ev{"addr": vlib.H([]byte(ch.Addr)), "amt": vlib.U64(ch.Amt)}}, q))
	return out
}
func doDigest(d Drv, p *Prof, tx string, un []Un, seg bool, record bool) []Hash {
	var out []Hash
	var err error
	pn := vlib.Call(func() { out, err = d.Digest(tx, un, seg, p) })
	os := []Ev{}
	for _, h := range out {
		st := []int{}
		for _, s := range h.Sigs {
			st = append(st, int(s.ST))
		}
		ks := h.Keys
		if ks == nil {
			ks = []string{}
		}
		os = append(os, Ev{"hash": h.Hash, "n": int(h.N), "addr": h.Addr, "st": st, "keys": ks})
	}
	if record {
		vlib.Rec(Ev{"op": "digest", "tx": tx, "un": evUn(un), "seg": seg, "out": os, "ok": ok(err), "panic": pn})
	}
	return out
}
func doSign(d Drv, hash string, prv []byte, record bool) ([]byte, []byte) {
	var s, q []byte
	var err error
	pn := vlib.Call(func() { s, q, err = d.Sign(hash, prv) })
	if record {
		vlib.Rec(Ev{"op": "sign", "hash": hash, "prv": vlib.H(prv), "sig": vlib.H(s), "pub": vlib.H(q), "ok": ok(err), "panic": pn})
	}
	return s, q
}
func doInsert(d Drv, tx string, hs []Hash, un []Un, seg bool, record bool) string {
	var out string
	var err error
	pn := vlib.Call(func() { out, err = d.Insert(tx, hs, un, seg) })
	if record {
		vlib.Rec(Ev{"op": "insert", "tx": tx, "hs": evHs(hs), "un": evUn(un), "seg": seg, "out": out, "ok": ok(err), "panic": pn})
	}
	return out
}
func doVerify(d Drv, p *Prof, tx string, un []Un, seg bool) {
	var out bool
	pn := vlib.Call(func() { out = d.Verify(tx, un, seg, p) })
	vlib.Rec(Ev{"op": "verify", "tx": tx, "un": evUn(un), "seg": seg, "out": out, "panic": pn})
}
func doMulti(d Drv, p *Prof, m byte, keys [][]byte, seg bool) (string, string) {
	var a, r string
	var err error
	pn := vlib.Call(func() { a, r, err = d.Multi(m, keys, seg, p) })
	ks := []string{}
	for _, k := range keys {
		ks = append(ks, vlib.H(k))
	}
	if p.Drv == "omni" {
		seg = false
	}
	if p.Drv == "leg" {
		seg = true
	}
	vlib.Rec(Ev{"op": "multi", "m": int(m), "keys": ks, "seg": seg, "addr": a, "redeem": r, "ok": ok(err), "panic": pn})
	return a, r
}
func doDecode(d Drv, raw []byte, seg bool, kinds []string) { decodeAs(d, raw, seg, kinds, nil) }

// as: the transaction raw would be if its one length in a longer form than needed were read
func decodeAs(d Drv, raw []byte, seg bool, kinds []string, as []byte) {
	var x *Dec
	var err error
	in := append([]byte{}, raw...)
	pn := vlib.Call(func() { x, err = d.Decode(in, seg) })
	if kinds == nil {
		kinds = []string{}
	}
	e := Ev{"op": "decode", "tx": vlib.H(raw), "as": vlib.H(as), "kinds": kinds, "ok": x != nil && err == nil, "panic": pn, "ver": "", "lock": "", "wit": false, "nout": 0, "vins": []Ev{}}
	if x != nil {
		vi := []Ev{}
		for _, v := range x.Ins {
			vi = append(vi, Ev{"txid": v.TxID, "vout": vlib.U32(v.Vout), "typ": v.Typ})
		}
		e["ver"], e["lock"], e["wit"], e["nout"], e["vins"] = vlib.H(x.Ver), vlib.H(x.Lock), x.Wit, x.NOut, vi
	}
	vlib.Rec(e)
}

// ---- generators
func b58addr(p []byte, h []byte) string { return drvB58(p, h) }
func addr(r *rand.Rand, p *Prof) string {
	h := vlib.HashN(r, 20)
	switch r.Intn(4) {
	case 0:
		if p.HRP != "" && !fork(p) && p.Drv != "zen" {
			if r.Intn(2) == 0 {
				h = vlib.HashN(r, 32)
			}
			return segAddr(p.HRP, 0, h)
		}
	case 1:
		return b58addr(p.SH, h)
	case 2:
		if len(p.SH2) > 0 {
			return b58addr(p.SH2, h)
		}
	}
	return b58addr(p.PKH, h)
}

const b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
const b32chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func badAddr(r *rand.Rand, p *Prof) string {
	h := vlib.HashN(r, 20)
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return string(vlib.Bytes(r, r.Intn(40)))
	case 2: // another network
		return b58addr([]byte{byte(0x40 + r.Intn(32))}, h)
	case 3: // no version, longer and shorter payloads
		return b58addr(nil, h)
	case 4:
		return b58addr(p.PKH, vlib.Bytes(r, 19))
	case 5:
		return b58addr(p.PKH, vlib.Bytes(r, 21))
	case 6:
		if p.HRP != "" {
			return segAddr(p.HRP, byte(1+r.Intn(16)), h)
		}
	case 7:
		if p.HRP != "" {
			return segAddr(p.HRP, 0, vlib.Bytes(r, []int{2, 19, 21, 31, 33, 40}[r.Intn(6)]))
		}
	case 8:
		if p.HRP != "" {
			return segAddr([]string{"bc", "tb", "ltc", "tltc", "bcx", "b", p.HRP + "1"}[r.Intn(7)], 0, h) // may be the right one
		}
	case 9:
		if p.HRP != "" && !fork(p) {
			return vlib.CorruptText(r, []string{"subst", "delete", "insert", "swap", "trunc", "append"}[r.Intn(6)], segAddr(p.HRP, 0, h), b32chars)
		}
	}
	return vlib.CorruptText(r, []string{"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien"}[r.Intn(9)], b58addr(p.PKH, h), b58chars)
}
func txid(r *rand.Rand) string { return vlib.H(vlib.Hash32(r)) }
func badTxid(r *rand.Rand) string {
	t := txid(r)
	return []string{"", t[:62], t + "00", t[:63], t[:63] + "g", "0x" + t[2:], " " + t[1:], t[:32], t + t, "zz" + t[2:]}[r.Intn(10)]
}
func u32(r *rand.Rand) uint32 { return uint32(vlib.Amount(r, 32)) }
func lockt(r *rand.Rand) uint32 {
	if r.Intn(2) == 0 {
		return 0
	}
	return u32(r)
}
func request(r *rand.Rand, p *Prof, nin, nout int) *Req {
	q := &Req{Lock: lockt(r), RBF: r.Intn(2) == 0}
	for i := 0; i < nin; i++ {
		t := txid(r)
		if r.Intn(8) == 0 {
			t = strings.ToUpper(t)
		}
		q.Vins = append(q.Vins, Vin{t, u32(r)})
	}
	for i := 0; i < nout; i++ {
		q.Vouts = append(q.Vouts, Vout{addr(r, p), vlib.Amount(r, 64)})
	}
	q.BH = vlib.H(vlib.Hash32(r))
	q.Height = []uint64{100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1700000, 8388607, 8388608, 16777216, 2147483647, 2147483648, 4294967296}[r.Intn(16)]
	if r.Intn(3) == 0 {
		q.Height = 17 + vlib.Amount(r, 40)
	}
	return q
}
func small(r *rand.Rand) int { return 1 + r.Intn(4) }

func modeCreate() {
	eachNet(func(n string, d Drv, p *Prof) {
		if n == "omni" {
			return
		}
		one := func(id string, k int, f func(r *rand.Rand, q *Req)) {
			for j := 0; j < k**vlib.FScale; j++ {
				vlib.Scn(fmt.Sprintf("create/%s/%s/%s/%d", n, p.Net, id, j), func(r *rand.Rand) {
					recProfile(p)
					q := request(r, p, small(r), small(r))
					f(r, q)
					doCreate(d, p, q)
				})
			}
		}
		one("good", 14, func(r *rand.Rand, q *Req) {})
		one("badaddr", 14, func(r *rand.Rand, q *Req) { q.Vouts[r.Intn(len(q.Vouts))].Addr = badAddr(r, p) })
		one("badtxid", 4, func(r *rand.Rand, q *Req) { q.Vins[r.Intn(len(q.Vins))].TxID = badTxid(r) })
		one("none", 2, func(r *rand.Rand, q *Req) {
			switch r.Intn(4) {
			case 0:
				q.Vins = nil
			case 1:
				q.Vouts = nil
			case 2:
				q.Vins = []Vin{}
			case 3:
				q.Vouts = []Vout{}
			}
		})
		one("other", 3, func(r *rand.Rand, q *Req) { // an address of another network of the same driver
			ns := d.Nets()
			q.Vouts[r.Intn(len(q.Vouts))].Addr = addr(r, ns[r.Intn(len(ns))])
		})
		for k := uint(0); k < 64 && (isMain(p) || n == "zen"); k++ { // every power of two in every number
			one(fmt.Sprintf("grid-%d", k), 1, func(r *rand.Rand, q *Req) {
				x := request(r, p, 3, 4)
				*q = *x
				v := uint64(1)<<k - 1
				for i := range q.Vouts {
					q.Vouts[i].Amt = v + uint64(i)
				}
				for i := range q.Vins {
					q.Vins[i].Vout = uint32((uint64(1)<<(k%32) - 1) + uint64(i))
				}
				q.RBF = k >= 32
				q.Lock = uint32((uint64(1)<<(k%32) - 1) + uint64(r.Intn(3)))
				q.Height = 17 + uint64(1)<<(k%40)
			})
		}
		if isMain(p) {
			for _, c := range [][2]int{{252, 1}, {253, 1}, {1, 252}, {1, 253}, {255, 2}, {256, 2}, {2, 257}, {300, 1}, {252, 252}} {
				one(fmt.Sprintf("count-%d-%d", c[0], c[1]), 1, func(r *rand.Rand, q *Req) {
					x := request(r, p, c[0], 1)
					q.Vins = x.Vins
					a := addr(r, p)
					q.Vouts = nil
					for i := 0; i < c[1]; i++ {
						q.Vouts = append(q.Vouts, Vout{a, vlib.Amount(r, 64)})
					}
				})
			}
		}
	})
}

func eachNet(f func(n string, d Drv, p *Prof)) {
	for _, n := range names {
		d := drvs[n]
		for _, p := range d.Nets() {
			f(n, d, p)
		}
	}
}

// an input to be spent
type spend struct {
	kind   string
	un     Un
	prvs   [][]byte // private keys (multi: one per key of the script)
	pubs   [][]byte
	m      int
	redeem []byte
}

func prvkey(r *rand.Rand) []byte {
	for {
		k := vlib.Hash32(r)
		switch r.Intn(20) {
		case 0:
			k = make([]byte, 32)
			k[31] = byte(1 + r.Intn(255))
		case 1:
			k = new(big.Int).Sub(order, big.NewInt(int64(1+r.Intn(9)))).Bytes()
		}
		x := new(big.Int).SetBytes(k)
		if x.Sign() > 0 && x.Cmp(order) < 0 {
			return k
		}
	}
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

func pubkey(k []byte) []byte {
	p, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
	return owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1)
}
func msScript(m int, pubs [][]byte) []byte {
	s := []byte{byte(0x50 + m)}
	for _, k := range pubs {
		s = cat(s, []byte{byte(len(k))}, k)
	}
	return append(s, byte(0x50+len(pubs)), 0xae)
}
func newSpend(r *rand.Rand, p *Prof, kind string, seg bool, m, n int) *spend {
	return newSpendOf(r, p, kind, seg, m, n, nil)
}
func newSpendOf(r *rand.Rand, p *Prof, kind string, seg bool, m, n int, same *spend) *spend {
	s := &spend{kind: kind, m: m}
	s.un.ST = sigAll(p)
	s.un.Amt = vlib.Amount(r, 64)
	if s.un.Amt == 0 {
		s.un.Amt = 1
	}
	if kind != "multi" {
		n = 1
	}
	for i := 0; i < n; i++ {
		k := prvkey(r)
		if same != nil && i < len(same.prvs) {
			k = same.prvs[i]
		}
		s.prvs, s.pubs = append(s.prvs, k), append(s.pubs, pubkey(k))
	}
	h := h160(s.pubs[0])
	tail := []byte{}
	if p.Drv == "cxc" && r.Intn(3) == 0 {
		tail = cat([]byte{0x1c}, []byte("spkq"), vlib.Bytes(r, 16), le64(vlib.Amount(r, 64)), []byte{0x75})
	}
	switch kind {
	case "pkh":
		l := cat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac}, tail)
		if p.Drv == "zen" {
			l = cat(l, []byte{0x20}, vlib.Bytes(r, 32), []byte{3}, vlib.Bytes(r, 3), []byte{0xb4})
		}
		s.un.Lock = vlib.H(l)
	case "nested":
		s.redeem = cat([]byte{0, 0x14}, h)
		s.un.Redeem = vlib.H(s.redeem)
		s.un.Lock = vlib.H(cat([]byte{0xa9, 0x14}, h160(s.redeem), []byte{0x87}, tail))
	case "native":
		s.un.Lock = vlib.H(cat([]byte{0, 0x14}, h))
	case "multi":
		s.redeem = msScript(m, s.pubs)
		s.un.Redeem = vlib.H(s.redeem)
		x := s.redeem
		if seg {
			x = cat([]byte{0, 0x20}, sha(s.redeem))
		}
		s.un.Lock = vlib.H(cat([]byte{0xa9, 0x14}, h160(x), []byte{0x87}, tail))
	}
	return s
}
func outScript(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return cat([]byte{0xa9, 0x14}, vlib.Bytes(r, 20), []byte{0x87})
	case 1:
		return cat([]byte{0, 0x20}, vlib.Bytes(r, 32))
	case 2:
		return cat([]byte{0x6a, 40}, vlib.Bytes(r, 40))
	case 3:
		return vlib.Bytes(r, 1+r.Intn(252))
	}
	return cat([]byte{0x76, 0xa9, 0x14}, vlib.Bytes(r, 20), []byte{0x88, 0xac})
}
func unsigned(r *rand.Rand, p *Prof, nin, nout int) *tx {
	t := &tx{ver: le32(ver(p)), lock: le32(lockt(r))}
	for i := 0; i < nin; i++ {
		t.ins = append(t.ins, in{vlib.Hash32(r), le32(u32(r)), nil, le32([]uint32{0xffffffff, 0xfffffffe, 0xfffffffd, 0, 1, r.Uint32()}[r.Intn(6)])})
	}
	for i := 0; i < nout; i++ {
		t.outs = append(t.outs, out{le64(vlib.Amount(r, 64)), outScript(r)})
	}
	return t
}
func kindsOf(p *Prof) []string {
	switch p.Drv {
	case "zen":
		return []string{"pkh"}
	case "omni", "bch", "bsv":
		return []string{"pkh", "multi"}
	}
	return []string{"pkh", "nested", "native", "multi"}
}
func canSeg(p *Prof) bool { return !(p.Drv == "zen" || p.Drv == "omni" || fork(p)) }
func uns(ss []*spend) (r []Un) {
	for _, s := range ss {
		r = append(r, s.un)
	}
	return
}
func segFor(r *rand.Rand, p *Prof, kinds []string) bool {
	if p.Drv == "leg" {
		return true
	}
	if !canSeg(p) {
		return false
	}
	for _, k := range kinds {
		if k == "nested" || k == "native" {
			return true
		}
	}
	return r.Intn(2) == 0
}
func spends(r *rand.Rand, p *Prof, kinds []string, seg bool) (ss []*spend) {
	for _, k := range kinds {
		n := 2 + r.Intn(2)
		var same *spend
		if len(ss) > 0 && r.Intn(2) == 0 { // one owner of several inputs
			same = ss[r.Intn(len(ss))]
		}
		ss = append(ss, newSpendOf(r, p, k, seg, 2, n, same))
	}
	return
}
func someKinds(r *rand.Rand, p *Prof, n int) (ks []string) {
	a := kindsOf(p)
	if p.Drv == "leg" && n > 1 && r.Intn(6) != 0 { // multisig inputs only alone
		a = a[:3]
	}
	for i := 0; i < n; i++ {
		ks = append(ks, a[r.Intn(len(a))])
	}
	return
}

// every assignment of spending kinds to inputs the life cycle model has
func kindVectors() (r [][]string) {
	seen := map[string]bool{}
	vlib.Lines(func(l []byte) {
		var c lifeScn
		if err := json.Unmarshal(l, &c); err != nil {
			panic(err)
		}
		k := strings.Join(c.Kinds, "+")
		if !seen[k] {
			seen[k] = true
			r = append(r, c.Kinds)
		}
	})
	return
}
func fits(p *Prof, v []string, seg bool) bool {
	allowed := strings.Join(kindsOf(p), " ")
	for _, k := range v {
		if !strings.Contains(allowed, k) || (!seg && (k == "nested" || k == "native")) {
			return false
		}
	}
	return !seg || canSeg(p)
}

func modeDigest() {
	vectors := kindVectors()
	eachNet(func(n string, d Drv, p *Prof) {
		one := func(id string, k int, f func(r *rand.Rand)) {
			for j := 0; j < k**vlib.FScale; j++ {
				vlib.Scn(fmt.Sprintf("digest/%s/%s/%s/%d", n, p.Net, id, j), func(r *rand.Rand) { recProfile(p); f(r) })
			}
		}
		for _, k := range kindsOf(p) { // every kind alone, both modes
			for _, sg := range []bool{false, true} {
				if sg && !canSeg(p) {
					continue
				}
				one(fmt.Sprintf("%s-%v", k, sg), 2, func(r *rand.Rand) {
					s := newSpend(r, p, k, sg, 1+r.Intn(3), 3)
					doDigest(d, p, unsigned(r, p, 1, small(r)).hex(), uns([]*spend{s}), sg, true)
				})
			}
		}
		if isMain(p) {
			for _, v := range vectors {
				for _, sg := range []bool{false, true} {
					if !fits(p, v, sg) {
						continue
					}
					one(fmt.Sprintf("vector-%s-%v", strings.Join(v, "+"), sg), 1, func(r *rand.Rand) {
						doDigest(d, p, unsigned(r, p, len(v), small(r)).hex(), uns(spends(r, p, v, sg)), sg, true)
					})
				}
			}
		}
		one("mixed", 8, func(r *rand.Rand) {
			ks := someKinds(r, p, small(r))
			sg := segFor(r, p, ks)
			doDigest(d, p, unsigned(r, p, len(ks), small(r)).hex(), uns(spends(r, p, ks, sg)), sg, true)
		})
		one("bigms", 2, func(r *rand.Rand) {
			if n == "zen" {
				return
			}
			k := 1 + r.Intn(15)
			sg := canSeg(p) && r.Intn(2) == 0
			doDigest(d, p, unsigned(r, p, 1, 1).hex(), uns([]*spend{newSpend(r, p, "multi", sg, 1+r.Intn(k), k)}), sg, true)
		})
		one("bad", 12, func(r *rand.Rand) {
			ks := someKinds(r, p, 1+r.Intn(3))
			sg := segFor(r, p, ks)
			t := unsigned(r, p, len(ks), small(r))
			un := uns(spends(r, p, ks, sg))
			i := r.Intn(len(un))
			tx := t.hex()
			switch r.Intn(14) {
			case 0:
				un = un[:len(un)-1]
			case 1:
				un = append(un, un[i])
			case 2:
				un[i].ST = byte(r.Intn(256))
			case 3:
				un[i].Amt = 0
			case 4:
				un[i].Lock = vlib.H(vlib.Bytes(r, 20+r.Intn(8)))
			case 5:
				un[i].Lock = un[i].Lock[1:]
			case 6:
				un[i].Lock = ""
			case 7:
				un[i].Redeem = []string{"00", "zz", vlib.H(vlib.Bytes(r, 22)), "0014" + vlib.H(vlib.Bytes(r, 20)), vlib.H(append(vlib.Bytes(r, 40), 0xae)), ""}[r.Intn(6)]
				if fork(p) {
					un[i].Redeem = ""
				}
			case 8:
				tx = tx[:2*r.Intn(len(tx)/2)]
			case 9:
				tx += "00"
			case 10:
				tx = ""
			case 11:
				t.ver = le32(uint32(r.Intn(5)))
				tx = t.hex()
			case 12:
				tx = tx[:len(tx)-1] + "g"
			case 13:
				un[i].Lock = un[i].Lock + "00"
			}
			if unspecified(p, un, sg) {
				return
			}
			doDigest(d, p, tx, un, sg, true)
		})
		if isMain(p) {
			one("many", 1, func(r *rand.Rand) {
				ks := someKinds(r, p, 3)
				t := unsigned(r, p, 252, 252)
				for i := range t.outs {
					t.outs[i].script = t.outs[i].script[:1]
				}
				sg := segFor(r, p, ks)
				ss := spends(r, p, ks, sg)
				var un []Un
				for i := 0; i < 252; i++ {
					un = append(un, ss[i%3].un)
				}
				t.ins = t.ins[:40]
				doDigest(d, p, t.hex(), un[:40], sg, true)
			})
		}
	})
}

// forks without witnesses: nested and native inputs are outside what is specified
func unspecified(p *Prof, un []Un, seg bool) bool {
	if !fork(p) {
		return false
	}
	for _, u := range un {
		l, _ := hex.DecodeString(u.Lock)
		rd, _ := hex.DecodeString(u.Redeem)
		if len(l) == 22 || len(rd) == 22 || seg {
			return true
		}
	}
	return false
}

// fill signs the digests: which keys of each multisig input sign is given by pick (nil = first m)
func fill(d Drv, hs []Hash, ss []*spend, st byte, record bool, pick [][]int) {
	for i := range hs {
		s := ss[i]
		if hs[i].N == 0 && s.kind != "multi" {
			sg, pb := doSign(d, hs[i].Hash, s.prvs[0], record)
			hs[i].Sigs = []Sig{{sg, pb, st}}
			continue
		}
		sel := map[int]bool{}
		if pick != nil && pick[i] != nil {
			for _, j := range pick[i] {
				sel[j] = true
			}
		} else {
			for j := 0; j < s.m; j++ {
				sel[j] = true
			}
		}
		for j := range hs[i].Sigs {
			if sel[j] && j < len(s.prvs) {
				sg, pb := doSign(d, hs[i].Hash, s.prvs[j], record)
				hs[i].Sigs[j].Sig, hs[i].Sigs[j].Pub = sg, pb
			}
		}
	}
}

func halves(r *rand.Rand) []byte { // an r or s of any length
	x := vlib.Bytes(r, 32)
	for i := 0; i < []int{0, 0, 0, 1, 1, 2, 3, 31, 32}[r.Intn(9)]; i++ {
		x[i] = 0
	}
	k := 0
	for k < 31 && x[k] == 0 {
		k++
	}
	if r.Intn(2) == 0 {
		x[k] |= 0x80
	} else {
		x[k] &= 0x7f
	}
	return x
}

func modeSign() {
	eachNet(func(n string, d Drv, p *Prof) {
		one := func(id string, k int, f func(r *rand.Rand)) {
			for j := 0; j < k**vlib.FScale; j++ {
				vlib.Scn(fmt.Sprintf("sign/%s/%s/%s/%d", n, p.Net, id, j), func(r *rand.Rand) { recProfile(p); f(r) })
			}
		}
		main := isMain(p) || n == "zen"
		one("session", 5, func(r *rand.Rand) {
			ks := someKinds(r, p, small(r))
			sg := segFor(r, p, ks)
			ss := spends(r, p, ks, sg)
			t := unsigned(r, p, len(ks), small(r)).hex()
			hs := doDigest(d, p, t, uns(ss), sg, false)
			fill(d, hs, ss, sigAll(p), true, nil)
			doVerify(d, p, doInsert(d, t, hs, uns(ss), sg, true), uns(ss), sg)
		})
		if !main {
			return
		}
		for _, k := range kindsOf(p) {
			one("short-"+k, 1, func(r *rand.Rand) { // real signatures with a short r or s
				sg := segFor(r, p, []string{k})
				ss := []*spend{newSpend(r, p, k, sg, 1, 2)}
				t := unsigned(r, p, 1, 1).hex()
				hs := doDigest(d, p, t, uns(ss), sg, false)
				for j := 0; j < 600; j++ {
					fill(d, hs, ss, sigAll(p), false, nil)
					if len(hs) == 0 || len(hs[0].Sigs) == 0 || len(hs[0].Sigs[0].Sig) != 64 || hs[0].Sigs[0].Sig[0] == 0 || hs[0].Sigs[0].Sig[32] == 0 {
						break
					}
				}
				doVerify(d, p, doInsert(d, t, hs, uns(ss), sg, true), uns(ss), sg)
			})
		}
		for _, k := range kindsOf(p) {
			for half := 0; half < 2; half++ {
				for _, zeros := range []int{0, 1, 2, 3, 30, 31} {
					one(fmt.Sprintf("der-%s-%d-%d", k, half, zeros), 1, func(r *rand.Rand) {
						sg := segFor(r, p, []string{k})
						s := newSpend(r, p, k, sg, 2, 2)
						t := unsigned(r, p, 1, 1).hex()
						for _, lead := range []byte{1, 0x7f, 0x80, 0x81, 0xff} {
							h := Hash{}
							if k == "multi" {
								h.N = 2
							}
							for j := range s.pubs {
								x := cat(vlib.Bytes(r, 32), vlib.Bytes(r, 32))
								x[0] |= 1
								x[32] = x[32]&0x7f | 1
								copy(x[32*half:], make([]byte, zeros))
								x[32*half+zeros] = lead
								h.Keys = append(h.Keys, "")
								h.Sigs = append(h.Sigs, Sig{x, s.pubs[j], sigAll(p)})
							}
							doInsert(d, t, []Hash{h}, uns([]*spend{s}), sg, true)
						}
					})
				}
			}
		}
		one("records", 16, func(r *rand.Rand) { // unlock records with more or less than needed
			if n != "leg" {
				return
			}
			ks := someKinds(r, p, small(r))
			ss := spends(r, p, ks, true)
			un := uns(ss)
			t := unsigned(r, p, len(ks), small(r)).hex()
			hs := doDigest(d, p, t, un, true, true)
			if len(hs) != len(ss) {
				return
			}
			fill(d, hs, ss, sigAll(p), false, nil)
			for i := range un {
				switch r.Intn(4) {
				case 0:
					un[i].Lock = ""
				case 1:
					un[i].Redeem = []string{un[i].Lock, "0014" + vlib.H(vlib.Bytes(r, 20)), vlib.H(ss[0].redeem), "zz", "51ae"}[r.Intn(5)]
				case 2:
					un[i].Amt = 0
				}
			}
			doDigest(d, p, t, un, true, true)
			doVerify(d, p, doInsert(d, t, hs, un, true, true), un, true)
		})
		one("again", 12, func(r *rand.Rand) { // a transaction signed before is signed again
			if n != "leg" {
				return
			}
			ks := someKinds(r, p, small(r))
			sg := segFor(r, p, ks)
			ss := spends(r, p, ks, sg)
			un := uns(ss)
			t := unsigned(r, p, len(ks), small(r)).hex()
			for k := 0; k < 2; k++ {
				hs := doDigest(d, p, t, un, sg, true)
				if len(hs) != len(ss) {
					return
				}
				fill(d, hs, ss, sigAll(p), false, nil)
				t = doInsert(d, t, hs, un, sg, true)
				if parse(t) == nil || (n == "leg" && ks[0] == "multi") {
					return
				}
				doVerify(d, p, t, un, sg)
			}
		})
		one("sign", 6, func(r *rand.Rand) {
			h, k := vlib.H(vlib.Hash32(r)), prvkey(r)
			if r.Intn(2) == 0 {
				switch r.Intn(7) {
				case 0:
					h = h[2:]
				case 1:
					h += "00"
				case 2:
					h = "zz" + h[2:]
				case 3:
					h = ""
				case 4:
					k = k[1:]
				case 5:
					k = append(k, 0)
				case 6:
					k = nil
				}
			}
			doSign(d, h, k, true)
		})
		one("crafted", 10, func(r *rand.Rand) { // any r and s must be encoded strictly
			ks := someKinds(r, p, 1+r.Intn(2))
			sg := segFor(r, p, ks)
			ss := spends(r, p, ks, sg)
			t := unsigned(r, p, len(ks), 1).hex()
			var hs []Hash
			for _, s := range ss {
				h := Hash{}
				c := 1
				if s.kind == "multi" {
					h.N = byte(s.m)
					c = len(s.pubs)
				}
				for j := 0; j < c; j++ {
					h.Keys = append(h.Keys, "")
					h.Sigs = append(h.Sigs, Sig{cat(halves(r), halves(r)), s.pubs[j], byte(r.Intn(256))})
				}
				hs = append(hs, h)
			}
			doInsert(d, t, hs, uns(ss), sg, true)
		})
		one("bad", 16, func(r *rand.Rand) {
			ks := someKinds(r, p, 1+r.Intn(3))
			sg := segFor(r, p, ks)
			ss := spends(r, p, ks, sg)
			t := unsigned(r, p, len(ks), 1).hex()
			un := uns(ss)
			hs := doDigest(d, p, t, un, sg, false)
			if len(hs) != len(ss) {
				return
			}
			fill(d, hs, ss, sigAll(p), false, nil)
			i := r.Intn(len(hs))
			switch r.Intn(15) {
			case 0:
				hs[i].Sigs[0].Sig = nil
			case 1:
				hs[i].Sigs[0].Pub = nil
			case 2:
				hs[i].Sigs[0].Sig = hs[i].Sigs[0].Sig[:63]
			case 3:
				hs[i].Sigs[0].Sig = append(hs[i].Sigs[0].Sig, 1)
			case 4:
				hs[i].Sigs[0].Pub = hs[i].Sigs[0].Pub[:32]
			case 5:
				hs[i].Sigs[0].Pub = append(hs[i].Sigs[0].Pub, 1)
			case 6:
				hs = hs[:len(hs)-1]
			case 7:
				hs = append(hs, hs[i])
			case 8:
				un = un[:len(un)-1]
			case 9:
				un = append(un, un[i])
			case 10:
				t = t[:2*r.Intn(len(t)/2)]
			case 11:
				un[i].Lock = vlib.H(vlib.Bytes(r, 25))
				if n == "zen" {
					return
				}
			case 12:
				if hs[i].N > 0 {
					hs[i].Sigs[0].Sig, hs[i].Sigs[0].Pub = nil, nil
				} else {
					hs[i].NoNorm = true
				}
			case 13:
				if canSeg(p) {
					sg = !sg
				}
			case 14:
				if hs[i].N > 0 {
					hs[i].N = 0
				} else {
					hs[i].N = 1
				}
				if n == "zen" {
					return
				}
			}
			doInsert(d, t, hs, un, sg, true)
		})
	})
}

// ---- P10: alterations of signed transactions
type lifeScn struct {
	Kinds []string
	Cut   string
}

func modeVerify() {
	vlib.Lines(func(l []byte) {
		var c lifeScn
		if err := json.Unmarshal(l, &c); err != nil {
			panic(err)
		}
		for _, n := range names {
			d := drvs[n]
			nets := d.Nets()
			if len(nets) > 4 {
				nets = []*Prof{nets[len(c.Cut)%len(nets)]}
			}
			p := nets[len(c.Cut)%len(nets)]
			allowed := strings.Join(kindsOf(p), " ")
			skip := false
			for _, k := range c.Kinds {
				if !strings.Contains(allowed, k) {
					skip = true
				}
			}
			if skip {
				continue
			}
			for j := 0; j < *vlib.FScale; j++ {
				vlib.Scn(fmt.Sprintf("verify/%s/%s/%s/%d", n, strings.Join(c.Kinds, "+"), c.Cut, j), func(r *rand.Rand) {
					tampered(r, d, p, c.Kinds, c.Cut)
				})
			}
		}
	})
}

// sweep: every byte of a signed transaction changed, removed or doubled, one at a time
func modeSweep() {
	eachNet(func(n string, d Drv, p *Prof) {
		if !isMain(p) {
			return
		}
		for _, kind := range kindsOf(p) {
			for j := 0; j < *vlib.FScale; j++ {
				for part := 0; part < 8; part++ {
					vlib.Scn(fmt.Sprintf("sweep/%s/%s/%s/%d/%d", n, p.Net, kind, j, part), func(r *rand.Rand) {
						recProfile(p)
						q := vlib.R(fmt.Sprintf("sweep/%s/%s/%s/%d", n, p.Net, kind, j))
						ks := []string{kind}
						sg := segFor(q, p, ks)
						ss := spends(q, p, ks, sg)
						un := uns(ss)
						base := unsigned(q, p, 1, 1)
						hs, _ := d.Digest(base.hex(), un, sg, p)
						if len(hs) != 1 {
							return
						}
						fill(d, hs, ss, sigAll(p), false, nil)
						b := vlib.U(doInsert(d, base.hex(), hs, un, sg, true))
						for k := part; k < len(b); k += 8 {
							x := append([]byte{}, b...)
							switch r.Intn(8) {
							case 0:
								x = append(x[:k], x[k+1:]...)
							case 1:
								x = append(x[:k], b[k-k%2:]...)
							case 2:
								x = x[:k]
							case 3:
								x[k] = byte(r.Intn(256))
							default:
								x[k] ^= 1 << uint(r.Intn(8))
							}
							doVerify(d, p, vlib.H(x), un, sg)
							doVerify(d, p, vlib.H(b[:k]), un, sg)
						}
					})
				}
			}
		}
	})
}

func sign1(d Drv, h string, k []byte) []byte {
	s, _, _ := d.Sign(h, k)
	return s
}

// items returns the pushed data of input i (signatures, keys, redeem script) and a way to put it back
func items(t *tx, i int, kind string, seg bool) ([][]byte, func([][]byte)) {
	if kind == "nested" || kind == "native" || (kind == "multi" && seg) {
		return append([][]byte{}, t.wit[i]...), func(x [][]byte) { t.wit[i] = x }
	}
	return pushes(t.ins[i].script), func(x [][]byte) { t.ins[i].script = unpush(x) }
}

func tampered(r *rand.Rand, d Drv, p *Prof, kinds []string, cut string) {
	recProfile(p)
	sg := segFor(r, p, kinds)
	ss := spends(r, p, kinds, sg)
	un := uns(ss)
	base := unsigned(r, p, len(kinds), 1+r.Intn(3))
	hs := doDigest(d, p, base.hex(), un, sg, false)
	if len(hs) != len(ss) {
		doDigest(d, p, base.hex(), un, sg, true)
		return
	}
	fill(d, hs, ss, sigAll(p), false, nil)
	signed := doInsert(d, base.hex(), hs, un, sg, true)
	doVerify(d, p, signed, un, sg)
	t := parse(signed)
	if t == nil {
		return
	}
	i := r.Intn(len(kinds))
	raw := ""
	its, put := items(t, i, kinds[i], sg)
	multi := kinds[i] == "multi"
	si := 0 // position of a signature
	if multi {
		si = 1 + r.Intn(ss[i].m)
	}
	if len(its) <= si {
		return
	}
	flip := func(b []byte) { b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8)) }
	setSig := func(sig []byte) {
		its[si] = der(sig, sigAll(p))
		put(its)
	}
	switch cut {
	case "none":
	case "in.txid":
		flip(t.ins[i].txid)
	case "in.vout":
		flip(t.ins[i].vout)
	case "in.seq":
		flip(t.ins[i].seq)
	case "in.swap":
		if len(t.ins) < 2 {
			t.ins = append(t.ins, t.ins[0])
			if t.seg {
				t.wit = append(t.wit, t.wit[0])
			}
			un = append(un, un[0])
		} else {
			t.ins[0], t.ins[1] = t.ins[1], t.ins[0]
			un[0], un[1] = un[1], un[0]
			if t.seg {
				t.wit[0], t.wit[1] = t.wit[1], t.wit[0]
			}
		}
	case "out.amt":
		flip(t.outs[r.Intn(len(t.outs))].amt)
	case "out.script":
		flip(t.outs[r.Intn(len(t.outs))].script)
	case "out.swap":
		if len(t.outs) > 1 {
			t.outs[0], t.outs[1] = t.outs[1], t.outs[0]
		} else {
			t.outs = append(t.outs, t.outs[0])
		}
	case "out.add":
		t.outs = append(t.outs, out{le64(1), outScript(r)})
	case "out.drop":
		if len(t.outs) > 1 {
			t.outs = t.outs[1:]
		} else {
			t.outs[0].script = append(t.outs[0].script, 0x51)
		}
	case "lock":
		flip(t.lock)
	case "ver":
		t.ver = le32(uint32(r.Intn(4)))
	case "sig.bit":
		sig := under(its[si])
		flip(sig)
		setSig(sig)
	case "sig.otherinput": // a valid signature of the same key over another input's digest
		h := vlib.H(vlib.Bytes(r, 32))
		if len(hs) > 1 {
			h = hs[1-i].Hash
		}
		setSig(sign1(d, h, ss[i].prvs[0]))
	case "sig.othertx":
		b2 := parse(base.hex())
		b2.outs[0].amt = le64(vlib.Amount(r, 64))
		if h2, _ := d.Digest(b2.hex(), un, sg, p); len(h2) == len(hs) {
			setSig(sign1(d, h2[i].Hash, ss[i].prvs[0]))
		}
	case "sig.otherkey":
		setSig(sign1(d, hs[i].Hash, prvkey(r)))
	case "sig.evil": // signature and key of somebody else
		k := prvkey(r)
		if !multi {
			its[1] = pubkey(k)
		}
		setSig(sign1(d, hs[i].Hash, k))
	case "sig.type":
		x := append([]byte{}, its[si]...)
		x[len(x)-1] = []byte{0, 1, 2, 3, 0x81, 0x41, 0x40, byte(r.Intn(256))}[r.Intn(8)]
		its[si] = x
		put(its)
	case "sig.nonder":
		x := append([]byte{}, its[si]...)
		switch r.Intn(3) {
		case 0: // padded r
			x = cat([]byte{48, x[1] + 1, 2, x[3] + 1, 0}, x[4:])
		case 1:
			x[1]++
		case 2: // padded s
			rl := int(x[3])
			x = cat([]byte{48, x[1] + 1}, x[2:4+rl], []byte{2, x[5+rl] + 1, 0}, x[6+rl:])
		}
		its[si] = x
		put(its)
	case "sig.highs":
		sig := under(its[si])
		s := new(big.Int).Sub(order, new(big.Int).SetBytes(sig[32:])).Bytes()
		setSig(cat(sig[:32], make([]byte, 32-len(s)), s))
	case "sig.drop":
		its = append(its[:si], its[si+1:]...)
		put(its)
	case "sig.dup":
		if multi {
			its[1], its[2] = its[si], its[si]
		} else {
			its = append(its, its[0])
		}
		put(its)
	case "sig.swap":
		if multi {
			its[1], its[2] = its[2], its[1]
		} else {
			its[0], its[1] = its[1], its[0]
		}
		put(its)
	case "key.other":
		if multi { // another key inside the transaction's script
			x := append([]byte{}, its[len(its)-1]...)
			copy(x[2:], pubkey(prvkey(r)))
			its[len(its)-1] = x
		} else {
			its[1] = pubkey(prvkey(r))
		}
		put(its)
	case "redeem.tx": // the attacker's own script and signatures in place of the owners'
		k := prvkey(r)
		if multi {
			evil := msScript(1, [][]byte{pubkey(k), ss[i].pubs[0]})
			its = [][]byte{{}, der(sign1(d, hs[i].Hash, k), sigAll(p)), evil}
			put(its)
			if sg {
				t.ins[i].script = cat([]byte{34, 0, 32}, sha(evil))
			}
		} else if kinds[i] == "nested" {
			t.ins[i].script = cat([]byte{22, 0, 20}, h160(pubkey(k)))
			its[1] = pubkey(k)
			setSig(sign1(d, hs[i].Hash, k))
		} else {
			t.ins[i].script = cat(t.ins[i].script, []byte{1, 1})
		}
	case "un.amt":
		un[i].Amt ^= 1 << uint(r.Intn(64))
	case "un.lock":
		x := vlib.U(un[i].Lock)
		x[3+r.Intn(18)] ^= byte(1 << uint(r.Intn(8)))
		un[i].Lock = vlib.H(x)
	case "un.redeem":
		o := newSpend(r, p, kinds[i], sg, ss[i].m, len(ss[i].pubs))
		un[i].Redeem = o.un.Redeem
		if kinds[i] == "pkh" || kinds[i] == "native" {
			un[i].Lock = o.un.Lock
		}
	case "un.swap":
		un[0], un[len(un)-1] = un[len(un)-1], un[0]
	case "un.missing":
		un = un[:len(un)-1]
	case "un.extra":
		un = append(un, un[0])
	case "un.type":
		un[i].ST ^= byte(1 << uint(r.Intn(8)))
	case "seg":
		if canSeg(p) {
			sg = !sg
		}
	case "byte":
		b := vlib.U(signed)
		flip(b)
		raw = vlib.H(b)
	case "trunc":
		raw = signed[:2*r.Intn(len(signed)/2)]
	case "append":
		raw = signed + vlib.H(vlib.Bytes(r, 1+r.Intn(4)))
	default:
		panic("unknown alteration " + cut)
	}
	if raw == "" {
		raw = t.hex()
	}
	doVerify(d, p, raw, un, sg)
}

// ---- P11
func modeMulti() {
	eachNet(func(n string, d Drv, p *Prof) {
		one := func(id string, k int, f func(r *rand.Rand)) {
			for j := 0; j < k**vlib.FScale; j++ {
				vlib.Scn(fmt.Sprintf("multi/%s/%s/%s/%d", n, p.Net, id, j), func(r *rand.Rand) { recProfile(p); f(r) })
			}
		}
		key := func(r *rand.Rand) []byte {
			if r.Intn(4) == 0 {
				return cat([]byte{4}, vlib.Bytes(r, 64))
			}
			return pubkey(prvkey(r))
		}
		sgs := func(r *rand.Rand) bool { return n != "omni" && r.Intn(2) == 0 }
		one("create", 12, func(r *rand.Rand) {
			k := 1 + r.Intn(8)
			if r.Intn(4) == 0 {
				k = 14 + r.Intn(5)
			}
			var ks [][]byte
			for i := 0; i < k; i++ {
				if k > 8 {
					ks = append(ks, pubkey(prvkey(r)))
				} else {
					ks = append(ks, key(r))
				}
			}
			m := 1 + r.Intn(k)
			switch r.Intn(10) {
			case 0:
				m = 0
			case 1:
				m = k + 1
			case 2:
				m = []int{16, 17, 128, 255}[r.Intn(4)]
			case 3:
				x := r.Intn(k)
				ks[x] = [][]byte{nil, ks[x][:32], append(cat(ks[x]), 0), vlib.Bytes(r, 64), vlib.Bytes(r, 20)}[r.Intn(5)]
			case 4:
				if k < 3 {
					ks = nil
				}
			}
			doMulti(d, p, byte(m), ks, sgs(r))
		})
		for _, l := range []int{0, 1, 2, 20, 31, 32, 34, 64, 66, 97, 128, 129, 161, 256, 289, 321, 512} {
			one(fmt.Sprintf("keylen-%d", l), 1, func(r *rand.Rand) {
				ks := [][]byte{key(r), vlib.Bytes(r, l), key(r)}
				r.Shuffle(3, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
				doMulti(d, p, byte(1+r.Intn(3)), ks, sgs(r))
				doMulti(d, p, 1, [][]byte{vlib.Bytes(r, l)}, sgs(r))
			})
		}
		for k := 1; k <= 17; k++ { // every threshold of every number of keys
			one(fmt.Sprintf("mofn-%d", k), 1, func(r *rand.Rand) {
				var ks [][]byte
				for i := 0; i < k; i++ {
					ks = append(ks, pubkey(prvkey(r)))
				}
				sg := sgs(r)
				for m := 0; m <= k+1; m++ {
					doMulti(d, p, byte(m), ks, sg)
				}
				doMulti(d, p, byte(200+r.Intn(56)), ks, sg)
			})
		}
		one("many", 1, func(r *rand.Rand) { // 256 + a few keys must not wrap
			var ks [][]byte
			k := pubkey(prvkey(r))
			for i := 0; i < 256+r.Intn(4); i++ {
				ks = append(ks, k)
			}
			doMulti(d, p, 1, ks, sgs(r))
		})
		if n == "zen" || !isMain(p) {
			return
		}
		spendCase := func(r *rand.Rand, m, k int, sg bool, f func(hs []Hash, s *spend)) {
			s := newSpend(r, p, "multi", sg, m, k)
			un := []Un{s.un}
			t := unsigned(r, p, 1, 1).hex()
			hs := doDigest(d, p, t, un, sg, true)
			if len(hs) != 1 || len(hs[0].Sigs) != k {
				return
			}
			f(hs, s)
			raw := doInsert(d, t, hs, un, sg, true)
			if raw != "" {
				doVerify(d, p, raw, un, sg)
			}
		}
		segs := []bool{false}
		if canSeg(p) {
			segs = append(segs, true)
		}
		for _, sg := range segs {
			for k := 1; k <= 3; k++ { // every set of signers of every small m-of-n
				for m := 1; m <= k; m++ {
					for set := 0; set < 1<<uint(k); set++ {
						one(fmt.Sprintf("set-%v-%d-%d-%d", sg, m, k, set), 1, func(r *rand.Rand) {
							spendCase(r, m, k, sg, func(hs []Hash, s *spend) {
								pick := []int{}
								for b := 0; b < k; b++ {
									if set&(1<<uint(b)) != 0 {
										pick = append(pick, b)
									}
								}
								fill(d, hs, []*spend{s}, sigAll(p), false, [][]int{pick})
							})
						})
					}
				}
			}
			for _, bad := range []string{"dup", "swap", "foreign", "slot", "under"} {
				one(fmt.Sprintf("spend-%s-%v", bad, sg), 2, func(r *rand.Rand) {
					m, k := 2, 2+r.Intn(3)
					spendCase(r, m, k, sg, func(hs []Hash, s *spend) {
						fill(d, hs, []*spend{s}, sigAll(p), false, nil)
						g := hs[0].Sigs
						switch bad {
						case "dup":
							g[1] = g[0]
						case "swap":
							g[0], g[1] = g[1], g[0]
						case "foreign":
							x := prvkey(r)
							g[r.Intn(2)] = Sig{sign1(d, hs[0].Hash, x), pubkey(x), sigAll(p)}
						case "slot": // a good signature in another key's slot
							if k > 2 {
								g[k-1] = g[1]
								g[1] = Sig{ST: sigAll(p)}
							}
						case "under": // claims fewer signatures than the script requires
							hs[0].N = 1
						}
					})
				})
			}
			one(fmt.Sprintf("big-%v", sg), 2, func(r *rand.Rand) {
				k := 2 + r.Intn(14)
				m := 1 + r.Intn(k)
				spendCase(r, m, k, sg, func(hs []Hash, s *spend) {
					fill(d, hs, []*spend{s}, sigAll(p), false, [][]int{r.Perm(k)[:m]})
				})
			})
			one(fmt.Sprintf("fifteen-%v", sg), 1, func(r *rand.Rand) {
				spendCase(r, 15, 15, sg, func(hs []Hash, s *spend) { fill(d, hs, []*spend{s}, sigAll(p), false, nil) })
			})
		}
	})
}

// ---- P12
func modeToken() {
	eachNet(func(n string, d Drv, p *Prof) {
		one := func(id string, k int, f func(r *rand.Rand)) {
			for j := 0; j < k**vlib.FScale; j++ {
				vlib.Scn(fmt.Sprintf("token/%s/%s/%s/%d", n, p.Net, id, j), func(r *rand.Rand) { recProfile(p); f(r) })
			}
		}
		switch n {
		case "omni", "bch", "bsv":
			for _, typ := range []int{0, 4, 22, 28, 53, 55, 56, 70, 71, 72, 185, 186} {
				one(fmt.Sprintf("type%d", typ), 5, func(r *rand.Rand) {
					doOmni(d, p, request(r, p, small(r), small(r)), omni(r, p, typ))
				})
			}
			one("unknown", 4, func(r *rand.Rand) {
				doOmni(d, p, request(r, p, 1, 1), omni(r, p, []int{1, 2, 3, 20, 25, 50, 54, 57, 73, 184, 187, 255, 256, 65536, r.Intn(300)}[r.Intn(15)]))
			})
			one("memo", 8, func(r *rand.Rand) {
				o := omni(r, p, 55+r.Intn(2))
				o.Memo = string(vlib.Bytes(r, []int{0, 1, 54, 55, 56, 57, 58, 59, 200, 228, 229, 230, 231, 254, 255, 256, 300, 600}[r.Intn(18)]))
				doOmni(d, p, request(r, p, 1, 1), o)
			})
			one("frozen-bad", 4, func(r *rand.Rand) {
				o := omni(r, p, 185+r.Intn(2))
				o.Addr = vlib.CorruptText(r, []string{"subst", "delete", "insert", "trunc", "append", "empty", "alien"}[r.Intn(7)], o.Addr, b58chars)
				doOmni(d, p, request(r, p, 1, 1), o)
			})
			one("bad", 6, func(r *rand.Rand) {
				q := request(r, p, small(r), small(r))
				switch r.Intn(5) {
				case 0:
					q.Vins = nil
				case 1:
					q.Vouts = nil
				case 2:
					q.Vins[0].TxID = badTxid(r)
				default:
					q.Vouts[len(q.Vouts)-1].Addr = badAddr(r, p)
				}
				doOmni(d, p, q, omni(r, p, 0))
			})
			for _, k := range []int{251, 252, 253} {
				one(fmt.Sprintf("count-%d", k), 1, func(r *rand.Rand) {
					q := request(r, p, 1, 1)
					for len(q.Vouts) < k {
						q.Vouts = append(q.Vouts, q.Vouts[0])
					}
					doOmni(d, p, q, omni(r, p, 0))
				})
			}
		case "cxc":
			one("asset", 12, func(r *rand.Rand) {
				doAsset(d, p, request(r, p, small(r), 0), assets(r, p, small(r)), Vout{addr(r, p), vlib.Amount(r, 64)})
			})
			one("asset-bad", 10, func(r *rand.Rand) {
				q := request(r, p, small(r), 0)
				to := assets(r, p, small(r))
				ch := Vout{addr(r, p), vlib.Amount(r, 64)}
				i := r.Intn(len(to))
				switch r.Intn(6) {
				case 0:
					t := to[i].ID
					to[i].ID = []string{"", t[:30], t + "00", t[:31], "zz" + t[2:], t + t}[r.Intn(6)]
				case 1, 2:
					to[i].Addr = badAddr(r, p)
				case 3:
					ch.Addr = badAddr(r, p)
				case 4:
					q.Vins = nil
				case 5:
					q.Vins[0].TxID = badTxid(r)
				}
				doAsset(d, p, q, to, ch)
			})
			for _, k := range []int{250, 251, 252, 253} {
				one(fmt.Sprintf("count-%d", k), 1, func(r *rand.Rand) {
					doAsset(d, p, request(r, p, 1, 0), assets(r, p, k), Vout{addr(r, p), 1})
				})
			}
		case "zen":
			one("block", 60, func(r *rand.Rand) {
				q := request(r, p, small(r), small(r))
				if r.Intn(4) == 0 {
					q.BH = []string{"", q.BH[:62], q.BH + "00", "zz" + q.BH[2:], q.BH[:63]}[r.Intn(5)]
				}
				doCreate(d, p, q)
			})
		}
	})
}
func omni(r *rand.Rand, p *Prof, typ int) *Omni {
	return &Omni{typ, u32(r), vlib.Amount(r, 64), byte(r.Intn(256)), string(vlib.Bytes(r, r.Intn(60))), b58addr([]byte{byte(r.Intn(256))}, vlib.HashN(r, 20))}
}
func assets(r *rand.Rand, p *Prof, n int) (a []Asset) {
	for i := 0; i < n; i++ {
		a = append(a, Asset{vlib.H(vlib.HashN(r, 16)), addr(r, p), vlib.Amount(r, 64)})
	}
	return
}

// ---- P13
// form: the shape of a transaction of the TxForm model
type form struct {
	Seg       bool
	Ins, Outs []int
	Wit       [][]int
	Tokens    int
}

var formList []form

func forms() []form {
	if formList == nil {
		formList = []form{}
		if *vlib.FScn != "" {
			vlib.Lines(func(l []byte) {
				var f form
				if json.Unmarshal(l, &f) != nil {
					panic("scenario " + string(l))
				}
				formList = append(formList, f)
			})
		}
	}
	return formList
}

// run writes the tokens of the model with concrete bytes and damages each of them in each way of the model.
func (f form) run(d Drv, p *Prof, r *rand.Rand) {
	var tok [][]byte
	put := func(b ...[]byte) { tok = append(tok, b...) }
	body := func(n int) {
		b := []byte{}
		if n > 0 {
			if b = vlib.Bytes(r, 1+r.Intn(90)); r.Intn(12) == 0 {
				b = vlib.Bytes(r, 250+r.Intn(8))
			}
		}
		put(cs(len(b)))
		if n > 0 {
			put(b)
		}
	}
	put(le32(ver(p)))
	if f.Seg {
		put([]byte{0}, []byte{1})
	}
	put(cs(len(f.Ins)))
	own := []string{}
	for _, n := range f.Ins {
		put(append(vlib.Hash32(r), le32(u32(r))...))
		body(n)
		put(le32(r.Uint32()))
		if n != 0 || f.Seg {
			own = nil
		} else if own != nil {
			own = append(own, "none")
		}
	}
	put(cs(len(f.Outs)))
	for _, n := range f.Outs {
		put(le64(vlib.Amount(r, 64)))
		if n == 0 {
			own = nil
		}
		body(n)
		if b := tok[len(tok)-1]; len(b) > 100 {
			own = nil
		}
	}
	for _, st := range f.Wit {
		put(cs(len(st)))
		for _, n := range st {
			body(n)
		}
	}
	put(le32(lockt(r)))
	if len(tok) != f.Tokens {
		panic("tokens")
	}
	join := func(x [][]byte) (b []byte) {
		for _, t := range x {
			b = append(b, t...)
		}
		return b
	}
	sg := f.Seg
	doDecode(d, join(tok), sg, own)
	doDecode(d, join(tok), !sg, nil)
	doDecode(d, append(join(tok), byte(r.Intn(256))), sg, nil)
	for k, t := range tok {
		head, tail := join(tok[:k]), join(tok[k+1:])
		with := func(x []byte) { doDecode(d, append(append(append([]byte{}, head...), x...), tail...), sg, nil) }
		doDecode(d, head, sg, nil)
		if len(t) > 1 {
			doDecode(d, append(append([]byte{}, head...), t[:1+r.Intn(len(t)-1)]...), sg, nil)
		}
		with(nil)
		with(append(append([]byte{}, t...), t...))
		x := append([]byte{}, t...)
		x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
		with(x)
		if len(t) == 1 {
			for _, c := range []byte{t[0] + 1, t[0] - 1, 0, 253, 254, 255} {
				with([]byte{c})
			}
			for _, c := range [][]byte{{253, t[0], 0}, {254, t[0], 0, 0, 0}, {255, t[0], 0, 0, 0, 0, 0, 0, 0}} { // not the shortest form
				decodeAs(d, append(append(append([]byte{}, head...), c...), tail...), sg, nil, join(tok))
			}
			with([]byte{255, 255, 255, 255, 255, 255, 255, 255, 127})
			with([]byte{254, 255, 255, 255, 255})
		}
	}
}

func modeDecode() {
	eachNet(func(n string, d Drv, p *Prof) {
		one := func(id string, k int, f func(r *rand.Rand)) {
			for j := 0; j < k**vlib.FScale; j++ {
				vlib.Scn(fmt.Sprintf("decode/%s/%s/%s/%d", n, p.Net, id, j), func(r *rand.Rand) { recProfile(p); f(r) })
			}
		}
		one("own", 6, func(r *rand.Rand) { // made by the driver itself, at both stages
			ks := someKinds(r, p, small(r))
			sg := segFor(r, p, ks)
			ss := spends(r, p, ks, sg)
			un := uns(ss)
			t := unsigned(r, p, len(ks), small(r))
			if n != "omni" {
				q := request(r, p, len(ks), small(r))
				if b, err := d.Create(q, p); err == nil && parse(b) != nil {
					t = parse(b)
				}
			}
			none := []string{}
			for range ks {
				none = append(none, "none")
			}
			doDecode(d, t.bytes(), sg, none)
			hs, _ := d.Digest(t.hex(), un, sg, p)
			if len(hs) != len(ss) {
				return
			}
			fill(d, hs, ss, sigAll(p), false, nil)
			s := doInsert(d, t.hex(), hs, un, sg, true)
			b, _ := hex.DecodeString(s)
			doDecode(d, b, sg, ks)
			for j := 0; j < 10; j++ { // damaged
				x := append([]byte{}, b...)
				switch r.Intn(4) {
				case 0:
					x = x[:r.Intn(len(x)+1)]
				case 1:
					x = append(x, vlib.Bytes(r, 1+r.Intn(5))...)
				case 2:
					if len(x) > 0 {
						x[r.Intn(len(x))] = byte(r.Intn(256))
					}
				case 3:
					if len(x) > 0 {
						k := r.Intn(len(x))
						x = append(x[:k], x[k+1:]...)
					}
				}
				doDecode(d, x, sg, nil)
				doDecode(d, x, !sg, nil)
			}
		})
		if isMain(p) {
			one("prefixes", 1, func(r *rand.Rand) {
				t := unsigned(r, p, 2, 2).bytes()
				for k := 0; k < len(t); k++ {
					doDecode(d, t[:k], false, nil)
				}
			})
			for _, kind := range kindsOf(p) {
				one("signed-"+kind, 1, func(r *rand.Rand) {
					ks := []string{kind}
					sg := segFor(r, p, ks)
					ss := spends(r, p, ks, sg)
					un := uns(ss)
					t := unsigned(r, p, 1, 1)
					hs, _ := d.Digest(t.hex(), un, sg, p)
					if len(hs) != 1 {
						return
					}
					fill(d, hs, ss, sigAll(p), false, nil)
					b := vlib.U(doInsert(d, t.hex(), hs, un, sg, true))
					for k := 0; k < len(b); k++ {
						doDecode(d, b[:k], sg, nil)
						x := append([]byte{}, b...)
						switch r.Intn(3) {
						case 0:
							x = append(x[:k], x[k+1:]...)
						case 1:
							x[k] = byte(r.Intn(256))
						default:
							x[k] ^= 1 << uint(r.Intn(8))
						}
						doDecode(d, x, sg, nil)
					}
				})
			}
			for k, f := range forms() {
				one(fmt.Sprintf("form-%d", k), 1, func(r *rand.Rand) { f.run(d, p, r) })
			}
			one("many", 1, func(r *rand.Rand) {
				t := unsigned(r, p, 252, 252)
				none := []string{}
				for range t.ins {
					none = append(none, "none")
				}
				for i := range t.outs {
					t.outs[i].script = t.outs[i].script[:1]
				}
				doDecode(d, t.bytes(), false, none)
				t.ins = append(t.ins, t.ins[0])
				doDecode(d, t.bytes(), false, nil)
				t.ins = t.ins[:1]
				t.outs = append(t.outs, t.outs[0])
				doDecode(d, t.bytes(), false, nil)
			})
		}
	})
}

func main() {
	vlib.Start()
	vlib.Modes(run)
	vlib.Done()
}
func run(mode string) {
	if strings.HasPrefix(mode, "leg-") { // P22: the legacy driver
		all := names
		names = []string{"leg"}
		defer func() { names = all }()
		mode = mode[4:]
	}
	switch mode {
	case "create":
		modeCreate()
	case "digest":
		modeDigest()
	case "sign":
		modeSign()
	case "sweep":
		modeSweep()
	case "verify":
		modeVerify()
	case "multi":
		modeMulti()
	case "token":
		modeToken()
	case "decode":
		modeDecode()
	case "direct":
		modeDirect()
	default:
		panic("mode")
	}
	_ = bytes.Equal
}

// ---- P22: signing in one step
func modeDirect() {
	eachNet(func(n string, d Drv, p *Prof) {
		for j := 0; j < 60**vlib.FScale; j++ {
			vlib.Scn(fmt.Sprintf("direct/%s/%d", n, j), func(r *rand.Rand) {
				recProfile(p)
				ks := someKinds(r, p, small(r))
				var ss []*spend
				for _, k := range ks {
					c := 1 + r.Intn(3)
					ss = append(ss, newSpend(r, p, k, true, 1+r.Intn(c), c))
				}
				un, t := uns(ss), unsigned(r, p, len(ks), small(r)).hex()
				var prvs [][]byte
				for _, s := range ss {
					prvs = append(prvs, s.prvs[0])
				}
				i := r.Intn(len(un))
				switch r.Intn(12) {
				case 0:
					un = append(un, un[0])
					prvs = append(prvs, prvs[0])
				case 1:
					prvs[i] = prvs[i][1:]
				case 2:
					un[i].Lock = vlib.H(vlib.Bytes(r, 22+r.Intn(4)))
				case 3:
					t = t[:2*r.Intn(len(t)/2)]
				}
				var out string
				var err error
				pn := vlib.Call(func() { out, err = drvLeg{}.Direct(t, un, prvs) })
				hp := []string{}
				for _, k := range prvs {
					hp = append(hp, vlib.H(k))
				}
				vlib.Rec(Ev{"op": "direct", "tx": t, "un": evUn(un), "prvs": hp, "out": out, "ok": ok(err), "panic": pn})
				if out != "" && r.Intn(2) == 0 {
					doVerify(d, p, out, un, true)
				}
			})
		}
	})
}

// ---- the harness's own address texts
func drvB58(pre, h []byte) string {
	b := cat(pre, h)
	b = cat(b, sha(sha(b))[:4])
	x := new(big.Int).SetBytes(b)
	s := ""
	m := new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, big.NewInt(58), m)
		s = string(b58chars[m.Int64()]) + s
	}
	for i := 0; i < len(b) && b[i] == 0; i++ {
		s = "1" + s
	}
	return s
}
func segAddr(hrp string, v byte, prog []byte) string {
	d := []byte{v}
	acc, bits := uint32(0), uint(0)
	for _, b := range prog {
		acc = acc<<8 | uint32(b)
		bits += 8
		for bits >= 5 {
			bits -= 5
			d = append(d, byte(acc>>bits)&31)
		}
	}
	if bits > 0 {
		d = append(d, byte(acc<<(5-bits))&31)
	}
	g := []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	pm := func(v []byte) uint32 {
		c := uint32(1)
		for _, x := range v {
			t := c >> 25
			c = (c&0x1ffffff)<<5 ^ uint32(x)
			for i := uint(0); i < 5; i++ {
				if t>>i&1 == 1 {
					c ^= g[i]
				}
			}
		}
		return c
	}
	v2 := []byte{}
	for i := 0; i < len(hrp); i++ {
		v2 = append(v2, hrp[i]>>5)
	}
	v2 = append(v2, 0)
	for i := 0; i < len(hrp); i++ {
		v2 = append(v2, hrp[i]&31)
	}
	c := pm(cat(v2, d, make([]byte, 6))) ^ 1
	for i := uint(0); i < 6; i++ {
		d = append(d, byte(c>>(5*(5-i)))&31)
	}
	s := hrp + "1"
	for _, x := range d {
		s += string(b32chars[x])
	}
	return s
}
