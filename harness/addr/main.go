//go:build go1.22

// Replays the AddrCodec scenarios in addressEncoder.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	v "github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type scn struct {
	Kind string   `json:"kind"`
	Same bool     `json:"same"`
	Ops  []string `json:"ops"`
}

func payload(r *rand.Rand, kind string, p prof) []byte {
	n := p.t.HashLen
	if p.t.EncodeType == "eip55" {
		n = 32
	}
	fixed := p.t.EncodeType == "bech32" || p.t.EncodeType == "bech32m" || p.t.HashType == "" || p.t.HashType == "payID"
	var b []byte
	switch kind {
	case "zero":
		b = make([]byte, n)
	case "ones":
		b = []byte(strings.Repeat("\xff", n))
	case "leadzero":
		b = v.Bytes(r, n)
		b[0] = 0
	case "leadzeros":
		b = v.Bytes(r, n)
		k := 2 + r.Intn(n-2)
		for i := 0; i < k; i++ {
			b[i] = 0
		}
	case "low":
		b = make([]byte, n)
		b[n-1] = byte(1 + r.Intn(255))
	case "long32":
		if p.t.EncodeType == "bech32" && p.t.Prefix != nil {
			b = v.HashN(r, 32)
		} else {
			b = v.HashN(r, n)
		}
	case "pubkey33", "pubkey64", "pubkey65":
		if fixed || p.t.EncodeType == "base32PolyMod" {
			b = v.HashN(r, n)
		} else {
			b = v.Bytes(r, map[string]int{"pubkey33": 33, "pubkey64": 64, "pubkey65": 65}[kind])
			if kind == "pubkey33" {
				b[0] = 2 + b[0]&1
			}
			return b
		}
	default:
		b = v.Bytes(r, n)
	}
	if p.t.EncodeType == "base32PolyMod" {
		b[0] = byte(r.Intn(2))
	}
	if p.t.EncodeType == "XMR" && r.Intn(2) == 0 { // zero runs inside blocks
		k := r.Intn(len(b) - 9)
		for i := 0; i < 1+r.Intn(8); i++ {
			b[k+i] = 0
		}
	}
	return b
}

const b32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func alphabetOf(p prof) string {
	if p.t.Alphabet != "" {
		return p.t.Alphabet
	}
	return "0123456789abcdef"
}

// corrupt applies one abstract corruption to the concrete text.
func corrupt(r *rand.Rand, op, t string, p prof) string {
	if op == "empty" {
		return ""
	}
	if t == "" {
		return t
	}
	al := alphabetOf(p)
	c := string(al[r.Intn(len(al))])
	k := r.Intn(len(t))
	switch op {
	case "subst":
		return t[:k] + c + t[k+1:]
	case "delete":
		return t[:k] + t[k+1:]
	case "insert":
		return t[:k] + c + t[k:]
	case "swap":
		if k+1 < len(t) {
			return t[:k] + string(t[k+1]) + string(t[k]) + t[k+2:]
		}
	case "trunc":
		return t[:k]
	case "append":
		return t + c
	case "prepend":
		if r.Intn(2) == 0 {
			return string(al[0]) + t
		}
		return c + t
	case "case":
		switch r.Intn(4) {
		case 3: // letters that fold to ASCII ones
			return strings.NewReplacer("K", "\u212a", "S", "\u017f").Replace(strings.ToUpper(t))
		case 0:
			return strings.ToUpper(t)
		case 1:
			return strings.ToLower(t)
		}
		x := strings.ToUpper(t[k : k+1])
		if x == t[k:k+1] {
			x = strings.ToLower(x)
		}
		return t[:k] + x + t[k+1:]
	case "alien":
		x := []string{"0", "O", "I", "l", " ", "\n", "\x00", "é", "\xff", "1", "b", ":", "_", "世"}[r.Intn(14)]
		if r.Intn(2) == 0 {
			return t[:k] + x + t[k+1:]
		}
		return t[:k] + x + t[k:]
	case "rever", "relen":
		return reform(r, op, t, p)
	}
	return t
}

// reform builds a text with a valid check but another version or another length, with the
// implementation's own building blocks (the verdict is the specification's).
func reform(r *rand.Rand, op, t string, p prof) (res string) {
	res = t
	v.Call(func() {
		switch p.t.EncodeType {
		case "base58", "eos", "aeternity":
			body := t
			pre := ""
			if p.t.EncodeType == "eos" {
				pre = "EOS"
			} else if p.t.EncodeType == "aeternity" {
				pre = "ak_"
			}
			body = strings.TrimPrefix(t, pre)
			raw, err := ae.Base58Decode(body, ae.NewBase58Alphabet(p.t.Alphabet))
			if err != nil || len(raw) < 4 {
				return
			}
			raw = append([]byte{}, raw[:len(raw)-4]...)
			if op == "rever" {
				if pre == "EOS" {
					pre = []string{"PUB_K1_", "PUB_R1_", "eos", "", "PUB_"}[r.Intn(5)]
				} else if pre == "ak_" {
					pre = []string{"", "ok_", "ak", "AK_"}[r.Intn(4)]
				} else if len(p.t.Suffix) > 0 && r.Intn(2) == 0 && len(raw) > 0 {
					raw[len(raw)-1] ^= byte(1 << uint(r.Intn(8)))
				} else if len(raw) > 0 && len(p.t.Prefix) > 0 {
					raw[r.Intn(len(p.t.Prefix))%len(raw)] ^= byte(1 << uint(r.Intn(8)))
				}
			} else {
				raw = relen(r, raw)
			}
			c := ae.CalcChecksum(raw, p.t.ChecksumType)
			res = pre + ae.Base58Encode(append(append([]byte{}, raw...), c...), ae.NewBase58Alphabet(p.t.Alphabet))
		case "XMR":
			if op == "relen" {
				// add 2^64 (or 2^40) to one block: same bytes after truncation
				res = xmrOverflow(r, t)
				return
			}
			q := *p.t
			q.Prefix = []byte{p.t.Prefix[0] ^ byte(1<<uint(r.Intn(8)))}
			res = ae.AddressEncode(v.Bytes(r, p.t.HashLen), q)
		case "bech32":
			pre := p.t.Prefix
			hrp := p.t.ChecksumType
			n := 20
			if op == "rever" {
				switch r.Intn(3) {
				case 0:
					hrp = []string{"bc", "tb", "bm", "ltc", "cosmos", "bnb", "eva", "xch", "a", "bcrt", strings.ToUpper(hrp)}[r.Intn(11)]
				case 1:
					pre = []byte{byte(r.Intn(32))}
				case 2:
					if pre == nil {
						pre = []byte{0}
					} else {
						pre = nil
					}
				}
			} else {
				n = []int{0, 1, 2, 5, 10, 19, 21, 22, 31, 32, 33, 40}[r.Intn(12)]
			}
			if r.Intn(4) == 0 { // non-zero padding bits: raw 5-bit symbols as "prefix"
				sym := make([]byte, []int{1, 2, 33, 52, 53, 54}[r.Intn(6)])
				for i := range sym {
					sym[i] = byte(r.Intn(32))
				}
				if len(sym) > 2 && p.t.Prefix != nil {
					sym[0] = 0
				}
				res = b32text(hrp, sym, 1)
				return
			}
			d := v.Bytes(r, n)
			res = b32text(hrp, append(append([]byte{}, pre...), five(d)...), 1)
		case "bech32m":
			hrp := p.t.ChecksumType
			k := 0x2bc830a3
			n := 32
			if op == "rever" {
				if r.Intn(2) == 0 {
					hrp = []string{"txch", "bc", "xc", "x"}[r.Intn(4)]
				} else {
					k = 1
				}
			} else {
				n = []int{0, 1, 20, 31, 33, 34, 40}[r.Intn(7)]
			}
			sym := five(v.Bytes(r, n))
			if r.Intn(3) == 0 && len(sym) > 0 {
				sym[len(sym)-1] |= 1
			}
			res = b32text(hrp, sym, k)
		case "base32PolyMod":
			hrp := "bitcoincash"
			n := 21
			if op == "rever" {
				if r.Intn(2) == 0 {
					hrp = []string{"bchtest", "bchreg", "simpleledger", "BITCOINCASH", "bitcoincas"}[r.Intn(5)]
				}
			} else {
				n = []int{0, 1, 2, 5, 20, 22, 33}[r.Intn(7)]
			}
			d := v.Bytes(r, n)
			if n > 0 {
				d[0] = byte(r.Intn(4) * 8)
				if r.Intn(3) == 0 {
					d[0] = byte(r.Intn(256))
				}
			}
			sym := five(d)
			if r.Intn(3) == 0 && len(sym) > 0 {
				sym[len(sym)-1] |= byte(1 << uint(r.Intn(2)))
			}
			res = cashtext(hrp, sym)
			if r.Intn(6) == 0 {
				res = strings.TrimPrefix(res, hrp+":")
			}
		case "eip55":
			if op == "rever" {
				res = []string{"0x", "0X", "x0", "00", "0x0x"}[r.Intn(5)] + t
			} else {
				res = "0x" + t[:r.Intn(len(t))]
			}
		case "ICX":
			if op == "rever" {
				res = []string{"cx", "Hx", "0x", ""}[r.Intn(4)] + t[2:]
			} else {
				res = t[:2+r.Intn(len(t)-2)]
			}
		}
	})
	return
}

func relen(r *rand.Rand, raw []byte) []byte {
	switch r.Intn(5) {
	case 0:
		return raw[:r.Intn(len(raw)+1)]
	case 1:
		return raw[:0]
	case 2:
		return append(raw, v.Bytes(r, 1+r.Intn(12))...)
	case 3:
		k := r.Intn(len(raw) + 1)
		return append(append(append([]byte{}, raw[:k]...), 0), raw[k:]...)
	}
	if len(raw) > 0 {
		return raw[:len(raw)-1]
	}
	return raw
}

func five(d []byte) []byte {
	var out []byte
	acc, n := 0, 0
	for _, x := range d {
		acc = acc<<8 | int(x)
		n += 8
		for n >= 5 {
			n -= 5
			out = append(out, byte(acc>>uint(n)&31))
		}
		acc &= 1<<uint(n) - 1
	}
	if n > 0 {
		out = append(out, byte(acc<<uint(5-n)&31))
	}
	return out
}

func b32text(hrp string, d []byte, k int) string {
	gen := []int{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	var vs []byte
	for _, c := range []byte(hrp) {
		vs = append(vs, c>>5)
	}
	vs = append(vs, 0)
	for _, c := range []byte(hrp) {
		vs = append(vs, c&31)
	}
	vs = append(append(vs, d...), 0, 0, 0, 0, 0, 0)
	chk := 1
	for _, x := range vs {
		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ int(x)
		for i := 0; i < 5; i++ {
			if top>>uint(i)&1 == 1 {
				chk ^= gen[i]
			}
		}
	}
	chk ^= k
	s := hrp + "1"
	for _, x := range d {
		s += string(b32[x])
	}
	for i := 5; i >= 0; i-- {
		s += string(b32[chk>>uint(5*i)&31])
	}
	return s
}

func cashtext(hrp string, d []byte) string {
	gen := []uint64{0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470}
	var vs []byte
	for _, c := range []byte(hrp) {
		vs = append(vs, c&31)
	}
	vs = append(append(append(vs, 0), d...), 0, 0, 0, 0, 0, 0, 0, 0)
	c := uint64(1)
	for _, x := range vs {
		top := c >> 35
		c = (c&0x07ffffffff)<<5 ^ uint64(x)
		for i := 0; i < 5; i++ {
			if top>>uint(i)&1 == 1 {
				c ^= gen[i]
			}
		}
	}
	c ^= 1
	s := hrp + ":"
	for _, x := range d {
		s += string(b32[x])
	}
	for i := 7; i >= 0; i-- {
		s += string(b32[c>>uint(5*i)&31])
	}
	return s
}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// xmrOverflow rewrites one block as value+2^64 (+2^40 for the last) when that still fits its width.
func xmrOverflow(r *rand.Rand, t string) string {
	nb := len(t) / 11
	k := r.Intn(nb + 1)
	lo, hi, limit := k*11, k*11+11, uint64(0)
	if k == nb {
		lo, hi, limit = nb*11, len(t), 1<<40
	}
	// digits arithmetic in base 58, adding 2^64 = limit 0 means 2^64
	dig := []int{}
	for _, c := range []byte(t[lo:hi]) {
		dig = append(dig, strings.IndexByte(b58, c))
	}
	add := []int{}
	if limit != 0 {
		for x := limit; x > 0; x /= 58 {
			add = append([]int{int(x % 58)}, add...)
		}
	} else { // 2^64 = (2^63)*2
		x := uint64(1) << 63
		for ; x > 0; x /= 58 {
			add = append([]int{int(x % 58)}, add...)
		}
		c := 0
		for i := len(add) - 1; i >= 0; i-- {
			y := add[i]*2 + c
			add[i], c = y%58, y/58
		}
		if c > 0 {
			add = append([]int{c}, add...)
		}
	}
	for len(add) < len(dig) {
		add = append([]int{0}, add...)
	}
	c := 0
	for i := len(dig) - 1; i >= 0; i-- {
		y := dig[i] + add[i] + c
		dig[i], c = y%58, y/58
	}
	if c > 0 {
		return t
	}
	s := ""
	for _, d := range dig {
		s += string(b58[d])
	}
	return t[:lo] + s + t[hi:]
}

func encode(p prof, x []byte) string {
	var out string
	in := append([]byte{}, x...)
	pn := v.Call(func() { out = ae.AddressEncode(v.B(in), v.A(*p.t)) })
	v.Rec(v.Ev{"op": "encode", "prof": p.name, "x": v.H(x), "out": out, "panic": pn})
	return out
}

func decode(p prof, t string) {
	var out []byte
	var err error
	pn := v.Call(func() { out, err = ae.AddressDecode(t, v.A(*p.t)) })
	v.Rec(v.Ev{"op": "decode", "prof": p.name, "t": v.H([]byte(t)), "ok": err == nil && pn == "", "out": v.H(out), "panic": pn})
}

func check(sym, t string) {
	var val bool
	var err error
	pn := v.Call(func() { val, err = ae.AddressCheck(t, sym) })
	v.Rec(v.Ev{"op": "check", "sym": sym, "t": v.H([]byte(t)), "ok": err == nil && pn == "", "val": val, "panic": pn})
}

var kinds = map[string][]string{
	"BTC": {"BTC_mainnetAddressP2PKH", "BTC_mainnetAddressP2SH", "BTC_mainnetAddressBech32V0", "BTC_testnetAddressP2PKH", "BTC_testnetAddressP2SH", "BTC_testnetAddressBech32V0"},
	"ZEC": {"ZEC_mainnet_t_AddressP2PKH", "ZEC_mainnet_t_AddressP2SH", "ZEC_testnet_t_AddressP2PKH", "ZEC_testnet_t_AddressP2SH"},
	"LTC": {"LTC_mainnetAddressP2PKH", "LTC_mainnetAddressP2SH", "LTC_mainnetAddressP2SH2", "LTC_mainnetAddressBech32V0", "LTC_testnetAddressP2PKH", "LTC_testnetAddressP2SH", "LTC_testnetAddressBech32V0"},
	"BCH": {"BCH_mainnetAddressLegacy", "BCH_mainnetAddressCash"},
	"XTZ": {"XTZ_mainnetAddress_tz1", "XTZ_mainnetAddress_tz2", "XTZ_mainnetAddress_tz3"},
	"HC":  {"HC_mainnetPublicAddress"}, "ETH": {"ETH_mainnetPublicAddress"},
	"QTUM": {"QTUM_mainnetAddressP2PKH", "QTUM_mainnetAddressP2SH", "QTUM_testnetAddressP2PKH", "QTUM_testnetAddressP2SH"},
	"DCRD": {"DCRD_mainnetAddressP2PKH", "DCRD_mainnetAddressP2PK", "DCRD_mainnetAddressPKHEdwards", "DCRD_mainnetAddressPKHSchnorr", "DCRD_mainnetAddressP2SH", "DCRD_mainnetAddressPrivate",
		"DCRD_testnetAddressP2PKH", "DCRD_testnetAddressP2PK", "DCRD_testnetAddressPKHEdwards", "DCRD_testnetAddressP2PKHSchnorr", "DCRD_testnetAddressP2SH", "DCRD_testnetAddressPrivate",
		"DCRD_simnetAddressP2PKH", "DCRD_simnetAddressP2PK", "DCRD_simnetAddressPKHEdwards", "DCRD_simnetAddressPKHSchnorr", "DCRD_simnetAddressP2SH"},
	"NAS": {"NAS_AccountAddress", "NAS_SmartContractAddress"}, "TRX": {"TRON_mainnetAddress"}, "ICX": {"ICX_walletAddress"}, "VSYS": {"VSYS_mainnetAddress"},
}
var symOrder = []string{"BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS", "DOGE", "btc", ""}

func find(name string) prof {
	for _, p := range profs {
		if p.name == name {
			return p
		}
	}
	panic(name)
}

func main() {
	v.Start()
	v.Modes(run)
	v.Done()
}
func run(mode string) {
	var all []scn
	v.Lines(func(l []byte) {
		var s scn
		if json.Unmarshal(l, &s) != nil {
			panic("scenario")
		}
		all = append(all, s)
	})
	id := func(a string, s scn, k int) string {
		return fmt.Sprintf("%s/%s/%v/%s/%d", a, s.Kind, s.Same, strings.Join(s.Ops, "+"), k)
	}
	sc := *v.FScale
	switch mode {
	case "encode": // P01: every profile, every payload class, unharmed
		for _, p := range profs {
			for _, s := range all {
				if len(s.Ops) != 0 || !s.Same {
					continue
				}
				for k := 0; k < 6*sc; k++ {
					v.Scn(id(p.name, s, k), func(r *rand.Rand) {
						decode(p, encode(p, payload(r, s.Kind, p)))
					})
				}
			}
		}
	case "decode": // P02: corruptions, other readers
		g := v.R("pick")
		for pi, p := range profs {
			for si, s := range all {
				n := 0
				switch {
				case len(s.Ops) == 0:
					n = sc
				case len(s.Ops) == 1 && s.Same:
					n = 2 * sc
					if s.Ops[0] == "rever" || s.Ops[0] == "relen" {
						n = 3 * sc
					}
				default:
					if g.Intn(40) < sc {
						n = 1
					}
				}
				_, _ = pi, si
				for k := 0; k < n; k++ {
					v.Scn(id(p.name, s, k), func(r *rand.Rand) {
						t := encode(p, payload(r, s.Kind, p))
						for _, o := range s.Ops {
							t = corrupt(r, o, t, p)
						}
						q := p
						if !s.Same {
							q = profs[r.Intn(len(profs))]
							// prefer readers of the same shape
							for j := 0; j < 20 && q.t.EncodeType != p.t.EncodeType; j++ {
								q = profs[r.Intn(len(profs))]
							}
						}
						decode(q, t)
					})
				}
			}
		}
	case "check": // P03
		for _, sym := range symOrder {
			ks := kinds[sym]
			if ks == nil {
				ks = []string{"BTC_mainnetAddressP2PKH"}
			}
			for _, kn := range ks {
				p := find(kn)
				for _, s := range all {
					n := 1
					if len(s.Ops) == 0 {
						n = 8 * sc
					} else if len(s.Ops) == 2 {
						if v.R(id(sym+kn, s, 0)).Intn(20) >= sc {
							continue
						}
					}
					for k := 0; k < n; k++ {
						v.Scn(sym+":"+id(kn, s, k), func(r *rand.Rand) {
							q := p
							if !s.Same {
								q = profs[r.Intn(len(profs))]
							}
							t := encode(q, payload(r, s.Kind, q))
							for _, o := range s.Ops {
								t = corrupt(r, o, t, q)
							}
							check(sym, t)
						})
					}
				}
			}
			for k := 0; k < 40*sc; k++ { // arbitrary short texts
				v.Scn(fmt.Sprintf("%s:text/%d", sym, k), func(r *rand.Rand) {
					full := ae.AddressEncode(v.Bytes(r, 20), *find(ks[r.Intn(len(ks))]).t)
					n := r.Intn(14)
					if n > len(full) {
						n = len(full)
					}
					check(sym, full[:n])
				})
			}
		}
	}
}
