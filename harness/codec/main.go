//go:build go1.22

// Calls of the codecs, checksums and hashes the packages export (P23).
package main

import (
	"encoding/json"
	"fmt"
	"hash"
	"math/rand"
	"strings"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	"github.com/blocktree/go-owcdrivers/addressEncoder/blake256"
	ali "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	leg "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	btm "github.com/blocktree/go-owcdrivers/bytomTransaction"
	atom "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	ela "github.com/blocktree/go-owcdrivers/elastosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	fil "github.com/blocktree/go-owcdrivers/filenetTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	hyc "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	hd "github.com/blocktree/go-owcdrivers/owkeychain"
	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	xrp "github.com/blocktree/go-owcdrivers/rippleTransaction"
	xvg "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	vds "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wicc "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	zen "github.com/blocktree/go-owcdrivers/zencashTransaction"
	v "github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

const (
	b58    = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	ripple = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
	flickr = "123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"
	b32    = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	std64  = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
)

func pts(s string) []int {
	r := []int{}
	for _, c := range []rune(s) {
		r = append(r, int(c))
	}
	return r
}
func octets(s []byte) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

// wide is an alphabet that leaves ASCII; half of them keep some ASCII letters.
func wide(r *rand.Rand) string {
	s, base := "", 0x100+r.Intn(0xa000)
	k := r.Intn(50)
	if r.Intn(3) == 0 {
		base = 0x100 - r.Intn(2)*k
	}
	for i, c := range []rune(flickr) {
		if i < k {
			s += string(c)
		} else {
			s += string(rune(base + i))
		}
	}
	return s
}
func shuffled(r *rand.Rand, s string) string {
	b := []byte(s)
	r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	return string(b)
}

type coder struct {
	name string
	// with gives the two directions over an alphabet, and the alphabet as the package shows it
	with func(al string) (enc func([]byte) string, dec func(string) ([]byte, error), shown string)
}

func mk[T any](name string, alpha func(string) T, enc func([]byte, T) string, dec func(string, T) ([]byte, error)) coder {
	return coder{name, func(al string) (func([]byte) string, func(string) ([]byte, error), string) {
		a := alpha(al)
		shown := al
		if s, ok := any(a).(fmt.Stringer); ok {
			shown = s.String()
		}
		return func(b []byte) string { return enc(b, a) }, func(t string) ([]byte, error) { return dec(t, a) }, shown
	}}
}

var coders = []coder{
	mk("ae", ae.NewBase58Alphabet, ae.Base58Encode, ae.Base58Decode),
	mk("ali", ali.NewAlphabet, ali.Encode, ali.Decode), mk("bch", bch.NewAlphabet, bch.Encode, bch.Decode), mk("bsv", bsv.NewAlphabet, bsv.Encode, bsv.Decode),
	mk("leg", leg.NewAlphabet, leg.Encode, leg.Decode), mk("btc", btc.NewAlphabet, btc.Encode, btc.Decode), mk("cxc", cxc.NewAlphabet, cxc.Encode, cxc.Decode),
	mk("ela", ela.NewAlphabet, ela.Encode, ela.Decode), mk("fiii", fiii.NewAlphabet, fiii.Encode, fiii.Decode), mk("fil", fil.NewAlphabet, fil.Encode, fil.Decode),
	mk("hc", hc.NewAlphabet, hc.Encode, hc.Decode), mk("hyc", hyc.NewAlphabet, hyc.Encode, hyc.Decode), mk("omni", omni.NewAlphabet, omni.Encode, omni.Decode),
	mk("ont", ont.NewAlphabet, ont.Encode, ont.Decode), mk("hd", hd.NewAlphabet, hd.Encode, hd.Decode), mk("xrp", xrp.NewAlphabet, xrp.Encode, xrp.Decode),
	mk("xvg", xvg.NewAlphabet, xvg.Encode, xvg.Decode), mk("vsys", vsys.NewAlphabet, vsys.Encode, vsys.Decode), mk("vds", vds.NewAlphabet, vds.Encode, vds.Decode),
	mk("wicc", wicc.NewAlphabet, wicc.Encode, wicc.Decode), mk("zen", zen.NewAlphabet, zen.Encode, zen.Decode),
}

type checked struct {
	name, kind string
	enc        func(pre, b []byte) string
	dec        func(t string, fix []byte) (pre, b []byte, err error)
}

func oneByte(name string, enc func(byte, []byte) string, dec func(string) (byte, []byte, error)) checked {
	return checked{name, "one", func(p, b []byte) string { return enc(p[0], b) },
		func(t string, _ []byte) ([]byte, []byte, error) { p, b, err := dec(t); return []byte{p}, b, err }}
}
func anyBytes(name string, enc func([]byte, []byte) string, dec func(string) ([]byte, []byte, error)) checked {
	return checked{name, "any", enc, func(t string, _ []byte) ([]byte, []byte, error) { return dec(t) }}
}

var checkeds = []checked{
	oneByte("ali", ali.EncodeCheck, ali.DecodeCheck), oneByte("leg", leg.EncodeCheck, leg.DecodeCheck), oneByte("ont", ont.EncodeCheck, ont.DecodeCheck), oneByte("xvg", xvg.EncodeCheck, xvg.DecodeCheck),
	anyBytes("bch", bch.EncodeCheck, bch.DecodeCheck), anyBytes("bsv", bsv.EncodeCheck, bsv.DecodeCheck), anyBytes("btc", btc.EncodeCheck, btc.DecodeCheck),
	anyBytes("ela", ela.EncodeCheck, ela.DecodeCheck), anyBytes("cxc", cxc.EncodeCheck, cxc.DecodeCheck), anyBytes("hc", hc.EncodeCheck, hc.DecodeCheck),
	anyBytes("omni", omni.EncodeCheck, omni.DecodeCheck), anyBytes("vds", vds.EncodeCheck, vds.DecodeCheck), anyBytes("zen", zen.EncodeCheck, zen.DecodeCheck),
	anyBytes("wicc", wicc.EncodeCheck, wicc.DecodeCheck), anyBytes("hyc", hyc.EncodeCheck, hyc.DecodeCheck),
	{"vsys", "vsys", func(p, b []byte) string { return vsys.EncodeCheck(p[0], b) }, func(t string, _ []byte) ([]byte, []byte, error) { b, err := vsys.DecodeCheck(t); return nil, b, err }},
	{"fiii", "fix20", fiii.EncodeCheck, func(t string, fix []byte) ([]byte, []byte, error) { b, err := fiii.DecodeCheck(t, fix); return nil, b, err }},
	{"hd", "fix", func(p, b []byte) string { return hd.Base58checkEncode(b, p) }, func(t string, fix []byte) ([]byte, []byte, error) { b, err := hd.Base58checkDecode(t, fix); return nil, b, err }},
}

// bytes of a size that matters, with zeros where they matter
func draw(r *rand.Rand, most int) []byte {
	n := r.Intn(most + 1)
	switch r.Intn(4) {
	case 0:
		n = []int{0, 1, 2, 3, 4, 5, 19, 20, 21, 24, 25, 26, 29, 32, 33, 64, 65}[r.Intn(17)]
	}
	b := v.Bytes(r, n)
	if n == 0 {
		return b
	}
	switch r.Intn(6) {
	case 0, 1:
		for k := 0; k < n && k <= r.Intn(6); k++ {
			b[k] = 0
		}
	case 2:
		for k := range b {
			b[k] = 0
		}
	case 3:
		for k := range b {
			b[k] = 0xff
		}
	}
	return b
}

var corruptions = []string{"subst", "subst", "delete", "insert", "swap", "trunc", "append", "prepend", "case", "alien", "alien", "empty"}

// spoil changes a text; the texts of wide alphabets are changed letter by letter.
func spoil(r *rand.Rand, t, al string) string {
	if len(al) != len([]rune(al)) {
		x, a := []rune(t), []rune(al)
		if len(x) == 0 {
			return string(rune(0x10ffff))
		}
		k := r.Intn(len(x))
		switch r.Intn(4) {
		case 0:
			x[k] = a[r.Intn(len(a))]
		case 1:
			x = append(x[:k:k], x[k+1:]...)
		case 2:
			x[k] = a[len(a)-1] + 1 + rune(r.Intn(3))
		default:
			x[k] = []rune{'0', 'O', 0x80, 0xff, 0x212a, 0x17f, 0xfffd}[r.Intn(7)]
		}
		return string(x)
	}
	if r.Intn(12) == 0 && t != "" { // letters that fold to ASCII ones, and such whose low byte is one
		k := r.Intn(len(t))
		return t[:k] + []string{"\u212a", "\u017f", "\u0131", string(rune(0x100 + int(t[k])))}[r.Intn(4)] + t[k+1:]
	}
	return v.CorruptText(r, corruptions[r.Intn(len(corruptions))], t, al)
}

func base58(c coder, k int, r *rand.Rand) {
	al := []string{b58, wide(r), ripple, wide(r), flickr, shuffled(r, b58)}[k%6]
	var enc func([]byte) string
	var dec func(string) ([]byte, error)
	shown := ""
	p := v.Call(func() { enc, dec, shown = c.with(al) })
	v.Rec(v.Ev{"op": "alpha", "alpha": pts(al), "out": pts(shown), "panic": p})
	if p != "" {
		return
	}
	texts := []string{"", "\u0100", "\u00ff", string([]rune(al)[0:1]), strings.Repeat(string([]rune(al)[57:]), 1+r.Intn([]int{60, 60, 1200}[r.Intn(3)]))}
	for k := 0; k < 5; k++ {
		b := draw(r, 90)
		if k == 3 && r.Intn(3) == 0 {
			b = draw(r, 900)
		}
		if k < 2 {
			b = b[:0]
			if k == 1 {
				b = make([]byte, 1+r.Intn(5))
			}
		}
		out := ""
		p := v.Call(func() { out = v.Res(enc(v.B(b))) })
		v.Rec(v.Ev{"op": "b58enc", "data": v.H(b), "alpha": pts(al), "out": pts(out), "panic": p})
		texts = append(texts, out, spoil(r, out, al), spoil(r, out, al))
	}
	for _, t := range texts {
		var b []byte
		var err error
		p := v.Call(func() { b, err = dec(t); v.Res(b) })
		v.Rec(v.Ev{"op": "b58dec", "text": pts(t), "alpha": pts(al), "ok": p == "" && err == nil, "out": v.H(b), "panic": p})
	}
}

func base58check(c checked, r *rand.Rand) {
	pre := v.Bytes(r, 1)
	if r.Intn(3) == 0 {
		pre[0] = []byte{0, 5, 111}[r.Intn(3)]
	}
	if c.kind == "any" || c.kind == "fix20" || c.kind == "fix" {
		pre = append(v.Bytes(r, r.Intn(4)), pre...)
		if c.kind != "any" && r.Intn(6) == 0 {
			pre = []byte{}
		}
	}
	b := v.HashN(r, 20)
	switch r.Intn(6) {
	case 0:
		b = draw(r, 40)
	case 1:
		b = v.HashN(r, 19+r.Intn(3))
	case 2:
		if c.kind == "fix" {
			b = v.Bytes(r, 60+r.Intn(30))
		}
	}
	if c.kind == "vsys" && r.Intn(6) != 0 {
		b = v.HashN(r, 21)
	}
	out := ""
	p := v.Call(func() { out = v.Res(c.enc(v.B(pre), v.B(b))) })
	v.Rec(v.Ev{"op": "chkenc", "pkg": c.name, "pre": v.H(pre), "data": v.H(b), "out": pts(out), "panic": p})
	fix := pre
	for k := 0; k < 7; k++ {
		t := out
		if k > 0 {
			t = spoil(r, out, b58)
		}
		if k == 1 && (c.kind == "fix" || c.kind == "fix20") { // a fine text, but not the prefix it has
			t, fix = out, append([]byte{}, pre...)
			switch {
			case r.Intn(3) == 0:
				fix = append(fix, v.Bytes(r, 1)...)
			case len(fix) > 0 && r.Intn(4) == 0:
				fix = fix[:len(fix)-1]
			case len(fix) > 0:
				fix[r.Intn(len(fix))] ^= byte(1 << uint(r.Intn(8)))
			}
		} else {
			fix = pre
		}
		var pp, got []byte
		var err error
		p := v.Call(func() { pp, got, err = c.dec(t, v.B(fix)); v.Res(pp); v.Res(got) })
		ok := p == "" && err == nil
		if !ok {
			pp, got = nil, nil
		}
		v.Rec(v.Ev{"op": "chkdec", "pkg": c.name, "kind": c.kind, "text": pts(t), "fix": v.H(fix), "ok": ok, "pre": v.H(pp), "out": v.H(got), "panic": p})
	}
}

func program(name string, r *rand.Rand) {
	pres := map[string][]byte{"ela": {33, 33, 33, 18, 75, 0}, "xrp": {0, 0, 0, 35, 1}, "wicc": {73, 73, 135, 135, 51, 0}}[name]
	pre, b := pres[r.Intn(len(pres))], v.HashN(r, 20)
	if r.Intn(6) == 0 {
		b = v.HashN(r, 18+r.Intn(5))
	}
	t := btc.EncodeCheck([]byte{pre}, b)
	al := b58
	if name == "xrp" {
		raw, _ := btc.Decode(t, btc.BitcoinAlphabet)
		t, al = xrp.Encode(raw, xrp.RippleAlphabet), ripple
	}
	for k := 0; k < 6; k++ {
		x := t
		if k > 0 {
			x = spoil(r, t, al)
		}
		var got []byte
		var err error
		p := v.Call(func() {
			switch name {
			case "ela":
				got, err = ela.GetProgramHashFromAddress(x)
			case "xrp":
				got, err = xrp.GetProgramHashFromAddress(x)
			case "wicc":
				got, err = wicc.GetProgramHashFromAddress(x)
			}
			v.Res(got)
		})
		v.Rec(v.Ev{"op": "prog", "pkg": name, "text": pts(x), "ok": p == "" && err == nil, "out": v.H(got), "panic": p})
	}
}

var sums = []string{"doubleSHA256", "doubleBlake256", "keccak256", "sha3_256", "blake2b_and_keccak256_first_twenty", "ripemd160"}

func checksums(kind string, r *rand.Rand) {
	b := draw(r, 150)
	var out []byte
	p := v.Call(func() { out = v.Res(ae.CalcChecksum(v.B(b), kind)) })
	v.Rec(v.Ev{"op": "sum4", "kind": kind, "data": v.H(b), "out": v.H(out), "panic": p})
	for k := 0; k < 5; k++ {
		x := append(append([]byte{}, b...), out...)
		switch {
		case k == 1 && len(x) > 0:
			x[len(x)-1-r.Intn(1+(len(x)-1)%4)] ^= byte(1 << uint(r.Intn(8)))
		case k == 2 && len(x) > 0:
			x[r.Intn(len(x))] ^= byte(1 << uint(r.Intn(8)))
		case k == 3:
			x = v.Bytes(r, r.Intn(8))
		case k == 4:
			x = append(x, 0)
		}
		ok := false
		p := v.Call(func() { ok = ae.VerifyChecksum(v.B(x), kind) })
		v.Rec(v.Ev{"op": "sumok", "kind": kind, "data": v.H(x), "ok": ok, "panic": p})
	}
	// the same through base58
	al := []string{b58, ripple}[r.Intn(2)]
	pre, suf := v.Bytes(r, r.Intn(3)), v.Bytes(r, r.Intn(2))
	whole := ae.CatData(ae.CatData(pre, b), suf)
	if len(whole) > 100 {
		return
	}
	t := ae.EncodeData(ae.CatData(whole, ae.CalcChecksum(whole, kind)), "base58", al)
	for k := 0; k < 6; k++ {
		x, pr, su := t, pre, suf
		switch k {
		case 1:
			pr = append(v.Bytes(r, 1), pre...)
		case 2:
			su = append(suf[:len(suf):len(suf)], v.Bytes(r, 1)...)
		case 3, 4, 5:
			x = spoil(r, t, al)
		}
		var got []byte
		var err error
		p := v.Call(func() { got, err = ae.DecodeData(x, "base58", al, kind, v.B(pr), v.B(su)); v.Res(got) })
		v.Rec(v.Ev{"op": "datadec", "kind": kind, "text": pts(x), "alpha": pts(al), "pre": v.H(pr), "suf": v.H(su), "ok": p == "" && err == nil, "out": v.H(got), "panic": p})
	}
}

func small(r *rand.Rand) {
	a, b := draw(r, 40), draw(r, 40)
	var out []byte
	p := v.Call(func() { out = v.Res(ae.CatData(v.B(a), v.B(b))) })
	v.Rec(v.Ev{"op": "cat", "a": v.H(a), "b": v.H(b), "out": v.H(out), "panic": p})
	c := draw(r, 120)
	p = v.Call(func() { out = v.Res(ae.CRC32(v.B(c))) })
	v.Rec(v.Ev{"op": "crc32", "data": v.H(c), "out": v.H(out), "panic": p})
	n := v.Amount(r, 64)
	t := ""
	p = v.Call(func() { t = dot.Encode(n) })
	v.Rec(v.Ev{"op": "scale", "v": v.U64(n), "out": t, "panic": p})
}

func base64(r *rand.Rand) {
	al := []string{std64, std64[:62] + "-_", shuffled(r, std64)}[r.Intn(3)]
	e := ae.NewEncoding(al)
	var texts []string
	for k := 0; k < 4; k++ {
		b := draw(r, 70)
		t := ""
		p := v.Call(func() { t = e.Base64Encode(v.B(b)) })
		v.Rec(v.Ev{"op": "b64enc", "data": v.H(b), "alpha": octets([]byte(al)), "out": octets([]byte(t)), "panic": p})
		texts = append(texts, t, spoil(r, t, al))
		if len(t) > 4 {
			j := r.Intn(len(t))
			texts = append(texts, t[:j]+[]string{"\n", "\r\n", "=", "==", "A", " "}[r.Intn(6)]+t[j:], strings.TrimRight(t, "="), t+"=", t+t, t+"\n")
			k := len(strings.TrimRight(t, "=")) - 1
			texts = append(texts, t[:k]+al[r.Intn(64):][:1]+t[k+1:])
		}
	}
	for _, t := range texts {
		var b []byte
		var err error
		p := v.Call(func() { b, err = e.Base64Decode(t); v.Res(b) })
		ok := p == "" && err == nil
		if !ok {
			b = nil
		}
		v.Rec(v.Ev{"op": "b64dec", "text": octets([]byte(t)), "alpha": octets([]byte(al)), "ok": ok, "out": v.H(b), "panic": p})
	}
}

func bech(r *rand.Rand) {
	hrp := ""
	for k := 1 + r.Intn(8); k > 0; k-- {
		hrp += string("abcdefghijklmnopqrstuvwxyz0123456789!~-_1:"[r.Intn(42)])
	}
	if r.Intn(2) == 0 {
		hrp = []string{"bc", "xch", "bm", "k1s", "sk"}[r.Intn(5)]
	}
	d := v.Bytes(r, r.Intn(60))
	for k := range d {
		d[k] &= 31
	}
	bad := r.Intn(6) == 0 && len(d) > 0
	pkg, kind := []string{"b32m", "b32m", "btm"}[r.Intn(3)], 1
	if pkg == "btm" && bad {
		d[r.Intn(len(d))] |= 32
	}
	if pkg == "b32m" {
		kind += r.Intn(2)
	}
	out := ""
	var err error
	p := v.Call(func() {
		if pkg == "btm" {
			out, err = btm.Bech32Encode(hrp, v.B(d))
		} else {
			out = bech32m.Encode(hrp, v.B(d), kind, b32)
		}
	})
	v.Rec(v.Ev{"op": "b32enc", "pkg": pkg, "hrp": pts(hrp), "data": octets(d), "kind": kind, "ok": p == "" && err == nil, "out": pts(out), "panic": p})
	for k := 0; k < 8; k++ {
		t := out
		switch {
		case k == 1:
			t = strings.ToUpper(out)
		case k == 2: // letters that fold to ASCII ones
			t = strings.Replace(strings.Replace(strings.ToUpper(out), "K", "\u212a", 1), "S", "\u017f", r.Intn(2))
		case k == 3:
			if t = ""; !bad && r.Intn(2) == 0 { // prefixes no text may have
				t = bech32m.Encode([]string{" ", "x ", "\x1f", "a\x7f", "\t", "x\x00", "a\x80"}[r.Intn(7)], d, kind, b32)
			} else if !bad {
				t = bech32m.Encode(hrp, d[:len(d)-len(d)%2], 3-kind, b32)
			}
		case k > 3:
			t = spoil(r, out, b32)
		}
		h, got, spec := "", []byte(nil), 1
		var err error
		p := v.Call(func() {
			if pkg == "btm" {
				h, got, err = btm.Bech32Decode(t)
			} else {
				h, got, spec, err = bech32m.Decode(t, b32)
			}
			v.Res(got)
		})
		v.Rec(v.Ev{"op": "b32dec", "pkg": pkg, "text": pts(t), "ok": p == "" && err == nil, "hrp": pts(h), "out": octets(got), "kind": spec, "panic": p})
	}
	b := draw(r, 45)
	t := ""
	p = v.Call(func() { t, err = bech32m.Bech32mEncode(hrp, v.B(b), b32) })
	v.Rec(v.Ev{"op": "b32menc", "hrp": pts(hrp), "data": v.H(b), "ok": p == "" && err == nil, "out": pts(t), "panic": p})
	for k := 0; k < 5; k++ {
		x, h := t, hrp
		switch {
		case k == 1:
			h = hrp + "x"
		case k == 2: // the padding is not zero, or too long
			c, _ := bech32m.Convertbits(b, 8, 5, true)
			if len(c) > 0 && r.Intn(2) == 0 {
				c[len(c)-1] |= byte(1 << uint(r.Intn(4)))
			} else {
				c = append(c, 0)
			}
			x = bech32m.Encode(hrp, c, 2, b32)
		case k == 3:
			c, _ := bech32m.Convertbits(b, 8, 5, true)
			x = bech32m.Encode(hrp, c, 1, b32)
		case k > 3:
			x = spoil(r, t, b32)
		}
		var got []byte
		var err error
		p := v.Call(func() { got, err = bech32m.Bech32mDecode(x, h, b32); v.Res(got) })
		v.Rec(v.Ev{"op": "b32mdec", "hrp": pts(h), "text": pts(x), "ok": p == "" && err == nil, "out": v.H(got), "panic": p})
	}
}

func cosmos(r *rand.Rand) {
	hrp := []string{"cosmos", "eva", "cosmosvaloper", "a", "x2", "x1y", "evapub"}[r.Intn(7)]
	b := draw(r, 40)
	if len(b) > 40 {
		b = b[:40]
	}
	if r.Intn(3) == 0 {
		b = v.HashN(r, []int{20, 32, 33}[r.Intn(3)])
	}
	at := r.Intn(2) == 0
	t := ""
	p := v.Call(func() {
		if at {
			t = atom.Bech32Encode(hrp, atom.ATOMBech32Alphabet, v.B(b))
		} else {
			t = eva.Bech32Encode(hrp, b32, v.B(b))
		}
	})
	v.Rec(v.Ev{"op": "b32cos", "hrp": pts(hrp), "data": v.H(b), "out": pts(t), "panic": p})
	for k := 0; k < 8; k++ {
		x := t
		switch {
		case k == 1:
			x = strings.ToUpper(t)
		case k == 2: // the padding is not zero, or too long
			c, _ := bech32m.Convertbits(b, 8, 5, true)
			if len(c) > 0 && r.Intn(2) == 0 {
				c[len(c)-1] |= byte(1 << uint(r.Intn(4)))
			} else {
				c = append(c, 0)
			}
			x = bech32m.Encode(hrp, c, 1, b32)
		case k == 3:
			x = bech32m.Encode(strings.ToUpper(hrp), nil, 1, b32)
			if r.Intn(2) == 0 {
				x = bech32m.Encode(hrp, nil, 2, b32)
			}
			x = strings.ToUpper(x)
		case k > 3:
			x = spoil(r, t, b32)
		}
		var got []byte
		var err error
		p := v.Call(func() {
			if at {
				got, err = atom.Bech32Decode(x)
			} else {
				got, err = eva.Bech32Decode(x)
			}
			v.Res(got)
		})
		v.Rec(v.Ev{"op": "b32cosdec", "text": pts(x), "ok": p == "" && err == nil, "out": v.H(got), "panic": p})
	}
}

func bits(r *rand.Rand) {
	for k := 0; k < 6; k++ {
		pkg := []string{"btm", "b32m"}[r.Intn(2)]
		from, to := 1+r.Intn(8), 1+r.Intn(8)
		if r.Intn(2) == 0 {
			from, to = []int{8, 5, 5, 8}[r.Intn(2)*2], 0
			to = 13 - from
		}
		if pkg == "btm" && r.Intn(8) == 0 {
			from = []int{0, 9, 255}[r.Intn(3)]
		} else if pkg == "btm" && r.Intn(8) == 0 {
			to = []int{0, 9, 255}[r.Intn(3)]
		}
		d := draw(r, 24)
		if from < 8 {
			for j := range d {
				d[j] &= byte(1<<uint(from) - 1)
			}
		}
		pad := r.Intn(2) == 0
		if !pad && r.Intn(2) == 0 { // what an encoder yields
			if from >= 1 && from <= 8 && to >= 1 && to <= 8 {
				d, _ = btm.ConvertBits(d, uint8(to), uint8(from), true)
			}
		}
		var got []byte
		var err error
		p := v.Call(func() {
			if pkg == "btm" {
				got, err = btm.ConvertBits(v.B(d), uint8(from), uint8(to), pad)
			} else {
				got, err = bech32m.Convertbits(v.B(d), uint(from), uint(to), pad)
			}
			v.Res(got)
		})
		v.Rec(v.Ev{"op": "bits", "pkg": pkg, "data": octets(d), "from": from, "to": to, "pad": pad, "ok": p == "" && err == nil, "out": octets(got), "panic": p})
	}
}

// size turns the model's piece (in quarters of a block) into bytes near that many.
func size(r *rand.Rand, n int) int {
	k := n/4*64 + []int{0, 1, 55, 63}[n%4]
	switch r.Intn(4) {
	case 0:
		return n/4*64 + []int{0, 8, 54, 56}[n%4]
	case 1:
		return k + r.Intn(9)
	}
	return k
}
func stream(ops []int, r *rand.Rand) {
	bits, salt := []int{256, 256, 224}[r.Intn(3)], []byte{}
	if r.Intn(2) == 0 {
		salt = v.Bytes(r, 16)
	}
	var h hash.Hash
	p := v.Call(func() {
		switch {
		case bits == 256 && len(salt) == 0:
			h = blake256.New()
		case bits == 256:
			h = blake256.NewSalt(v.B(salt))
		case len(salt) == 0:
			h = blake256.New224()
		default:
			h = blake256.New224Salt(v.B(salt))
		}
	})
	if p != "" {
		v.Rec(v.Ev{"op": "new", "bits": bits, "salt": v.H(salt), "size": 0, "block": 0, "panic": p})
		return
	}
	v.Rec(v.Ev{"op": "new", "bits": bits, "salt": v.H(salt), "size": h.Size(), "block": h.BlockSize(), "panic": p})
	sum := func() {
		in := v.Bytes(r, r.Intn(3)*r.Intn(5))
		var out []byte
		p := v.Call(func() {
			if len(in) == 0 {
				out = v.Res(h.Sum(nil))
			} else {
				out = v.Res(h.Sum(in[:len(in):len(in)]))
			}
		})
		v.Rec(v.Ev{"op": "sum", "in": v.H(in), "out": v.H(out), "panic": p})
	}
	for _, o := range ops {
		switch o {
		case 1000:
			sum()
		case 2000:
			p := v.Call(func() { h.Reset() })
			v.Rec(v.Ev{"op": "reset", "panic": p})
		default:
			b := v.Bytes(r, size(r, o))
			n, err := 0, error(nil)
			p := v.Call(func() { n, err = h.Write(v.B(b)) })
			v.Rec(v.Ev{"op": "write", "data": v.H(b), "n": n, "ok": err == nil, "panic": p})
		}
	}
	sum()
	sum()
}

func run(mode string) {
	n := *v.FScale
	switch mode {
	case "text":
		for _, c := range coders {
			for k := 0; k < 6*n; k++ {
				v.Scn(fmt.Sprintf("b58-%s-%d", c.name, k), func(r *rand.Rand) { base58(c, k, r) })
			}
		}
		for _, c := range checkeds {
			for k := 0; k < 10*n; k++ {
				v.Scn(fmt.Sprintf("check-%s-%d", c.name, k), func(r *rand.Rand) { base58check(c, r) })
			}
		}
		for _, c := range []string{"ela", "xrp", "wicc"} {
			for k := 0; k < 20*n; k++ {
				v.Scn(fmt.Sprintf("prog-%s-%d", c, k), func(r *rand.Rand) { program(c, r) })
			}
		}
		for _, c := range sums {
			for k := 0; k < 20*n; k++ {
				v.Scn(fmt.Sprintf("sum-%s-%d", c, k), func(r *rand.Rand) { checksums(c, r) })
			}
		}
		for k := 0; k < 80*n; k++ {
			v.Scn(fmt.Sprintf("small-%d", k), func(r *rand.Rand) { small(r) })
			v.Scn(fmt.Sprintf("base64-%d", k), func(r *rand.Rand) { base64(r) })
			v.Scn(fmt.Sprintf("bech-%d", k), func(r *rand.Rand) { bech(r) })
			v.Scn(fmt.Sprintf("cosmos-%d", k), func(r *rand.Rand) { cosmos(r) })
			v.Scn(fmt.Sprintf("bits-%d", k), func(r *rand.Rand) { bits(r) })
		}
	case "hash":
		k := 0
		v.Lines(func(l []byte) {
			var a struct{ Ops []int }
			if json.Unmarshal(l, &a) != nil {
				panic("scenario " + string(l))
			}
			k++
			if *v.FScale == 1 && k%3 != int(uint64(*v.FSeed)%3) {
				return
			}
			v.Scn(fmt.Sprintf("stream-%d", k), func(r *rand.Rand) { stream(a.Ops, r) })
		})
		for k := 0; k < 40*n; k++ {
			v.Scn(fmt.Sprintf("double-%d", k), func(r *rand.Rand) {
				b := v.Bytes(r, r.Intn(300))
				var out []byte
				p := v.Call(func() { out = v.Res(blake256.DoubleBlake256(v.B(b))) })
				v.Rec(v.Ev{"op": "double", "data": v.H(b), "out": v.H(out), "panic": p})
			})
		}
	default:
		panic("mode " + mode)
	}
}

func main() {
	v.Start()
	v.Modes(run)
	v.Done()
}
