//go:build go1.22

// Recorder of the drivers outside the Bitcoin family (P14-P20).
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
)

type Ev = vlib.Ev

// SP is a signature with the public key presented for it, both as the texts (or hex) the driver takes.
type SP struct{ Sig, Pub string }

// Out is what creation gave.
type Out struct {
	OK   bool
	Tx   string
	Msgs []string
	Who  []string // the owner each message is for, where the driver says so
}

// Drv adapts one driver.  Requests are driver-specific values.
type Drv interface {
	Name() string
	Multi() bool                                        // several inputs, each with its own signature
	Key(r *rand.Rand) ([]byte, string)                  // private key, public key text as combination takes it
	Gen(r *rand.Rand, keys [][]byte) interface{}        // an honest request with one input per key
	Vary(r *rand.Rand, q interface{}) interface{}       // the same request with one field changed
	Grid(r *rand.Rand, emit func(interface{}))          // boundary and unrepresentable requests
	Ev(q interface{}) Ev                                // the request as the specification reads it
	Create(q interface{}) Out
	Sign(msg string, prv []byte) (string, error)
	Combine(q interface{}, tx string, sp []SP) (bool, string, error) // verdict, released text
	X(q interface{}) Ev                                 // further arguments of combination
}

var drvs = []Drv{moac{}, xrp{}, dot{}, vsys{}, bbc{}, fn{}, cos{false}, cos{true}, bnb{},
	fork{"xvg"}, fork{"ali"}, fork{"vds"}, hyc{fork{"hyc"}}, etp{}, ela{}, fiii{}, btm{}, wicc{}, ont{}}
var byProp = map[string][]string{"p12": {"hyc"}, "p14": {"moac", "xrp"}, "p15": {"dot", "vsys", "bbc", "fn"},
	"p16": {"atom", "eva", "bnb"}, "p17": {"xvg", "ali", "vds", "hyc", "etp"}, "p18": {"ela", "fiii", "btm"}, "p19": {"wicc", "ont"}}

func get(n string) Drv {
	for _, d := range drvs {
		if d.Name() == n {
			return d
		}
	}
	panic(n)
}

// signPub: drivers whose signing also gives the public key
type signPub interface {
	SignPub(msg string, prv []byte) (sig, pub string, err error)
}

// ---- events
func create(d Drv, q interface{}) (o Out) {
	t0 := time.Now().Unix()
	p := vlib.Call(func() { o = d.Create(q) })
	t1 := time.Now().Unix()
	if p != "" {
		o = Out{}
	}
	ms, who := o.Msgs, o.Who
	if ms == nil {
		ms = []string{}
	}
	if who == nil {
		who = []string{}
	}
	vlib.Rec(Ev{"op": "create", "drv": d.Name(), "q": d.Ev(q), "ok": o.OK, "tx": o.Tx, "msgs": ms, "who": who, "t0": t0, "t1": t1, "panic": p})
	return o
}
func sign(d Drv, msg string, prv []byte) string {
	var s string
	var pub string
	var err error
	in := append([]byte{}, prv...)
	p := vlib.Call(func() {
		if sp, ok := d.(signPub); ok {
			s, pub, err = sp.SignPub(msg, in)
		} else {
			s, err = d.Sign(msg, in)
		}
	})
	vlib.Rec(Ev{"op": "sign", "drv": d.Name(), "msg": msg, "prv": vlib.H(prv), "sig": s, "pub": pub, "ok": err == nil && p == "", "panic": p})
	return s
}
func combine(d Drv, q interface{}, tx string, sp []SP) (bool, string) {
	var ok bool
	var out string
	p := vlib.Call(func() { ok, out, _ = d.Combine(q, tx, append([]SP{}, sp...)) })
	l := []Ev{}
	for _, s := range sp {
		l = append(l, Ev{"sig": s.Sig, "pub": s.Pub})
	}
	vlib.Rec(Ev{"op": "combine", "drv": d.Name(), "tx": tx, "sp": l, "x": d.X(q), "ok": ok, "out": out, "panic": p})
	if c, is := d.(verifier); is {
		var v bool
		p := vlib.Call(func() { v = c.Verify(tx, append([]SP{}, sp...)) })
		vlib.Rec(Ev{"op": "verify", "drv": d.Name(), "tx": tx, "sp": l, "x": d.X(q), "ok": v && p == "", "panic": p})
	}
	if c, is := d.(former); is {
		var v bool
		var o string
		p := vlib.Call(func() { v, o = c.Form(tx, append([]SP{}, sp...)) })
		vlib.Rec(Ev{"op": "form", "drv": d.Name(), "tx": tx, "sp": l, "ok": v && p == "", "out": o, "panic": p})
	}
	if c, is := d.(reader); is && ok {
		for k, t := range []string{out, out[:len(out)/4*2], out + "00"} {
			e := Ev{}
			p := vlib.Call(func() { e = c.Read(t) })
			if p != "" || e == nil || len(e) == 0 {
				e = Ev{"ok": false}
			}
			e["op"], e["drv"], e["text"], e["own"], e["panic"] = "read", d.Name(), t, k == 0, p
			vlib.Rec(e)
		}
	}
	return ok, out
}

// reader: drivers that read a released transaction back
type reader interface {
	Read(out string) Ev
}

// verifier: drivers whose verification is a call of its own; former: drivers whose broadcast form is
type verifier interface {
	Verify(tx string, sp []SP) bool
}
type former interface {
	Form(tx string, sp []SP) (bool, string)
}

// lister: drivers that list the inputs of an unsigned text
type lister interface {
	List(tx string) ([]Ev, bool)
}

func list(d Drv, tx string) {
	var l []Ev
	var ok bool
	if ls, is := d.(lister); is {
		p := vlib.Call(func() { l, ok = ls.List(tx) })
		if l == nil || p != "" {
			l = []Ev{}
		}
		vlib.Rec(Ev{"op": "list", "drv": d.Name(), "tx": tx, "ok": ok && p == "", "ins": l, "panic": p})
	}
}

// ---- sessions
type sess struct {
	d    Drv
	q    interface{}
	prv  [][]byte
	pub  []string
	o    Out
	sp   []SP
	done bool
}

func open(d Drv, r *rand.Rand, n int) *sess {
	s := &sess{d: d}
	if !d.Multi() {
		n = 1
	}
	for i := 0; i < n; i++ {
		var k []byte
		var p string
		if i > 0 && r.Intn(4) == 0 { // one owner of several inputs
			k, p = s.prv[r.Intn(i)], ""
			for j := range s.prv {
				if string(s.prv[j]) == string(k) {
					p = s.pub[j]
				}
			}
		} else {
			k, p = d.Key(r)
		}
		s.prv, s.pub = append(s.prv, k), append(s.pub, p)
	}
	s.q = d.Gen(r, s.prv)
	return s
}
func (s *sess) create() bool {
	s.o = create(s.d, s.q)
	return s.o.OK && len(s.o.Msgs) == len(s.prv)
}
func (s *sess) sign() bool {
	for i, m := range s.o.Msgs {
		g := sign(s.d, m, s.prv[i])
		if g == "" {
			return false
		}
		s.sp = append(s.sp, SP{g, s.pub[i]})
	}
	return true
}

// create mode: honest sessions, boundary requests, unusual signing keys
func creates(prop string) {
	loadBounds()
	for _, n := range byProp[prop] {
		d := get(n)
		for k := 0; k < 60**vlib.FScale; k++ {
			vlib.Scn(fmt.Sprintf("%s/session/%d", n, k), func(r *rand.Rand) {
				s := open(d, r, 1+k%4)
				if s.create() && s.sign() {
					list(d, s.o.Tx)
					combine(d, s.q, s.o.Tx, s.sp)
				}
			})
		}
		if d.Multi() {
			for _, k := range []int{15, 16, 17, 127, 128, 252, 253, 256} {
				vlib.Scn(fmt.Sprintf("%s/big/%d", n, k), func(r *rand.Rand) {
					s := open(d, r, k)
					if s.create() && s.sign() {
						list(d, s.o.Tx)
						combine(d, s.q, s.o.Tx, s.sp)
					}
				})
			}
		}
		grids := 4 * *vlib.FScale
		if *vlib.FStyle != "" { // schedules sample the scenarios anyhow
			grids = *vlib.FScale
		}
		for k := 0; k < grids; k++ {
			g := 0
			d.Grid(vlib.R(fmt.Sprintf("%s/grid/%d", n, k)), func(q interface{}) {
				g++
				vlib.Scn(fmt.Sprintf("%s/grid/%d/%d", n, k, g), func(r *rand.Rand) {
					if o := create(d, q); o.OK {
						list(d, o.Tx)
						if r.Intn(3) == 0 && len(o.Tx) > 0 {
							list(d, []string{flipText(r, o.Tx), o.Tx[:r.Intn(len(o.Tx))]}[r.Intn(2)])
						}
					}
				})
			})
		}
		for k := 0; k < 20**vlib.FScale; k++ {
			vlib.Scn(fmt.Sprintf("%s/sign/%d", n, k), func(r *rand.Rand) { signs(d, r) })
		}
		if e, ok := d.(extra); ok {
			e.Extra()
		}
		if c, ok := d.(crafter); ok {
			for k := 0; k < 12**vlib.FScale; k++ {
				vlib.Scn(fmt.Sprintf("%s/craft/%d", n, k), func(r *rand.Rand) { crafted(d, c, r, k) })
			}
		}
	}
}

// crafter: drivers whose ECDSA signatures are re-encoded; Craft gives a signature text
// for 64 bytes r||s by a key made to fit (see craft.go)
type crafter interface {
	Craft(r *rand.Rand, msg string, want []byte) (sig, pub string, ok bool)
}

// extra: drivers with operations of their own
type extra interface{ Extra() }

// signatures whose r and s have every interesting leading byte
func crafted(d Drv, c crafter, r *rand.Rand, k int) {
	s := open(d, r, 1)
	if !s.create() {
		return
	}
	w := leads(r, k)
	sig, pub, ok := c.Craft(r, s.o.Msgs[0], w)
	if ok {
		combine(d, s.q, s.o.Tx, []SP{{sig, pub}})
	}
}

// edKeys: drivers on the twisted Edwards curve; keys are clamped scalars
type edKeys interface{ Ed() }

func signs(d Drv, r *rand.Rand) {
	prv, _ := d.Key(r)
	msg := vlib.H(vlib.Hash32(r))
	switch r.Intn(10) {
	case 0:
		if _, ed := d.(edKeys); !ed {
			prv = make([]byte, 32)
			prv[31] = byte(r.Intn(3))
		}
	case 1:
		prv = vlib.Bytes(r, []int{0, 31, 33, 64}[r.Intn(4)])
	case 2:
		if _, ed := d.(edKeys); !ed {
			prv = order(d.Name())
			prv[31] += byte(r.Intn(3)) - 1
		}
	case 3:
		msg = msg[:len(msg)-1-r.Intn(4)]
	case 4:
		msg += "00"
	case 5:
		msg = ""
	case 6:
		msg = "zz" + msg[2:]
	case 7:
		prv[0], prv[1] = 0, 0 // a multiple of eight is a multiple of eight
	case 8:
		msg = strings.Repeat([]string{"00", "ff", "80", "01"}[r.Intn(4)], 32)
	}
	sign(d, msg, prv)
}

// tamper mode: the packets of the Combine model
type scn struct {
	N    int
	Cuts []struct {
		C    string
		I, J int
	}
}

func tampers() {
	var all []scn
	vlib.Lines(func(l []byte) {
		var s scn
		if err := json.Unmarshal(l, &s); err != nil {
			panic(err)
		}
		all = append(all, s)
	})
	for _, d := range drvs {
		for ai, a := range all {
			if !d.Multi() && a.N > 1 {
				continue
			}
			reps := 1
			if !d.Multi() || len(a.Cuts) == 1 && *vlib.FScale > 1 {
				reps = 3
				if !d.Multi() && len(a.Cuts) < 2 {
					reps = 10
				}
			}
			for k := 0; k < reps; k++ {
				vlib.Scn(fmt.Sprintf("%s/tamper/%d/%d", d.Name(), ai, k), func(r *rand.Rand) { tamper(d, r, a) })
			}
		}
	}
}

func tamper(d Drv, r *rand.Rand, a scn) {
	s := open(d, r, a.N)
	if !s.create() || !s.sign() {
		return
	}
	tx, sp := s.o.Tx, append([]SP{}, s.sp...)
	evil, evilPub := d.Key(r)
	for _, c := range a.Cuts {
		i, j := c.I-1, c.J-1
		switch c.C {
		case "none":
		case "tx.byte":
			if t, ok := d.(txTamper); ok && r.Intn(2) == 0 {
				tx = t.TamperTx(r, tx)
			} else {
				tx = flipText(r, tx)
			}
		case "tx.trunc":
			if len(tx) > 0 {
				tx = tx[:r.Intn(len(tx))]
			}
		case "tx.append":
			tx += []string{"00", "ff", "0", "s", ":", " "}[r.Intn(6)]
		case "tx.field":
			if o := create(d, d.Vary(r, s.q)); o.OK {
				tx = o.Tx
			}
		case "sig.othertx":
			q2 := d.Vary(r, s.q)
			if o := create(d, q2); o.OK && i < len(o.Msgs) && i < len(sp) {
				sp[i].Sig = sign(d, o.Msgs[i], s.prv[i])
			}
		case "sig.bit":
			if i < len(sp) {
				sp[i].Sig = flipText(r, sp[i].Sig)
			}
		case "sig.otherkey":
			if i < len(sp) {
				sp[i].Sig = sign(d, s.o.Msgs[i], evil)
			}
		case "evil":
			if i < len(sp) {
				sp[i] = SP{sign(d, s.o.Msgs[i], evil), evilPub}
			}
		case "sig.otherinput":
			if i < len(sp) && j < len(s.o.Msgs) {
				sp[i].Sig = sign(d, s.o.Msgs[j], s.prv[i])
			}
		case "sp.swap":
			if i < len(sp) && j < len(sp) {
				sp[i], sp[j] = sp[j], sp[i]
			}
		case "sig.swap":
			if i < len(sp) && j < len(sp) {
				sp[i].Sig, sp[j].Sig = sp[j].Sig, sp[i].Sig
			}
		case "sp.missing":
			if i < len(sp) {
				sp = append(append([]SP{}, sp[:i]...), sp[i+1:]...)
			}
		case "sp.none":
			sp = nil
		case "sp.extra":
			if i < len(s.sp) {
				sp = append(sp, s.sp[i])
			}
		case "sig.trunc":
			if i < len(sp) && len(sp[i].Sig) > 0 {
				sp[i].Sig = sp[i].Sig[:r.Intn(len(sp[i].Sig))]
			}
		case "sig.append":
			if i < len(sp) {
				sp[i].Sig += []string{"00", "01", "0"}[r.Intn(3)]
			}
		case "sig.empty":
			if i < len(sp) {
				sp[i].Sig = ""
			}
		case "sig.zero":
			if i < len(sp) {
				sp[i].Sig = strings.Repeat([]string{"0", "f"}[r.Intn(2)], len(sp[i].Sig))
			}
		case "sig.high":
			if h, ok := d.(highS); ok && i < len(sp) {
				sp[i].Sig = h.HighS(sp[i].Sig)
			}
		case "pub.other":
			if i < len(sp) {
				sp[i].Pub = evilPub
			}
		case "pub.bit":
			if i < len(sp) {
				sp[i].Pub = flipText(r, sp[i].Pub)
			}
		case "pub.malformed":
			if i < len(sp) {
				sp[i].Pub = malform(r, sp[i].Pub)
			}
		default:
			panic("unknown alteration " + c.C)
		}
	}
	combine(d, s.q, tx, sp)
}

// txTamper: alterations of the unsigned text that keep its form
type txTamper interface {
	TamperTx(r *rand.Rand, tx string) string
}
type highS interface{ HighS(sig string) string }

func malform(r *rand.Rand, p string) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		if len(p) > 2 {
			return p[:r.Intn(len(p))]
		}
	case 2:
		return p + "00"
	case 3:
		if len(p) > 2 {
			return "zz" + p[2:]
		}
	case 4:
		return strings.Repeat("f", len(p))
	}
	return strings.Repeat("0", len(p))
}

// flipText changes one character to another of its own class
func flipText(r *rand.Rand, t string) string {
	if t == "" {
		return "00"
	}
	for try := 0; try < 50; try++ {
		if x := flipAt(r, t, r.Intn(len(t))); x != t {
			return x
		}
	}
	return t + "0"
}

// flipAt replaces one letter or digit by another of its class
func flipAt(r *rand.Rand, t string, k int) string {
	for _, cl := range []string{"0123456789abcdef", "ghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"} {
		if strings.IndexByte(cl, t[k]) >= 0 {
			c := cl[r.Intn(len(cl))]
			if '0' <= t[k] && t[k] <= '9' && r.Intn(2) == 0 {
				c = "0123456789"[r.Intn(10)]
			}
			return t[:k] + string(c) + t[k+1:]
		}
	}
	return t
}

// sweep: every character of the unsigned text, the signature and the key changed or cut, one at a time
func sweeps() {
	for _, d := range drvs {
		for j := 0; j < *vlib.FScale; j++ {
			for part := 0; part < 8; part++ {
				vlib.Scn(fmt.Sprintf("%s/sweep/%d/%d", d.Name(), j, part), func(r *rand.Rand) {
					n := 1
					if d.Multi() {
						n += j % 3
					}
					s := open(d, r, n)
					if !s.create() || !s.sign() {
						return
					}
					all := len(s.o.Tx)
					step := 8
					if all > 3000 {
						step = 8 * (all / 3000)
					}
					for k := part; k < all; k += step {
						tx := flipAt(r, s.o.Tx, k)
						switch r.Intn(10) {
						case 0:
							tx = s.o.Tx[:k]
						case 1:
							tx = s.o.Tx[:k] + s.o.Tx[k+1:]
						case 2:
							tx = s.o.Tx[:k] + s.o.Tx[k:k+1] + s.o.Tx[k:]
						}
						if r.Intn(40) == 0 {
							tx = s.o.Tx[:k] + []string{"g", " ", "\x80", "G", "-"}[r.Intn(5)] + s.o.Tx[k+1:]
						}
						combine(d, s.q, tx, s.sp)
						if k%2 == 0 { // cut between bytes
							combine(d, s.q, s.o.Tx[:k], s.sp)
						}
					}
					i := r.Intn(len(s.sp))
					for k := part; k < len(s.sp[i].Sig); k += 8 {
						sp := append([]SP{}, s.sp...)
						sp[i].Sig = flipAt(r, sp[i].Sig, k)
						combine(d, s.q, s.o.Tx, sp)
					}
					for k := part; k < len(s.sp[i].Pub); k += 8 {
						sp := append([]SP{}, s.sp...)
						sp[i].Pub = flipAt(r, sp[i].Pub, k)
						combine(d, s.q, s.o.Tx, sp)
					}
				})
			}
		}
	}
}

func main() {
	vlib.Start()
	vlib.Modes(run)
	vlib.Done()
}
func run(m string) {
	switch m {
	case "tamper":
		tampers()
	case "sweep":
		sweeps()
	default:
		if _, ok := byProp[m]; !ok {
			panic("unknown mode " + m)
		}
		creates(m)
	}
}
