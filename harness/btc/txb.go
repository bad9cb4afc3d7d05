//go:build go1.22

package main

// The harness's own reading and writing of Bitcoin-format transactions, used to build inputs
// and to tamper with signed transactions at a known place.
import (
	"encoding/binary"
	"encoding/hex"
)

type in struct {
	txid, vout, script, seq []byte
}
type out struct {
	amt, script []byte
}
type tx struct {
	ver  []byte
	seg  bool
	ins  []in
	outs []out
	wit  [][][]byte
	lock []byte
}

func cs(n int) []byte {
	if n < 253 {
		return []byte{byte(n)}
	}
	return []byte{253, byte(n), byte(n >> 8)}
}
func vb(b []byte) []byte { return append(cs(len(b)), b...) }
func cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}
func (t *tx) bytes() []byte {
	r := cat(t.ver)
	if t.seg {
		r = append(r, 0, 1)
	}
	r = append(r, cs(len(t.ins))...)
	for _, i := range t.ins {
		r = cat(r, i.txid, i.vout, vb(i.script), i.seq)
	}
	r = append(r, cs(len(t.outs))...)
	for _, o := range t.outs {
		r = cat(r, o.amt, vb(o.script))
	}
	if t.seg {
		for _, w := range t.wit {
			r = append(r, cs(len(w))...)
			for _, x := range w {
				r = append(r, vb(x)...)
			}
		}
	}
	return cat(r, t.lock)
}
func (t *tx) hex() string { return hex.EncodeToString(t.bytes()) }

// parse reads a transaction the drivers made; nil if it is not one.
func parse(s string) (t *tx) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil
	}
	i := 0
	rd := func(n int) []byte { x := append([]byte{}, b[i:i+n]...); i += n; return x }
	cnt := func() int {
		c := rd(1)[0]
		if c < 253 {
			return int(c)
		}
		return int(binary.LittleEndian.Uint16(rd(2)))
	}
	t = &tx{}
	t.ver = rd(4)
	if b[i] == 0 {
		t.seg = true
		i += 2
	}
	for n := cnt(); n > 0; n-- {
		var x in
		x.txid = rd(32)
		x.vout = rd(4)
		x.script = rd(cnt())
		x.seq = rd(4)
		t.ins = append(t.ins, x)
	}
	for n := cnt(); n > 0; n-- {
		var x out
		x.amt = rd(8)
		x.script = rd(cnt())
		t.outs = append(t.outs, x)
	}
	if t.seg {
		for range t.ins {
			w := [][]byte{}
			for n := cnt(); n > 0; n-- {
				w = append(w, rd(cnt()))
			}
			t.wit = append(t.wit, w)
		}
	}
	t.lock = rd(4)
	if i != len(b) {
		return nil
	}
	return t
}

// pushes splits a script of data pushes.
func pushes(b []byte) (r [][]byte) {
	defer func() { recover() }()
	for i := 0; i < len(b); {
		n := int(b[i])
		i++
		if n == 76 {
			n = int(b[i])
			i++
		} else if n == 77 {
			n = int(b[i]) | int(b[i+1])<<8
			i += 2
		}
		r = append(r, b[i:i+n])
		i += n
	}
	return
}
func push(b []byte) []byte {
	switch {
	case len(b) < 76:
		return cat([]byte{byte(len(b))}, b)
	case len(b) < 256:
		return cat([]byte{76, byte(len(b))}, b)
	}
	return cat([]byte{77, byte(len(b)), byte(len(b) >> 8)}, b)
}
func unpush(ps [][]byte) []byte {
	r := []byte{}
	for _, p := range ps {
		r = append(r, push(p)...)
	}
	return r
}
func derInt(b []byte) []byte {
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	if b[0] >= 128 {
		b = cat([]byte{0}, b)
	}
	return cat([]byte{2, byte(len(b))}, b)
}
func der(sig []byte, st byte) []byte {
	x := cat(derInt(sig[:32]), derInt(sig[32:]))
	return cat([]byte{48, byte(len(x))}, x, []byte{st})
}
func under(d []byte) []byte {
	defer func() { recover() }()
	rl := int(d[3])
	r := d[4 : 4+rl]
	s := d[6+rl : 6+rl+int(d[5+rl])]
	f := func(x []byte) []byte {
		for len(x) > 32 {
			x = x[1:]
		}
		return cat(make([]byte, 32-len(x)), x)
	}
	return cat(f(r), f(s))
}
