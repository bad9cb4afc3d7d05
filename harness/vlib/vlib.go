//go:build go1.22

// Package vlib: recording of behaviours of the implementation as ndjson scenarios.
package vlib

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"time"
)

type Ev map[string]interface{}

var (
	FSeed  = flag.Int64("seed", 1, "seed")
	FOut   = flag.String("out", "", "trace file")
	FScn   = flag.String("scn", "", "scenario file (ndjson) generated by the model")
	FMode  = flag.String("mode", "", "scenario family")
	FScale = flag.Int("scale", 1, "multiplier of sample counts")
	FOnly  = flag.String("only", "", "replay only this scenario id")
	FMatch = flag.String("match", "", "run only scenarios whose id contains this")
	FShard = flag.Int("shard", 0, "which part of the scenarios to run")
	FParts = flag.Int("parts", 1, "number of parts")
	w      *bufio.Writer
	f      *os.File
	n      int
	real   *os.File
	one    = &session{}
	seen   = map[string]bool{}
)

// Start parses flags, opens the trace and silences the code under test (some drivers print).
func Start() {
	flag.Parse()
	var err error
	f, err = os.Create(*FOut)
	if err != nil {
		panic(err)
	}
	w = bufio.NewWriterSize(f, 1<<20)
	real = os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
}

func Done() {
	runPending()
	finish()
}
func finish() {
	w.Flush()
	f.Close()
	fmt.Fprintf(real, "scenarios %d\n", n)
}

// R is a deterministic generator per scenario id, so that a scenario can be replayed alone.
func R(id string) *rand.Rand {
	var h uint64 = 1469598103934665603
	for _, c := range []byte(fmt.Sprintf("%d/%s", *FSeed, id)) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return rand.New(rand.NewSource(int64(h)))
}

var prefix string

// Modes runs each of the requested scenario families; with several, -scn names the model file of each ("mode=file,...").
func Modes(run func(mode string)) {
	ms := strings.Split(*FMode, ",")
	if len(ms) == 1 {
		run(*FMode)
		return
	}
	files := map[string]string{}
	for _, f := range strings.Split(*FScn, ",") {
		if k := strings.SplitN(f, "=", 2); len(k) == 2 {
			files[k[0]] = k[1]
		}
	}
	for _, m := range ms {
		*FScn, prefix = files[m], m+":"
		run(m)
	}
	prefix = ""
}

func part(id string) int {
	var h uint32 = 2166136261
	for _, c := range []byte(id) {
		h = (h ^ uint32(c)) * 16777619
	}
	return int(scramble(h) % uint32(*FParts))
}
func scramble(h uint32) uint32 {
	h ^= h >> 15
	h *= 0x2c1b3c6d
	h ^= h >> 12
	return h
}
func mix(id string) uint32 {
	var h uint32 = 2166136261
	for _, c := range []byte(id) {
		h = (h ^ uint32(c)) * 16777619
	}
	return scramble(scramble(h))
}

// Scn runs body as scenario id; body records events with Rec.
func Scn(id string, body func(r *rand.Rand)) {
	id = prefix + id
	if *FOnly != "" && *FOnly != id {
		return
	}
	if *FMatch != "" && !strings.Contains(id, *FMatch) {
		return
	}
	if seen[id] {
		panic("duplicate scenario id " + id)
	}
	seen[id] = true
	if part(id) != *FShard {
		return
	}
	if *FStyle != "" {
		if int(mix(fmt.Sprintf("%d/%s", *FSeed, id))%uint32(*FEvery)) == 0 {
			pending = append(pending, &session{id: id, body: body})
		}
		return
	}
	one = &session{id: id}
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(60 * time.Second): // a call that does not return: record and stop
			one.ev = append(one.ev, Ev{"op": "hang"})
			flush(one)
			finish()
			os.Exit(0)
		}
	}()
	body(R(id))
	close(done)
	flush(one)
}

func flush(x *session) {
	if len(x.ev) == 0 {
		return
	}
	b, err := json.Marshal(map[string]interface{}{"id": x.id, "ev": x.ev})
	if err != nil {
		panic(err)
	}
	w.Write(b)
	w.WriteByte('\n')
	n++
}

// Rec appends an event; nil values are not representable in the trace and are dropped.
func Rec(e Ev) { x := current(); x.ev = append(x.ev, e) }

// Call runs fn and returns the panic text, if any.
func Call(fn func()) (p string) {
	x := current()
	x.enter()
	defer x.leave()
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	fn()
	return ""
}

func H(b []byte) string { return hex.EncodeToString(b) }
func U(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// U64 and friends: big-endian hexadecimal of a wide integer, as the specification reads it.
func U64(x uint64) string { var b [8]byte; binary.BigEndian.PutUint64(b[:], x); return H(b[:]) }
func U32(x uint32) string { var b [4]byte; binary.BigEndian.PutUint32(b[:], x); return H(b[:]) }

// Amount draws 64-bit values biased to encoding boundaries.
func Amount(r *rand.Rand, bits uint) uint64 {
	max := uint64(1)<<(bits-1) - 1 + uint64(1)<<(bits-1)
	switch r.Intn(6) {
	case 0:
		return []uint64{0, 1, 2, 0x7e, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000}[r.Intn(15)] & max
	case 1:
		k := uint(r.Intn(int(bits)))
		return (uint64(1)<<k + uint64(r.Intn(3)) - 1) & max
	case 2:
		return r.Uint64() & max >> uint(r.Intn(int(bits)))
	case 3:
		return max - uint64(r.Intn(3))
	case 4: // a zero byte in the middle
		return r.Uint64() & max &^ (uint64(0xff) << uint(8*r.Intn(8)))
	}
	return r.Uint64() & max
}

// Hash32 draws 32-byte strings biased to leading/trailing zeros and high bits.
func Hash32(r *rand.Rand) []byte {
	b := Bytes(r, 32)
	switch r.Intn(8) {
	case 0:
		b[0] = 0
	case 1:
		b[0], b[1] = 0, 0
	case 2:
		b[31] = 0
	case 3:
		b[31], b[30] = 0, 0
	case 4:
		b[0] |= 0x80
	}
	return b
}
func HashN(r *rand.Rand, n int) []byte {
	b := Bytes(r, n)
	switch r.Intn(8) {
	case 0:
		b[0] = 0
	case 1:
		b[0], b[1] = 0, 0
	case 2:
		b[n-1] = 0
	case 3:
		b[0] = 0xff
	case 4:
		b[0], b[1] = 0x80, 0
	}
	return b
}

// Lines reads the model's scenarios into dst elements.
func Lines(fn func(line []byte)) {
	fh, err := os.Open(*FScn)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	rd := bufio.NewReaderSize(fh, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(strings.TrimSpace(string(l))) > 0 {
			fn(l)
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			panic(err)
		}
	}
}

// checkBits changes one byte near the end of what the text stands for, where the checksum lies.
func checkBits(r *rand.Rand, t, al string) string {
	if len(al) != 58 || len(t) < 8 {
		k := len(t) - 1 - r.Intn(1+(len(t)-1)%10)
		return t[:k] + string(al[r.Intn(len(al))]) + t[k+1:]
	}
	n := new(big.Int)
	for _, c := range t {
		k := strings.IndexRune(al, c)
		if k < 0 {
			return t + string(al[0])
		}
		n.Mul(n, big.NewInt(58)).Add(n, big.NewInt(int64(k)))
	}
	d := big.NewInt(int64(1) << uint(r.Intn(40)))
	if n.Bit(d.BitLen()-1) == 1 {
		n.Sub(n, d)
	} else {
		n.Add(n, d)
	}
	out := ""
	for range t {
		m := new(big.Int)
		n.DivMod(n, big.NewInt(58), m)
		out = string(al[m.Int64()]) + out
	}
	return out
}

// CorruptText applies a text corruption of the AddrCodec model over the given alphabet.
func CorruptText(r *rand.Rand, op, t, al string) string {
	if op == "empty" {
		return ""
	}
	if t == "" {
		return t
	}
	c := string(al[r.Intn(len(al))])
	k := r.Intn(len(t))
	switch op {
	case "subst":
		if r.Intn(2) == 0 {
			return checkBits(r, t, al)
		}
		return t[:k] + c + t[k+1:]
	case "delete":
		return t[:k] + t[k+1:]
	case "insert":
		return t[:k] + c + t[k:]
	case "swap":
		if k+1 < len(t) {
			return t[:k] + string(t[k+1]) + string(t[k]) + t[k+2:]
		}
	case "trunc":
		return t[:k]
	case "append":
		return t + c
	case "prepend":
		if r.Intn(2) == 0 {
			return string(al[0]) + t
		}
		return c + t
	case "case":
		switch r.Intn(4) {
		case 3: // letters that fold to ASCII ones
			return strings.NewReplacer("K", "\u212a", "S", "\u017f").Replace(strings.ToUpper(t))
		case 0:
			return strings.ToUpper(t)
		case 1:
			return strings.ToLower(t)
		}
		x := strings.ToUpper(t[k : k+1])
		if x == t[k:k+1] {
			x = strings.ToLower(x)
		}
		return t[:k] + x + t[k+1:]
	case "alien":
		x := []string{"0", "O", "I", "l", " ", "\n", "\x00", "é", "\xff", "1", "b", ":", "_", "世", "\x80", "\x7f"}[r.Intn(16)]
		if r.Intn(2) == 0 {
			return t[:k] + x + t[k+1:]
		}
		return t[:k] + x + t[k:]
	}
	return t
}
