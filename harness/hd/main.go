//go:build go1.22

// Replays the KeyTree scenarios in owkeychain.
package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	ok "github.com/blocktree/go-owcdrivers/owkeychain"
	v "github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

type curve struct {
	name string
	id   uint32
}

var curves = []curve{{"k1", owcrypt.ECC_CURVE_SECP256K1}, {"r1", owcrypt.ECC_CURVE_SECP256R1}, {"sm2", owcrypt.ECC_CURVE_SM2_STANDARD},
	{"ed", owcrypt.ECC_CURVE_ED25519}, {"x", owcrypt.ECC_CURVE_X25519}, {"c25", owcrypt.ECC_CURVE_CURVE25519_SHA256},
	{"blsn", owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL}, {"blsa", owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG},
	{"pasta", owcrypt.ECC_CURVE_PASTA}}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// ses mirrors the session of the specification: keys obtained so far.
type ses struct{ keys []*ok.ExtendedKey }

func (s *ses) add(e v.Ev, fn func() (*ok.ExtendedKey, error)) bool {
	var k *ok.ExtendedKey
	var err error
	txt := ""
	p := v.Call(func() {
		k, err = fn()
		if k != nil {
			txt = k.OWEncode()
		}
	})
	e["panic"], e["ok"], e["txt"] = p, p == "" && err == nil, txt
	v.Rec(e)
	if p == "" && err == nil && k != nil {
		s.keys = append(s.keys, k)
		v.Hold("key", k.OWEncode)
		return true
	}
	return false
}
func (s *ses) last() int { return len(s.keys) }

func (s *ses) root(seed []byte, c curve) bool {
	return s.add(v.Ev{"op": "root", "seed": v.H(seed), "curve": c.name}, func() (*ok.ExtendedKey, error) { return ok.InitRootKeyFromSeed(v.B(seed), c.id) })
}
func (s *ses) mk(key, cc, fp []byte, depth uint8, idx uint32, prv bool, c curve) {
	s.add(v.Ev{"op": "new", "key": v.H(key), "cc": v.H(cc), "fp": v.H(fp), "depth": int(depth), "idx": v.U32(idx), "prv": prv, "curve": c.name},
		func() (*ok.ExtendedKey, error) { return ok.NewExtendedKey(v.B(key), v.B(cc), v.B(fp), depth, idx, prv, c.id), nil })
}
func (s *ses) prv(from int, i uint32) bool {
	return s.add(v.Ev{"op": "prv", "from": from, "idx": v.U32(i)}, func() (*ok.ExtendedKey, error) { return s.keys[from-1].GenPrivateChild(i) })
}
func (s *ses) pub(from int, i uint32, alt bool) bool {
	return s.add(v.Ev{"op": "pub", "from": from, "idx": v.U32(i)}, func() (*ok.ExtendedKey, error) {
		if alt {
			return s.keys[from-1].DerivedPublicKeyFromSerializes(i)
		}
		return s.keys[from-1].GenPublicChild(i)
	})
}
func (s *ses) neuter(from int) bool {
	return s.add(v.Ev{"op": "neuter", "from": from}, func() (*ok.ExtendedKey, error) { return s.keys[from-1].GetPublicKey(), nil })
}
func (s *ses) decode(t string) bool {
	return s.add(v.Ev{"op": "decode", "t": v.H([]byte(t))}, func() (*ok.ExtendedKey, error) { return ok.OWDecode(t) })
}
func (s *ses) path(seed []byte, p string, c curve) bool {
	return s.add(v.Ev{"op": "path", "seed": v.H(seed), "path": v.H([]byte(p)), "curve": c.name}, func() (*ok.ExtendedKey, error) {
		return ok.DerivedPrivateKeyWithPath(v.B(seed), p, c.id)
	})
}
func (s *ses) rel(from int, p string) bool {
	return s.add(v.Ev{"op": "rel", "from": from, "path": v.H([]byte(p))}, func() (*ok.ExtendedKey, error) { return s.keys[from-1].DerivedPublicKeyFromPath(p) })
}
func (s *ses) look(from int, c curve) {
	k := s.keys[from-1]
	var out []byte
	var err error
	p := v.Call(func() { out = k.GetPublicKeyBytes() })
	v.Rec(v.Ev{"op": "pubbytes", "from": from, "out": v.H(out), "panic": p})
	out = nil
	p = v.Call(func() { out, err = k.GetPrivateKeyBytes() })
	v.Rec(v.Ev{"op": "prvbytes", "from": from, "out": v.H(out), "ok": err == nil, "panic": p})
	if c.name == "k1" || c.name == "r1" || c.name == "sm2" {
		p = v.Call(func() { out = k.GetUncompressedPublicKeyBytes() })
		v.Rec(v.Ev{"op": "upub", "from": from, "out": v.H(out), "panic": p})
	}
}
func (s *ses) share(t string) string {
	out := ""
	var err error
	p := v.Call(func() { out, err = ok.GetMultiSigShareData(t) })
	v.Rec(v.Ev{"op": "share", "t": v.H([]byte(t)), "out": out, "ok": err == nil, "panic": p})
	return out
}
func shareDec(t string) {
	var m *ok.MultiSigShare
	var err error
	p := v.Call(func() { m, err = ok.ChainDecode(t) })
	e := v.Ev{"op": "sharedec", "t": v.H([]byte(t)), "ok": p == "" && err == nil, "panic": p, "pub": "", "cc": "", "curve": ""}
	if m != nil {
		e["pub"], e["cc"], e["curve"] = v.H(m.Pubkey), v.H(m.ChainCode), v.U32(m.CurveType)
	}
	v.Rec(e)
}

func idx(r *rand.Rand, hard bool) uint32 {
	x := r.Uint32() & 0x7fffffff
	switch r.Intn(4) {
	case 0:
		x = []uint32{0, 1, 2, 255, 256, 0x7fffffff, 0x7ffffffe, 65535, 65536}[r.Intn(9)]
	case 1:
		x = uint32(r.Intn(1000))
	}
	if hard {
		x |= 0x80000000
	}
	return x
}
func seedOf(r *rand.Rand) []byte {
	switch r.Intn(4) {
	case 0:
		return v.Bytes(r, 16)
	case 1:
		return v.Bytes(r, 64)
	}
	return v.Bytes(r, 16+r.Intn(49))
}

var orders = map[string]string{
	"k1":   "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
	"r1":   "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
	"sm2":  "fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123",
	"blsn": "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001",
	"blsa": "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001",
}

// zeroChild finds a hardened child number whose child key has at least zeros leading zero bytes.
func zeroChild(key, cc []byte, c curve, zeros int, from uint32) (uint32, bool) {
	n, _ := new(big.Int).SetString(orders[c.name], 16)
	k := new(big.Int).SetBytes(key)
	for j := uint32(0); j < 600000; j++ {
		i := (from + j) | 0x80000000
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], i)
		h := hmac.New(sha512.New, cc)
		h.Write([]byte{0})
		h.Write(key)
		h.Write(b[:])
		m := h.Sum(nil)
		if strings.HasPrefix(c.name, "bls") && m[0] > 0x72 {
			m[0] = 0x72
		}
		x := new(big.Int).SetBytes(m[:32])
		x.Add(x, k).Mod(x, n)
		if x.BitLen() <= 256-8*zeros {
			return i, true
		}
	}
	return 0, false
}

func pathText(r *rand.Rand) string {
	n := r.Intn(4) + 1
	el := []string{}
	for i := 0; i < n; i++ {
		x := fmt.Sprint(idx(r, false))
		switch r.Intn(12) {
		case 0:
			x = []string{"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551616", "99999999999999999999999"}[r.Intn(7)]
		case 1:
			x = []string{"-1", "+1", "", "0x1", "1e3", "a", "01", "007", "1_0", "1.0", "٣", "-2147483648", "--1", "0b1", "m"}[r.Intn(15)]
		}
		if r.Intn(2) == 0 {
			x += "'"
			if r.Intn(20) == 0 {
				x += "'"
			} else if r.Intn(20) == 0 {
				x = "'" + x
			}
		}
		el = append(el, x)
	}
	t := strings.Join(el, "/")
	if r.Intn(6) == 0 {
		k := r.Intn(len(t) + 1)
		t = t[:k] + []string{" ", "/", "//", "\t", "m", "  "}[r.Intn(6)] + t[k:]
	}
	return t
}

func chk(b []byte) []byte {
	x := sha256.Sum256(b)
	y := sha256.Sum256(x[:])
	return append(append([]byte{}, b...), y[:4]...)
}

// recheck rewrites the payload of a key text and repairs the check.
func recheck(r *rand.Rand, op, t string) string {
	raw, err := ok.Decode(t, ok.BitcoinAlphabet)
	if err != nil || len(raw) < 10 {
		return t
	}
	raw = append([]byte{}, raw[:len(raw)-4]...)
	if op == "rever" {
		switch r.Intn(4) {
		case 0: // other prefix
			pre := [][]byte{{0x07, 0xa8, 0x10, 0x0c, 0x28}, {0x07, 0xa8, 0x10, 0x31, 0xa2}, {0x3e, 0x00, 0xfa, 0xea, 0x69}}[r.Intn(3)]
			copy(raw, pre)
		case 1: // other curve
			raw[8] = []byte{0, 1, 2, 4, 5, 6, 7, 8, 9}[r.Intn(9)]
		case 2: // separator byte
			if len(raw) > 50 {
				raw[50] ^= byte(1 << uint(r.Intn(8)))
			}
		case 3:
			raw[r.Intn(5)] ^= byte(1 << uint(r.Intn(8)))
		}
	} else {
		switch r.Intn(4) {
		case 0:
			raw = raw[:len(raw)-1-r.Intn(3)]
		case 1:
			raw = append(raw, v.Bytes(r, 1+r.Intn(20))...)
		case 2:
			raw = raw[:r.Intn(len(raw))]
		case 3:
			k := 5 + r.Intn(len(raw)-5)
			raw = append(append(append([]byte{}, raw[:k]...), 0), raw[k:]...)
		}
	}
	return ok.Encode(chk(raw), ok.BitcoinAlphabet)
}

func newKey(r *rand.Rand, s *ses, c curve, prv bool, depth uint8) {
	k := v.Hash32(r)
	switch r.Intn(3) {
	case 0:
		k = make([]byte, 32)
		k[r.Intn(32)] = byte(1 + r.Intn(200))
	case 1:
		k[0] = 0
	}
	if strings.HasPrefix(c.name, "bls") {
		k[0] &= 0x3f
	}
	if c.name == "pasta" {
		k[0] &= 3
	}
	if c.name == "ed" || c.name == "x" || c.name == "c25" {
		k[0] &= 248
		k[31] &= 63
	}
	s.mk(k, v.Hash32(r), v.HashN(r, 4), depth, r.Uint32(), true, c)
	if !prv {
		s.neuter(s.last())
	}
}

func main() {
	v.Start()
	v.Modes(run)
	v.Done()
}
func run(mode string) {
	sc := *v.FScale
	switch mode {
	case "derive": // P04, P05: every sequence of operations, on every curve
		v.Lines(func(l []byte) {
			var x struct {
				Ops []string `json:"ops"`
			}
			if json.Unmarshal(l, &x) != nil {
				panic(string(l))
			}
			for _, c := range curves {
				c := c
				for rep := 0; rep < sc; rep++ {
					v.Scn(fmt.Sprintf("%s/%s/%d", c.name, strings.Join(x.Ops, ""), rep), func(r *rand.Rand) {
						s := &ses{}
						if r.Intn(4) == 0 {
							newKey(r, s, c, true, uint8(r.Intn(256)))
						} else {
							s.root(seedOf(r), c)
						}
						for _, o := range x.Ops {
							from := s.last()
							if from > 1 && r.Intn(5) == 0 {
								from = 1 + r.Intn(from)
							}
							switch o {
							case "p":
								s.prv(from, idx(r, false))
							case "P":
								s.prv(from, idx(r, true))
							case "u":
								s.pub(from, idx(r, false), r.Intn(3) == 0)
							case "U":
								s.pub(from, idx(r, true), r.Intn(3) == 0)
							case "n":
								s.neuter(from)
							case "t":
								s.decode(s.keys[from-1].OWEncode())
							}
						}
						if s.last() > 0 {
							s.look(s.last(), c)
						}
					})
				}
			}
		})
		for _, c := range curves {
			c := c
			for rep := 0; rep < 4*sc; rep++ { // parent and neutered parent give the same ordinary child
				v.Scn(fmt.Sprintf("agree/%s/%d", c.name, rep), func(r *rand.Rand) {
					s := &ses{}
					newKey(r, s, c, true, uint8(r.Intn(255)))
					i := idx(r, false)
					s.prv(1, i)
					s.neuter(1)
					s.pub(1, i, false)
					s.pub(s.last()-1, i, false)
					s.neuter(2)
				})
				v.Scn(fmt.Sprintf("zeros/%s/%d", c.name, rep), func(r *rand.Rand) {
					s := &ses{}
					if orders[c.name] == "" {
						k := make([]byte, 32)
						j := r.Intn(4)
						if c.name == "pasta" {
							j = 31 - j
						}
						k[j] = byte(8 + r.Intn(100)&^7)
						s.mk(k, v.Bytes(r, 32), v.Bytes(r, 4), uint8(r.Intn(200)), r.Uint32(), true, c)
						s.prv(1, idx(r, true))
						s.prv(1, idx(r, false))
						s.pub(1, idx(r, false), false)
					} else {
						k := v.Bytes(r, 32)
						k[0] &= 0x3f
						cc := v.Bytes(r, 32)
						i, found := zeroChild(k, cc, c, 2, r.Uint32())
						if !found {
							return
						}
						s.mk(k, cc, v.Bytes(r, 4), uint8(r.Intn(200)), r.Uint32(), true, c)
						s.prv(1, i)
						s.pub(1, i, false)
					}
					for j := 0; j < 2; j++ {
						s.prv(2, idx(r, j == 0))
					}
					s.look(2, c)
					s.decode(s.keys[1].OWEncode())
				})
			}
		}
	case "refuse": // P05
		for _, c := range curves {
			c := c
			for rep := 0; rep < 5*sc; rep++ {
				v.Scn(fmt.Sprintf("depth/%s/%d", c.name, rep), func(r *rand.Rand) {
					s := &ses{}
					newKey(r, s, c, rep%2 == 0, uint8(253+rep%3))
					for j := 0; j < 3; j++ {
						from := s.last()
						a := s.pub(from, idx(r, false), r.Intn(2) == 0)
						b := s.prv(from, idx(r, r.Intn(2) == 0))
						if !a && !b {
							break
						}
					}
				})
				v.Scn(fmt.Sprintf("public/%s/%d", c.name, rep), func(r *rand.Rand) {
					s := &ses{}
					newKey(r, s, c, false, uint8(r.Intn(250)))
					for j := 0; j < 3; j++ {
						from := s.last()
						s.prv(from, idx(r, true))
						s.prv(from, idx(r, false))
						s.pub(from, idx(r, true), r.Intn(2) == 0)
						s.rel(from, "/"+fmt.Sprint(r.Intn(100))+"/"+fmt.Sprint(r.Intn(100))+"'")
						s.look(from, c)
						s.pub(from, idx(r, false), r.Intn(2) == 0)
					}
				})
			}
			for n := 0; n <= 80; n++ {
				if n > 18 && n < 62 && n != 32 && n != 40 {
					continue
				}
				v.Scn(fmt.Sprintf("seed/%s/%d", c.name, n), func(r *rand.Rand) {
					s := &ses{}
					sd := v.Bytes(r, n)
					s.root(sd, c)
					s.path(sd, "m/1/2'", c)
				})
			}
		}
		fallthrough
	case "path": // P04, P05
		for _, c := range curves {
			c := c
			for rep := 0; rep < 30*sc; rep++ {
				v.Scn(fmt.Sprintf("path/%s/%d", c.name, rep), func(r *rand.Rand) {
					s := &ses{}
					sd := seedOf(r)
					p := "m/" + pathText(r)
					switch r.Intn(16) {
					case 0:
						p = []string{"m", "/", "", " ", " m ", "m/", "/1", "1/2", "M/1", "n/1", "mm/1", "m1", "m//1"}[r.Intn(13)]
					case 1:
						p = p[1:]
					case 2:
						p = p[2:]
					}
					s.path(sd, p, c)
				})
				v.Scn(fmt.Sprintf("rel/%s/%d", c.name, rep), func(r *rand.Rand) {
					s := &ses{}
					newKey(r, s, c, r.Intn(2) == 0, uint8(r.Intn(256)))
					p := "/" + pathText(r)
					if r.Intn(3) != 0 { // usable by public keys
						p = strings.Replace(p, "'", "", -1)
					}
					if r.Intn(16) == 0 {
						p = []string{"", "/", "m/1", " /1", "1", "//1", "/1/", "m"}[r.Intn(8)]
					}
					s.rel(s.last(), p)
				})
				v.Scn(fmt.Sprintf("steps/%s/%d", c.name, rep), func(r *rand.Rand) { // a path equals its steps
					s := &ses{}
					sd := seedOf(r)
					s.root(sd, c)
					p := "m"
					q := ""
					for j := 0; j < 1+r.Intn(3); j++ {
						h := r.Intn(2) == 0
						i := idx(r, h)
						s.prv(s.last(), i)
						if h {
							p += fmt.Sprintf("/%d'", i&0x7fffffff)
						} else {
							p += fmt.Sprintf("/%d", i)
						}
					}
					s.path(sd, p, c)
					s.neuter(s.last())
					base := s.last()
					for j := 0; j < 1+r.Intn(2); j++ {
						i := idx(r, false)
						s.pub(s.last(), i, false)
						q += fmt.Sprintf("/%d", i)
					}
					s.rel(base, q)
				})
			}
		}
		for rep := 0; rep < 20*sc; rep++ {
			v.Scn(fmt.Sprintf("coin/%d", rep), func(r *rand.Rand) {
				s := &ses{}
				sd := seedOf(r)
				if r.Intn(6) == 0 {
					sd = v.Bytes(r, r.Intn(90))
				}
				coin, ct := 0, ok.Bitcoin
				if rep%2 == 1 {
					coin, ct = 1, ok.Ethereum
				}
				s.add(v.Ev{"op": "coinpub", "seed": v.H(sd), "coin": coin}, func() (*ok.ExtendedKey, error) { return ok.GetCoinRootPublicKey(v.B(sd), ct) })
				i := idx(r, r.Intn(2) == 0)
				var out []byte
				var err error
				p := v.Call(func() { out, err = ok.DerivedPrivateKeyBytes(v.B(sd), ct, i) })
				v.Rec(v.Ev{"op": "coinprv", "seed": v.H(sd), "coin": coin, "idx": v.U32(i), "ok": p == "" && err == nil, "out": v.H(out), "panic": p})
			})
		}
	case "text": // P06: the AddrCodec corruptions on key and share texts
		v.Lines(func(l []byte) {
			var x struct {
				Kind string   `json:"kind"`
				Same bool     `json:"same"`
				Ops  []string `json:"ops"`
			}
			if json.Unmarshal(l, &x) != nil {
				panic(string(l))
			}
			for ci, c := range curves {
				c := c
				id := fmt.Sprintf("%s/%s/%v/%s", c.name, x.Kind, x.Same, strings.Join(x.Ops, "+"))
				n := sc
				if len(x.Ops) == 2 && v.R(id).Intn(24) >= sc {
					n = 0
				}
				if len(x.Ops) == 1 && (x.Ops[0] == "rever" || x.Ops[0] == "relen") {
					n = 3 * sc
				}
				_ = ci
				for rep := 0; rep < n; rep++ {
					v.Scn(fmt.Sprintf("%s/%d", id, rep), func(r *rand.Rand) {
						s := &ses{}
						newKey(r, s, c, x.Same, uint8(r.Intn(256)))
						t := s.keys[s.last()-1].OWEncode()
						if r.Intn(3) == 0 && !strings.HasPrefix(c.name, "bls") { // share texts
							t = s.share(t)
							for _, o := range x.Ops {
								if o == "rever" || o == "relen" {
									raw, err := ok.Decode(t, ok.BitcoinAlphabet)
									if err == nil && len(raw) > 20 {
										if o == "rever" {
											raw[r.Intn(8)] ^= byte(1 << uint(r.Intn(8)))
										} else if r.Intn(2) == 0 {
											raw = raw[:len(raw)-1-r.Intn(4)]
										} else {
											raw = append(raw, v.Bytes(r, 1+r.Intn(4))...)
										}
										t = ok.Encode(raw, ok.BitcoinAlphabet)
									}
								} else {
									t = v.CorruptText(r, o, t, b58)
								}
							}
							shareDec(t)
							return
						}
						for _, o := range x.Ops {
							if o == "rever" || o == "relen" {
								t = recheck(r, o, t)
							} else {
								t = v.CorruptText(r, o, t, b58)
							}
						}
						if len(x.Ops) > 0 && r.Intn(5) == 0 && !strings.Contains(id, "rever") {
							s.share(t)
						}
						if s.decode(t) && t == s.keys[s.last()-2].OWEncode() { // the parsed key behaves as the original
							k := s.last()
							s.prv(k, idx(r, r.Intn(2) == 0))
							s.pub(k, idx(r, r.Intn(2) == 0), false)
							s.look(k, c)
						}
					})
				}
			}
		})
		for rep := 0; rep < 60*sc; rep++ {
			v.Scn(fmt.Sprintf("share/%d", rep), func(r *rand.Rand) {
				n := 33
				if r.Intn(2) == 0 {
					n = 32
				}
				m := ok.MultiSigShare{Pubkey: v.HashN(r, n), ChainCode: v.Hash32(r), CurveType: r.Uint32()}
				if n == 33 {
					m.Pubkey[0] = 2 + byte(r.Intn(2))
				}
				out := ""
				p := v.Call(func() { out = m.ChianEncode() })
				v.Rec(v.Ev{"op": "shareenc", "pub": v.H(m.Pubkey), "cc": v.H(m.ChainCode), "curve": v.U32(m.CurveType), "out": out, "panic": p})
				shareDec(out)
			})
			v.Scn(fmt.Sprintf("short/%d", rep), func(r *rand.Rand) {
				s := &ses{}
				pre := []string{"owpub", "owprv", "owchain"}[r.Intn(3)]
				t := pre
				for j := r.Intn(150); j > 0; j-- {
					t += string(b58[r.Intn(58)])
				}
				if pre == "owchain" {
					shareDec(t)
				} else {
					s.decode(t)
				}
			})
		}
	}
}
