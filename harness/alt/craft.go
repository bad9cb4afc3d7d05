//go:build go1.22

package main

import (
	"encoding/json"
	"encoding/binary"
	"encoding/hex"
	"math/big"
	"math/rand"

	"github.com/blocktree/go-owcdrivers/zz_verif/vlib"
	"github.com/blocktree/go-owcrypt"
)

var orderK1, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
var orderR1, _ = new(big.Int).SetString("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16)

func fix(n *big.Int) []byte {
	b := n.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}
func order(drv string) []byte {
	switch drv {
	case "ela", "ont":
		return fix(orderR1)
	}
	return fix(orderK1)
}

// key draws a valid scalar of the curve, sometimes with leading zeros
func ecKey(r *rand.Rand) []byte {
	b := vlib.Hash32(r)
	b[0] &= 0x7f
	if b[31] == 0 && b[30] == 0 {
		b[31] = 1
	}
	return b
}
func pubK1(prv []byte) []byte {
	p, ret := owcrypt.GenPubkey(prv, owcrypt.ECC_CURVE_SECP256K1)
	if ret != owcrypt.SUCCESS {
		panic("pub")
	}
	return owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1)
}
func pubR1(prv []byte) []byte {
	p, ret := owcrypt.GenPubkey(prv, owcrypt.ECC_CURVE_SECP256R1)
	if ret != owcrypt.SUCCESS {
		panic("pub")
	}
	return owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256R1)
}

// leads draws the 64 bytes r||s with chosen leading bytes; s stays in the lower half
func leads(r *rand.Rand, k int) []byte {
	one := func(z int, next byte, top bool) []byte {
		b := vlib.Bytes(r, 32)
		for i := 0; i < z && i < 31; i++ {
			b[i] = 0
		}
		if z < 32 {
			b[z] = next
		}
		if top && b[0] >= 0x7f {
			b[0] = 0x7e
		}
		if z >= 31 && next == 0 {
			b[31] = 1
		}
		return b
	}
	nx := []byte{0x01, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x30, 0x21}
	zs := []int{0, 1, 2, 0, 1, 3, 8, 16, 30, 31, 1, 0}
	z1, z2 := zs[k%len(zs)], zs[(k/3+k)%len(zs)]
	n1, n2 := nx[r.Intn(len(nx))], nx[r.Intn(len(nx))]
	return append(one(z1, n1, false), one(z2, n2, true)...)
}

// craftK1: a key for which (r, s) signs msg; r is adjusted until it is the abscissa of a point
func craftK1(r *rand.Rand, msg, want []byte) (sig []byte, v byte, pub []byte, ok bool) {
	w := append([]byte{}, want...)
	for t := 0; t < 64; t++ {
		for v := byte(0); v < 2; v++ {
			p, ret := owcrypt.RecoverPubkey(append(append([]byte{}, w...), v), msg, owcrypt.ECC_CURVE_SECP256K1)
			if ret == owcrypt.SUCCESS && len(p) == 64 && owcrypt.Verify(p, nil, msg, w, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
				return w, v, owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1), true
			}
		}
		w[31]++
	}
	return nil, 0, nil, false
}

func hiS(sig []byte, n *big.Int) []byte {
	if len(sig) < 64 {
		return sig
	}
	s := new(big.Int).Sub(n, new(big.Int).SetBytes(sig[32:64]))
	if s.Sign() <= 0 {
		return sig
	}
	return append(append(append([]byte{}, sig[:32]...), fix(s)...), sig[64:]...)
}

// the numbers at which some format of the Codecs model changes its form, with their neighbours
var bounds64 []uint64

func loadBounds() {
	bounds64 = nil
	vlib.Lines(func(l []byte) {
		var x struct{ V string }
		if err := json.Unmarshal(l, &x); err != nil {
			panic(err)
		}
		bounds64 = append(bounds64, binary.BigEndian.Uint64(vlib.U(x.V)))
	})
}

func le64(x uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, x); return b }
func le32(x uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, x); return b }
func text(s string) string { return vlib.H([]byte(s)) }
func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

func hexTry(t string, f func([]byte) []byte) string {
	b, err := hex.DecodeString(t)
	if err != nil {
		return t
	}
	return vlib.H(f(b))
}
