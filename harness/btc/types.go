//go:build go1.22

package main

// Neutral shapes of the Bitcoin-family drivers' arguments and results.
type Vin struct {
	TxID string
	Vout uint32
}
type Vout struct {
	Addr string
	Amt  uint64
}
type Un struct {
	Lock, Redeem string
	Amt          uint64
	ST           byte
}
type Sig struct {
	Sig, Pub []byte
	ST       byte
}
type Hash struct {
	Hash   string
	N      byte
	Addr   string
	Keys   []string
	Sigs   []Sig // one per key; a single one for N == 0
	NoNorm bool  // the Normal part is missing
}
type Omni struct {
	Typ  int
	Prop uint32
	Amt  uint64
	Eco  byte
	Memo string
	Addr string
}
type Asset struct {
	ID, Addr string
	Amt      uint64
}
type Prof struct {
	Drv, Net     string
	PKH, SH, SH2 []byte
	HRP          string
}
type DecIn struct {
	TxID string
	Vout uint32
	Typ  int
}
type Dec struct {
	Ver, Lock []byte
	Wit       bool
	Ins       []DecIn
	NOut      int
}
type Req struct {
	Vins   []Vin
	Vouts  []Vout
	Lock   uint32
	RBF    bool
	BH     string // zen
	Height uint64
}
type Drv interface {
	Nets() []*Prof
	Create(q *Req, p *Prof) (string, error)
	CreateOmni(q *Req, o *Omni, p *Prof) (string, error)
	CreateAsset(q *Req, to []Asset, change Vout, p *Prof) (string, error)
	Digest(tx string, un []Un, seg bool, p *Prof) ([]Hash, error)
	Sign(hash string, prv []byte) ([]byte, []byte, error)
	Insert(tx string, hs []Hash, un []Un, seg bool) (string, error)
	Verify(tx string, un []Un, seg bool, p *Prof) bool
	Multi(m byte, keys [][]byte, seg bool, p *Prof) (string, string, error)
	Decode(tx []byte, seg bool) (*Dec, error)
}
