//go:build go1.22

package vlib

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"hash"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"sync"
)

// Sessions of P21: the same scenarios, but their calls are interleaved along a schedule of the
// Sessions model ("inter") or run truly concurrently ("par"), and arguments and results are watched.
var (
	FStyle  = flag.String("style", "", "inter: interleave the calls of sessions; par: run sessions concurrently")
	FSched  = flag.String("sched", "", "schedules (ndjson) generated by the Sessions model")
	FEvery  = flag.Int("every", 1, "keep one in so many scenarios")
	pending []*session
)

type watch struct {
	v    reflect.Value
	sum  [32]byte
	what string
}
type session struct {
	id   string
	ev   []Ev
	body func(r *rand.Rand)
	args []watch // of the call under way
	held []watch // results the session keeps
	looks []look2
	turn chan bool
	back chan bool
	live bool
}

var slots map[string]**session // goroutine -> its session; read-only while sessions run

func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	k := 10
	for k < n && b[k] != ' ' {
		k++
	}
	return string(b[10:k])
}
func current() *session {
	if *FStyle == "" || slots == nil {
		return one
	}
	if p := slots[goid()]; p != nil {
		return *p
	}
	return one
}
func (x *session) enter() {
	if x.turn != nil {
		x.back <- true
		<-x.turn
	}
	x.args = nil
}
func (x *session) leave() {
	for _, a := range x.args {
		if sum(a.v) != a.sum {
			x.ev = append(x.ev, Ev{"op": "mutated", "what": "argument " + a.what})
		}
	}
	x.args = nil
}

// A marks an argument of the call under way: the call must leave it as it is, its spare capacity included.
func A[T any](v T) T {
	if *FStyle != "" {
		x, r := current(), reflect.ValueOf(v)
		if r.IsValid() {
			x.args = append(x.args, watch{r, sum(r), r.Type().String()})
		}
	}
	return v
}

// B marks a byte-string argument and gives it spare capacity, as a caller who slices a buffer does.
func B(b []byte) []byte {
	if b == nil {
		return nil
	}
	r := make([]byte, len(b), len(b)+48)
	copy(r, b)
	for i := len(b); i < cap(r); i++ {
		r[:cap(r)][i] = 0xa5
	}
	return A(r)
}

// Hold marks something a session keeps, by what can be seen of it: it must look the same at the end.
func Hold(what string, look func() string) {
	if *FStyle != "" {
		x := current()
		x.looks = append(x.looks, look2{what, look(), look})
	}
}

type look2 struct {
	what, was string
	look      func() string
}

// Res marks a result: no later call may change it.
func Res[T any](v T) T {
	if *FStyle != "" {
		x, r := current(), reflect.ValueOf(v)
		if r.IsValid() {
			x.held = append(x.held, watch{r, sum(r), r.Type().String()})
		}
	}
	return v
}
func (x *session) close() {
	for _, a := range x.held {
		if sum(a.v) != a.sum {
			x.ev = append(x.ev, Ev{"op": "mutated", "what": "result " + a.what})
		}
	}
	for _, l := range x.looks {
		if l.look() != l.was {
			x.ev = append(x.ev, Ev{"op": "mutated", "what": l.what})
		}
	}
	x.held, x.looks = nil, nil
}
func sum(v reflect.Value) (r [32]byte) {
	h := sha256.New()
	deep(h, v, 0)
	copy(r[:], h.Sum(nil))
	return
}
func deep(h hash.Hash, v reflect.Value, d int) {
	if d > 12 || !v.IsValid() {
		fmt.Fprint(h, "|")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(h, "nil|")
			return
		}
		deep(h, v.Elem(), d+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(big.Int{}) && v.CanInterface() {
			x := v.Interface().(big.Int)
			fmt.Fprintf(h, "%v|", &x)
			return
		}
		for i := 0; i < v.NumField(); i++ { // what the caller can see
			if v.Type().Field(i).PkgPath == "" {
				deep(h, v.Field(i), d+1)
			}
		}
	case reflect.Slice:
		fmt.Fprintf(h, "%v/%d/%d[", v.IsNil(), v.Len(), v.Cap())
		if v.IsNil() {
		} else if v.Type().Elem().Kind() == reflect.Uint8 { // a byte string lies in a buffer of the caller's
			h.Write(v.Slice(0, v.Cap()).Bytes())
		} else {
			for i := 0; i < v.Len(); i++ {
				deep(h, v.Index(i), d+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deep(h, v.Index(i), d+1)
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			deep(h, k, d+1)
			deep(h, v.MapIndex(k), d+1)
		}
	case reflect.String:
		fmt.Fprintf(h, "%d:%s|", v.Len(), v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		fmt.Fprintf(h, "%v|", v)
	}
}

func runPending() {
	if *FStyle == "" {
		return
	}
	switch *FStyle {
	case "inter":
		runInter()
	case "par":
		runPar()
	default:
		panic("style")
	}
	for _, x := range pending {
		flush(x)
	}
}

// runInter: groups of sessions, each group along one schedule of the model.
func runInter() {
	type sched struct{ Order []int }
	var ss [][]int
	scn := *FScn
	*FScn = *FSched
	Lines(func(l []byte) {
		var s sched
		if json.Unmarshal(l, &s) != nil {
			panic("schedule")
		}
		ss = append(ss, s.Order)
	})
	*FScn = scn
	width := 0
	for _, s := range ss {
		for _, k := range s {
			if k > width {
				width = k
			}
		}
	}
	if width == 0 {
		panic("no schedules")
	}
	r := rand.New(rand.NewSource(*FSeed + int64(*FShard)))
	todo := append([]*session{}, pending...)
	// every second group mixes drivers, the others take neighbours (the same driver)
	var groups [][]*session
	half := len(todo) / 2
	tail := todo[half:]
	r.Shuffle(len(tail), func(i, j int) { tail[i], tail[j] = tail[j], tail[i] })
	for len(todo) > 0 {
		k := width
		if k > len(todo) {
			k = len(todo)
		}
		groups = append(groups, todo[:k])
		todo = todo[k:]
	}
	for gi, g := range groups {
		slots = map[string]**session{}
		reg := make(chan string)
		for i := range g {
			x := g[i]
			x.turn, x.back, x.live = make(chan bool), make(chan bool), true
			go func() {
				reg <- goid()
				<-x.turn
				x.body(R(x.id))
				x.close()
				x.live = false
				x.back <- false
			}()
			slots[<-reg] = &g[i]
		}
		step := func(x *session) {
			if x.live {
				x.turn <- true
				<-x.back
			}
		}
		for _, x := range g { // up to each session's first call
			step(x)
		}
		for _, k := range ss[(gi*8+*FShard+int(*FSeed)*7919)%len(ss)] {
			if k <= len(g) {
				step(g[k-1])
			}
		}
		for alive := true; alive; {
			alive = false
			for _, x := range g {
				step(x)
				alive = alive || x.live
			}
		}
	}
	slots = nil
}

// runPar: the sessions dealt to workers, with no synchronisation between them while they run.
func runPar() {
	const W = 8
	slots = map[string]**session{}
	var mu sync.Mutex
	var ready, done sync.WaitGroup
	start := make(chan bool)
	ready.Add(W)
	done.Add(W)
	for k := 0; k < W; k++ {
		go func() {
			var mine *session
			mu.Lock()
			slots[goid()] = &mine
			mu.Unlock()
			ready.Done()
			<-start
			for i := k; i < len(pending); i += W {
				mine = pending[i]
				mine.body(R(mine.id))
				mine.close()
			}
			done.Done()
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	slots = nil
	_ = os.Stdout
}
