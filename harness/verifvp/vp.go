// Package verifvp is the harness interface of the verification engine. Under the symbolic engine every function here is
// intercepted; natively (counterexample replay and trace validation) the inputs come from a case file.
package verifvp

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"
)

// Case is one concrete run of a harness.
type Case struct {
	Entry  string
	Inputs map[string]uint64
	Tier   int
}

// Result of a native run.
type Result struct {
	Entry   string
	Failed  []string
	Panic   string
	Stack   string
	Assume  bool
	Obs     []string
	Reached []string
	Missing []string
	Done    bool
}

var (
	mu    sync.Mutex
	cur   *Case
	res   *Result
	names map[string]int
	rset  map[string]bool
)

type stop struct{}

func uniq(n string) string {
	k := names[n]
	names[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}
func get(n string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n = uniq(n)
	v, ok := cur.Inputs[n]
	if !ok {
		res.Missing = append(res.Missing, n)
	}
	return v
}

func Bool(n string) bool   { return get(n)&1 != 0 }
func U8(n string) uint8    { return uint8(get(n)) }
func U16(n string) uint16  { return uint16(get(n)) }
func U32(n string) uint32  { return uint32(get(n)) }
func U64(n string) uint64  { return get(n) }
func I8(n string) int8     { return int8(get(n)) }
func I16(n string) int16   { return int16(get(n)) }
func I32(n string) int32   { return int32(get(n)) }
func I64(n string) int64   { return int64(get(n)) }
func Int(n string) int     { return int(get(n)) }
func F32(n string) float32 { return math.Float32frombits(uint32(get(n))) }
func F64(n string) float64 { return math.Float64frombits(get(n)) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	mu.Lock()
	defer mu.Unlock()
	name = uniq(name)
	b := make([]byte, n)
	for i := range b {
		k := fmt.Sprintf("%s[%d]", name, i)
		v, ok := cur.Inputs[k]
		if !ok {
			res.Missing = append(res.Missing, k)
		}
		b[i] = byte(v)
	}
	return b
}

// Str returns an arbitrary string of n bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choice returns 0..n-1; the engine explores every value as a separate path.
func Choice(name string, n int) int { return int(get(name)) }

// Range returns an arbitrary int in [lo,hi].
func Range(name string, lo, hi int) int {
	v := int(get(name))
	if v < lo || v > hi {
		Assume(false)
	}
	return v
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		mu.Lock()
		res.Assume = true
		mu.Unlock()
		panic(stop{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		res.Failed = append(res.Failed, label)
		mu.Unlock()
		panic(stop{})
	}
}

// Reach marks a vacuity witness.
func Reach(label string) {
	mu.Lock()
	rset[label] = true
	mu.Unlock()
}

// Observe records a value compared between engine and native runs.
func Observe(label string, v uint64) {
	mu.Lock()
	res.Obs = append(res.Obs, fmt.Sprintf("%s=%d", label, v))
	mu.Unlock()
}

func Concretize(v int) int         { return v }
func Symbolic() bool               { return false }
func Stop()                        { panic(stop{}) }
func Limit(name string, v int)     {}
func And(a, b bool) bool           { return a && b }
func Or(a, b bool) bool            { return a || b }
func EqBytes(a, b []byte) bool     { return string(a) == string(b) }
func Tier() int                    { return cur.Tier }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if Tier() > 0 {
		return thorough
	}
	return quick
}

// Drain lets the other goroutines run until they block.
func Drain() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
}

func run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			res.Panic = fmt.Sprint(r)
			res.Stack = string(debug.Stack())
		}
	}()
	f()
}

// Main runs the cases listed in the file named by os.Args[1].
func Main(entries map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var cases []Case
	if err := json.Unmarshal(b, &cases); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	for i := range cases {
		cur = &cases[i]
		res = &Result{Entry: cur.Entry}
		names = map[string]int{}
		rset = map[string]bool{}
		f := entries[cur.Entry]
		if f == nil {
			res.Panic = "no entry"
		} else {
			run(f)
		}
		for k := range rset {
			res.Reached = append(res.Reached, k)
		}
		sort.Strings(res.Reached)
		res.Done = true
		o, _ := json.Marshal(res)
		fmt.Printf("VPRESULT %s\n", o)
	}
}
