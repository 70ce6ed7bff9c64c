// Package sym is the interface between the harness and the symbolic engine.
//
// Under the engine every function here is replaced by an intrinsic: inputs are
// fresh symbolic variables, Assume and Assert become solver queries. Compiled
// natively, inputs come from a recorded counterexample or path.
package sym

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"unsafe"
)

type Run struct {
	Inputs  map[string]string
	Counter map[string]int
	Obs     [][2]string
	Reached []string
	Fails   []string
}

var Cur *Run

type AssumeFailed struct{}

// ---- inputs ----

func next(name string) string {
	k := Cur.Counter[name]
	Cur.Counter[name] = k + 1
	if k > 0 {
		return name + "#" + strconv.Itoa(k)
	}
	return name
}

func in(name string) uint64 {
	v, _ := strconv.ParseUint(Cur.Inputs[name], 10, 64)
	return v
}

func U8(name string) uint8   { return uint8(in(next(name))) }
func U16(name string) uint16 { return uint16(in(next(name))) }
func U32(name string) uint32 { return uint32(in(next(name))) }
func U64(name string) uint64 { return in(next(name)) }
func Bool(name string) bool  { return in(next(name))&1 == 1 }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	name = next(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(name + "[" + strconv.Itoa(i) + "]"))
	}
	return b
}

// BigBytes returns arbitrary bytes of a symbolic length.
func BigBytes(name string, n uint64) []byte {
	name = next(name)
	b := make([]byte, n)
	p := name + "@"
	for k := range Cur.Inputs {
		if len(k) > len(p) && k[:len(p)] == p {
			i, _ := strconv.ParseUint(k[len(p):], 10, 64)
			if i < n {
				b[i] = byte(in(k))
			}
		}
	}
	return b
}

// Range returns an arbitrary value in [lo, hi].
func Range(name string, lo, hi uint64) uint64 {
	v := in(next(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Choose returns an arbitrary value below n; the engine enumerates the values.
func Choose(name string, n uint64) uint64 {
	v := in(next(name))
	Assume(v < n)
	return v
}

// Concretize makes the engine enumerate the values of v.
func Concretize(v uint64) uint64 { return v }

// ---- properties ----

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		Cur.Fails = append(Cur.Fails, msg)
	}
}

func Reach(name string) { Cur.Reached = append(Cur.Reached, name) }

func Obs(name string, v uint64) {
	Cur.Obs = append(Cur.Obs, [2]string{name, strconv.FormatUint(v, 10)})
}

func ObsBytes(name string, b []byte) {
	Cur.Obs = append(Cur.Obs, [2]string{name, hex.EncodeToString(b)})
}

// SameBytes compares without branching.
func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// And, Or, Not do not branch.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// ---- engine control ----

func Symbolic() bool   { return false }
func BigEndian() bool  { return false }
func BigSizes(on bool) {}
func Merging(on bool)  {}

// Injective asks the engine to treat the hash as collision-free.
func Injective() {}

// ---- hashing: an uninterpreted function under the engine ----

func Hash(b []byte) [32]byte {
	if len(b) != 64 {
		Assert(false, fmt.Sprintf("hash function called with %d bytes", len(b)))
	}
	// not a function the code under test might know
	r := sha256.Sum256(b)
	for i := range r {
		r[i] ^= 0x5a
	}
	return r
}

// ---- memory accounting ----

var base uint64

func AllocReset() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	base = m.TotalAlloc
}

// AllocTotal returns the bytes allocated by the code under test since AllocReset.
func AllocTotal() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc - base
}

// GC collects garbage. The engine frees what the collector would, by the types
// of the references that are left, and reports later uses of it.
func GC() {
	runtime.GC()
}

// ---- shared memory ----

// Freeze: from here on, existing memory must not be written.
func Freeze()   {}
func Unfreeze() {}

// Exempt allows writes to the memory p points into although frozen.
func Exempt(p unsafe.Pointer) {}

// Twice runs f once under the engine; natively two goroutines run it at the
// same time, for the race detector.
func Twice(f func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failure any
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					failure = r
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if failure != nil {
		panic(failure)
	}
}

// Fill writes arbitrary bytes over b.
func Fill(name string, b []byte) {
	name = next(name)
	for i := range b {
		b[i] = 0
	}
	p := name + "@"
	for k := range Cur.Inputs {
		if len(k) > len(p) && k[:len(p)] == p {
			i, _ := strconv.ParseUint(k[len(p):], 10, 64)
			if i < uint64(len(b)) {
				b[i] = byte(in(k))
			}
		}
	}
}

// Touch reads every byte of b.
func Touch(b []byte) {
	x := byte(0)
	for _, v := range b {
		x ^= v
	}
	sink = x
}

var sink byte

// Strip removes the characters in cut from b.
func Strip(b []byte, cut string) []byte {
	var out []byte
	for _, c := range b {
		if bytes.IndexByte([]byte(cut), c) < 0 {
			out = append(out, c)
		}
	}
	return out
}

// Identical: the engine compares the terms, without asking the solver.
func Identical(a, b []byte) bool { return bytes.Equal(a, b) }
