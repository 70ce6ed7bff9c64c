package main

// Job registry. A job is one symbolic execution; its number encodes the kind
// of job, the type it runs over and the tier.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"strings"

	"github.com/protolambda/zssz/types"
	"verif/harness/sym"
)

type TypeDef struct {
	Name, Tier, Fam string
	Parts           int // variable-size parts of a value
	Dec, DecT       int // longest input for decoding jobs, quick and thorough
	Sch             func() *Sch
	New             func() any
	Set             func(any, *Val)
	Get             func(any) *Val
	SSZ             func() types.SSZ
}

// Family is a family of jobs.
type Family struct {
	Prop, Name string
	F          func(t *TypeDef, bound int) // jobs over types
	G          func(bound int)             // a single job
	P          func(part int)              // jobs numbered from 0 to the bound
	Use        func(t *TypeDef) bool       // which types; nil = all without a symbolic limit
	Dec        bool                        // the bound is a number of input bytes
	All        bool                        // the quick tier takes the types of the thorough tier, too
	Leaf       float64                     // number of cases a basic value counts for (default 1)
	Slow       string                      // types left to the thorough tier
	Max, MaxT  float64                     // number of shapes of the values above which a type is left to the thorough tier, or out
	Quick      int                         // bounds of single jobs
	Thorough   int
	Seconds    int
	Win        bool // inputs of windowInput
	BE         bool
	Native     string
	Bounds     string
	Tier       string
	Bytes      uint64 // size of the values above which a type is left to the thorough tier
	Parts      int    // number of variable-size parts above which a type is left to the thorough tier
}

const typeSpan = 4096

// RunJob is the entry point of the engine.
func RunJob(id int) {
	k := Kinds[id/(2*typeSpan)]
	ti := id % (2 * typeSpan) / 2
	thorough := id%2 == 1
	if k.G != nil {
		b := k.Quick
		if thorough {
			b = k.Thorough
		}
		k.G(b)
		return
	}
	if k.P != nil {
		k.P(ti)
		return
	}
	t := Types[ti]
	b := t.Dec
	if thorough {
		b = t.DecT
	}
	k.F(t, b)
}

type jobInfo struct {
	ID      int    `json:"id"`
	Prop    string `json:"prop"`
	Name    string `json:"name"`
	Tier    string `json:"tier"`
	BE      bool   `json:"be"`
	Bounds  string `json:"bounds"`
	Seconds int    `json:"seconds"`
	Native  string `json:"native"`
}

func listJobs() (out []jobInfo) {
	for ki, k := range Kinds {
		base := ki * 2 * typeSpan
		mk := func(id int, name, tier, bounds string) {
			out = append(out, jobInfo{ID: base + id, Prop: k.Prop, Name: name, Tier: tier, BE: k.BE, Bounds: bounds, Seconds: k.Seconds, Native: k.Native})
		}
		if k.G != nil {
			b := func(n int) string {
				if n == 0 {
					return k.Bounds
				}
				return fmt.Sprintf(k.Bounds, n)
			}
			if k.Quick == k.Thorough {
				mk(0, k.Name, k.Tier, b(k.Quick))
			} else {
				if k.Tier == "" {
					mk(0, k.Name, "quickonly", b(k.Quick))
				}
				mk(1, k.Name, "thorough", b(k.Thorough))
			}
			continue
		}
		if k.P != nil {
			for i := 0; i <= k.Thorough; i++ {
				tier := ""
				if i > k.Quick {
					tier = "thorough"
				}
				mk(2*i, fmt.Sprintf("%s/%d", k.Name, i), tier, fmt.Sprintf(k.Bounds, i))
			}
			continue
		}
		for ti, t := range Types {
			if k.Use == nil && t.Fam == "sym" || k.Use != nil && !k.Use(t) {
				continue
			}
			name := k.Name + "/" + t.Name
			tier := t.Tier
			if k.Tier != "" {
				tier = k.Tier
			}
			if k.All && tier != "deep" {
				tier = ""
			}
			if tier == "deep" {
				tier = "thorough"
			}
			if slices.Contains(strings.Fields(k.Slow), t.Name) {
				tier = "thorough"
			}
			if k.Parts > 0 && t.Parts > k.Parts {
				tier = "thorough"
			}
			if k.Bytes > 0 && t.Fam != "sym" && t.Sch().genSize() > k.Bytes {
				tier = "thorough"
			}
			if !k.Dec {
				leaf := k.Leaf
				if leaf == 0 {
					leaf = 1
				}
				n := t.Sch().shapes(leaf)
				if k.MaxT > 0 && n > k.MaxT {
					continue
				}
				if k.Max > 0 && n > k.Max {
					tier = "thorough"
				}
			}
			if !k.Dec {
				d := describe(t.Sch())
				if k.Win {
					d += "; encodings of values of these sizes with two adjacent offsets replaced by any bytes, or a byte shorter or longer"
				}
				mk(2*ti, name, tier, d)
				continue
			}
			b := func(n int) string {
				return fmt.Sprintf("%s; inputs of up to %d bytes", describe(t.Sch()), n)
			}
			if t.Dec == t.DecT {
				mk(2*ti, name, tier, b(t.Dec))
			} else {
				if tier == "" && t.Dec > 0 {
					mk(2*ti, name, "quickonly", b(t.Dec))
				}
				mk(2*ti+1, name, "thorough", b(t.DecT))
			}
		}
	}
	return
}

func (s *Sch) lengths() string {
	if s.Lens != nil {
		return strings.Trim(strings.ReplaceAll(fmt.Sprint(s.Lens), " ", ","), "[]")
	}
	return fmt.Sprintf("<=%d", s.genMax())
}

// describe names the enumerated sizes of a schema; contents are symbolic throughout.
func describe(s *Sch) string {
	switch s.K {
	case KUint:
		return fmt.Sprintf("uint%d", 8*s.Size)
	case KBool:
		return "bool"
	case KByteVector:
		return fmt.Sprintf("bytes%d", s.N)
	case KBitvector:
		return fmt.Sprintf("bitvector[%d]", s.N)
	case KByteList:
		return fmt.Sprintf("bytelist<=%d (values of %s bytes)", s.Limit, s.lengths())
	case KBitlist:
		return fmt.Sprintf("bitlist<=%d (values of %s bits)", s.Limit, s.lengths())
	case KVector:
		return fmt.Sprintf("vector[%d] of %s", s.N, describe(s.Elem))
	case KList:
		return fmt.Sprintf("list<=%d (values of %s elements) of %s", s.Limit, s.lengths(), describe(s.Elem))
	}
	r := "container{"
	for i, f := range s.Fields {
		if i > 0 {
			r += ", "
		}
		r += describe(f)
	}
	return r + "}"
}

type req struct {
	Job    int               `json:"job"`
	Inputs map[string]string `json:"inputs"`
}

type res struct {
	Obs    [][2]string `json:"obs"`
	Reach  []string    `json:"reach"`
	Fails  []string    `json:"fails"`
	Panic  string      `json:"panic"`
	Assume bool        `json:"assume"`
}

func run1(q req) (r res) {
	sym.Cur = &sym.Run{Inputs: q.Inputs, Counter: map[string]int{}}
	defer func() {
		r.Obs, r.Reach, r.Fails = sym.Cur.Obs, sym.Cur.Reached, sym.Cur.Fails
		if e := recover(); e != nil {
			if _, ok := e.(sym.AssumeFailed); ok {
				r.Assume = true
				return
			}
			r.Panic = fmt.Sprint(e)
		}
	}()
	resetState()
	RunJob(q.Job)
	return
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "list" {
		json.NewEncoder(os.Stdout).Encode(listJobs())
		return
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	for sc.Scan() {
		var q req
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			panic(err)
		}
		enc.Encode(run1(q))
		w.Flush()
	}
}
