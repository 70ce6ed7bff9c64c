package main

import (
	"encoding/binary"
	"sort"
)

// Independence: a satisfiable path condition stays satisfiable with one more
// condition exactly if the part of it that shares variables with that
// condition does. Only this part goes to the solver, and answers are kept.

type sliced struct {
	r    Result
	vars []int32
	vals []uint64
}

const hashVar = -1 // stands for the interpretation of the hash function

func (ex *Exec) varsIn(e *Expr) []int32 {
	if v, ok := ex.cvars[e]; ok {
		return v
	}
	vars, hs, _ := hashTerms([]*Expr{e})
	out := make([]int32, 0, len(vars)+1)
	for _, v := range vars {
		out = append(out, int32(v.c))
	}
	if len(hs) > 0 {
		out = append(out, hashVar)
	}
	ex.cvars[e] = out
	return out
}

// check decides the path condition of st together with c.
func (ex *Exec) check(st *State, c *Expr) (Result, *Model) {
	if st.noModel || c.isConst() {
		return ex.sol.Check(st.pc, c)
	}
	in := map[int32]bool{}
	for _, v := range ex.varsIn(c) {
		in[v] = true
	}
	use := make([]bool, len(st.pc))
	n := 0
	for again := true; again; {
		again = false
		for i, p := range st.pc {
			if use[i] {
				continue
			}
			vs := ex.varsIn(p)
			for _, v := range vs {
				if in[v] {
					use[i] = true
					break
				}
			}
			if use[i] {
				n++
				for _, v := range vs {
					if !in[v] {
						in[v] = true
						again = true
					}
				}
			}
		}
	}
	part := make([]*Expr, 0, n)
	ids := make([]uint32, 0, n)
	for i, p := range st.pc {
		if use[i] {
			part = append(part, p)
			ids = append(ids, uint32(p.id))
		}
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	key := binary.LittleEndian.AppendUint32(nil, uint32(c.id))
	for _, id := range ids {
		key = binary.LittleEndian.AppendUint32(key, id)
	}
	if s, ok := ex.slices[string(key)]; ok {
		ex.res.Cached++
		return s.r, st.overlay(s)
	}
	if s := ex.small(st, part, c, in); s != nil {
		ex.res.Cached++
		ex.slices[string(key)] = s
		return s.r, st.overlay(s)
	}
	var r Result
	var m *Model
	if in[hashVar] || 2*n > len(st.pc) {
		r, m = ex.sol.Check(st.pc, c)
	} else {
		if ex.sol2 == nil {
			ex.sol2 = ex.sol.twin()
		}
		r, m = ex.sol2.Check(part, c)
	}
	s := &sliced{r: r}
	if r == Sat {
		for v := range in {
			if v == hashVar {
				continue
			}
			x := uint64(0)
			if int(v) < len(m.vals) {
				x = m.vals[v]
			}
			s.vars, s.vals = append(s.vars, v), append(s.vals, x)
		}
	}
	if r != Unknown {
		ex.slices[string(key)] = s
	}
	return r, st.overlay(s)
}

// small decides conditions over one variable with few values.
func (ex *Exec) small(st *State, part []*Expr, c *Expr, in map[int32]bool) *sliced {
	if len(in) != 1 || in[hashVar] {
		return nil
	}
	for n := range in {
		v := ex.b.varlst[n]
		lo, hi := st.bounds(v, 0)
		if lo > hi || hi-lo > 300 {
			return nil
		}
		m := NewModel()
		m.vals = make([]uint64, n+1)
		for x := lo; ; x++ {
			m.vals[n] = x
			clear(m.cache)
			ok := m.eval(c) == 1
			for i := 0; ok && i < len(part); i++ {
				ok = m.eval(part[i]) == 1
			}
			if ok {
				return &sliced{r: Sat, vars: []int32{n}, vals: []uint64{x}}
			}
			if x == hi {
				return &sliced{r: Unsat}
			}
		}
	}
	return nil
}

// overlay is the model of st changed on the variables of a solved part.
func (st *State) overlay(s *sliced) *Model {
	if s.r != Sat {
		return nil
	}
	m := NewModel()
	m.uf = st.model.uf
	m.vals = append([]uint64(nil), st.model.vals...)
	for i, v := range s.vars {
		for len(m.vals) <= int(v) {
			m.vals = append(m.vals, 0)
		}
		m.vals[v] = s.vals[i]
	}
	return m
}
