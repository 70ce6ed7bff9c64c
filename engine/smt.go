package main

// SMT solver processes: an incremental z3 per worker plus one-shot fallbacks.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	b         *Builder
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	emitted   map[*Expr]bool
	stack     []*Expr
	buf       bytes.Buffer
	timeoutMs int
	injective bool // add left inverse axioms for the hash terms of the query
	queries   int
	sat       int
	unsat     int
	unknown   int
	fallback  int
	errors    int
	spent     time.Duration
	restarts  int
	hashSeen  map[*Expr]bool
}

func NewSolver(b *Builder) *Solver {
	return &Solver{b: b, timeoutMs: 8000}
}

// twin is another solver process over the same expressions.
func (s *Solver) twin() *Solver {
	n := NewSolver(s.b)
	n.timeoutMs, n.injective = s.timeoutMs, s.injective
	return n
}

func (s *Solver) start() {
	s.emitted = map[*Expr]bool{}
	s.stack = nil
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeoutMs)
	s.buf.WriteString(hashDecl)
}

const hashDecl = "(declare-fun H ((_ BitVec 512)) (_ BitVec 256))\n(declare-fun Hinv ((_ BitVec 256)) (_ BitVec 512))\n"

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint16) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(w *bytes.Buffer, e *Expr) {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.c == 1 {
				w.WriteString("true")
			} else {
				w.WriteString("false")
			}
		} else if e.w%4 == 0 {
			fmt.Fprintf(w, "#x%0*x", e.w/4, e.c)
		} else {
			fmt.Fprintf(w, "(_ bv%d %d)", e.c, e.w)
		}
	case OVar:
		fmt.Fprintf(w, "v%d", e.c)
	default:
		fmt.Fprintf(w, "e%d", e.id)
	}
}

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite", OBAnd: "and", OBOr: "or", OBNot: "not"}

// emit definitions for e and everything below, iteratively
func emit(w *bytes.Buffer, root *Expr, done map[*Expr]bool) {
	type fr struct {
		e *Expr
		i int
	}
	if done[root] || root.op == OConst {
		return
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		e := f.e
		if done[e] || e.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		var kid *Expr
		if e.op == OHash {
			if f.i < len(e.args) {
				kid = e.args[f.i]
			}
		} else {
			switch f.i {
			case 0:
				kid = e.a
			case 1:
				kid = e.b
			case 2:
				kid = e.d
			}
			if f.i < 3 && kid == nil {
				f.i++
				continue
			}
		}
		if kid != nil {
			f.i++
			if !done[kid] && kid.op != OConst {
				st = append(st, fr{kid, 0})
			}
			continue
		}
		done[e] = true
		st = st[:len(st)-1]
		if e.op == OVar {
			fmt.Fprintf(w, "(declare-const v%d %s)\n", e.c, sortName(e.w))
			continue
		}
		if constDiv(e) {
			// quotient and remainder by a constant are defined by divLemmas
			fmt.Fprintf(w, "(declare-const e%d %s)\n(declare-const d%d %s)\n", e.id, sortName(e.w), e.id, sortName(e.w))
			continue
		}
		fmt.Fprintf(w, "(define-fun e%d () %s ", e.id, sortName(e.w))
		switch e.op {
		case OExtract:
			fmt.Fprintf(w, "((_ extract %d %d) ", int(e.c)+int(e.w)-1, e.c)
			ref(w, e.a)
			w.WriteString(")")
		case OZExt:
			fmt.Fprintf(w, "((_ zero_extend %d) ", e.w-e.a.w)
			ref(w, e.a)
			w.WriteString(")")
		case OSExt:
			fmt.Fprintf(w, "((_ sign_extend %d) ", e.w-e.a.w)
			ref(w, e.a)
			w.WriteString(")")
		case OHash:
			w.WriteString("(H (concat")
			for _, a := range e.args {
				w.WriteByte(' ')
				ref(w, a)
			}
			w.WriteString("))")
		default:
			w.WriteString("(" + opName[e.op])
			for _, a := range []*Expr{e.a, e.b, e.d} {
				if a != nil {
					w.WriteByte(' ')
					ref(w, a)
				}
			}
			w.WriteString(")")
		}
		w.WriteString(")\n")
	}
}

func constDiv(e *Expr) bool {
	return (e.op == OURem || e.op == OUDiv) && e.b.op == OConst && e.b.c != 0
}

// x = q*c + r, r < c, q*c + r does not overflow
func divLemmas(w *bytes.Buffer, ds []*Expr) {
	for _, e := range ds {
		q, r := fmt.Sprintf("e%d", e.id), fmt.Sprintf("d%d", e.id)
		if e.op == OURem {
			q, r = r, q
		}
		c := func(v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, e.w) }
		w.WriteString("(assert (and (= ")
		ref(w, e.a)
		fmt.Fprintf(w, " (bvadd (bvmul %s %s) %s)) (bvult %s %s) (bvule %s %s) (=> (= %s %s) (bvule %s %s))))\n",
			c(e.b.c), q, r, r, c(e.b.c), q, c(mask(e.w)/e.b.c), q, c(mask(e.w)/e.b.c), r, c(mask(e.w)%e.b.c))
	}
}

func hashTerms(es []*Expr) (vars []*Expr, hs []*Expr, ds []*Expr) {
	seen := map[*Expr]bool{}
	var st []*Expr
	push := func(e *Expr) {
		if e != nil && e.op != OConst && !seen[e] {
			seen[e] = true
			st = append(st, e)
		}
	}
	for _, e := range es {
		push(e)
	}
	for len(st) > 0 {
		e := st[len(st)-1]
		st = st[:len(st)-1]
		switch e.op {
		case OVar:
			vars = append(vars, e)
			continue
		case OURem, OUDiv:
			if constDiv(e) {
				ds = append(ds, e)
			}
		case OHash:
			hs = append(hs, e)
			for _, a := range e.args {
				push(a)
			}
			continue
		}
		push(e.a)
		push(e.b)
		push(e.d)
	}
	return
}

func (s *Solver) hashAxioms(w *bytes.Buffer, hs []*Expr) {
	for _, h := range hs {
		w.WriteString("(assert (= (Hinv ")
		ref(w, h)
		w.WriteString(") (concat")
		for _, a := range h.args {
			w.WriteByte(' ')
			ref(w, a)
		}
		w.WriteString(")))\n")
	}
}

// Check decides pc and extra; on Sat returns a model for the variables involved.
func (s *Solver) Check(pc []*Expr, extra ...*Expr) (Result, *Model) {
	s.queries++
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	all := append(append([]*Expr{}, pc...), extra...)
	for _, e := range all {
		if e.isFalse() {
			s.unsat++
			return Unsat, nil
		}
	}
	r, m := s.incremental(pc, extra, all)
	if slowDir != "" && time.Since(t0) > time.Second {
		slowN++
		txt, _ := s.Dump(all)
		os.WriteFile(fmt.Sprintf("%s/%d-%d.smt2", slowDir, slowN, r), []byte(fmt.Sprintf("; %v\n", time.Since(t0))+txt), 0o644)
	}
	if r == Unknown {
		s.fallback++
		r, m = s.oneShot(all)
	}
	switch r {
	case Sat:
		s.sat++
	case Unsat:
		s.unsat++
	default:
		s.unknown++
	}
	return r, m
}

// CheckOnce asks the solvers that run once per query.
func (s *Solver) CheckOnce(all []*Expr) (Result, *Model) {
	s.queries++
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	r, m := s.oneShot(all)
	switch r {
	case Sat:
		s.sat++
	case Unsat:
		s.unsat++
	default:
		s.unknown++
	}
	return r, m
}

func (s *Solver) incremental(pc, extra, all []*Expr) (Result, *Model) {
	if s.cmd != nil && len(s.emitted) > 400000 {
		s.Close()
		s.restarts++
	}
	if s.cmd == nil {
		s.start()
	}
	w := &s.buf
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(w, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, e := range pc[n:] {
		emit(w, e, s.emitted)
		w.WriteString("(push 1)\n(assert ")
		ref(w, e)
		w.WriteString(")\n")
		s.stack = append(s.stack, e)
	}
	for _, e := range extra {
		emit(w, e, s.emitted)
	}
	w.WriteString("(push 1)\n")
	for _, e := range extra {
		w.WriteString("(assert ")
		ref(w, e)
		w.WriteString(")\n")
	}
	vars, hs, ds := hashTerms(all)
	divLemmas(w, ds)
	if s.injective {
		s.hashAxioms(w, hs)
	}
	w.WriteString("(check-sat)\n")
	if _, err := s.in.Write(w.Bytes()); err != nil {
		w.Reset()
		s.Close()
		return Unknown, nil
	}
	w.Reset()
	line, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	var res Result
	var m *Model
	switch {
	case line == "sat":
		res = Sat
		m, err = s.getModel(vars)
		if err != nil {
			s.Close()
			return Unknown, nil
		}
	case line == "unsat":
		res = Unsat
	case strings.HasPrefix(line, "(error"):
		s.errors++
		s.Close()
		return Unknown, nil
	default:
		res = Unknown
	}
	w.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// reads one balanced s-expression
func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

func (s *Solver) getModel(vars []*Expr) (*Model, error) {
	m := NewModel()
	if len(vars) == 0 {
		return m, nil
	}
	var w bytes.Buffer
	w.WriteString("(get-value (")
	for _, v := range vars {
		fmt.Fprintf(&w, "v%d ", v.c)
	}
	w.WriteString("))\n")
	if _, err := s.in.Write(w.Bytes()); err != nil {
		return nil, err
	}
	sx, err := readSexp(s.out)
	if err != nil {
		return nil, err
	}
	return m, parseValues(sx, m, s.b)
}

func parseValues(sx string, m *Model, b *Builder) error {
	toks := strings.FieldsFunc(sx, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(toks); i++ {
		if toks[i][0] != 'v' {
			return fmt.Errorf("unexpected token %q in model", toks[i])
		}
		n, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			return err
		}
		for len(m.vals) <= n {
			m.vals = append(m.vals, 0)
		}
		i++
		t := toks[i]
		var v uint64
		switch {
		case t == "true":
			v = 1
		case t == "false":
			v = 0
		case strings.HasPrefix(t, "#x"):
			v, err = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			v, err = strconv.ParseUint(t[2:], 2, 64)
		case t == "_":
			v, err = strconv.ParseUint(strings.TrimPrefix(toks[i+1], "bv"), 10, 64)
			i += 2
		default:
			err = fmt.Errorf("bad value %q", t)
		}
		if err != nil {
			return err
		}
		m.vals[n] = v
	}
	return nil
}

// full query text
func (s *Solver) Dump(all []*Expr) (string, []*Expr) {
	var w bytes.Buffer
	w.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n" + hashDecl)
	done := map[*Expr]bool{}
	for _, e := range all {
		emit(&w, e, done)
		w.WriteString("(assert ")
		ref(&w, e)
		w.WriteString(")\n")
	}
	vars, hs, ds := hashTerms(all)
	divLemmas(&w, ds)
	if s.injective {
		s.hashAxioms(&w, hs)
	}
	w.WriteString("(check-sat)\n")
	return w.String(), vars
}

func (s *Solver) oneShot(all []*Expr) (Result, *Model) {
	txt, vars := s.Dump(all)
	var w bytes.Buffer
	w.WriteString(txt)
	if len(vars) > 0 {
		w.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&w, "v%d ", v.c)
		}
		w.WriteString("))\n")
	}
	type ans struct {
		r Result
		m *Model
	}
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Duration(s.timeoutMs)*time.Millisecond)
	defer cancel()
	ch := make(chan ans, 2)
	for _, argv := range [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--produce-models"}} {
		go func(argv []string) {
			c := exec.CommandContext(ctx, argv[0], argv[1:]...)
			c.Stdin = bytes.NewReader(w.Bytes())
			out, _ := c.Output()
			txt := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(txt, "unsat"):
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(txt, "sat"):
				m := NewModel()
				rest := strings.TrimSpace(txt[3:])
				if len(vars) > 0 {
					if err := parseValues(rest, m, s.b); err != nil {
						ch <- ans{Unknown, nil}
						return
					}
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{Unknown, nil}
			}
		}(argv)
	}
	for i := 0; i < 2; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

var (
	slowDir = os.Getenv("ENGINE_SLOW") // development: where to write queries that take long
	slowN   int
)
