package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one persistent SMT solver process per harness.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	defined []bool // by expr id
	names   []string

	soft time.Duration // first attempt
	hard time.Duration // fallback attempt

	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	Fallbacks int
	Cached    int
	Time      time.Duration
	Errors    []string

	cover      time.Duration
	cross      bool // cross-check definitive answers with cvc5
	CrossOK    int
	CrossTime  time.Duration
	dumpDir    string
	feasCache  map[string]int
	binPrimary []string
}

func NewSolver(ctx *Ctx) *Solver {
	return &Solver{ctx: ctx, soft: 4 * time.Second, hard: 60 * time.Second, cover: 25 * time.Second, binPrimary: []string{"z3-new", "-in", "-smt2"}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.binPrimary[0], s.binPrimary[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = nil
	s.buf.Reset()
	s.buf.WriteString("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvConst(v int64, n int) string {
	if n <= 64 {
		u := uint64(v)
		if n < 64 {
			u &= 1<<uint(n) - 1
		}
		return fmt.Sprintf("(_ bv%d %d)", u, n)
	}
	// sign extend
	return fmt.Sprintf("((_ sign_extend %d) (_ bv%d 64))", n-64, uint64(v))
}

func needBits(lo, hi int64) int { // signed width
	n := 1
	f := func(v int64) int {
		if v < 0 {
			v = ^v
		}
		return bits.Len64(uint64(v)) + 1
	}
	n = max(n, f(lo), f(hi))
	return n
}

func (e *Expr) vname() string { return "v" + strconv.Itoa(int(e.id)) }
func (e *Expr) nname() string {
	if e.op == OpVar {
		return e.vname()
	}
	return "n" + strconv.Itoa(int(e.id))
}

type emitter struct {
	ctx  *Ctx
	out  *strings.Builder
	done func(id int32) bool
	mark func(id int32)
}

func resize(x string, from, to int, sg bool) string {
	switch {
	case from == to:
		return x
	case from > to:
		return fmt.Sprintf("((_ extract %d 0) %s)", to-1, x)
	case sg:
		return fmt.Sprintf("((_ sign_extend %d) %s)", to-from, x)
	default:
		return fmt.Sprintf("((_ zero_extend %d) %s)", to-from, x)
	}
}

// at returns e's value modulo 2^n as an n-bit term. Dependencies must be emitted.
func (m *emitter) at(e *Expr, n int) string {
	switch e.op {
	case OpConst:
		if e.top {
			return resize(bvConst(e.k, 64), 64, n, false)
		}
		return bvConst(e.k, n)
	case OpLin:
		if n != int(e.w) {
			return m.sum(e.k, e.args, e.coefs, n)
		}
	}
	return resize(e.nname(), int(e.w), n, e.sg)
}

func (m *emitter) sum(k int64, atoms []*Expr, coefs []int64, n int) string {
	var parts []string
	for i, a := range atoms {
		t := m.at(a, n)
		switch coefs[i] {
		case 1:
		case -1:
			t = "(bvneg " + t + ")"
		default:
			t = "(bvmul " + bvConst(coefs[i], n) + " " + t + ")"
		}
		parts = append(parts, t)
	}
	if k != 0 || len(parts) == 0 {
		parts = append(parts, bvConst(k, n))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = "(bvadd " + r + " " + p + ")"
	}
	return r
}

func (m *emitter) emit(root *Expr) {
	// iterative post-order
	type fr struct {
		e *Expr
		i int
	}
	if root.op == OpConst || m.done(root.id) {
		return
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.e.args) {
			a := f.e.args[f.i]
			f.i++
			if a.op != OpConst && !m.done(a.id) {
				st = append(st, fr{a, 0})
			}
			continue
		}
		if !m.done(f.e.id) {
			m.define(f.e)
			m.mark(f.e.id)
		}
		st = st[:len(st)-1]
	}
}

func boolName(e *Expr) string {
	if e.op == OpConst {
		if e.k != 0 {
			return "true"
		}
		return "false"
	}
	return e.nname()
}

func (m *emitter) define(e *Expr) {
	o := m.out
	if e.op == OpVar {
		if e.w == 0 {
			fmt.Fprintf(o, "(declare-fun %s () Bool)\n", e.vname())
			return
		}
		fmt.Fprintf(o, "(declare-fun %s () (_ BitVec %d))\n", e.vname(), e.w)
		if !e.top {
			tl, th, tt := typeRange(e.w, e.sg)
			le := "bvule"
			if e.sg {
				le = "bvsle"
			}
			if e.lo > tl {
				fmt.Fprintf(o, "(assert (%s %s %s))\n", le, bvConst(e.lo, int(e.w)), e.vname())
			}
			if e.hi < th || tt {
				fmt.Fprintf(o, "(assert (%s %s %s))\n", le, e.vname(), bvConst(e.hi, int(e.w)))
			}
		}
		return
	}
	var body string
	w := int(e.w)
	sort := "Bool"
	if w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", w)
	}
	switch e.op {
	case OpLin:
		body = m.sum(e.k, e.args, e.coefs, w)
	case OpFn:
		body = m.uniFn(e)
	case OpEMod:
		in := e.args[0]
		if e.k&(e.k-1) == 0 {
			b := bits.TrailingZeros64(uint64(e.k))
			body = resize(m.at(in, b), b, w, false)
		} else {
			n := max(needBits(in.lo, in.hi), needBits(0, e.k))
			if in.lo >= 0 {
				body = resize(fmt.Sprintf("(bvurem %s %s)", m.at(in, n), bvConst(e.k, n)), n, w, false)
			} else {
				body = resize(fmt.Sprintf("(bvsmod %s %s)", m.at(in, n), bvConst(e.k, n)), n, w, false)
			}
		}
	case OpEDiv:
		in := e.args[0]
		n := max(needBits(in.lo, in.hi), needBits(0, e.k))
		if e.k&(e.k-1) == 0 {
			b := bits.TrailingZeros64(uint64(e.k))
			body = resize(fmt.Sprintf("(bvashr %s %s)", m.at(in, n), bvConst(int64(b), n)), n, w, true)
		} else if in.lo >= 0 {
			body = resize(fmt.Sprintf("(bvudiv %s %s)", m.at(in, n), bvConst(e.k, n)), n, w, true)
		} else {
			t := m.at(in, n)
			body = resize(fmt.Sprintf("(bvsdiv (bvsub %s (bvsmod %s %s)) %s)", t, t, bvConst(e.k, n), bvConst(e.k, n)), n, w, true)
		}
	case OpTab:
		body = m.tab(e)
	case OpCase:
		body = m.kase(e)
	case OpIte:
		body = fmt.Sprintf("(ite %s %s %s)", boolName(e.args[0]), m.at(e.args[1], w), m.at(e.args[2], w))
	case OpConv:
		body = m.at(e.args[0], w)
	case OpNot:
		body = "(not " + boolName(e.args[0]) + ")"
	case OpAnd:
		var sb strings.Builder
		sb.WriteString("(and")
		for _, a := range e.args {
			sb.WriteString(" ")
			sb.WriteString(boolName(a))
		}
		sb.WriteString(")")
		body = sb.String()
	case OpLE0, OpEQ0:
		body = m.cmp(e)
	case OpLT:
		a, b := e.args[0], e.args[1]
		op := "bvult"
		if a.sg {
			op = "bvslt"
		}
		body = fmt.Sprintf("(%s %s %s)", op, m.at(a, int(a.w)), m.at(b, int(a.w)))
	case OpEQ:
		a, b := e.args[0], e.args[1]
		body = fmt.Sprintf("(= %s %s)", m.at(a, int(a.w)), m.at(b, int(a.w)))
	default:
		a, b := m.at(e.args[0], w), m.at(e.args[1], w)
		var op string
		switch e.op {
		case OpAdd:
			op = "bvadd"
		case OpSub:
			op = "bvsub"
		case OpMul:
			op = "bvmul"
		case OpAndB:
			op = "bvand"
		case OpOrB:
			op = "bvor"
		case OpXorB:
			op = "bvxor"
		case OpShl:
			op = "bvshl"
		case OpShr:
			op = "bvlshr"
			if e.sg {
				op = "bvashr"
			}
		case OpQuo:
			op = "bvudiv"
			if e.sg {
				op = "bvsdiv"
			}
		case OpRem:
			op = "bvurem"
			if e.sg {
				op = "bvsrem"
			}
		}
		body = fmt.Sprintf("(%s %s %s)", op, a, b)
	}
	fmt.Fprintf(o, "(define-fun %s () %s %s)\n", e.nname(), sort, body)
}

// set renders membership of v in a table of truth values.
func (m *emitter) set(v *Expr, t []int64) string {
	if v.w == 0 {
		if t[1] != 0 {
			return v.vname()
		}
		return "(not " + v.vname() + ")"
	}
	le := "bvule"
	if v.sg {
		le = "bvsle"
	}
	vw := int(v.w)
	runs := tabRuns(t, func(i int) int64 { return t[i] })
	n := [2]int{}
	for _, r := range runs {
		n[t[r[0]]]++
	}
	want := int64(1)
	if n[0] < n[1] {
		want = 0
	}
	var parts []string
	for _, r := range runs {
		if t[r[0]] != want {
			continue
		}
		lo, hi := v.lo+int64(r[0]), v.lo+int64(r[1])
		switch {
		case lo == hi:
			parts = append(parts, fmt.Sprintf("(= %s %s)", v.vname(), bvConst(lo, vw)))
		case lo == v.lo:
			parts = append(parts, fmt.Sprintf("(%s %s %s)", le, v.vname(), bvConst(hi, vw)))
		case hi == v.hi:
			parts = append(parts, fmt.Sprintf("(%s %s %s)", le, bvConst(lo, vw), v.vname()))
		default:
			parts = append(parts, fmt.Sprintf("(and (%s %s %s) (%s %s %s))", le, bvConst(lo, vw), v.vname(), le, v.vname(), bvConst(hi, vw)))
		}
	}
	b := parts[0]
	if len(parts) > 1 {
		b = "(or " + strings.Join(parts, " ") + ")"
	}
	if want == 0 {
		b = "(not " + b + ")"
	}
	return b
}

// kase emits a decision diagram node.
func (m *emitter) kase(e *Expr) string {
	leaf := func(a *Expr) string {
		if e.w == 0 {
			return boolName(a)
		}
		return m.at(a, int(e.w))
	}
	ch := e.args[1:]
	body := leaf(ch[len(ch)-1])
	for n := len(ch) - 2; n >= 0; n-- {
		t := make([]int64, len(e.coefs))
		for i, x := range e.coefs {
			t[i] = b2i(x == int64(n))
		}
		body = fmt.Sprintf("(ite %s %s %s)", m.set(e.args[0], t), leaf(ch[n]), body)
	}
	return body
}

// tab emits a table over one variable.
func (m *emitter) tab(e *Expr) string {
	v := e.args[0]
	if e.w == 0 {
		return m.set(v, e.coefs)
	}
	w := int(e.w)
	if v.w == 0 {
		return fmt.Sprintf("(ite %s %s %s)", v.vname(), bvConst(e.coefs[1], w), bvConst(e.coefs[0], w))
	}
	le := "bvule"
	if v.sg {
		le = "bvsle"
	}
	vw := int(v.w)
	leaf := func(i, j int) string { // values i..j as constant or var+const
		if e.coefs[i] == e.coefs[j] {
			return bvConst(e.coefs[i], w)
		}
		d := e.coefs[i] - (v.lo + int64(i))
		return m.sum(d, []*Expr{v}, []int64{1}, w)
	}
	var runs [][2]int
	for i := 0; i < len(e.coefs); {
		j := i
		for j+1 < len(e.coefs) && e.coefs[j+1] == e.coefs[i] {
			j++
		}
		k := i
		for k+1 < len(e.coefs) && e.coefs[k+1] == e.coefs[k]+1 {
			k++
		}
		if k > j {
			j = k
		}
		runs = append(runs, [2]int{i, j})
		i = j + 1
	}
	body := leaf(runs[len(runs)-1][0], runs[len(runs)-1][1])
	for n := len(runs) - 2; n >= 0; n-- {
		body = fmt.Sprintf("(ite (%s %s %s) %s %s)", le, v.vname(), bvConst(v.lo+int64(runs[n][1]), vw), leaf(runs[n][0], runs[n][1]), body)
	}
	return body
}

func (m *emitter) cmp(e *Expr) string {
	if len(e.args) == 1 && (e.coefs[0] == 1 || e.coefs[0] == -1) {
		a := e.args[0]
		tl, th, tt := typeRange(a.w, a.sg)
		v := -e.k * e.coefs[0] // a*coef + k ? 0  -> a ? v
		if v >= tl && v <= th && !(tt && false) {
			le := "bvule"
			if a.sg {
				le = "bvsle"
			}
			x, y := m.at(a, int(a.w)), bvConst(v, int(a.w))
			if e.op == OpEQ0 {
				return fmt.Sprintf("(= %s %s)", x, y)
			}
			if e.coefs[0] == 1 {
				return fmt.Sprintf("(%s %s %s)", le, x, y)
			}
			return fmt.Sprintf("(%s %s %s)", le, y, x)
		}
	}
	l := lin{e.k, e.args, e.coefs}
	lo, hi, ok := l.interval()
	n := 160
	if ok {
		n = needBits(lo, hi)
	}
	t := m.sum(e.k, e.args, e.coefs, n)
	if e.op == OpEQ0 {
		return fmt.Sprintf("(= %s %s)", t, bvConst(0, n))
	}
	return fmt.Sprintf("(bvsle %s %s)", t, bvConst(0, n))
}

func (s *Solver) emitter(out *strings.Builder) *emitter {
	return &emitter{ctx: s.ctx, out: out,
		done: func(id int32) bool { return int(id) < len(s.defined) && s.defined[id] },
		mark: func(id int32) {
			for int(id) >= len(s.defined) {
				s.defined = append(s.defined, make([]bool, 4096)...)
			}
			s.defined[id] = true
		}}
}

const (
	rUnknown = 0
	rSat     = 1
	rUnsat   = 2
)

// Check decides the conjunction. On sat it returns values for the support variables.
func (s *Solver) Check(cs []*Expr, wantModel bool, final bool) (int, map[int32]int64) {
	for _, e := range cs {
		if e == s.ctx.False {
			return rUnsat, nil
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	res, mod := s.incremental(cs, wantModel)
	if res == rUnknown {
		s.Fallbacks++
		if d := os.Getenv("SYMX_SLOW"); d != "" {
			f := fmt.Sprintf("%s/slow%d", d, s.Fallbacks)
			os.WriteFile(f+".smt2", []byte(s.script(cs, false)), 0o644)
			var b strings.Builder
			for _, c := range cs {
				fmt.Fprintf(&b, "%s\n", c.str(14))
			}
			os.WriteFile(f+".txt", []byte(b.String()), 0o644)
		}
		res, mod = s.oneShot(cs, wantModel)
	}
	switch res {
	case rSat:
		s.Sat++
	case rUnsat:
		s.Unsat++
		if final && s.cross {
			s.crossCheck(cs)
		}
	default:
		s.Unknown++
	}
	return res, mod
}

func (s *Solver) supVars(cs []*Expr) []*Expr {
	seen := map[int32]bool{}
	var out []*Expr
	for _, e := range cs {
		for _, id := range e.sup {
			if !seen[id] {
				seen[id] = true
				out = append(out, s.ctx.all[id])
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (s *Solver) incremental(cs []*Expr, wantModel bool) (int, map[int32]int64) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			return rUnknown, nil
		}
	}
	b := &s.buf
	em := s.emitter(b)
	for _, e := range cs {
		em.emit(e)
	}
	vars := s.supVars(cs)
	for _, v := range vars {
		em.emit(v)
	}
	fmt.Fprintf(b, "(push 1)\n(set-option :timeout %d)\n", s.soft.Milliseconds())
	for _, e := range cs {
		fmt.Fprintf(b, "(assert %s)\n", boolName(e))
	}
	b.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.Close()
		return rUnknown, nil
	}
	b.Reset()
	line, err := s.line(s.soft + 5*time.Second)
	if err != nil {
		s.Close()
		return rUnknown, nil
	}
	res := rUnknown
	var mod map[int32]int64
	switch line {
	case "sat":
		res = rSat
		if wantModel && len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(v.vname() + " ")
			}
			q.WriteString("))\n")
			if _, err := io.WriteString(s.in, q.String()); err != nil {
				s.Close()
				return rUnknown, nil
			}
			txt, err := s.sexp(20 * time.Second)
			if err != nil {
				s.Close()
				return rUnknown, nil
			}
			mod = s.parseModel(txt, vars)
		} else {
			mod = map[int32]int64{}
		}
	case "unsat":
		res = rUnsat
	case "unknown":
	default:
		s.Errors = append(s.Errors, line)
		s.Close()
		return rUnknown, nil
	}
	b.WriteString("(pop 1)\n")
	return res, mod
}

func (s *Solver) line(d time.Duration) (string, error) {
	type r struct {
		s string
		e error
	}
	ch := make(chan r, 1)
	out := s.out
	go func() {
		for {
			l, err := out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err != nil || l != "" {
				ch <- r{l, err}
				return
			}
		}
	}()
	select {
	case x := <-ch:
		return x.s, x.e
	case <-time.After(d):
		return "", fmt.Errorf("solver timeout")
	}
}

func (s *Solver) sexp(d time.Duration) (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.line(d)
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		sb.WriteString("\n")
		for _, ch := range l {
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		if depth <= 0 {
			return sb.String(), nil
		}
	}
}

func (s *Solver) parseModel(txt string, vars []*Expr) map[int32]int64 {
	m := map[int32]int64{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	byName := map[string]*Expr{}
	for _, v := range vars {
		byName[v.vname()] = v
	}
	for i := 0; i+1 < len(toks); i++ {
		v := byName[toks[i]]
		if v == nil {
			continue
		}
		t := toks[i+1]
		var u uint64
		var err error
		switch {
		case t == "true":
			u = 1
		case t == "false":
			u = 0
		case strings.HasPrefix(t, "#x"):
			u, err = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			u, err = strconv.ParseUint(t[2:], 2, 64)
		case t == "(" && i+3 < len(toks) && toks[i+2] == "_":
			u, err = strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
		default:
			err = fmt.Errorf("bad value %s", t)
		}
		if err != nil {
			s.Errors = append(s.Errors, err.Error())
			continue
		}
		if v.w == 0 {
			m[v.id] = int64(u)
		} else {
			m[v.id] = wrapConst(int64(u), v.w, v.sg)
		}
	}
	return m
}

// script renders a standalone SMT-LIB script.
func (s *Solver) script(cs []*Expr, model bool) string {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	done := map[int32]bool{}
	em := &emitter{ctx: s.ctx, out: &b, done: func(id int32) bool { return done[id] }, mark: func(id int32) { done[id] = true }}
	for _, e := range cs {
		em.emit(e)
	}
	vars := s.supVars(cs)
	for _, v := range vars {
		em.emit(v)
	}
	for _, e := range cs {
		fmt.Fprintf(&b, "(assert %s)\n", boolName(e))
	}
	b.WriteString("(check-sat)\n")
	if model && len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(v.vname() + " ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}

func runOnce(bin []string, script string, d time.Duration) string {
	cmd := exec.Command(bin[0], bin[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return ""
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		cmd.Process.Kill()
		<-done
	}
	return out.String()
}

func (s *Solver) oneShot(cs []*Expr, wantModel bool) (int, map[int32]int64) {
	script := s.script(cs, wantModel)
	vars := s.supVars(cs)
	bins := [][]string{{"z3-new", "-in", "-smt2"}, {"z3", "-in", "-smt2"}, {"cvc5", "--lang=smt2"}}
	type r struct {
		res int
		mod map[int32]int64
	}
	ch := make(chan r, len(bins))
	for _, bn := range bins {
		go func(bn []string) {
			out := runOnce(bn, script, s.hard)
			lines := strings.SplitN(strings.TrimSpace(out), "\n", 2)
			switch strings.TrimSpace(lines[0]) {
			case "sat":
				m := map[int32]int64{}
				if len(lines) > 1 && wantModel {
					m = s.parseModel(lines[1], vars)
				}
				ch <- r{rSat, m}
			case "unsat":
				ch <- r{rUnsat, nil}
			default:
				ch <- r{}
			}
		}(bn)
	}
	for range bins {
		x := <-ch
		if x.res != rUnknown {
			return x.res, x.mod
		}
	}
	return rUnknown, nil
}

// resolve replaces groups of path conditions by their common prefix where they
// split it completely (a condition on one side, its negation on the other, all
// the way down), until few are left for the solver.
func (s *Solver) resolve(ends [][]*Expr, few int) [][]*Expr {
	type node struct {
		kids  map[*Expr]*node
		order []*Expr
		end   bool
		cover bool
		path  []*Expr
	}
	root := &node{}
	for _, cs := range ends { // leaf to root
		n := root
		for i := len(cs) - 1; i >= 0; i-- {
			k := n.kids[cs[i]]
			if k == nil {
				if n.kids == nil {
					n.kids = map[*Expr]*node{}
				}
				k = &node{path: append(append([]*Expr(nil), n.path...), cs[i])}
				n.kids[cs[i]] = k
				n.order = append(n.order, cs[i])
			}
			n = k
		}
		n.end = true
	}
	var mark func(n *node)
	mark = func(n *node) {
		n.cover = n.end
		for _, e := range n.order {
			mark(n.kids[e])
		}
		for _, e := range n.order {
			if o := n.kids[s.ctx.Not(e)]; o != nil && o.cover && n.kids[e].cover {
				n.cover = true
			}
		}
	}
	mark(root)
	front := []*node{root}
	for len(front) < few {
		var next []*node
		grew := false
		for _, n := range front {
			if n.end || len(n.order) == 0 {
				next = append(next, n)
				continue
			}
			grew = true
			for _, e := range n.order {
				next = append(next, n.kids[e])
			}
		}
		if !grew || len(next) > 2*few {
			break
		}
		front = next
	}
	var out [][]*Expr
	var emit func(n *node)
	emit = func(n *node) {
		if n.cover {
			out = append(out, n.path)
			return
		}
		for _, e := range n.order {
			emit(n.kids[e])
		}
	}
	for _, n := range front {
		emit(n)
	}
	return out
}

// Covered asks for an input that satisfies none of the path conditions; unsat
// means that the paths explored are all there are. It does not use the
// rewriter: the conditions go to the solver as they are.
func (s *Solver) Covered(ends [][]*Expr) int {
	if len(ends) > 1500 {
		if ends = s.resolve(ends, 1500); len(ends) > 3000 {
			return rUnknown
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	done := map[int32]bool{}
	em := &emitter{ctx: s.ctx, out: &b, done: func(id int32) bool { return done[id] }, mark: func(id int32) { done[id] = true }}
	for _, cs := range ends {
		if len(cs) == 0 {
			return rUnsat
		}
		for _, e := range cs {
			em.emit(e)
		}
	}
	for _, cs := range ends {
		b.WriteString("(assert (not (and true")
		for _, e := range cs {
			b.WriteString(" " + boolName(e))
		}
		b.WriteString(")))\n")
		if b.Len() > 60<<20 {
			return rUnknown
		}
	}
	b.WriteString("(check-sat)\n")
	if d := os.Getenv("SYMX_SLOW"); d != "" {
		os.WriteFile(d+"/covered.smt2", []byte(b.String()), 0o644)
	}
	s.Queries++
	switch strings.TrimSpace(runOnce(s.binPrimary, b.String(), s.cover)) {
	case "sat":
		s.Sat++
		return rSat
	case "unsat":
		s.Unsat++
		return rUnsat
	}
	s.Unknown++
	return rUnknown
}

func (s *Solver) crossCheck(cs []*Expr) {
	t0 := time.Now()
	out := runOnce([]string{"cvc5", "--lang=smt2"}, s.script(cs, false), 120*time.Second)
	s.CrossTime += time.Since(t0)
	switch strings.TrimSpace(out) {
	case "unsat":
		s.CrossOK++
	case "sat":
		s.Errors = append(s.Errors, "DISAGREEMENT: primary solver unsat, cvc5 sat")
	}
}
