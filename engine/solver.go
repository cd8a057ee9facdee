package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Fallback int64
	TimeNS   int64
	Errors   int64
}

// Solver drives one persistent z3 process (push/pop), with one-shot fallbacks.
type Solver struct {
	pool    *TermPool
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	epoch   uint32
	stack   []*Term // asserted path condition, one push level each
	st      *SolverStats
	nDefs   int
	buf     bytes.Buffer
	softMS  int
	hardSec int
	lastErr string
}

var z3Path = "z3-new"

func NewSolver(pool *TermPool, st *SolverStats) *Solver {
	s := &Solver{pool: pool, st: st, softMS: 4000, hardSec: 60}
	s.start()
	return s
}

func (s *Solver) start() {
	s.epoch++
	s.nDefs = 0
	s.stack = nil
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	if d := os.Getenv("GOSYM_LOG"); d != "" {
		f, _ := os.CreateTemp(d, "log-*.smt2")
		s.in = teeW{in, f}
	}
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.softMS)
}

type teeW struct {
	io.WriteCloser
	f io.Writer
}

func (t teeW) Write(b []byte) (int, error) { t.f.Write(b); return t.WriteCloser.Write(b) }

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// ref returns the SMT name of t, emitting definitions as needed into b.
func emit(t *Term, b *bytes.Buffer, epoch uint32, n *int) string {
	if t.op == OConst {
		return smtConst(t)
	}
	if t.emitted != epoch {
		// iterative post-order to avoid deep recursion
		stack := []*Term{t}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			if x.emitted == epoch || x.op == OConst {
				stack = stack[:len(stack)-1]
				continue
			}
			ready := true
			for _, c := range []*Term{x.a, x.b, x.c} {
				if c != nil && c.op != OConst && c.emitted != epoch {
					stack = append(stack, c)
					ready = false
				}
			}
			if !ready {
				continue
			}
			stack = stack[:len(stack)-1]
			x.emitted = epoch
			*n++
			if x.op == OVar {
				fmt.Fprintf(b, "(declare-const %s %s)\n", smtName(x), x.sort.smt())
				continue
			}
			fmt.Fprintf(b, "(define-fun t%d () %s (%s", x.id, x.sort.smt(), opHead(x))
			for _, c := range []*Term{x.a, x.b, x.c} {
				if c != nil {
					b.WriteByte(' ')
					b.WriteString(refName(c))
				}
			}
			b.WriteString("))\n")
		}
	}
	return refName(t)
}

func smtName(t *Term) string { return "|" + t.name + "|" }

func refName(t *Term) string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		return smtName(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if t := strings.TrimSpace(l); t != "" || err != nil {
			return t, err
		}
	}
}

// sync aligns the asserted stack with pc.
func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if k < len(s.stack) {
		fmt.Fprintf(&s.buf, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		n := emit(pc[k], &s.buf, s.epoch, &s.nDefs)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", n)
		s.stack = append(s.stack, pc[k])
	}
}

// Check decides satisfiability of pc /\ extra; model of vars is returned when Sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Res, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.st.TimeNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.st.Queries, 1)
	if s.nDefs > 60000 {
		s.restart()
	}
	r, m, err := s.check1(pc, extra, vars)
	if err != nil {
		atomic.AddInt64(&s.st.Errors, 1)
		s.lastErr = err.Error()
		if os.Getenv("GOSYM_ERR") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERR", s.lastErr)
		}
		s.restart()
		r, m, err = s.check1(pc, extra, vars)
		if err != nil {
			s.restart()
			r = Unknown
		}
	}
	if r == Unknown {
		atomic.AddInt64(&s.st.Fallback, 1)
		r, m = s.fallback(pc, extra, vars)
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.st.Sat, 1)
	case Unsat:
		atomic.AddInt64(&s.st.Unsat, 1)
	default:
		atomic.AddInt64(&s.st.Unknown, 1)
	}
	return r, m
}

func (s *Solver) check1(pc []*Term, extra *Term, vars []*Term) (Res, map[*Term]uint64, error) {
	s.sync(pc)
	for _, v := range vars {
		emit(v, &s.buf, s.epoch, &s.nDefs)
	}
	if extra != nil {
		n := emit(extra, &s.buf, s.epoch, &s.nDefs)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", n)
	}
	s.buf.WriteString("(check-sat)\n")
	if _, err := s.in.Write(s.buf.Bytes()); err != nil {
		return Unknown, nil, err
	}
	s.buf.Reset()
	l, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	var r Res
	var m map[*Term]uint64
	switch l {
	case "sat":
		r = Sat
		m, err = s.getModel(vars)
		if err != nil {
			return Unknown, nil, err
		}
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
		r = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", l)
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return r, m, nil
}

func (s *Solver) getModel(vars []*Term) (map[*Term]uint64, error) {
	m := map[*Term]uint64{}
	if len(vars) == 0 {
		return m, nil
	}
	var b bytes.Buffer
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(smtName(v))
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	if _, err := s.in.Write(b.Bytes()); err != nil {
		return nil, err
	}
	txt, err := readSexp(s.out)
	if err != nil {
		return nil, err
	}
	return parseModel(txt, vars)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string, vars []*Term) (map[*Term]uint64, error) {
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	m := map[*Term]uint64{}
	i := 0
	n := len(txt)
	for i < n {
		j := strings.IndexByte(txt[i:], '|')
		var name string
		if j < 0 {
			break
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name = txt[i : i+k]
		i += k + 1
		for i < n && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		e := i
		for e < n && txt[e] != ')' {
			e++
		}
		val := strings.TrimSpace(txt[i:e])
		i = e
		v := byName[name]
		if v == nil {
			continue
		}
		switch {
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case strings.HasPrefix(val, "#x"):
			x, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			m[v] = x
		case strings.HasPrefix(val, "#b"):
			x, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			m[v] = x
		default:
			return nil, fmt.Errorf("bad model value %q", val)
		}
	}
	return m, nil
}

var fallbackSeq uint32 = 1 << 30

func (s *Solver) fallback(pc []*Term, extra *Term, vars []*Term) (Res, map[*Term]uint64) {
	var b bytes.Buffer
	hasFP := false
	ep := atomic.AddUint32(&fallbackSeq, 1)
	n := 0
	b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, v := range vars {
		emit(v, &b, ep, &n)
	}
	for _, t := range all {
		nm := emit(t, &b, ep, &n)
		fmt.Fprintf(&b, "(assert %s)\n", nm)
	}
	// emission marks belong to another epoch now; the persistent solver must re-emit
	s.restart()
	if bytes.Contains(b.Bytes(), []byte("fp.to_ieee_bv")) {
		hasFP = true
	}
	q := b.String() + "(check-sat)\n"
	if len(vars) > 0 {
		q += "(get-value ("
		for _, v := range vars {
			q += smtName(v) + " "
		}
		q += "))\n"
	}
	type ans struct {
		r Res
		m map[*Term]uint64
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.hardSec+5)*time.Second)
	defer cancel()
	ch := make(chan ans, 3)
	run := func(query string, name string, args ...string) {
		c := exec.CommandContext(ctx, name, args...)
		c.Stdin = strings.NewReader(query)
		out, _ := c.Output()
		txt := string(out)
		line, rest, _ := strings.Cut(strings.TrimSpace(txt), "\n")
		switch strings.TrimSpace(line) {
		case "sat":
			m, err := parseModel(rest, vars)
			if len(vars) == 0 {
				m, err = map[*Term]uint64{}, nil
			}
			if err == nil {
				ch <- ans{Sat, m}
				return
			}
		case "unsat":
			ch <- ans{Unsat, nil}
			return
		}
		ch <- ans{Unknown, nil}
	}
	k := 1
	go run(q, z3Path, "-in", "-smt2", fmt.Sprintf("-T:%d", s.hardSec))
	if !hasFP {
		k += 2
		go run(q, "cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.hardSec*1000))
		go run(q, "cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", s.hardSec*1000))
	}
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/fb%d.smt2", d, ep), []byte(q), 0644)
	}
	for i := 0; i < k; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
