package main

// A persistent SMT solver process driven over a pipe with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	stack    []*Expr   // asserted path condition, one push level each
	declared [][]*Expr // variables declared per level (level 0 = before any push)
	defs     []map[*Expr]string
	isDecl   map[*Expr]bool
	nd       int
	path     string
	Queries  int
	Sat      int
	Unsat    int
	Time     time.Duration
	timeout  int
}

type inconclusive struct{ msg string }

func newSolver(path string, timeoutMs int) *Solver {
	s := &Solver{path: path, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(s.path, "-in", "-smt2")
	w, err := cmd.StdinPipe()
	if err != nil {
		panic(inconclusive{err.Error()})
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		panic(inconclusive{err.Error()})
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(inconclusive{"cannot start solver: " + err.Error()})
	}
	s.cmd, s.inc, s.in, s.out = cmd, w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	s.stack = nil
	s.declared = [][]*Expr{nil}
	s.defs = []map[*Expr]string{{}}
	s.isDecl = map[*Expr]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) push() {
	s.in.WriteString("(push 1)\n")
	s.declared = append(s.declared, nil)
	s.defs = append(s.defs, map[*Expr]string{})
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", n)
	for i := 0; i < n; i++ {
		top := len(s.declared) - 1
		for _, v := range s.declared[top] {
			delete(s.isDecl, v)
		}
		s.declared = s.declared[:top]
		s.defs = s.defs[:top]
	}
}

func (s *Solver) named(e *Expr) string {
	for i := len(s.defs) - 1; i >= 0; i-- {
		if n, ok := s.defs[i][e]; ok {
			return n
		}
	}
	return ""
}

// prepare declares variables and defines big shared nodes of e at the current level.
func (s *Solver) prepare(e *Expr, seen map[*Expr]bool) {
	if e == nil || seen[e] || e.op == OConst {
		return
	}
	seen[e] = true
	if e.op == OVar {
		if !s.isDecl[e] {
			s.isDecl[e] = true
			top := len(s.declared) - 1
			s.declared[top] = append(s.declared[top], e)
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", e.name, sortStr(e.w))
		}
		return
	}
	if s.named(e) != "" {
		return
	}
	for _, y := range e.a {
		s.prepare(y, seen)
	}
	if e.size >= 24 {
		s.nd++
		n := "d!" + strconv.Itoa(s.nd)
		var sb strings.Builder
		e.writeTop(&sb, s.named)
		fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sortStr(e.w), sb.String())
		s.defs[len(s.defs)-1][e] = n
	}
}

func (s *Solver) assert(e *Expr) {
	s.prepare(e, map[*Expr]bool{})
	var sb strings.Builder
	e.write(&sb, s.named)
	s.in.WriteString("(assert ")
	s.in.WriteString(sb.String())
	s.in.WriteString(")\n")
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Expr) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	s.pop(len(s.stack) - n)
	s.stack = s.stack[:n]
	for _, e := range pc[n:] {
		s.push()
		s.assert(e)
		s.stack = append(s.stack, e)
	}
}

// check decides pc ∧ extra. On sat the model covers every declared variable.
func (s *Solver) check(pc []*Expr, extra *Expr) (bool, Model) {
	t0 := time.Now()
	s.sync(pc)
	s.push()
	if extra != nil {
		s.assert(extra)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	s.Queries++
	var m Model
	sat := false
	switch line {
	case "sat":
		sat = true
		s.Sat++
		m = s.model()
	case "unsat":
		s.Unsat++
	default:
		s.Time += time.Since(t0)
		panic(inconclusive{"solver said: " + line})
	}
	s.pop(1)
	s.Time += time.Since(t0)
	return sat, m
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(inconclusive{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

func (s *Solver) model() Model {
	m := Model{}
	var vars []*Expr
	for _, l := range s.declared {
		vars = append(vars, l...)
	}
	if len(vars) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range vars {
		s.in.WriteString("|" + v.name + "| ")
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(inconclusive{"solver died reading model"})
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
	}
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		panic(inconclusive{"solver error: " + txt})
	}
	s.readLine() // trailing newline
	// values appear in request order
	pos := 0
	for _, v := range vars {
		// find name: z3 may print it with or without bars
		i := strings.Index(txt[pos:], v.name)
		if i < 0 {
			panic(inconclusive{"model parse: " + v.name})
		}
		pos += i + len(v.name)
		if txt[pos] == '|' {
			pos++
		}
		rest := strings.TrimLeft(txt[pos:], " \n\t\r")
		end := strings.IndexAny(rest, ")")
		tok := strings.TrimSpace(rest[:end])
		var val uint64
		switch {
		case tok == "true":
			val = 1
		case tok == "false":
			val = 0
		case strings.HasPrefix(tok, "#x"):
			val, _ = strconv.ParseUint(tok[2:], 16, 64)
		case strings.HasPrefix(tok, "#b"):
			val, _ = strconv.ParseUint(tok[2:], 2, 64)
		case strings.HasPrefix(tok, "(_ bv"):
			f := strings.Fields(tok)
			val, _ = strconv.ParseUint(f[1][2:], 10, 64)
		default:
			panic(inconclusive{"model parse value: " + tok})
		}
		m[v.name] = val
	}
	return m
}
