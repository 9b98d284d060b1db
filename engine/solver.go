package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process over SMT-LIB2, with a stack of
// assertions that mirrors the current path condition.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted map[int]bool // term ids defined in the process
	vars    []*Term
	stack   []*Term
	queries int
	sat     int
	unsat   int
	unknown int
	dur     time.Duration
	err     error
}

func newSolver(bin string) *Solver {
	s := &Solver{bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2"}
	}
	s.cmd = exec.Command(s.bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = io.Discard
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.emitted = map[int]bool{}
	s.stack = nil
	s.vars = nil
	fmt.Fprintln(s.in, "(set-option :global-declarations true)")
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	if !strings.Contains(s.bin, "cvc5") {
		fmt.Fprintln(s.in, "(set-option :timeout 60000)")
	}
	fmt.Fprintln(s.in, "(set-logic QF_BV)")
}

func (s *Solver) close() {
	fmt.Fprintln(s.in, "(exit)")
	s.in.Flush()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func quoteSym(n string) string { return "|" + n + "|" }

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return quoteSym(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || s.emitted[t.id] {
		return
	}
	s.emitted[t.id] = true
	if t.op == OVar {
		s.vars = append(s.vars, t)
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", quoteSym(t.name), sortStr(t.w))
		return
	}
	for _, x := range t.a {
		s.emit(x)
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s (", t.id, sortStr(t.w))
	switch t.op {
	case OZext:
		fmt.Fprintf(s.in, "(_ zero_extend %d)", t.w-t.a[0].w)
	case OSext:
		fmt.Fprintf(s.in, "(_ sign_extend %d)", t.w-t.a[0].w)
	case OExtract:
		fmt.Fprintf(s.in, "(_ extract %d 0)", t.w-1)
	default:
		s.in.WriteString(opName[t.op])
	}
	for _, x := range t.a {
		s.in.WriteByte(' ')
		s.in.WriteString(s.ref(x))
	}
	s.in.WriteString("))\n")
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.emit(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(t))
		s.stack = append(s.stack, t)
	}
}

// check decides pc && extra; on sat, it returns a model.
func (s *Solver) check(pc []*Term, extra *Term) (string, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(extra))
	}
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	ans := s.line()
	var model map[string]uint64
	if ans == "sat" {
		s.sat++
		model = map[string]uint64{}
		if len(s.vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range s.vars {
				s.in.WriteString(quoteSym(v.name))
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			s.parseValues(model)
		}
	} else if ans == "unsat" {
		s.unsat++
	} else {
		s.unknown++
	}
	if extra != nil {
		fmt.Fprintln(s.in, "(pop 1)")
	}
	return ans, model
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.err = err
		return "error"
	}
	l = strings.TrimSpace(l)
	if strings.HasPrefix(l, "(error") {
		s.err = fmt.Errorf("solver: %s", l)
		return "error"
	}
	return l
}

func (s *Solver) parseValues(model map[string]uint64) {
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.err = err
			return
		}
		sb.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		s.err = fmt.Errorf("solver: %s", txt)
		return
	}
	// pairs: (|name| #xNN) / (|name| #b..) / (|name| true) / (name (_ bvN w))
	for i := 0; i < len(txt); {
		if txt[i] == '(' && i+1 < len(txt) && txt[i+1] != '(' {
			j := i + 1
			var name string
			if txt[j] == '|' {
				k := strings.IndexByte(txt[j+1:], '|') + j + 1
				name = txt[j+1 : k]
				j = k + 1
			} else {
				k := j
				for txt[k] != ' ' {
					k++
				}
				name = txt[j:k]
				j = k
			}
			for txt[j] == ' ' || txt[j] == '\n' {
				j++
			}
			k := j
			var v uint64
			switch {
			case strings.HasPrefix(txt[j:], "#x"):
				for txt[k] != ')' {
					k++
				}
				v, _ = strconv.ParseUint(txt[j+2:k], 16, 64)
			case strings.HasPrefix(txt[j:], "#b"):
				for txt[k] != ')' {
					k++
				}
				v, _ = strconv.ParseUint(txt[j+2:k], 2, 64)
			case strings.HasPrefix(txt[j:], "(_ bv"):
				for txt[k] != ')' {
					k++
				}
				f := strings.Fields(txt[j+5 : k])
				v, _ = strconv.ParseUint(f[0], 10, 64)
				k++
			default:
				for txt[k] != ')' {
					k++
				}
				if txt[j:k] == "true" {
					v = 1
				}
			}
			model[name] = v
			i = k + 1
			continue
		}
		i++
	}
}
