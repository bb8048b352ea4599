package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one long-lived solver process over SMT-LIB2.
type Solver struct {
	hist, last []string
	cmd        *exec.Cmd
	in         *bufio.Writer
	inC        io.WriteCloser
	out        *bufio.Reader
	defs       map[*Term]bool // defined in the current scope stack
	scopes     [][]*Term
	ufs        map[string]bool
	ufScope    [][]string
	Queries    int
	Sat        int
	Unsat      int
	Unknown    int
	Time       time.Duration
	Max        time.Duration
	timeout    int // ms
	path       string
	log        io.Writer
}

func NewSolver(path string, timeoutMS int) *Solver {
	s := &Solver{path: path, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in"}
	if strings.Contains(s.path, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.path, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.inC, s.out = bufio.NewWriterSize(w, 1<<16), w, bufio.NewReaderSize(r, 1<<16)
	s.defs, s.ufs = map[*Term]bool{}, map[string]bool{}
	s.scopes, s.ufScope = nil, nil
	if strings.Contains(s.path, "cvc5") {
		s.send("(set-logic QF_UFBV)")
	} else {
		s.send("(set-option :produce-models true)")
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	}
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(line string) {
	if s.log != nil {
		fmt.Fprintln(s.log, line)
	}
	if dumpSlow != "" {
		switch line {
		case "(pop 1)":
			n := len(s.hist) - 1
			for n >= 0 && s.hist[n] != "(push 1)" {
				n--
			}
			if n >= 0 {
				s.last = append([]string(nil), s.hist...)
				s.hist = s.hist[:n]
			}
		default:
			s.hist = append(s.hist, line)
		}
	}
	s.in.WriteString(line)
	s.in.WriteByte('\n')
}

func (s *Solver) Push() {
	s.send("(push 1)")
	s.scopes = append(s.scopes, nil)
	s.ufScope = append(s.ufScope, nil)
}
func (s *Solver) Pop() {
	s.send("(pop 1)")
	n := len(s.scopes) - 1
	for _, t := range s.scopes[n] {
		delete(s.defs, t)
	}
	for _, u := range s.ufScope[n] {
		delete(s.ufs, u)
	}
	s.scopes, s.ufScope = s.scopes[:n], s.ufScope[:n]
}

func (s *Solver) mark(t *Term) {
	s.defs[t] = true
	if n := len(s.scopes); n > 0 {
		s.scopes[n-1] = append(s.scopes[n-1], t)
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(t)
	case OpVar:
		if !s.defs[t] {
			s.send("(declare-const |" + t.name + "| " + sortName(t.w) + ")")
			s.mark(t)
		}
		return "|" + t.name + "|"
	}
	name := "t" + strconv.Itoa(t.id)
	if s.defs[t] {
		return name
	}
	var args [3]string
	for i := 0; i < int(t.n); i++ {
		args[i] = s.ref(t.a[i])
	}
	var body string
	switch t.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, args[0])
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OpUF:
		key := fmt.Sprintf("uf_%s_%d", t.name, t.w)
		var dom []string
		for i := 0; i < int(t.n); i++ {
			key += fmt.Sprintf("_%d", t.a[i].w)
			dom = append(dom, sortName(t.a[i].w))
		}
		if !s.ufs[key] {
			s.send("(declare-fun |" + key + "| (" + strings.Join(dom, " ") + ") " + sortName(t.w) + ")")
			s.ufs[key] = true
			if n := len(s.ufScope); n > 0 {
				s.ufScope[n-1] = append(s.ufScope[n-1], key)
			}
		}
		body = "(|" + key + "| " + strings.Join(args[:t.n], " ") + ")"
		if t.n == 0 {
			body = "|" + key + "|"
		}
	default:
		body = "(" + opNames[t.op] + " " + strings.Join(args[:t.n], " ") + ")"
	}
	s.send("(define-fun " + name + " () " + sortName(t.w) + " " + body + ")")
	s.mark(t)
	return name
}

func (s *Solver) Assert(t *Term) {
	r := s.ref(t)
	s.send("(assert " + r + ")")
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Check asks whether the current assertions plus extra are satisfiable; when
// sat and vars != nil it returns their values.
func (s *Solver) Check(extra *Term, vars []*Term) (Res, Model) {
	t0 := time.Now()
	s.Push()
	if extra != nil {
		s.Assert(extra)
	}
	s.send("(check-sat)")
	s.in.Flush()
	line := s.readLine()
	var res Res
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		res = Unknown
	}
	var m Model
	if res == Sat && vars != nil {
		m = Model{}
		var names []string
		var vs []*Term
		for _, v := range vars {
			if s.defs[v] {
				names = append(names, "|"+v.name+"|")
				vs = append(vs, v)
			} else {
				m[v] = 0
			}
		}
		if len(names) > 0 {
			s.send("(get-value (" + strings.Join(names, " ") + "))")
			s.in.Flush()
			sx := s.readSexp()
			vals := parseValues(sx)
			for i, v := range vs {
				if i < len(vals) {
					m[v] = vals[i]
				}
			}
		}
	}
	s.Pop()
	d := time.Since(t0)
	if dumpSlow != "" && d > 500*time.Millisecond {
		s.dump(extra, d)
	}
	s.count(res, d)
	return res, m
}

func (s *Solver) count(res Res, d time.Duration) {
	s.Queries++
	s.Time += d
	if d > s.Max {
		s.Max = d
	}
	switch res {
	case Sat:
		s.Sat++
	case Unsat:
		s.Unsat++
	default:
		s.Unknown++
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "solver died: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SOLVER", l)
			// an error makes the answer inconclusive: swallow the following verdict
			s.out.ReadString('\n')
			return "unknown"
		}
		return l
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth, started, bar := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

// parseValues extracts, in order, the values of a get-value answer.
func parseValues(s string) []uint64 {
	var out []uint64
	i := 0
	n := len(s)
	// ((|a| #x..) (|b| true))
	for i < n {
		if s[i] == '|' {
			j := i + 1
			for j < n && s[j] != '|' {
				j++
			}
			i = j + 1
			for i < n && (s[i] == ' ' || s[i] == '\n') {
				i++
			}
			k := i
			for k < n && s[k] != ')' && s[k] != ' ' && s[k] != '\n' {
				k++
			}
			tok := s[i:k]
			var v uint64
			switch {
			case tok == "true":
				v = 1
			case tok == "false":
				v = 0
			case strings.HasPrefix(tok, "#x"):
				v, _ = strconv.ParseUint(tok[2:], 16, 64)
			case strings.HasPrefix(tok, "#b"):
				v, _ = strconv.ParseUint(tok[2:], 2, 64)
			case strings.HasPrefix(tok, "(_"):
				// (_ bv12 64
				fmt.Sscanf(s[i:], "(_ bv%d", &v)
			}
			out = append(out, v)
			i = k
			continue
		}
		i++
	}
	return out
}

var dumpSlow = os.Getenv("GOSYM_SLOW") // debugging aid: directory for slow queries

func (s *Solver) dump(extra *Term, d time.Duration) {
	if s.last == nil {
		return
	}
	name := fmt.Sprintf("%s/q%d-%dms.smt2", dumpSlow, time.Now().UnixNano(), d.Milliseconds())
	os.WriteFile(name, []byte(strings.Join(s.last, "\n")+"\n"), 0o644)
}
