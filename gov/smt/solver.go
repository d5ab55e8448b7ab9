package smt

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type backend struct {
	name string
	argv []string
	opts func(ms int) string
}

var backends = []backend{
	{"z3", []string{"z3", "-in"}, func(ms int) string { return fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", ms) }},
	{"cvc5-int", []string{"cvc5", "--incremental", "--produce-models", "-q", "--solve-bv-as-int=sum"}, func(ms int) string {
		return fmt.Sprintf("(reset)\n(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", ms)
	}},
	{"cvc5", []string{"cvc5", "--incremental", "--produce-models", "-q"}, func(ms int) string {
		return fmt.Sprintf("(reset)\n(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic QF_UFBV)\n", ms)
	}},
	{"z3-new", []string{"z3-new", "-in"}, func(ms int) string {
		return fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", ms)
	}},
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

// Pool of solver processes shared by all verification tasks.
type Pool struct {
	mu    sync.Mutex
	idle  map[string][]*proc
	sem   chan struct{}
	Stats struct {
		sync.Mutex
		Queries map[string]int
		Time    time.Duration
		ByRes   map[string]int
	}
}

func NewPool(n int) *Pool {
	p := &Pool{idle: map[string][]*proc{}, sem: make(chan struct{}, n)}
	p.Stats.Queries = map[string]int{}
	p.Stats.ByRes = map[string]int{}
	return p
}

func (p *Pool) get(b backend) (*proc, error) {
	p.mu.Lock()
	l := p.idle[b.name]
	if len(l) > 0 {
		x := l[len(l)-1]
		p.idle[b.name] = l[:len(l)-1]
		p.mu.Unlock()
		return x, nil
	}
	p.mu.Unlock()
	cmd := exec.Command(b.argv[0], b.argv[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (p *Pool) put(b backend, x *proc) {
	x.n++
	if x.n > 400 {
		x.kill()
		return
	}
	p.mu.Lock()
	p.idle[b.name] = append(p.idle[b.name], x)
	p.mu.Unlock()
}

func (x *proc) kill() {
	x.in.Close()
	x.cmd.Process.Kill()
	go x.cmd.Wait()
}

func (p *Pool) Close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, l := range p.idle {
		for _, x := range l {
			x.kill()
		}
	}
	p.idle = map[string][]*proc{}
}

// Run one query on backend number bi. vals are SMT expressions to evaluate when sat.
func (p *Pool) Run(bi int, body string, vals []string, ms int) (Result, map[string]uint64, string, error) {
	return p.RunStop(bi, body, vals, ms, nil, nil)
}

// RunStop is Run, given up when stop is closed.
func (p *Pool) RunStop(bi int, body string, vals []string, ms int, stop <-chan struct{}, running chan<- struct{}) (Result, map[string]uint64, string, error) {
	b := backends[bi]
	select {
	case p.sem <- struct{}{}:
	case <-stop:
		return Unknown, nil, b.name, nil
	}
	defer func() { <-p.sem }()
	select {
	case <-stop:
		return Unknown, nil, b.name, nil
	default:
	}
	if running != nil {
		running <- struct{}{}
	}
	start := time.Now()
	x, err := p.get(b)
	if err != nil {
		return Unknown, nil, b.name, err
	}
	type resp struct {
		res  Result
		vals map[string]uint64
		err  error
	}
	ch := make(chan resp, 1)
	go func() {
		var r resp
		q := b.opts(ms) + body + "(check-sat)\n(echo \"@@\")\n"
		if _, err := io.WriteString(x.in, q); err != nil {
			r.err = err
			ch <- r
			return
		}
		lines, err := readUntil(x.out)
		if err != nil {
			r.err = err
			ch <- r
			return
		}
		for _, l := range lines {
			switch {
			case l == "sat":
				r.res = Sat
			case l == "unsat":
				r.res = Unsat
			case strings.HasPrefix(l, "(error"):
				if r.err == nil {
					r.err = fmt.Errorf("%s: %s", b.name, l)
				}
			}
		}
		if r.res == Sat && len(vals) > 0 && r.err == nil {
			r.vals = map[string]uint64{}
			for i := 0; i < len(vals); i += 64 {
				j := i + 64
				if j > len(vals) {
					j = len(vals)
				}
				io.WriteString(x.in, "(get-value ("+strings.Join(vals[i:j], " ")+"))\n(echo \"@@\")\n")
				lines, err := readUntil(x.out)
				if err != nil {
					r.err = err
					break
				}
				parseValues(strings.Join(lines, " "), vals[i:j], r.vals)
			}
		}
		ch <- r
	}()
	var r resp
	select {
	case r = <-ch:
		if r.err != nil {
			x.kill()
		} else {
			p.put(b, x)
		}
	case <-stop:
		x.kill()
		r = resp{res: Unknown, err: nil}
	case <-time.After(time.Duration(ms)*time.Millisecond + 3*time.Second):
		x.kill()
		r = resp{res: Unknown, err: nil}
	}
	p.Stats.Lock()
	p.Stats.Queries[b.name]++
	p.Stats.ByRes[r.res.String()]++
	p.Stats.Time += time.Since(start)
	p.Stats.Unlock()
	return r.res, r.vals, b.name, r.err
}

func readUntil(r *bufio.Reader) ([]string, error) {
	var out []string
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimSpace(l)
		if l == "@@" || l == "\"@@\"" {
			return out, nil
		}
		out = append(out, l)
	}
}

// parseValues reads ((expr val) ...) in order.
func parseValues(s string, names []string, m map[string]uint64) {
	// the values appear in order; scan tokens after each expression
	pos := strings.Index(s, "(")
	if pos < 0 {
		return
	}
	s = s[pos+1:]
	for _, n := range names {
		i := strings.Index(s, "(")
		if i < 0 {
			return
		}
		s = s[i+1:]
		// skip expression (echoed verbatim, maybe re-printed): balance
		s = skipExpr(s)
		s = strings.TrimLeft(s, " ")
		v, rest := readVal(s)
		m[n] = v
		s = rest
		k := strings.Index(s, ")")
		if k < 0 {
			return
		}
		s = s[k+1:]
	}
}

func skipExpr(s string) string {
	s = strings.TrimLeft(s, " ")
	if s == "" {
		return s
	}
	if s[0] == '|' {
		k := strings.IndexByte(s[1:], '|')
		return s[k+2:]
	}
	if s[0] != '(' {
		k := strings.IndexAny(s, " )")
		return s[k:]
	}
	d := 0
	inq := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '|':
			inq = !inq
		case '(':
			if !inq {
				d++
			}
		case ')':
			if !inq {
				d--
				if d == 0 {
					return s[i+1:]
				}
			}
		}
	}
	return ""
}

func readVal(s string) (uint64, string) {
	switch {
	case strings.HasPrefix(s, "#x"):
		k := strings.IndexAny(s, " )")
		v, _ := strconv.ParseUint(s[2:k], 16, 64)
		return v, s[k:]
	case strings.HasPrefix(s, "#b"):
		k := strings.IndexAny(s, " )")
		v, _ := strconv.ParseUint(s[2:k], 2, 64)
		return v, s[k:]
	case strings.HasPrefix(s, "true"):
		return 1, s[4:]
	case strings.HasPrefix(s, "false"):
		return 0, s[5:]
	case strings.HasPrefix(s, "(_ bv"):
		k := strings.IndexByte(s[5:], ' ')
		v, _ := strconv.ParseUint(s[5:5+k], 10, 64)
		e := strings.IndexByte(s, ')')
		return v, s[e+1:]
	}
	return 0, s
}

// NBackends is the number of available back ends.
func NBackends() int { return len(backends) }

// BackendName returns the name of back end i.
func BackendName(i int) string { return backends[i].name }
