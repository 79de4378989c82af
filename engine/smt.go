package main

// SMT-LIB back end (z3, cvc5) for quantifier-free bit-vectors with
// uninterpreted functions. Floating-point atoms are abstracted by fresh
// constants, which over-approximates: only "unsat" answers are used as proofs.

import (
	"bufio"
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type smtSolver struct {
	mu      sync.Mutex
	cache   map[string]string
	Queries int
	Time    time.Duration
}

type smtEnc struct {
	decl  strings.Builder
	body  strings.Builder
	names map[int]string
	funs  map[string]bool
	vars  []*Term // real variables
	abs   int     // abstracted FP atoms
	fp    map[int]bool
}

func newEnc() *smtEnc {
	return &smtEnc{names: map[int]string{}, funs: map[string]bool{}, fp: map[int]bool{}}
}

func sortSMT(s Sort) string {
	if s.K == KBool {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.W)
}

func quoteSym(s string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func isFS(t *Term) bool { return t.S.K == KF32 || t.S.K == KF64 }

func (e *smtEnc) term(t *Term) string {
	if n, ok := e.names[t.id]; ok {
		return n
	}
	if t.Op == OpConst {
		var n string
		if t.S.K == KBool {
			n = "false"
			if t.Val == 1 {
				n = "true"
			}
		} else {
			n = fmt.Sprintf("(_ bv%d %d)", t.Val, t.S.W)
		}
		e.names[t.id] = n
		return n
	}
	if t.Op == OpVar {
		n := quoteSym(t.Name)
		fmt.Fprintf(&e.decl, "(declare-const %s %s)\n", n, sortSMT(t.S))
		e.names[t.id] = n
		e.vars = append(e.vars, t)
		return n
	}
	// a boolean or bit-vector computed from floats is abstracted
	for _, a := range t.Args {
		if isFS(a) {
			n := fmt.Sprintf("fp%d", t.id)
			fmt.Fprintf(&e.decl, "(declare-const %s %s)\n", n, sortSMT(t.S))
			e.names[t.id] = n
			e.abs++
			e.fp[t.id] = true
			return n
		}
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, e.term(a))
	}
	var x string
	switch t.Op {
	case OpExtract:
		x = fmt.Sprintf("((_ extract %d %d) %s)", t.Val>>8, t.Val&0xff, as[0])
	case OpSExt:
		x = fmt.Sprintf("((_ sign_extend %d) %s)", t.W()-t.Args[0].W(), as[0])
	case OpApp:
		f := quoteSym(t.Name)
		if !e.funs[f] {
			e.funs[f] = true
			var ss []string
			for _, a := range t.Args {
				ss = append(ss, sortSMT(a.S))
			}
			fmt.Fprintf(&e.decl, "(declare-fun %s (%s) %s)\n", f, strings.Join(ss, " "), sortSMT(t.S))
		}
		x = fmt.Sprintf("(%s %s)", f, strings.Join(as, " "))
	case OpConcat:
		x = as[len(as)-1]
		for i := len(as) - 2; i >= 0; i-- {
			x = fmt.Sprintf("(concat %s %s)", as[i], x)
		}
	default:
		n, ok := opName[t.Op]
		if !ok {
			panic("smt op")
		}
		x = fmt.Sprintf("(%s %s)", n, strings.Join(as, " "))
	}
	n := fmt.Sprintf("n%d", t.id)
	fmt.Fprintf(&e.decl, "(define-fun %s () %s %s)\n", n, sortSMT(t.S), x)
	e.names[t.id] = n
	return n
}

func (s *smtSolver) checkSat(cs []*Term, timeout int) string {
	r, _, _ := s.solve(cs, timeout, false, "z3")
	return r
}

// solve returns sat/unsat/unknown, the model over the variables, and whether
// floating-point atoms were abstracted.
func (s *smtSolver) solve(cs []*Term, timeout int, model bool, solver string) (string, map[string]uint64, bool) {
	e := newEnc()
	var goals []string
	for _, c := range cs {
		if c == False {
			return "unsat", nil, false
		}
		if c == True {
			continue
		}
		goals = append(goals, e.term(c))
	}
	if len(goals) == 0 && !model {
		return "sat", nil, false
	}
	text := e.decl.String()
	for _, g := range goals {
		text += "(assert " + g + ")\n"
	}
	out, err := s.run(text, e, timeout, model, solver)
	if err != nil {
		return "unknown", nil, e.abs > 0
	}
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	if !sc.Scan() {
		return "unknown", nil, e.abs > 0
	}
	res := strings.TrimSpace(sc.Text())
	if res != "sat" && res != "unsat" {
		return "unknown", nil, e.abs > 0
	}
	m := map[string]uint64{}
	if res == "sat" && model {
		var rest strings.Builder
		for sc.Scan() {
			rest.WriteString(sc.Text())
			rest.WriteByte('\n')
		}
		parseModel(rest.String(), m)
	}
	return res, m, e.abs > 0
}

func parseModel(s string, m map[string]uint64) {
	// ((|x| #x00) (|y| true) ...)
	i := 0
	for i < len(s) {
		j := strings.IndexByte(s[i:], '|')
		if j < 0 {
			// unquoted symbols: z3 prints simple names without bars
			break
		}
		i += j + 1
		k := strings.IndexByte(s[i:], '|')
		if k < 0 {
			break
		}
		name := s[i : i+k]
		i += k + 1
		end := strings.IndexByte(s[i:], ')')
		if end < 0 {
			break
		}
		v := strings.TrimSpace(s[i : i+end])
		i += end
		m[name] = parseVal(v)
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		b, _ := new(big.Int).SetString(v[2:], 16)
		if b != nil {
			return b.Uint64()
		}
	case strings.HasPrefix(v, "#b"):
		b, _ := new(big.Int).SetString(v[2:], 2)
		if b != nil {
			return b.Uint64()
		}
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		if len(f) > 0 {
			u, _ := strconv.ParseUint(f[0], 10, 64)
			return u
		}
	}
	return 0
}

func (s *smtSolver) run(text string, e *smtEnc, timeout int, model bool, solver string) ([]byte, error) {
	start := time.Now()
	var in strings.Builder
	in.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	in.WriteString(text)
	in.WriteString("(check-sat)\n")
	if model && len(e.vars) > 0 {
		vs := append([]*Term(nil), e.vars...)
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name < vs[j].Name })
		for _, v := range vs {
			fmt.Fprintf(&in, "(get-value (%s))\n", quoteSym(v.Name))
		}
	}
	var cmd *exec.Cmd
	if solver == "cvc5" {
		cmd = exec.Command("cvc5", "--lang=smt2", "--incremental", fmt.Sprintf("--tlimit=%d", timeout*1000), "-")
	} else {
		cmd = exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", timeout))
	}
	cmd.Stdin = strings.NewReader(in.String())
	var out bytes.Buffer
	cmd.Stdout = &out
	err := cmd.Run()
	s.mu.Lock()
	s.Queries++
	s.Time += time.Since(start)
	if d := os.Getenv("SMTDUMP"); d != "" && time.Since(start) > 5*time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, s.Queries), []byte(in.String()), 0o644)
	}
	s.mu.Unlock()
	if out.Len() > 0 {
		return out.Bytes(), nil // an exit status after (get-value) on unsat is expected
	}
	return nil, err
}
