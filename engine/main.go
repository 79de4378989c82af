package main

// Command line: prove the contracts of one property, write the evidence,
// report violations with replay files.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type options struct {
	verif, repo, prop, tier, only string
	outDir                        string
	list                          bool
	seed                          int64
}

func main() {
	var o options
	flag.StringVar(&o.verif, "verif", "/verif", "directory of the verification")
	flag.StringVar(&o.repo, "repo", "/repo", "repository under proof")
	flag.StringVar(&o.prop, "prop", "", "property to check")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.only, "only", "", "development: only contracts whose name contains this")
	flag.StringVar(&o.outDir, "out", "", "development: write evidence and replays here")
	flag.BoolVar(&o.list, "list", false, "list the contracts")
	flag.Parse()
	if o.outDir == "" {
		o.outDir = o.verif
	}
	o.seed = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &o.seed)
	os.Exit(run(o))
}

// propObls selects the obligations of a contract that decide a property.
func relevant(prop string, ob *Obl) bool {
	isFrame := ob.Kind == "frame" || ob.Kind == "alias" || ob.Kind == "spec-frame"
	if ob.Kind == "unsupported" || ob.Kind == "unwind" {
		return true
	}
	if prop == "P18" {
		return true
	}
	return !isFrame
}

func run(o options) int {
	start := time.Now()
	e, err := loadEngine(o.repo, filepath.Join(o.verif, "contracts"))
	if err != nil {
		fmt.Println("cannot load the code:", err)
		return 2
	}
	e.debug = os.Getenv("DEBUG") != ""
	e.prop = o.prop
	e.start = start
	loadT := time.Since(start)
	if o.list {
		for _, c := range e.contracts {
			fmt.Println(strings.Join(c.Props, ","), c.Kind, c.ID, c.Pos)
		}
		return 0
	}
	if o.only != "" || o.prop == "" {
		return devRun(e, o, start)
	}
	var mine []*Contract
	for _, c := range e.contracts {
		if c.has(o.prop) {
			mine = append(mine, c)
		}
	}
	kf, err := loadKnown(filepath.Join(o.verif, "known-findings.txt"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp := &reporter{o: o, e: e, kf: kf}
	if o.tier == "quick" {
		deadline = start.Add(quickSeconds * time.Second)
	} else {
		deadline = start.Add(2 * 3600 * time.Second)
	}
	rp.watchdog(start)
	os.MkdirAll(filepath.Join(o.outDir, "replays"), 0o755)
	old, _ := filepath.Glob(filepath.Join(o.outDir, "replays", o.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for pk, msg := range e.broken {
		if e.brokenProps[pk][o.prop] {
			rp.plain("the contracts of "+pk+" no longer fit the code", msg)
		}
	}
	if len(mine) == 0 && rp.viol == 0 {
		fmt.Println("no contract for", o.prop)
		return 2
	}
	// contracts with many cases last
	sort.SliceStable(mine, func(i, j int) bool { return len(mine[i].cases()) < len(mine[j].cases()) })
	var results []*Result
	for _, c := range mine {
		r := e.prove(c)
		results = append(results, r)
		rp.result(r)
		if t := time.Now().Add(45 * time.Second); o.tier == "quick" && r.definite() && t.Before(deadline) {
			// a failing input is known: the rest is a courtesy
			deadline = t
		}
	}
	rp.finish()
	if o.tier == "thorough" {
		thorough(e, o, results, rp)
	}
	if err := evidence(e, o, results, rp, start, loadT); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if rp.viol > 0 {
		return 1
	}
	fmt.Printf("%s: %d contracts, %d obligations discharged, %.1fs\n", o.prop, len(results), rp.discharged, time.Since(start).Seconds())
	return 0
}

func (c *Contract) has(p string) bool {
	for _, x := range c.Props {
		if x == p {
			return true
		}
	}
	return false
}

func devRun(e *Engine, o options, start time.Time) int {
	bad := 0
	for pk, msg := range e.broken {
		fmt.Println("BROKEN", pk, msg)
		bad++
	}
	for _, c := range e.contracts {
		if o.only != "" && !strings.Contains(c.ID, o.only) && !strings.Contains(c.Pos, o.only) {
			continue
		}
		r := e.prove(c)
		fmt.Printf("%-60s ok=%v obls=%d cases=%d %v\n", c.ID, r.OK(), len(r.Obls), r.Cases, r.Wall.Round(time.Millisecond))
		for _, ob := range r.Failed() {
			bad++
			fmt.Printf("   FAIL %s [%s %s] %v\n", ob.Name(), ob.Status, ob.Backend, ob.Model)
			if len(ob.Out) > 0 {
				fmt.Println("     ", ob.Out)
			}
		}
		for _, v := range r.Vacuous {
			bad++
			fmt.Println("   VACUOUS", v)
		}
	}
	fmt.Println("total", time.Since(start).Round(time.Millisecond), "smt queries", e.smt.Queries, e.smt.Time.Round(time.Millisecond), "failed", bad)
	if bad > 0 {
		return 1
	}
	return 0
}

// ---------- known findings

type known struct {
	prop, contract, label, what string
	seen                        bool
}

var knownRE = regexp.MustCompile(`^finding: property=(\S+) contract="([^"]*)" obligation="([^"]*)" (.*)$`)

func loadKnown(f string) ([]*known, error) {
	raw, err := os.ReadFile(f)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []*known
	for _, l := range strings.Split(string(raw), "\n") {
		l = strings.TrimSpace(l)
		if m := knownRE.FindStringSubmatch(l); m != nil {
			out = append(out, &known{prop: m[1], contract: m[2], label: m[3], what: m[4]})
		} else if strings.HasPrefix(l, "finding:") {
			return nil, fmt.Errorf("known-findings: cannot read %q", l)
		}
	}
	return out, nil
}

// ---------- violations

type replayCase struct {
	Property    string            `json:"property"`
	Params      []string          `json:"params"`
	Contract    string            `json:"contract"`
	Function    string            `json:"function"`
	Obligation  string            `json:"obligation"`
	Kind        string            `json:"kind"`
	At          string            `json:"at"`
	Status      string            `json:"status"`
	Output      string            `json:"verifier_output,omitempty"`
	Lens        map[string]int    `json:"lens,omitempty"`
	Vals        map[string]int64  `json:"fixed,omitempty"`
	Model       map[string]uint64 `json:"input,omitempty"`
	Found       string            `json:"found_by,omitempty"`
	Observed    string            `json:"observed,omitempty"`
	ReplayHow   string            `json:"replay_command,omitempty"`
	AllFailures []string          `json:"failed_obligations,omitempty"`
}

type reporter struct {
	o          options
	e          *Engine
	kf         []*known
	viol       int
	files      int
	discharged int
	total      int
	findings   []string
	pending    []pendingViol
}

type pendingViol struct {
	r    *Result
	obls []*Obl
}

func (rp *reporter) file() string {
	rp.files++
	return filepath.Join(rp.o.outDir, "replays", fmt.Sprintf("%s-%d.json", rp.o.prop, rp.files))
}

func (rp *reporter) plain(what, out string) {
	f := rp.file()
	writeJSON(f, &replayCase{Property: rp.o.prop, Obligation: what, Status: "undischarged", Output: out})
	rp.viol++
	fmt.Printf("%s\n%s\n", what, out)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", rp.o.prop, f)
}

func writeJSON(f string, v interface{}) error {
	raw, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, append(raw, '\n'), 0o644)
}

func baseLabel(ob *Obl) string {
	l := ob.Label
	if i := strings.Index(l, " ["); i >= 0 {
		l = l[:i]
	}
	return l
}

func (rp *reporter) result(r *Result) {
	var bad []*Obl
	rp.total += r.Trivial
	rp.discharged += r.Trivial
	for _, ob := range r.Obls {
		if !relevant(rp.o.prop, ob) {
			continue
		}
		rp.total++
		if ob.Status == "proved" {
			rp.discharged++
			continue
		}
		hit := false
		for _, k := range rp.kf {
			if k.prop == rp.o.prop && k.contract == r.C.ID && k.label == baseLabel(ob) && ob.Kind == "ensures" {
				hit = true
				if !k.seen {
					k.seen = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", rp.o.prop, k.what)
					rp.findings = append(rp.findings, k.what)
				}
			}
		}
		if !hit {
			bad = append(bad, ob)
		}
	}
	for _, v := range r.Vacuous {
		bad = append(bad, &Obl{Kind: "vacuity", Label: "the contract covers at least one input (" + v + ")", Fn: r.C.ID, Pos: r.C.Pos, Status: "failed", Backend: "z3"})
		rp.total++
	}
	if len(bad) > 0 {
		rp.pending = append(rp.pending, pendingViol{r, bad})
	}
}

func (ob *Obl) brief() string {
	return fmt.Sprintf("%s: %s, in %s at %s [%s%s]", ob.Kind, ob.Label, ob.Fn, ob.Pos, ob.Status, map[bool]string{true: " by " + ob.Backend}[ob.Backend != ""])
}

// finish replays the counterexamples and prints the violations.
func (rp *reporter) finish() {
	if len(rp.pending) == 0 {
		return
	}
	budget := time.Now().Add(150 * time.Second)
	bins := map[string]string{}
	confirmed := 0
	var unconfirmed []string
	// results with a counterexample first
	sort.SliceStable(rp.pending, func(i, j int) bool { return rp.pending[i].r.definite() && !rp.pending[j].r.definite() })
	for pi, p := range rp.pending {
		pkg := p.r.C.Pkg
		bin, ok := bins[pkg]
		if !ok {
			var err error
			bin, err = buildReplay(rp.o, pkg)
			if err != nil {
				fmt.Println("replay program:", err)
				bin = ""
			}
			bins[pkg] = bin
		}
		var all []string
		// obligations with a counterexample first
		sort.SliceStable(p.obls, func(i, j int) bool { return p.obls[i].Model != nil && p.obls[j].Model == nil })
		for _, ob := range p.obls {
			all = append(all, ob.brief())
			if len(all) <= 10 {
				fmt.Println("FAILED", ob.brief())
			}
			if len(all) >= 40 {
				all = append(all, fmt.Sprintf("... %d in total", len(p.obls)))
				break
			}
		}
		var rc *replayCase
		var f string
		ok = false
		tries := 0
		for _, ob := range p.obls {
			if tries >= 8 || time.Now().After(budget) {
				break
			}
			tries++
			c := &replayCase{Property: rp.o.prop, Params: p.r.C.Params, Contract: p.r.C.Pos, Function: p.r.C.ID, Obligation: ob.Label, Kind: ob.Kind, At: ob.Pos,
				Status: ob.Status + " by " + ob.Backend, Output: ob.Out, Lens: ob.Case.lens, Vals: ob.Case.vals, Model: ob.Model, AllFailures: all}
			if rc == nil {
				rc = c
				f = rp.file()
			}
			if bin == "" || ob.Model == nil {
				continue
			}
			c.ReplayHow = "bash " + filepath.Join(rp.o.verif, "replay.sh") + " " + f
			writeJSON(f, c)
			out, code := runBin(bin, 60, "run", f)
			if code == 1 {
				c.Found, c.Observed = "the verifier's counterexample", out
				rc, ok = c, true
				break
			}
		}
		if !ok && bin != "" && time.Now().Before(budget) && confirmed == 0 {
			rc.ReplayHow = "bash " + filepath.Join(rp.o.verif, "replay.sh") + " " + f
			writeJSON(f, rc)
			secs := "6"
			if pi > 3 {
				secs = "2"
			}
			out, code := runBin(bin, 60, "search", f, secs)
			if code == 1 {
				fmt.Println(firstLines(out, 4))
				raw, _ := os.ReadFile(f)
				var c replayCase
				if json.Unmarshal(raw, &c) == nil {
					rc, ok = &c, true
				}
			}
		}
		if !ok {
			rc.Model = nil
			rc.ReplayHow = ""
		}
		writeJSON(f, rc)
		rp.viol++
		if ok {
			confirmed++
			fmt.Println(firstLines(rc.Observed, 4))
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.o.prop, f)
		} else {
			unconfirmed = append(unconfirmed, f)
		}
	}
	for i, f := range unconfirmed {
		if confirmed > 0 {
			// the violation is shown by an input already
			fmt.Printf("also undischarged: see %s\n", f)
		} else if i < 20 {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", rp.o.prop, f)
		}
	}
	for _, b := range bins {
		if b != "" {
			os.RemoveAll(filepath.Dir(b))
		}
	}
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	for i, l := range ls {
		if len(l) > 600 {
			ls[i] = l[:600] + "..."
		}
	}
	return strings.Join(ls, "\n")
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
}

// modArgs points the contracts module at the repository under proof.
func modArgs(o options, dir string) []string {
	abs, _ := filepath.Abs(o.repo)
	if abs == "/repo" {
		return nil
	}
	raw, err := os.ReadFile(filepath.Join(o.verif, "contracts", "go.mod"))
	if err != nil {
		return nil
	}
	f := filepath.Join(dir, "go.mod")
	os.WriteFile(f, []byte(strings.Replace(string(raw), "=> /repo", "=> "+abs, 1)), 0o644)
	return []string{"-modfile=" + f}
}

func buildReplay(o options, pkg string) (string, error) {
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		return "", err
	}
	con, _ := filepath.Abs(filepath.Join(o.verif, "contracts"))
	src := filepath.Join(dir, "main.go")
	os.WriteFile(src, []byte(fmt.Sprintf("package main\n\nimport (\n\t\"verif/contracts/replay\"\n\t_ %q\n)\n\nfunc main() { replay.Main() }\n", pkg)), 0o644)
	ov := filepath.Join(dir, "overlay.json")
	writeJSON(ov, map[string]interface{}{"Replace": map[string]string{filepath.Join(con, "rpmain", "main.go"): src}})
	bin := filepath.Join(dir, "replay")
	args := append([]string{"build"}, modArgs(o, dir)...)
	args = append(args, "-overlay", ov, "-o", bin, "./rpmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = con
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		os.RemoveAll(dir)
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func runBin(bin string, secs int, args ...string) (string, int) {
	cmd := exec.Command(bin, args...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	if err := cmd.Start(); err != nil {
		return err.Error(), 2
	}
	t := time.AfterFunc(time.Duration(secs)*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err == nil {
		return out.String(), 0
	}
	if x, ok := err.(*exec.ExitError); ok {
		return out.String(), x.ExitCode()
	}
	return out.String(), 2
}

// ---------- thorough tier

// thorough re-decides every obligation a solver closed with a second solver
// and runs every contract natively on random inputs, to test the verifier
// itself against the compiled code.
func thorough(e *Engine, o options, results []*Result, rp *reporter) {
	n, agree, disagree := 0, 0, 0
	deadline := time.Now().Add(400 * time.Second)
	for _, r := range results {
		for _, ob := range r.Obls {
			if ob.Status != "proved" || !strings.HasPrefix(ob.Backend, "z3") || time.Now().After(deadline) {
				continue
			}
			n++
			switch res, _, _ := e.smt.solve(append([]*Term{ob.Goal()}, ob.Hyps...), 20, false, "cvc5"); res {
			case "unsat":
				agree++
			case "sat":
				disagree++
				rp.plain("the solvers disagree on "+ob.brief(), "cvc5: sat, z3: unsat")
			}
		}
	}
	e.crossSolver = fmt.Sprintf("%d obligations closed by z3 re-run with cvc5: %d unsat, %d sat, %d undecided in time", n, agree, disagree, n-agree-disagree)
	byPkg := map[string][]*replayCase{}
	for _, r := range results {
		if r.OK() {
			byPkg[r.C.Pkg] = append(byPkg[r.C.Pkg], &replayCase{Property: o.prop, Params: r.C.Params, Contract: r.C.Pos, Function: r.C.ID})
		}
	}
	var ks []string
	for k := range byPkg {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		bin, err := buildReplay(o, k)
		if err != nil {
			e.crossNative = append(e.crossNative, k+": "+err.Error())
			continue
		}
		f := filepath.Join(filepath.Dir(bin), "cross.json")
		writeJSON(f, byPkg[k])
		out, code := runBin(bin, 600, "cross", f, "1")
		if code != 0 {
			rp.plain("a proved contract of "+k+" is false on a native run", out)
		}
		e.crossNative = append(e.crossNative, k+": "+firstLines(out, 2))
		os.RemoveAll(filepath.Dir(bin))
	}
}

// ---------- evidence

func evidence(e *Engine, o options, results []*Result, rp *reporter, start time.Time, loadT time.Duration) error {
	fns := map[string]bool{}
	inl := map[string]bool{}
	ext := map[string]bool{}
	byBackend := map[string]int{}
	byKind := map[string]int{}
	used := map[string]bool{}
	var lemmas, bounded []string
	covers := 0
	count := func(r *Result) {
		for k := range r.Inlined {
			inl[k] = true
		}
		for k := range r.External {
			ext[k] = true
		}
		covers += r.Covers
	}
	type slow struct {
		Contract string  `json:"contract"`
		Secs     float64 `json:"seconds"`
		Obls     int     `json:"obligations"`
	}
	var sl []slow
	for _, r := range results {
		count(r)
		if r.C.Kind == "lemma" {
			lemmas = append(lemmas, strings.TrimPrefix(r.C.ID, "lemma "))
		} else {
			fns[strings.SplitN(r.C.ID, " #", 2)[0]] = true
		}
		byBackend["rewriting"] += r.Trivial
		byKind["closed during execution"] += r.Trivial
		for _, ob := range r.Obls {
			if relevant(o.prop, ob) && ob.Status == "proved" {
				byBackend[ob.Backend]++
				byKind[ob.Kind]++
			}
		}
		for u := range r.Used {
			used[strings.SplitN(u.ID, " #", 2)[0]] = true
			if u.res != nil {
				count(u.res)
			}
		}
		sl = append(sl, slow{r.C.ID, float64(r.Wall.Milliseconds()) / 1000, len(r.Obls)})
	}
	sort.Slice(sl, func(i, j int) bool { return sl[i].Secs > sl[j].Secs })
	if len(sl) > 5 {
		sl = sl[:5]
	}
	keys := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	tb := []string{
		"the condition generator /verif/engine (symbolic execution of go/ssa with path merging, its rewriting rules and its string domain)",
		"golang.org/x/tools/go/ssa as the meaning of the source; the Go compiler preserves that meaning",
		"z3 (z3-new) on quantifier-free bit-vector queries",
		"exhaustive evaluation of floating-point obligations uses this machine's IEEE arithmetic and the installed math package",
	}
	for k := range ext {
		tb = append(tb, "modelled library function "+k)
	}
	sort.Strings(tb[4:])
	as := []string{
		"package variables of the repository keep the values their initialisers give them (the frame obligations show no decoder writes them; client code might)",
		"the capacity of a grown slice equals its length when append has to reallocate",
		"fmt, strconv and strings functions behave as modelled (see trusted_base); machine integers are exact fixed-width bit-vectors, no mathematical-integer idealisation",
		"loops cut with an inductive index bound are assumed to terminate (their index is bounded by the slice length)",
	}
	if byBackend[hybridBackend] > 0 {
		as = append(as, "exact arithmetic, tables and intervals: the floating-point operations of this machine are monotone and correctly rounded (IEEE 754), and the trigonometric functions met there are evaluated with the installed math package")
	}
	if byBackend[sphereBackend] > 0 {
		as = append(as, "error-tracked trigonometric normal form: the functions Sin, Cos, Asin, Acos, Atan, Atan2, Sqrt and Pow of the math package are accurate to four units in the last place, and the dot product of two unit vectors is between -1 and 1")
	}
	cov := map[string]interface{}{
		"obligations":                        rp.total,
		"discharged":                         rp.discharged,
		"checker_cmd":                        fmt.Sprintf("bash /verif/check.sh %s %s", o.prop, o.tier),
		"trusted_base":                       tb,
		"contracts":                          len(results),
		"functions_under_contract":           keys(fns),
		"lemmas":                             lemmas,
		"callee_contracts_used":              keys(used),
		"functions_executed_in_place":        keys(inl),
		"discharged_by_backend":              byBackend,
		"discharged_by_kind":                 byKind,
		"input_cases":                        covers,
		"solver_queries":                     e.smt.Queries,
		"solver_seconds":                     e.smt.Time.Seconds(),
		"exhaustively_evaluated_assignments": e.enumCount,
		"load_seconds":                       loadT.Seconds(),
		"slowest_contracts":                  sl,
		"known_findings_reported":            rp.findings,
		"bounded_stand_ins":                  bounded,
		"what_the_extraction_drops":          "nothing: the verifier reads the repository's own source through go/packages and go/ssa on this run; callees outside the repository are either executed in place (pure Go library code) or modelled as listed",
	}
	if len(rp.findings) == 0 {
		cov["known_findings_reported"] = []string{}
	}
	if bounded == nil {
		cov["bounded_stand_ins"] = []string{}
	}
	if lemmas == nil {
		cov["lemmas"] = []string{}
	}
	if e.crossSolver != "" {
		cov["second_solver"] = e.crossSolver
		cov["native_cross_validation"] = e.crossNative
	}
	os.MkdirAll(filepath.Join(o.outDir, "evidence"), 0o755)
	return writeJSON(filepath.Join(o.outDir, "evidence", o.prop+".json"), map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "proof",
		"coverage": cov, "assumptions": as, "wall_s": time.Since(start).Seconds(), "violations": rp.viol,
	})
}
