package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// unitRef names one verification unit of a property.
type unitRef struct {
	Kind string // func | lemma | struct
	Key  string
}

// Prop is the verification plan of one property.
type Prop struct {
	Units []unitRef
	// Classes restricts the obligations that count ("" = all).
	Classes map[string]bool
	// Assume lists what the property takes for granted besides the models used.
	Assume []string
	// Bounded marks obligations that are checked within a bound only.
	Note string
	// Relies names the properties whose checks discharge contracts used here.
	Relies []string
	// Split verifies every unit in a process of its own.
	Split bool
}

var versions3 = []string{"2_1", "2_2", "2_3"}
var versions2 = []string{"2_2", "2_3"}

func forV(vs []string, kind string, keys ...string) (out []unitRef) {
	for _, k := range keys {
		if !strings.Contains(k, "2_@") {
			out = append(out, unitRef{kind, k})
			continue
		}
		for _, v := range vs {
			out = append(out, unitRef{kind, strings.ReplaceAll(k, "2_@", v)})
		}
	}
	return
}

func units(xs ...[]unitRef) (out []unitRef) {
	for _, x := range xs {
		out = append(out, x...)
	}
	return
}

// groupOut is what one verification process reports.
type groupOut struct {
	Results      []*UnitResult
	Skipped, Vac int
	ExecMs       int64
}

func groupTime(tier string) time.Duration {
	if tier == "thorough" {
		return 25 * time.Minute
	}
	return 9 * time.Minute
}

// runAll verifies the units of a property; those of different packages in processes of their own.
func (P *Program) runAll(repo string, pr *Prop, id, tier string) ([]*UnitResult, int, int, int64) {
	groups := map[string][]unitRef{}
	var names []string
	for _, u := range pr.Units {
		g := pr.group(P, u)
		if groups[g] == nil {
			names = append(names, g)
		}
		groups[g] = append(groups[g], u)
	}
	if len(names) < 2 || len(pr.Units) < 8 || os.Getenv("GV_ONEPROC") != "" {
		o := P.runGroup(pr.Units, pr.Classes, pr.elsewhere())
		return o.Results, o.Skipped, o.Vac, o.ExecMs
	}
	outs := make([]groupOut, len(names))
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			in, _ := json.Marshal(map[string]any{"units": groups[n], "classes": pr.Classes, "tier": tier, "elsewhere": pr.elsewhere()})
			self, err := os.Executable()
			if err != nil {
				self = "/verif/bin/goverif"
			}
			// a group that takes too long fails
			ctx, cancel := context.WithTimeout(context.Background(), groupTime(tier))
			defer cancel()
			cmd := exec.CommandContext(ctx, self, "group")
			cmd.Stdin = strings.NewReader(string(in))
			cmd.Env = append(os.Environ(), "GV_REPO="+repo)
			var eb strings.Builder
			cmd.Stderr = &eb
			b, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(b, &outs[i])
			}
			if err != nil {
				outs[i] = groupOut{Results: []*UnitResult{{Key: n, Kind: "func", Unsupported: "verifier process failed: " + err.Error() + " " + trunc(eb.String())}}}
			}
		}(i, n)
	}
	wg.Wait()
	var results []*UnitResult
	have := map[string]bool{}
	skipped, vac, ms := 0, 0, int64(0)
	for _, o := range outs {
		skipped += o.Skipped
		vac += o.Vac
		if o.ExecMs > ms {
			ms = o.ExecMs
		}
		for _, r := range o.Results {
			if k := r.Kind + " " + r.Key; !have[k] {
				have[k] = true
				results = append(results, r)
			}
		}
	}
	return results, skipped, vac, ms
}

// group names the process a unit is verified in.
func (pr *Prop) group(P *Program, u unitRef) string {
	if u.Kind == "struct" {
		return "struct"
	}
	if pr.Split {
		return u.Kind + " " + u.Key
	}
	rel, _ := P.splitKey(u.Key)
	return rel
}

// elsewhere: the units discharged by the checks of the properties pr relies on.
func (pr *Prop) elsewhere() map[string]string {
	m := map[string]string{}
	for _, id := range pr.Relies {
		for _, u := range props[id].Units {
			if u.Kind == "func" {
				m[u.Key] = id
			}
		}
	}
	for _, u := range pr.Units {
		delete(m, u.Key)
	}
	return m
}

// reliedOn lists the contracts used here that another check discharges.
func (pr *Prop) reliedOn(results []*UnitResult) (out []string) {
	m, have := pr.elsewhere(), map[string]bool{}
	for _, r := range results {
		for k := range r.Used {
			if id := m[k]; id != "" && !have[k] {
				have[k] = true
				out = append(out, "contract of "+k+": discharged by the check of "+id)
			}
		}
	}
	sort.Strings(out)
	return
}

func groupMain(repo string) int {
	var in struct {
		Units     []unitRef
		Classes   map[string]bool
		Tier      string
		Elsewhere map[string]string
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	thorough = in.Tier == "thorough"
	debug.SetMemoryLimit(8 << 30)
	go func() { // give an answer before memory runs out
		for {
			time.Sleep(3 * time.Second)
			var m runtime.MemStats
			if runtime.ReadMemStats(&m); m.HeapAlloc > 11<<30 {
				fmt.Fprintln(os.Stderr, "out of memory")
				os.Exit(3)
			}
		}
	}()
	P, err := Load(repo, filepath.Join(verifRoot(), "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 3
	}
	so := os.Stdout
	os.Stdout = os.Stderr
	o := P.runGroup(in.Units, in.Classes, in.Elsewhere)
	json.NewEncoder(so).Encode(o)
	return 0
}

func (P *Program) runGroup(us []unitRef, classes map[string]bool, elsewhere map[string]string) groupOut {
	t0 := time.Now()
	var out groupOut
	seen := map[string]bool{}
	queue := append([]unitRef(nil), us...)
	for len(queue) > 0 {
		u := queue[0]
		queue = queue[1:]
		if seen[u.Kind+" "+u.Key] {
			continue
		}
		seen[u.Kind+" "+u.Key] = true
		r := P.runUnit(u)
		r.Kind = u.Kind
		out.Results = append(out.Results, r)
		var us []string
		for k := range r.Used {
			us = append(us, k)
		}
		sort.Strings(us)
		for _, k := range us {
			if elsewhere[k] != "" {
				continue // its contract is discharged by the check of that property
			}
			queue = append(queue, unitRef{"func", k})
		}
	}
	out.ExecMs = time.Since(t0).Milliseconds()
	var all []*Obl
	for _, r := range out.Results {
		var keep []*Obl
		for _, o := range r.Obls {
			if classes != nil && !classes[o.Class] {
				out.Skipped++
				continue
			}
			keep = append(keep, o)
		}
		r.Obls = keep
		all = append(all, keep...)
		// vacuity: the preconditions must not be contradictory
		if len(r.Requires) > 0 {
			r.vac = &Obl{Unit: r.Key, Name: "preconditions are satisfiable", Class: "vacuity", Hyps: r.Requires, Goal: TFalse}
		}
	}
	budget := 360 * time.Second
	if thorough {
		budget = 600 * time.Second
	}
	solverDeadline = time.Now().Add(budget)
	discharge(all)
	solverDeadline = time.Time{}
	for _, r := range out.Results {
		if r.vac != nil && proveNow(r.vac.Hyps, TFalse) {
			r.Unsupported = "contradictory preconditions (contract is vacuous)"
		}
	}
	var wg sync.WaitGroup
	paths := map[string]bool{}
	for _, o := range all {
		if o.Class != "spec" && o.Class != "state" && o.Class != "assert" || o.Result != "proved" || o.Solver == "simplifier" {
			continue
		}
		if !thorough { // one per path in the quick tier
			k := ""
			for _, h := range o.Hyps {
				k += fmt.Sprintf(",%d", h.id)
			}
			if paths[k] {
				continue
			}
			paths[k] = true
		}
		out.Vac++
		wg.Add(1)
		ok := consistent(o)
		go func(o *Obl) {
			defer wg.Done()
			if !ok() {
				o.Result, o.Detail = "failed", "hypotheses are contradictory (vacuous proof)"
			}
		}(o)
	}
	wg.Wait()
	return out
}

type structCheck func(P *Program) *UnitResult

var structChecks = map[string]structCheck{}

func verifRoot() string {
	if r := os.Getenv("GV_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func check(repo, id, tier string) int {
	t0 := time.Now()
	pr := props[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	thorough = tier == "thorough"
	root := verifRoot()
	P, err := Load(repo, filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 3
	}
	results, skipped, vac, execMs := P.runAll(repo, pr, id, tier)
	var all []*Obl
	for _, r := range results {
		all = append(all, r.Obls...)
	}
	_ = all
	// ---- verdict ----
	known := loadKnown(root, id)
	type failure struct{ unit, name, detail, pos string }
	var fails []failure
	nObl, nDis := 0, 0
	byClass, byBackend := map[string]int{}, map[string]int{}
	var solveMs int64
	var maxMs int64
	models, inlined, assumed := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var underContract, trusted, structural []string
	bounded := []string{}
	knownHit := map[string]bool{}
	for _, r := range results {
		if r.Trusted != "" {
			trusted = append(trusted, r.Key+": "+r.Trusted)
		}
		switch r.Kind {
		case "struct":
			structural = append(structural, r.Key)
		default:
			underContract = append(underContract, r.Key)
		}
		for m := range r.Models {
			models[m] = true
		}
		for m := range r.Inlined {
			inlined[m] = true
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		if r.Unsupported != "" {
			nObl++
			fails = append(fails, failure{r.Key, "the contract applies to the current source", r.Unsupported, ""})
		}
		for _, o := range r.Obls {
			nObl++
			byClass[o.Class]++
			solveMs += o.Ms
			if o.Ms > maxMs {
				maxMs = o.Ms
			}
			if o.Result == "proved" {
				nDis++
				byBackend[o.Solver]++
				continue
			}
			k := r.Key + " / " + o.Name
			if w, ok := known[k]; ok {
				if !knownHit[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
				}
				knownHit[k] = true
				continue
			}
			d := o.Detail
			if os.Getenv("GV_V") != "" {
				if o.Goal != nil {
					d += "\n      goal: " + trunc(o.Goal.String())
				}
			}
			fails = append(fails, failure{r.Key, o.Name + " [" + o.Class + "]", d, o.Pos})
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	// ---- replay of a failed obligation (and, in the thorough tier, conformance run) ----
	replayFound, replayText := false, ""
	replayRan := false
	var replayStats map[string]any
	if len(fails) > 0 || thorough {
		secs := 100
		if thorough {
			secs = 240
		}
		replayRan = true
		var keys []string
		seenKey := map[string]bool{}
		for _, f := range fails {
			if !seenKey[f.unit] {
				seenKey[f.unit] = true
				keys = append(keys, f.unit)
			}
		}
		if len(fails) == 0 {
			for _, r := range results {
				keys = append(keys, r.Key)
			}
		}
		replayFound, replayText, replayStats = runContracts(root, repo, seed, secs, keys, P)
		if !replayFound {
			f, t, st := runReplay(root, repo, id, seed, secs, P, results)
			replayFound = f
			if f {
				replayText = t
			} else {
				replayText += "\n" + t
			}
			replayStats["property_harness"] = st
		}
	}
	viol := 0
	if len(fails) > 0 || replayFound {
		viol = len(fails)
		if viol == 0 {
			viol = 1
		}
	}
	ev := map[string]any{}
	cov := map[string]any{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", id, tier),
		"trusted_base":             trustedBase(models),
		"obligations_by_class":     byClass,
		"discharged_by_backend":    byBackend,
		"functions_under_contract": underContract,
		"functions_inlined":        keysOf(inlined),
		"structural_obligations":   structural,
		"trusted_contracts":        trusted,
		"bounded":                  bounded,
		"vacuity_checks":           vac,
		"solver_ms_total":          solveMs,
		"solver_ms_max":            maxMs,
		"vcgen_ms":                 execMs,
		"extraction":               "go/ssa of /repo's working tree, built on this run; contracts are overlay files in the same packages; nothing of the bodies is dropped",
	}
	if skipped > 0 {
		cov["obligations_decided_under_other_properties"] = skipped
	}
	if len(known) > 0 {
		cov["known_findings"] = len(knownHit)
	}
	if replayRan {
		cov["replay_harness"] = replayStats
	}
	ass := append([]string(nil), engineAssumptions...)
	ass = append(ass, pr.Assume...)
	if rel := pr.reliedOn(results); len(rel) > 0 {
		ass = append(ass, rel...)
	}
	ass = append(ass, keysOf(assumed)...)
	for _, m := range keysOf(models) {
		ass = append(ass, "assumed contract on dependency: "+m)
	}
	ev["property"], ev["tier"], ev["seed"], ev["level"] = id, tier, seed, "proof"
	ev["coverage"], ev["assumptions"], ev["violations"] = cov, ass, viol
	ev["wall_s"] = float64(time.Since(t0).Milliseconds()) / 1000
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: %d units, %d obligations, %d discharged, %d failed (%.1fs)\n", id, tier, len(results), nObl, nDis, len(fails), time.Since(t0).Seconds())
	if len(fails) == 0 && !replayFound {
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\nfailed obligations (%d):\n", id, len(fails))
	for _, f := range fails {
		fmt.Fprintf(&sb, "  - %s: %s", f.unit, f.name)
		if f.pos != "" {
			fmt.Fprintf(&sb, " at %s", f.pos)
		}
		fmt.Fprintf(&sb, "\n      verifier: %s\n", f.detail)
	}
	for _, d := range P.dropped {
		fmt.Fprintf(&sb, "  - contract no longer type-checks: %s\n", d)
	}
	if replayFound {
		fmt.Fprintf(&sb, "\nfailing input, executed against the real code:\n%s\n", replayText)
	} else {
		fmt.Fprintf(&sb, "\nno failing input found by the replay harness: %s\n", replayText)
	}
	rp := filepath.Join(root, "evidence", "replay_"+id+".txt")
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range fails {
		if i == 12 {
			break
		}
		fmt.Printf("  failed obligation: %s: %s %s\n", f.unit, f.name, f.pos)
	}
	if replayFound {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	return 1
}

var thorough bool

func (P *Program) runUnit(u unitRef) (res *UnitResult) {
	defer func() {
		if r := recover(); r != nil {
			res = &UnitResult{Key: u.Key, Unsupported: fmt.Sprintf("verifier failure: %v", r)}
			if os.Getenv("GV_V") != "" {
				panic(r)
			}
		}
	}()
	return P.runUnit1(u)
}

func (P *Program) runUnit1(u unitRef) *UnitResult {
	switch u.Kind {
	case "func":
		if P.contracts[u.Key] == nil {
			r := &UnitResult{Key: u.Key}
			r.Unsupported = "the contract of " + u.Key + " does not type-check against the current source"
			for _, d := range P.dropped {
				if strings.Contains(d, "zzc_") {
					r.Unsupported += "; " + d
					break
				}
			}
			return r
		}
		return P.verifyFunc(u.Key, proveNow)
	case "lemma":
		return P.verifyLemma(u.Key, proveNow)
	case "struct":
		f := structChecks[strings.SplitN(u.Key, ":", 2)[0]]
		if f == nil {
			return &UnitResult{Key: u.Key, Unsupported: "no such structural check"}
		}
		structArg = ""
		if i := strings.IndexByte(u.Key, ':'); i >= 0 {
			structArg = u.Key[i+1:]
		}
		r := f(P)
		r.Key = u.Key
		return r
	}
	return &UnitResult{Key: u.Key, Unsupported: "unknown kind of unit " + u.Kind}
}

var structArg string

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func trustedBase(models map[string]bool) []string {
	out := []string{
		"the Go type checker and golang.org/x/tools/go/ssa (translation of the source to SSA)",
		"goverif: symbolic execution of SSA, loop summarisation, term simplifier, induction rule",
		"the SMT solvers z3 5.1/4.8.12 and cvc5 1.1.2",
	}
	return out
}

var engineAssumptions = []string{
	"machine integers are treated as mathematical integers",
	"a nil slice and an empty slice are identified; slice capacity is not modelled, an append to a slice prefix is assumed not to be observed through another slice",
	"memory exhaustion, stack exhaustion and concurrent modification of the inputs by the caller are excluded",
	"functions reached through interfaces supplied by the caller other than io.Reader/io.Writer are excluded",
}

// loadKnown reads the findings recorded (not repaired) for a property: "unit / obligation" -> text.
func loadKnown(root, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + id + " obligation="
		if strings.HasPrefix(l, p) {
			rest := l[len(p):]
			if i := strings.Index(rest, " :: "); i >= 0 {
				m[rest[:i]] = rest[i+4:]
			}
		}
	}
	return m
}

func runReplay(root, repo, id string, seed, secs int, P *Program, rs []*UnitResult) (bool, string, map[string]any) {
	stats := map[string]any{}
	dir, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		return false, err.Error(), stats
	}
	defer os.RemoveAll(dir)
	// dictionary: string and integer constants of the packages concerned
	dict := filepath.Join(dir, "dict")
	os.WriteFile(dict, []byte(strings.Join(P.dictionary(nil), "\x00")), 0o644)
	out := filepath.Join(dir, "out")
	cmd := exec.Command("bash", filepath.Join(root, "replay", "run.sh"), repo, dir, id, strconv.Itoa(seed), strconv.Itoa(secs), dict, out)
	cmd.Env = os.Environ()
	b, err := cmd.CombinedOutput()
	txt, _ := os.ReadFile(out)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "cases=") {
			n, _ := strconv.Atoi(strings.TrimPrefix(l, "cases="))
			stats["cases"] = n
		}
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 && len(txt) > 0 {
			return true, string(txt), stats
		}
		stats["error"] = trunc(err.Error() + ": " + string(b))
		return false, trunc(err.Error() + ": " + string(b)), stats
	}
	return false, strings.TrimSpace(string(b)), stats
}

// dictionary collects the string constants of the packages (all: nil).
func (P *Program) dictionary(pkgs map[string]bool) []string {
	m := map[string]bool{}
	for rel, sp := range P.ssaPkgs {
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) || pkgs != nil && !pkgs[rel] {
			continue
		}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if P.isOverlayFn(f) {
				return
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
							s := c.Value.ExactString()
							if u, err := strconv.Unquote(s); err == nil {
								s = u
							}
							if len(s) < 200 {
								m[s] = true
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		for _, mm := range sp.Members {
			switch x := mm.(type) {
			case *ssa.Function:
				visit(x)
			case *ssa.Type:
				for _, f := range P.methodsOf(x) {
					visit(f)
				}
			}
		}
	}
	return keysOf(m)
}
