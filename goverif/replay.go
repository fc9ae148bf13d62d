package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// splitKey gives the package and the function of a unit key.
func (P *Program) splitKey(k string) (string, string) {
	best := ""
	for rel := range P.ssaPkgs {
		if strings.HasPrefix(k, rel+".") && len(rel) > len(best) {
			best = rel
		}
	}
	if best == "" {
		return "", k
	}
	return best, k[len(best)+1:]
}

// runContracts executes the contracts of the units: the overlay files the verifier used are compiled with an
// executable form of the specification primitives, and the real functions run against their specification
// programs on generated inputs.
func runContracts(root, repo string, seed, secs int, keys []string, P *Program) (bool, string, map[string]any) {
	stats := map[string]any{}
	dir, err := os.MkdirTemp("", "gvrun")
	if err != nil {
		return false, err.Error(), stats
	}
	defer os.RemoveAll(dir)
	ov := map[string]string{}
	nf := 0
	put := func(dst string, b []byte) {
		nf++
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", nf))
		os.WriteFile(p, b, 0o644)
		ov[dst] = p
	}
	for dst, b := range P.ov {
		if filepath.Dir(dst) != filepath.Join(repo, "verifspec") {
			put(dst, b)
		}
	}
	for _, f := range []string{"v.go", "run.go", "text.go", "graph.go"} {
		b, err := os.ReadFile(filepath.Join(root, "replay", "rt", f))
		if err != nil {
			return false, err.Error(), stats
		}
		put(filepath.Join(repo, "verifspec", f), b)
	}
	regs := map[string][]string{}
	pkgs := map[string]bool{}
	var known []string
	for _, k := range keys {
		rel, name := P.splitKey(k)
		sp := P.ssaPkgs[rel]
		if sp == nil {
			continue
		}
		if P.contracts[k] == nil && P.lemmas[k] == nil {
			continue
		}
		known = append(known, k)
		pkgs[rel] = true
		if P.lemmas[k] != nil {
			regs[rel] = append(regs[rel], fmt.Sprintf("zzv.Register(%q, %s, nil)", k, name))
			continue
		}
		cn := P.contracts[k].Name()
		real := name
		if i := strings.IndexByte(name, '.'); i >= 0 {
			tn := name[:i]
			real = tn + name[i:]
			sig := P.contracts[k].Signature
			if sig.Params().Len() > 0 {
				if _, ok := sig.Params().At(0).Type().(*types.Pointer); ok {
					real = "(*" + tn + ")" + name[i:]
				}
			}
		}
		regs[rel] = append(regs[rel], fmt.Sprintf("zzv.Register(%q, %s, %s)", k, cn, real))
	}
	if len(known) == 0 {
		return false, "no contract of the failed units can be run", stats
	}
	var imps []string
	for rel, rs := range regs {
		sort.Strings(rs)
		src := "package " + P.ssaPkgs[rel].Pkg.Name() + "\n\nimport zzv \"" + modPath + "/verifspec\"\n\nfunc init() {\n\t" + strings.Join(rs, "\n\t") + "\n}\n"
		put(filepath.Join(repo, rel, "zz_verif_register.go"), []byte(src))
		imps = append(imps, fmt.Sprintf("_ %q", modPath+"/"+rel))
	}
	sort.Strings(imps)
	mainSrc := "package main\n\nimport (\n\t" + strings.Join(imps, "\n\t") + "\n"
	body := ""
	for _, v := range versions3 {
		if P.ssaPkgs["spdx/v2/v"+v] != nil {
			mainSrc += fmt.Sprintf("\tv%s %q\n", v, modPath+"/spdx/v2/v"+v)
			body += fmt.Sprintf("\tzzv.RegisterType(&v%s.Document{})\n\tzzv.RegisterType(v%s.Document{})\n", v, v)
		}
	}
	mainSrc += "\tzzv \"" + modPath + "/verifspec\"\n)\n\nfunc main() {\n" + body + "\tzzv.RegisterType(0)\n\tzzv.RegisterType(\"\")\n\tzzv.Main()\n}\n"
	put(filepath.Join(repo, "zzreplay", "main.go"), []byte(mainSrc))
	ovJSON, _ := json.Marshal(map[string]any{"Replace": ov})
	ovp := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovp, ovJSON, 0o644)
	bin := filepath.Join(dir, "run")
	cmd := exec.Command("go", "build", "-overlay", ovp, "-o", bin, "./zzreplay")
	cmd.Dir = repo
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			env = append(env, e)
		}
	}
	cmd.Env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	if b, err := cmd.CombinedOutput(); err != nil {
		if d := os.Getenv("GV_KEEP"); d != "" {
			exec.Command("cp", "-r", dir, d).Run()
		}
		stats["error"] = trunc(string(b))
		return false, "the contracts do not compile for execution: " + trunc(string(b)), stats
	}
	dict := filepath.Join(dir, "dict")
	words := map[string][]string{"": P.dictionary(pkgs)}
	for _, k := range known {
		words[k] = P.wordsOf(k)
	}
	wb, _ := json.Marshal(words)
	os.WriteFile(dict, wb, 0o644)
	if d := os.Getenv("GV_KEEP"); d != "" {
		exec.Command("cp", "-r", dir, d).Run()
	}
	const procs = 8
	var wg sync.WaitGroup
	outs := make([]string, procs)
	found := make([]string, procs)
	cmds := make([]*exec.Cmd, procs)
	var mu sync.Mutex
	stop := false
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprintf("out%d", i))
			run := func(env ...string) ([]byte, error) {
				c := exec.Command(bin, append([]string{strconv.Itoa(seed*100 + i), strconv.Itoa(secs), dict, out}, known...)...)
				c.Env = append(os.Environ(), env...)
				mu.Lock()
				if stop {
					mu.Unlock()
					return nil, nil
				}
				cmds[i] = c
				mu.Unlock()
				return c.CombinedOutput()
			}
			b, err := run()
			outs[i] = string(b)
			if err == nil {
				return
			}
			if t, _ := os.ReadFile(out); len(t) > 0 {
				found[i] = string(t)
			} else if strings.Contains(string(b), "stack overflow") || strings.Contains(string(b), "concurrent map") {
				lg := filepath.Join(dir, fmt.Sprintf("log%d", i))
				run("GV_LOGCASE=" + lg)
				t, _ := os.ReadFile(lg)
				found[i] = "the process is aborted (" + strings.SplitN(string(b), "\n", 3)[0] + ") by\n" + string(t)
			} else {
				return
			}
			mu.Lock()
			stop = true
			for j, c := range cmds {
				if j != i && c != nil && c.Process != nil {
					c.Process.Kill()
				}
			}
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	total := 0
	per := map[string]int{}
	for _, o := range outs {
		for _, l := range strings.Split(o, "\n") {
			if strings.HasPrefix(l, "cases=") {
				n, _ := strconv.Atoi(strings.Fields(strings.TrimPrefix(l, "cases="))[0])
				total += n
			} else if j := strings.LastIndex(l, ": "); j > 0 {
				var a, b int
				if k, _ := fmt.Sscanf(l[j+2:], "%d of %d", &a, &b); k == 2 {
					per[l[:j]] += a
				}
			}
		}
	}
	stats["contract_cases"] = total
	stats["contract_cases_per_function"] = per
	for _, f := range found {
		if f != "" {
			return true, f, stats
		}
	}
	var never []string
	for _, k := range known {
		if per[k] == 0 {
			never = append(never, k)
		}
	}
	return false, fmt.Sprintf("%d cases of the contracts of the failed units ran; never applicable: %v", total, never), stats
}

// wordsOf collects the constants of a function and the module functions it calls (two levels).
func (P *Program) wordsOf(key string) []string {
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	inSpec := false
	var visit func(f *ssa.Function, depth int)
	visit = func(f *ssa.Function, depth int) {
		if f == nil || seen[f] || depth < 0 || P.isOverlayFn(f) && !inSpec {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						d := depth - 1
						if P.contracts[funcKey(g)] != nil {
							d = -1 // its own contract is run too
						}
						visit(g, d)
					}
				}
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if s := constant.StringVal(c.Value); len(s) < 100 && !strings.Contains(s, "%") {
							m[s] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a, depth)
		}
	}
	visit(P.lookupFunc(key), 2)
	if strings.Contains(key, "/rdf/reader.") {
		// the code names properties by package variables, the specification by constants
		inSpec = true
		visit(P.contracts[key], 2)
	}
	return keysOf(m)
}
