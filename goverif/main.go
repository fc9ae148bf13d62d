package main

import (
	"encoding/json"
	"runtime/debug"
	"runtime/pprof"
	"strconv"

	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("GV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		if n, _ := strconv.Atoi(os.Getenv("GV_PROFSECS")); n > 0 {
			time.AfterFunc(time.Duration(n)*time.Second, func() {
				pprof.StopCPUProfile()
				os.Exit(3)
			})
		}
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: goverif func KEY... | lemma NAME... | check PROP quick|thorough")
		os.Exit(2)
	}
	repo := "/repo"
	if r := os.Getenv("GV_REPO"); r != "" {
		repo = r
	}
	switch os.Args[1] {
	case "func", "lemma", "struct":
		t0 := time.Now()
		P, err := Load(repo, "/verif/contracts")
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			os.Exit(3)
		}
		for _, d := range P.dropped {
			fmt.Println("DROPPED", d)
		}
		fmt.Printf("loaded in %v\n", time.Since(t0))
		for _, k := range os.Args[2:] {
			var keys []string
			if strings.HasSuffix(k, "*") {
				m := P.contracts
				if os.Args[1] == "lemma" {
					m = P.lemmas
				}
				for c := range m {
					if strings.HasPrefix(c, strings.TrimSuffix(k, "*")) {
						keys = append(keys, c)
					}
				}
			} else {
				keys = []string{k}
			}
			for _, k := range keys {
				t1 := time.Now()
				var r *UnitResult
				if os.Args[1] == "struct" {
					r = P.runUnit1(unitRef{"struct", k})
				} else if os.Args[1] == "func" {
					r = P.verifyFunc(k, proveNow)
				} else {
					r = P.verifyLemma(k, proveNow)
				}
				t2 := time.Now()
				if cl := os.Getenv("GV_CLASSES"); cl != "" {
					var keep []*Obl
					for _, o := range r.Obls {
						if strings.Contains(cl, o.Class) {
							keep = append(keep, o)
						}
					}
					r.Obls = keep
				}
				discharge(r.Obls)
				show(r, os.Getenv("GV_V") != "")
				fmt.Printf("  exec %v, solve %v, terms %d\n", t2.Sub(t1).Round(time.Millisecond), time.Since(t2).Round(time.Millisecond), termCount)
			}
		}
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(repo, os.Args[2], tier))
	case "group":
		os.Exit(groupMain(repo))
	case "run":
		P, err := Load(repo, "/verif/contracts")
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			os.Exit(3)
		}
		secs, _ := strconv.Atoi(os.Args[2])
		var keys []string
		for _, k := range os.Args[3:] {
			if strings.HasSuffix(k, "*") {
				for _, m := range []map[string]*ssa.Function{P.contracts, P.lemmas} {
					for c := range m {
						if strings.HasPrefix(c, strings.TrimSuffix(k, "*")) {
							keys = append(keys, c)
						}
					}
				}
				continue
			}
			keys = append(keys, k)
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		f, t, st := runContracts("/verif", repo, seed, secs, keys, P)
		fmt.Println(f, t)
		b, _ := json.MarshalIndent(st, "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

func show(r *UnitResult, verbose bool) {
	p, f := 0, 0
	for _, o := range r.Obls {
		if o.Result == "proved" {
			p++
		} else {
			f++
		}
	}
	fmt.Printf("%s: %d proved, %d failed", r.Key, p, f)
	if r.Unsupported != "" {
		fmt.Printf("  UNSUPPORTED: %s", r.Unsupported)
	}
	fmt.Println()
	for _, o := range r.Obls {
		if o.Result != "proved" {
			fmt.Printf("  FAILED [%s] %s (%s): %s\n", o.Class, o.Name, o.Pos, o.Detail)
			if verbose {
				for i, sb := range subgoals(o.Hyps, o.Goal) {
					if g := induct(sb.h, sb.g); g != TTrue {
						fmt.Printf("    subgoal %d\n", i)
						if os.Getenv("GV_LET") != "" {
							fmt.Println(letStr(append(append([]*Term{}, sb.h...), g)...))
							continue
						}
						printDiff(g)
					}
				}
				for _, h := range o.Hyps {
					fmt.Printf("     hyp: %s\n", trunc(h.String()))
				}
			}
		} else if verbose {
			fmt.Printf("  ok [%s] %s by %s\n", o.Class, o.Name, o.Solver)
		}
	}
}
