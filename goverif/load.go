package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/spdx/tools-golang"

type Program struct {
	repo      string
	pkgs      map[string]*packages.Package // by import path
	ssa       *ssa.Program
	ssaPkgs   map[string]*ssa.Package
	contracts map[string]*ssa.Function // target function key -> contract function
	lemmas    map[string]*ssa.Function // name -> lemma
	dropped   []string                 // contracts dropped, with reason
	overlay   map[string]bool          // overlay file names
	ov        map[string][]byte        // overlay files as type-checked
	structNm  map[*types.Struct]string
	fset      *token.FileSet
}

// funcKey is "<pkg path below module>.<Func>" or "<pkg>.<Type>.<Method>".
func funcKey(f *ssa.Function) string {
	if f.Pkg == nil {
		if f.Origin() != nil {
			return funcKey(f.Origin())
		}
		return f.String()
	}
	p := relPkg(f.Pkg.Pkg.Path())
	if f.Signature.Recv() != nil {
		return p + "." + recvName(f.Signature.Recv().Type()) + "." + f.Name()
	}
	return p + "." + f.Name()
}

func relPkg(p string) string {
	if p == modPath {
		return "."
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func Load(repo, contractDir string) (*Program, error) {
	ov := map[string][]byte{}
	ovFiles := map[string]bool{}
	var walk func(dir, rel string) error
	walk = func(dir, rel string) error {
		es, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range es {
			p := filepath.Join(dir, e.Name())
			if e.IsDir() {
				if err := walk(p, filepath.Join(rel, e.Name())); err != nil {
					return err
				}
				continue
			}
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if strings.Contains(rel, "v2_@") {
				for _, v := range []string{"2_1", "2_2", "2_3"} {
					r := strings.ReplaceAll(rel, "v2_@", "v"+v)
					if _, err := os.Stat(filepath.Join(repo, r)); err != nil {
						continue
					}
					nb, ok := expandVersion(string(b), v)
					if !ok {
						continue
					}
					dst := filepath.Join(repo, r, "zz_verif_at_"+e.Name())
					ov[dst] = []byte(nb)
					ovFiles[dst] = true
				}
				continue
			}
			if rel != "verifspec" {
				if _, err := os.Stat(filepath.Join(repo, rel)); err != nil {
					continue // package gone
				}
			}
			name := "zz_verif_" + e.Name()
			dst := filepath.Join(repo, rel, name)
			ov[dst] = b
			ovFiles[dst] = true
		}
		return nil
	}
	if err := walk(contractDir, ""); err != nil {
		return nil, err
	}
	var dropped []string
	for round := 0; ; round++ {
		P, errs, err := load1(repo, ov, ovFiles)
		if err != nil {
			return nil, err
		}
		if len(errs) == 0 {
			P.dropped = dropped
			P.ov = ov
			return P, nil
		}
		if round > 12 {
			return nil, fmt.Errorf("contracts do not type-check: %v", errs)
		}
		// drop the offending declarations from contract files
		progress := false
		for file, lines := range errs {
			if !ovFiles[file] {
				return nil, fmt.Errorf("repository does not type-check: %s: %v", file, lines)
			}
			nb, ds := dropDecls(file, ov[file], lines)
			if len(ds) > 0 {
				progress = true
			}
			for _, d := range ds {
				dropped = append(dropped, relFile(repo, file)+": "+d)
			}
			ov[file] = nb
		}
		if !progress {
			return nil, fmt.Errorf("contracts do not type-check: %v", errs)
		}
	}
}

func relFile(repo, f string) string {
	r, err := filepath.Rel(repo, f)
	if err != nil {
		return f
	}
	return r
}

// dropDecls blanks the top-level declarations containing the error lines.
func dropDecls(file string, src []byte, errs map[int]string) ([]byte, []string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		return []byte("package " + "x"), []string{"file does not parse: " + err.Error()}
	}
	out := append([]byte{}, src...)
	var ds []string
	blank := func(n ast.Node) {
		a, b := fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset
		for i := a; i < b; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
		hit := ""
		for l, m := range errs {
			if l >= a && l <= b {
				hit = m
			}
		}
		if hit == "" {
			continue
		}
		switch x := d.(type) {
		case *ast.FuncDecl:
			ds = append(ds, x.Name.Name+" ("+hit+")")
			blank(d)
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				for _, sp := range x.Specs {
					l := fs.Position(sp.Pos()).Line
					if m, ok := errs[l]; ok {
						ds = append(ds, "import ("+m+")")
						blank(sp)
					}
				}
				continue
			}
			ds = append(ds, x.Tok.String()+" ("+hit+")")
			blank(d)
		}
	}
	return out, ds
}

func load1(repo string, ov map[string][]byte, ovFiles map[string]bool) (*Program, map[string]map[int]string, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:     repo,
		Fset:    fset,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"),
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	cfg.Env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off")
	pats := []string{"./...", "./verifspec"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	errs := map[string]map[int]string{}
	add := func(file string, line int, msg string) {
		if errs[file] == nil {
			errs[file] = map[int]string{}
		}
		errs[file][line] = msg
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			file, line := splitPos(e.Pos)
			if os.Getenv("GV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, p.PkgPath, e.Pos, e.Msg)
			}
			if strings.Contains(e.Msg, "could not import") && !ovFiles[file] {
				// follows from another package's errors
				continue
			}
			if e.Kind == packages.ListError && file == "" {
				continue
			}
			add(file, line, e.Msg)
		}
	}
	if len(errs) > 0 {
		return nil, errs, nil
	}
	var keep []*packages.Package
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/examples") {
			continue
		}
		keep = append(keep, p)
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].PkgPath < keep[j].PkgPath })
	prog, spkgs := ssautil.Packages(keep, ssa.InstantiateGenerics)
	P := &Program{repo: repo, pkgs: map[string]*packages.Package{}, ssa: prog, ssaPkgs: map[string]*ssa.Package{},
		contracts: map[string]*ssa.Function{}, lemmas: map[string]*ssa.Function{}, overlay: ovFiles, fset: fset, structNm: map[*types.Struct]string{}}
	for i, p := range keep {
		if spkgs[i] == nil {
			return nil, nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.pkgs[relPkg(p.PkgPath)] = p
		P.ssaPkgs[relPkg(p.PkgPath)] = spkgs[i]
		spkgs[i].Build()
	}
	// package-level struct names first
	for _, p := range keep {
		P.regStructs(p.Types)
		for _, im := range p.Types.Imports() {
			P.regStructs(im)
		}
	}
	for rel, sp := range P.ssaPkgs {
		for name, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			switch {
			case strings.HasPrefix(name, "zzc_"):
				t := strings.TrimPrefix(name, "zzc_")
				key := rel + "." + strings.ReplaceAll(t, "__", ".")
				P.contracts[key] = f
			case strings.HasPrefix(name, "zzl_"):
				P.lemmas[rel+"."+name] = f
			}
		}
	}
	return P, nil, nil
}

func (P *Program) regStructs(p *types.Package) {
	for _, n := range p.Scope().Names() {
		tn, ok := p.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if st, ok := tn.Type().Underlying().(*types.Struct); ok {
			if _, ok := P.structNm[st]; !ok {
				P.structNm[st] = shortType(tn.Type())
			}
		}
	}
}

func splitPos(pos string) (string, int) {
	parts := strings.Split(pos, ":")
	if len(parts) < 2 {
		return pos, 0
	}
	n := 0
	fmt.Sscanf(parts[1], "%d", &n)
	return parts[0], n
}

// shortType renders a type with paths relative to the module.
func shortType(t types.Type) string {
	return types.TypeString(unaliasDeep(t), func(p *types.Package) string { return relPkg(p.Path()) })
}

// lookupFunc finds a function or method by key.
func (P *Program) lookupFunc(key string) *ssa.Function {
	for rel, sp := range P.ssaPkgs {
		if !strings.HasPrefix(key, rel+".") {
			continue
		}
		rest := key[len(rel)+1:]
		if i := strings.IndexByte(rest, '.'); i >= 0 {
			tn, mn := rest[:i], rest[i+1:]
			obj, ok := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
			if !ok {
				continue
			}
			for _, t := range []types.Type{obj.Type(), types.NewPointer(obj.Type())} {
				ms := P.ssa.MethodSets.MethodSet(t)
				if sel := ms.Lookup(sp.Pkg, mn); sel != nil {
					f := sel.Obj().(*types.Func)
					if g := P.ssa.FuncValue(f); g != nil {
						return g
					}
				}
			}
			continue
		}
		if strings.Contains(rest, "/") {
			continue
		}
		if f, ok := sp.Members[rest].(*ssa.Function); ok {
			return f
		}
	}
	return nil
}

func (P *Program) isOverlayFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return P.overlay[P.fset.Position(f.Pos()).Filename]
}

// expandVersion instantiates a version-generic contract file: "2_@" becomes the version; lines between
// "//@if 2_2 2_3" and "//@end" (or ending in "//@only ...") are kept for the listed versions only.
func expandVersion(src, v string) (string, bool) {
	var out []string
	keep := []bool{true}
	for _, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "//@file "):
			if !strings.Contains(t, v) {
				return "", false
			}
			l = ""
		case strings.HasPrefix(t, "//@if "):
			keep = append(keep, keep[len(keep)-1] && strings.Contains(t, v))
			l = ""
		case t == "//@end":
			keep = keep[:len(keep)-1]
			l = ""
		case strings.Contains(l, "//@only "):
			if !strings.Contains(l[strings.Index(l, "//@only "):], v) {
				l = ""
			}
		}
		if !keep[len(keep)-1] {
			l = ""
		}
		out = append(out, strings.ReplaceAll(l, "2_@", v))
	}
	return strings.Join(out, "\n"), true
}

func (P *Program) methodsOf(t *ssa.Type) (out []*ssa.Function) {
	if _, ok := t.Type().Underlying().(*types.Interface); ok {
		return nil
	}
	for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := P.ssa.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if f, ok := ms.At(i).Obj().(*types.Func); ok {
				if g := P.ssa.FuncValue(f); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return
}

// unaliasDeep replaces aliases in a type by what they stand for.
func unaliasDeep(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Alias:
		return unaliasDeep(types.Unalias(u))
	case *types.Pointer:
		if e := unaliasDeep(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := unaliasDeep(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := unaliasDeep(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, e := unaliasDeep(u.Key()), unaliasDeep(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	}
	return t
}
