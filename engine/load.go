package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goBin = "/opt/veriftools/go1.23.12/bin"

var repoDir = "/repo"
var verifDir = "/verif"

func goEnv() []string {
	var env []string
	path := os.Getenv("PATH")
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GO111MODULE", "GOWORK", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH="+goBin+":"+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly -buildvcs=false", "CGO_ENABLED=1", "GOWORK=off")
}

// overlayFiles maps paths inside the repository to harness files.
func overlayFiles() map[string]string {
	r := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			r[filepath.Join(repoDir, "zzverif", rel)] = p
		}
		return nil
	})
	return r
}

func harnessPkgs() []string {
	m := map[string]bool{}
	for p := range overlayFiles() {
		d := filepath.Base(filepath.Dir(p))
		if strings.HasPrefix(d, "h") {
			m[d] = true
		}
	}
	return sortedKeys(m)
}

func load(pkgs ...string) (*Program, error) {
	over := map[string][]byte{}
	for p, f := range overlayFiles() {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		over[p] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Env:     goEnv(),
		Overlay: over,
	}
	pats := []string{"github.com/libregraph/idm/zzverif/model"}
	for _, p := range pkgs {
		pats = append(pats, "github.com/libregraph/idm/zzverif/"+p)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, globals: map[*ssa.Global]int{}, models: map[string]*ssa.Function{}, opaque: map[string]bool{}, repoPfx: "github.com/libregraph/idm"}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		for _, o := range opaquePkgs {
			if path == o || strings.HasPrefix(path, o+"/") && o != "log" {
				p.opaque[path] = true
			}
		}
		if path == symPath {
			p.symPkg = sp
			p.rtErrT = sp.Type("RuntimeError").Type()
		}
	}
	// models: "//verif:model <name>" above a function of the model package
	packages.Visit(initial, nil, func(lp *packages.Package) {
		if lp.PkgPath != modelPath {
			return
		}
		sp := prog.Package(lp.Types)
		for _, f := range lp.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if n, ok := strings.CutPrefix(c.Text, "//verif:model "); ok {
						p.models[strings.TrimSpace(n)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
	if p.symPkg == nil || p.rtErrT == nil {
		return nil, fmt.Errorf("sym package not found")
	}
	p.types = map[string]types.Type{}
	return p, nil
}

// entry finds a harness function "hpkg.Func".
func (p *Program) entry(name string) (*ssa.Function, error) {
	pk, fn, ok := strings.Cut(name, ".")
	if !ok {
		return nil, fmt.Errorf("bad entry %q", name)
	}
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == "github.com/libregraph/idm/zzverif/"+pk {
			if f := sp.Func(fn); f != nil {
				return f, nil
			}
		}
	}
	return nil, fmt.Errorf("no entry %q", name)
}

// writeOverlay produces the go build overlay for the native runner.
func writeOverlay(dir string, pkgs []string, fns map[string][]string, extra map[string]string) (string, error) {
	rep := overlayFiles()
	for k := range rep {
		if filepath.Base(filepath.Dir(k)) == "model" {
			delete(rep, k)
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"github.com/libregraph/idm/zzverif/sym\"\n")
	for _, p := range pkgs {
		fmt.Fprintf(&sb, "\t%q\n", "github.com/libregraph/idm/zzverif/"+p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, p := range pkgs {
		fs := fns[p]
		sort.Strings(fs)
		for _, f := range fs {
			fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", p+"."+f, p, f)
		}
	}
	sb.WriteString("\t})\n}\n")
	mainF := filepath.Join(dir, "runner_main.go")
	if err := os.WriteFile(mainF, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(repoDir, "zzverif/runner/main.go")] = mainF
	for k, v := range extra {
		rep[k] = v
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	return of, os.WriteFile(of, b, 0o644)
}

// harnessFuncs lists the niladic exported functions of a harness package.
func (p *Program) harnessFuncs(pkg string) []string {
	var r []string
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == "github.com/libregraph/idm/zzverif/"+pkg {
			for n, m := range sp.Members {
				f, ok := m.(*ssa.Function)
				if ok && ast.IsExported(n) && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
					r = append(r, n)
				}
			}
		}
	}
	sort.Strings(r)
	return r
}
