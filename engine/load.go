package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Workspace: a private go.work over /repo's modules plus the harness support
// module, so that neither /repo nor its dependency files change.
type Workspace struct {
	repo, verif, tmp string
	gowork           string
}

func newWorkspace(repo, verif string) (*Workspace, error) {
	tmp, err := os.MkdirTemp("", "verif-")
	if err != nil {
		return nil, err
	}
	w := &Workspace{repo: repo, verif: verif, tmp: tmp, gowork: filepath.Join(tmp, "go.work")}
	src, err := os.ReadFile(filepath.Join(repo, "go.work"))
	if err != nil {
		return nil, err
	}
	ver := "1.21.6"
	uses := map[string]bool{}
	inUse := false
	for _, l := range strings.Split(string(src), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "//"); i >= 0 {
			l = strings.TrimSpace(l[:i])
		}
		switch {
		case strings.HasPrefix(l, "go "):
			ver = strings.TrimSpace(l[3:])
		case l == "use (":
			inUse = true
		case l == ")":
			inUse = false
		case strings.HasPrefix(l, "use "):
			uses[filepath.Join(repo, strings.TrimSpace(l[4:]))] = true
		case inUse && l != "":
			uses[filepath.Join(repo, strings.Trim(l, `"`))] = true
		}
	}
	// modules of the repository that its go.work leaves out
	for _, d := range []string{"functions/golang/teamshooter"} {
		if _, err := os.Stat(filepath.Join(repo, d, "go.mod")); err == nil {
			uses[filepath.Join(repo, d)] = true
		}
	}
	uses[filepath.Join(verif, "vsym")] = true
	var b strings.Builder
	fmt.Fprintf(&b, "go %s\n\nuse (\n", ver)
	for _, u := range sortedKeys(uses) {
		fmt.Fprintf(&b, "\t%s\n", u)
	}
	b.WriteString(")\n")
	if err := os.WriteFile(w.gowork, []byte(b.String()), 0o644); err != nil {
		return nil, err
	}
	// core by itself, with the packages its go.mod replaces by copies of its own
	alone := fmt.Sprintf("go %s\n\nuse (\n\t%s\n\t%s\n)\n", ver, filepath.Join(repo, "core"), filepath.Join(verif, "vsym"))
	os.MkdirAll(filepath.Join(tmp, "core"), 0o755)
	if err := os.WriteFile(w.work(true), []byte(alone), 0o644); err != nil {
		return nil, err
	}
	if sum, err := os.ReadFile(filepath.Join(repo, "go.work.sum")); err == nil {
		os.WriteFile(w.gowork+".sum", sum, 0o644)
		os.WriteFile(w.work(true)+".sum", sum, 0o644)
	}
	return w, nil
}

func (w *Workspace) work(alone bool) string {
	if alone {
		return filepath.Join(w.tmp, "core", "go.work")
	}
	return w.gowork
}

func (w *Workspace) Close() { os.RemoveAll(w.tmp) }

func (w *Workspace) env(cgo string, alone bool) []string {
	var out []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOWORK", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "CGO_ENABLED", "GOOS", "GOARCH":
			continue
		}
		out = append(out, e)
	}
	out = append(out, "GOWORK="+w.work(alone), "GOFLAGS=-buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED="+cgo)
	if os.Getenv("HOME") == "" {
		out = append(out, "HOME=/root")
	}
	return out
}

func harnessPath(repo, rel string) string { return filepath.Join(repo, rel) }

// load type-checks the package under test with the harness files laid over it
// and builds SSA for the whole program.
func (w *Workspace) load(r *RunSpec) (*ssa.Program, *ssa.Package, map[string]*ssa.Function, error) {
	ov := map[string][]byte{}
	for _, f := range r.Files {
		b, err := os.ReadFile(filepath.Join(w.verif, "harness", f))
		if err != nil {
			return nil, nil, nil, err
		}
		ov[filepath.Join(w.repo, f)] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(w.repo, r.Mod), Env: w.env("0", r.Alone), Overlay: ov}
	pkgs, err := packages.Load(cfg, r.Pkg, "verif/vsym/models")
	if err != nil {
		return nil, nil, nil, err
	}
	var errs bytes.Buffer
	n := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if n < 12 {
				fmt.Fprintln(&errs, e)
			}
			n++
		}
	})
	if n > 0 {
		return nil, nil, nil, fmt.Errorf("loading %s:\n%s", r.Pkg, errs.String())
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	vm := map[string]*ssa.Function{}
	var root *ssa.Package
	collect := func(p *ssa.Package) {
		for name, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "VM_") {
				vm[name] = f
			}
		}
	}
	for i, p := range pkgs {
		if p.PkgPath == "verif/vsym/models" && spkgs[i] != nil {
			collect(spkgs[i])
		}
	}
	for i, p := range pkgs {
		if p.PkgPath == r.Pkg {
			root = spkgs[i]
			collect(root)
		}
	}
	if root == nil {
		return nil, nil, nil, fmt.Errorf("package %s not found", r.Pkg)
	}
	return prog, root, vm, nil
}

func runCmd(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	out, err := c.CombinedOutput()
	return string(out), err
}
