package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ryanolee/go-chaff"
const harnessPkg = modPath + "/zzverif"

func goRoot() string {
	if v := os.Getenv("GOSYM_GOROOT"); v != "" {
		return v
	}
	return "/opt/veriftools/go1.25.14"
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") && !strings.HasPrefix(e, "GOSYM") || strings.HasPrefix(e, "PATH=") {
			continue
		}
		env = append(env, e)
	}
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	return append(env, "PATH="+goRoot()+"/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly",
		"GOWORK=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "CGO_ENABLED=0")
}

// overlayFiles maps virtual paths in the module to files below harnessDir.
func overlayFiles(repo, harnessDir string, withHooks bool) (map[string]string, error) {
	out := map[string]string{}
	add := func(srcDir, dstDir, prefix string) error {
		es, err := os.ReadDir(srcDir)
		if err != nil {
			return nil
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				out[filepath.Join(dstDir, prefix+e.Name())] = filepath.Join(srcDir, e.Name())
			}
		}
		return nil
	}
	if err := add(filepath.Join(harnessDir, "zzverif"), filepath.Join(repo, "zzverif"), ""); err != nil {
		return nil, err
	}
	if withHooks {
		// optional in-package accessors
		es, _ := os.ReadDir(filepath.Join(harnessDir, "hooks"))
		for _, e := range es {
			if e.IsDir() {
				dst := strings.ReplaceAll(e.Name(), "__", "/")
				if dst == "root" {
					dst = ""
				}
				add(filepath.Join(harnessDir, "hooks", e.Name()), filepath.Join(repo, dst), "zz_")
			}
		}
	}
	return out, nil
}

func loadProgram(repo, harnessDir string, withHooks bool) (*Program, []string, error) {
	files, err := overlayFiles(repo, harnessDir, withHooks)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
	}
	for dst, b := range cliCopy(repo) {
		ov[dst] = b
	}
	// the go command prepends PATH itself: packages.Load runs "go" found on PATH
	os.Setenv("PATH", goRoot()+"/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: goEnv(), Overlay: ov, Tests: false}
	pats := []string{"./zzverif"}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, errs, fmt.Errorf("package errors: %s", errs[0])
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	P.withHooks = withHooks
	P.natives = buildNatives()
	return P, nil, nil
}
