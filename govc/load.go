package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/SKAARHOJ/rawpanel-lib"
const suPath = "github.com/SKAARHOJ/ibeam-lib-utils"

var verifDir = envOr("GOVC_VERIF", "/verif")
var repoDir = envOr("GOVC_REPO", "/repo") // another tree only for trying planted bugs out

type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package
	TPkgs map[string]*types.Package
}

// overlayFiles: spec files of /verif/specs/<pkg>/*.go appear inside the package directories of /repo.
func overlayFiles() map[string][]byte {
	ov := map[string][]byte{}
	dirs := map[string]string{"root": "", "monogfx": "ibeam_lib_monogfx", "topology": "topology", "gorwp": "gorwp"}
	for d, rel := range dirs {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "specs", d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err == nil {
				ov[filepath.Join(repoDir, rel, "zz_verif_"+filepath.Base(f))] = b
			}
		}
	}
	return ov
}

func loadProgram(pats []string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir:     repoDir,
		Overlay: overlayFiles(),
		Env:     goEnv(),
	}
	// NeedDeps+NeedSyntax would type-check all dependencies from source; only roots get syntax here.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BareInits&0)
	prog.Build()
	out := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*types.Package{}}
	if len(pkgs) > 0 {
		out.Fset = pkgs[0].Fset
	}
	for i, sp := range spkgs {
		if sp != nil {
			out.Pkgs[pkgs[i].PkgPath] = sp
			out.TPkgs[pkgs[i].PkgPath] = pkgs[i].Types
		}
	}
	return out, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") && !strings.HasPrefix(e, "GOVC") {
			continue
		}
		if strings.HasPrefix(e, "HOME=") || strings.HasPrefix(e, "PATH=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod -buildvcs=false", "CGO_ENABLED=1",
		"GOCACHE=/root/.cache/go-build", "GOMODCACHE=/root/go/pkg/mod")
}

func envOr(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}
