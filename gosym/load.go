package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/matrix-org/sliding-sync"

var repoDir = "/repo"

type Program struct {
	Fset        *token.FileSet
	prog        *ssa.Program
	pkgs        []*ssa.Package
	byPath      map[string]*ssa.Package
	runtimeErrT types.Type
	seen        sync.Map
	buildMu     sync.Mutex
	methMu      sync.Mutex
	methCache   map[methKey]*ssa.Function
}

type methKey struct {
	t types.Type
	n string
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	return append(env, "PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT=/opt/veriftools/go1.23.12", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTELEMETRY=off")
}

func loadProgram(overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoModule) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("harness or repository does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: sp, Fset: prog.Fset, byPath: map[string]*ssa.Package{}, methCache: map[methKey]*ssa.Function{}}
	for _, q := range prog.AllPackages() {
		p.byPath[q.Pkg.Path()] = q
	}
	for path, q := range p.byPath {
		if strings.HasPrefix(path, repoModule) {
			q.Build()
		}
	}
	p.runtimeErrT = types.Typ[types.String]
	return p, nil
}

func (p *Program) funcSeen(fn *ssa.Function) bool {
	_, loaded := p.seen.LoadOrStore(fn, true)
	return !loaded
}

// ensureBuilt builds the function's package. (Looking at the function without the lock would race
// with another worker which is building it.)
func (p *Program) ensureBuilt(fn *ssa.Function) {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil {
		return
	}
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	pkg.Build()
}

func (p *Program) isRepo(q *ssa.Package) bool { return strings.HasPrefix(q.Pkg.Path(), repoModule) }

func (p *Program) noInit(q *ssa.Package) bool {
	if p.noopPkg(q.Pkg) {
		return true
	}
	switch q.Pkg.Path() {
	case "time", "os", "runtime", "syscall", "reflect", "net", "net/http", "fmt", "unicode", "encoding/json", "strconv", "golang.org/x/net/http2":
		return true
	}
	return false
}

var noopPrefixes = []string{
	"github.com/rs/zerolog", "github.com/getsentry/sentry-go", "github.com/prometheus/", "go.opentelemetry.io/",
	"runtime/trace", "runtime/debug", "log", "os", "runtime", "internal/godebug", "net/http/pprof", "github.com/gorilla/", "github.com/pressly/goose",
}

func (p *Program) noopPkg(q *types.Package) bool {
	if q == nil {
		return false
	}
	path := q.Path()
	for _, x := range noopPrefixes {
		if path == x || strings.HasPrefix(path, x+"/") || (strings.HasSuffix(x, "/") && strings.HasPrefix(path, x)) {
			return true
		}
	}
	return false
}

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	p.methMu.Lock()
	defer p.methMu.Unlock()
	k := methKey{t, meth.Id()}
	if f, ok := p.methCache[k]; ok {
		return f
	}
	f := p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	p.methCache[k] = f
	return f
}

// typeNamed finds a named type by package path and name.
func (p *Program) typeNamed(pkg, name string) types.Type {
	q := p.byPath[pkg]
	if q == nil {
		return nil
	}
	o := q.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) lookupIntrinsic(fn *ssa.Function) (intrinsic, bool) {
	key := fnKey(fn)
	if i, ok := intrinsics[key]; ok {
		return i, false
	}
	if fn.Pkg != nil && p.isRepo(fn.Pkg) && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if i, ok := harnessIntrinsics[fn.Name()]; ok {
			return i, false
		}
	}
	if n, ok := natives[key]; ok {
		return nativeIntrinsic(key, n), false
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Signature.Recv() != nil {
		// wrappers of stubbed types
		if o := fn.Object(); o != nil {
			pkg = o.Pkg()
		}
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg
	}
	if p.noopPkg(pkg) {
		return nil, true
	}
	return nil, false
}
