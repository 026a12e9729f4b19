package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

// Entry is one harness entry point.
type Entry struct {
	Name     string   `json:"name"`
	Loop     int      `json:"loop"`
	MapOrder string   `json:"map_order"`
	MapPerms int      `json:"map_perms"`
	SQLOrder string   `json:"sql_order"` // order of rows the query leaves open: insertion | reverse | any
	SQLPerms int      `json:"sql_perms"`
	Preempt  int      `json:"preempt"`
	Sched    string   `json:"sched"`
	Depth    int      `json:"depth"`
	MaxPaths int      `json:"max_paths"`
	Tiers    []string `json:"tiers"`
	Covers   []string `json:"covers"` // labels that must be reachable (vacuity)
	NoMerge  bool     `json:"no_merge"`
	Bounds   string   `json:"bounds"`
	NoReplay bool     `json:"no_native_replay"` // schedule-dependent: replayed in the engine only
}

type Replace struct {
	File  string `json:"file"`
	Func  string `json:"func"`
	Model string `json:"model"`
}

type Group struct {
	Pkg     string    `json:"pkg"` // directory under /repo
	Files   []string  `json:"files"`
	Entries []Entry   `json:"entries"`
	Replace []Replace `json:"replace"`
	DB      bool      `json:"db"` // the harness uses the database model
}

type Prop struct {
	ID          string   `json:"id"`
	Groups      []Group  `json:"groups"`
	Assumptions []string `json:"assumptions"`
}

func loadProp(id string) (*Prop, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", id+".json"))
	if err != nil {
		return nil, err
	}
	var p Prop
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, fmt.Errorf("%s.json: %w", id, err)
	}
	p.ID = id
	return &p, nil
}

func pkgNameOf(dir string) (string, error) {
	ents, err := os.ReadDir(filepath.Join(repoDir, dir))
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(repoDir, dir, e.Name()), nil, parser.PackageClauseOnly)
			if err == nil {
				return f.Name.Name, nil
			}
		}
	}
	return "", fmt.Errorf("no go files in %s", dir)
}

// overlayFor builds the overlay (absolute path -> content) of a group.
func overlayFor(g *Group) (map[string][]byte, error) {
	ov := map[string][]byte{}
	name, err := pkgNameOf(g.Pkg)
	if err != nil {
		return nil, err
	}
	rt, err := os.ReadFile(filepath.Join(verifDir, "harness", "rt.go.tmpl"))
	if err != nil {
		return nil, err
	}
	dir := filepath.Join(repoDir, g.Pkg)
	ov[filepath.Join(dir, "zz_verif_rt.go")] = bytes.Replace(rt, []byte("PKGNAME"), []byte(name), 1)
	for _, f := range g.Files {
		b, err := os.ReadFile(filepath.Join(verifDir, "harness", f))
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(dir, "zz_verif_"+filepath.Base(f))] = b
	}
	if g.DB {
		b, err := os.ReadFile(filepath.Join(verifDir, "harness", "db.go.tmpl"))
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(dir, "zz_verif_db.go")] = bytes.Replace(b, []byte("PKGNAME"), []byte(name), 1)
	}
	byFile := map[string][]Replace{}
	for _, r := range g.Replace {
		file, err := findFunc(filepath.Dir(r.File), r.Func)
		if err != nil {
			return nil, err
		}
		byFile[file] = append(byFile[file], r)
	}
	for f, rs := range byFile {
		b, err := rewriteFuncs(filepath.Join(repoDir, f), rs)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repoDir, f)] = b
	}
	return ov, nil
}

// rewriteFuncs makes environment functions call harness models: the original declaration is renamed
// (so the file still compiles) and a new one, which calls the model or a hook variable, is appended.
func rewriteFuncs(path string, rs []Replace) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	type edit struct {
		at  int
		ins string
	}
	var edits []edit
	var tail bytes.Buffer
	for _, r := range rs {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || declName(fd) != r.Func {
				continue
			}
			edits = append(edits, edit{off(fd.Name.End()), "__orig"})
			var args, params, recv []string
			k := 0
			add := func(fl *ast.FieldList, out *[]string) {
				if fl == nil {
					return
				}
				for _, p := range fl.List {
					ty := string(src[off(p.Type.Pos()):off(p.Type.End())])
					n := len(p.Names)
					if n == 0 {
						n = 1
					}
					for i := 0; i < n; i++ {
						nm := fmt.Sprintf("vp%d", k)
						k++
						*out = append(*out, nm+" "+ty)
						if strings.HasPrefix(ty, "...") {
							nm += "..."
						}
						args = append(args, nm)
					}
				}
			}
			add(fd.Recv, &recv)
			add(fd.Type.Params, &params)
			res := ""
			if fd.Type.Results != nil {
				res = string(src[off(fd.Type.Results.Pos()):off(fd.Type.Results.End())])
			}
			model := r.Model
			if model == "" {
				model = hookName(r.Func)
				fmt.Fprintf(&tail, "\n// set by the harness\nvar %s func(%s) %s\n", model, strings.Join(append(append([]string{}, recv...), params...), ", "), res)
			}
			ret := "return "
			if res == "" {
				ret = ""
			}
			rc := ""
			if len(recv) > 0 {
				rc = "(" + recv[0] + ") "
			}
			fmt.Fprintf(&tail, "\nfunc %s%s(%s) %s {\n\t%s%s(%s)\n}\n", rc, fd.Name.Name, strings.Join(params, ", "), res, ret, model, strings.Join(args, ", "))
		}
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
	out := string(src)
	for _, e := range edits {
		out = out[:e.at] + e.ins + out[e.at:]
	}
	return append([]byte(out), tail.Bytes()...), nil
}

// hookName: (*Storage).Foo -> VHookStorageFoo
func hookName(fn string) string {
	return "VHook" + strings.NewReplacer("(", "", ")", "", "*", "", ".", "").Replace(fn)
}

// findFunc finds the file of package directory dir which declares fn; a refactoring may have moved it.
func findFunc(dir, fn string) (string, error) {
	ents, err := os.ReadDir(filepath.Join(repoDir, dir))
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(repoDir, dir, e.Name()), nil, 0)
		if err != nil {
			return "", err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && declName(fd) == fn {
				return filepath.Join(dir, e.Name()), nil
			}
		}
	}
	return "", fmt.Errorf("environment function %s not found in %s", fn, dir)
}

func declName(fd *ast.FuncDecl) string {
	n := fd.Name.Name
	if fd.Recv != nil {
		t := fd.Recv.List[0].Type
		ptr := false
		if s, ok := t.(*ast.StarExpr); ok {
			t, ptr = s.X, true
		}
		tn := "?"
		switch t := t.(type) {
		case *ast.Ident:
			tn = t.Name
		case *ast.IndexExpr:
			if id, ok := t.X.(*ast.Ident); ok {
				tn = id.Name
			}
		}
		if ptr {
			return "(*" + tn + ")." + n
		}
		return tn + "." + n
	}
	return n
}

type EntryResult struct {
	Entry    string         `json:"entry"`
	Pkg      string         `json:"package"`
	Bounds   string         `json:"bounds"`
	Paths    int            `json:"paths"`
	Ended    map[string]int `json:"paths_by_end"`
	Steps    int            `json:"instructions_executed"`
	Asserts  int            `json:"assertions_evaluated"`
	Queries  int            `json:"solver_queries"`
	Sat      int            `json:"sat"`
	Unsat    int            `json:"unsat"`
	SolverS  float64        `json:"solver_seconds"`
	WallS    float64        `json:"wall_seconds"`
	MaxPC    int            `json:"max_path_condition"`
	Loop     int            `json:"loop_unwind"`
	Cover    map[string]int `json:"reachability_witnesses"`
	Funcs    []string       `json:"functions_encoded"`
	Viols    []Violation    `json:"-"`
	Fails    []string       `json:"inconclusive,omitempty"`
	Replayed int            `json:"native_replays"`
	Samples  []Sample       `json:"-"`
}

func exploreEntry(prog *Program, g *Group, en *Entry, tier string, workers int, budget time.Duration, trace bool) *EntryResult {
	path := repoModule + "/" + g.Pkg
	sp := prog.byPath[path]
	res := &EntryResult{Entry: en.Name, Pkg: g.Pkg, Bounds: en.Bounds}
	if sp == nil || sp.Func(en.Name) == nil {
		res.Fails = []string{"entry not found: " + en.Name}
		return res
	}
	cfg := &Config{Loop: en.Loop, Depth: en.Depth, Steps: 3_000_000, MaxPaths: en.MaxPaths, MapOrder: en.MapOrder, MapPermLimit: en.MapPerms,
		Preempt: en.Preempt, FixedSched: en.Sched == "fixed", SolverPath: solverPath(), TimeoutMs: 60000, Workers: workers, Budget: budget, Trace: trace, NoMerge: en.NoMerge}
	if cfg.Loop == 0 {
		cfg.Loop = 200
	}
	if cfg.Depth == 0 {
		cfg.Depth = 200
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 3_000_000
	}
	if cfg.MapOrder == "" {
		cfg.MapOrder = "insertion"
	}
	if cfg.MapPermLimit == 0 {
		cfg.MapPermLimit = 1000
	}
	cfg.SQLOrder, cfg.SQLPermLimit = en.SQLOrder, en.SQLPerms
	if cfg.SQLOrder == "" {
		cfg.SQLOrder = "insertion"
	}
	if cfg.SQLPermLimit == 0 {
		cfg.SQLPermLimit = 1000
	}
	if tier == "thorough" {
		cfg.Tier = 1
	}
	e := &Engine{prog: prog, cfg: cfg, entry: sp.Func(en.Name)}
	prog.resetSeen()
	t0 := time.Now()
	e.Run()
	res.WallS = time.Since(t0).Seconds()
	res.Paths, res.Ended, res.Steps, res.Asserts = e.Paths, e.Ended, e.Steps, e.Asserts
	res.Queries, res.Sat, res.Unsat, res.SolverS = e.Queries, e.NSat, e.NUnsat, e.SolverT.Seconds()
	res.MaxPC, res.Loop, res.Cover = e.maxPC, cfg.Loop, e.Cover
	for _, f := range sortedKeys(e.Funcs) {
		if !strings.Contains(f, ".vM") && !strings.Contains(f, "/vH") {
			res.Funcs = append(res.Funcs, strings.ReplaceAll(f, repoModule+"/", ""))
		}
	}
	res.Viols = e.viols
	res.Samples = e.Samples
	for _, f := range e.fails {
		res.Fails = append(res.Fails, f)
	}
	for _, c := range en.Covers {
		if e.Cover[c] == 0 && len(e.viols) == 0 {
			res.Fails = append(res.Fails, "vacuity: witness not reachable: "+c)
		}
	}
	return res
}

func (p *Program) resetSeen() {
	p.seen.Range(func(k, v any) bool { p.seen.Delete(k); return true })
}

func solverPath() string {
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		return s
	}
	for _, c := range []string{"/usr/bin/z3", "/usr/local/bin/z3-new"} {
		if _, err := os.Stat(c); err == nil {
			return c
		}
	}
	return "z3"
}

type replayFile struct {
	Property string     `json:"property"`
	Pkg      string     `json:"pkg"`
	Entry    string     `json:"entry"`
	Tier     int        `json:"tier"`
	Label    string     `json:"label"`
	Where    string     `json:"where"`
	Inputs   []InputVal `json:"inputs"`
	Native   string     `json:"native_result"`
}

// nativeRunner compiles the harness natively and runs it on recorded inputs.
type nativeRunner struct {
	dir string
	bin string
	pg  string // socket directory of the throwaway PostgreSQL, "" if none
}

func buildNative(g *Group) (*nativeRunner, error) {
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return nil, err
	}
	nr := &nativeRunner{dir: dir, bin: filepath.Join(dir, "run")}
	ov, err := overlayFor(g)
	if err != nil {
		nr.close()
		return nil, err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\tp \"" + repoModule + "/" + g.Pkg + "\"\n)\n\n")
	sb.WriteString("type req struct {\n\tEntry string\n\tTier int\n\tInputs []p.VerifInput\n}\n\nfunc main() {\n\tsc := bufio.NewReader(os.Stdin)\n\tdec := json.NewDecoder(sc)\n\tout := json.NewEncoder(os.NewFile(3, \"out\"))\n\tfor {\n\t\tvar r req\n\t\tif err := dec.Decode(&r); err != nil {\n\t\t\treturn\n\t\t}\n\t\tvar f func()\n\t\tswitch r.Entry {\n")
	for _, e := range g.Entries {
		fmt.Fprintf(&sb, "\t\tcase %q:\n\t\t\tf = p.VerifEntry_%s\n", e.Name, e.Name)
	}
	sb.WriteString("\t\tdefault:\n\t\t\tfmt.Println(\"no entry\")\n\t\t\tos.Exit(3)\n\t\t}\n\t\tlabel, covers := p.VerifRun(f, r.Tier, r.Inputs)\n\t\tout.Encode(map[string]any{\"label\": label, \"covers\": covers})\n\t}\n}\n")
	ov[filepath.Join(repoDir, "cmd", "zzverif", "main.go")] = []byte(sb.String())
	name, _ := pkgNameOf(g.Pkg)
	var ex strings.Builder
	ex.WriteString("package " + name + "\n\n")
	for _, e := range g.Entries {
		fmt.Fprintf(&ex, "func VerifEntry_%s() { %s() }\n", e.Name, e.Name)
	}
	ov[filepath.Join(repoDir, g.Pkg, "zz_verif_entries.go")] = []byte(ex.String())
	rep := map[string]string{}
	i := 0
	for p, b := range ov {
		fn := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		i++
		if err := os.WriteFile(fn, b, 0o644); err != nil {
			nr.close()
			return nil, err
		}
		rep[p] = fn
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", "build", "-overlay", of, "-o", nr.bin, "./cmd/zzverif")
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	out, err := cmd.CombinedOutput()
	if err != nil {
		nr.close()
		return nil, fmt.Errorf("native build failed: %v\n%s", err, out)
	}
	if g.DB {
		if err := nr.startPG(); err != nil {
			nr.close()
			return nil, err
		}
	}
	return nr, nil
}

func (n *nativeRunner) close() {
	n.stopPG()
	os.RemoveAll(n.dir)
}

func pgBin() string {
	l, _ := filepath.Glob("/usr/lib/postgresql/*/bin")
	if len(l) == 0 {
		return ""
	}
	return l[len(l)-1]
}

func asPG(args ...string) *exec.Cmd {
	cmd := exec.Command("setpriv", append([]string{"--reuid=postgres", "--regid=postgres", "--init-groups"}, args...)...)
	cmd.Dir = "/"
	return cmd
}

// startPG starts a throwaway PostgreSQL, reachable only through a socket in the runner's directory.
func (n *nativeRunner) startPG() error {
	bin := pgBin()
	d := filepath.Join(n.dir, "pg")
	os.Chmod(n.dir, 0o755)
	if err := os.Mkdir(d, 0o755); err != nil {
		return err
	}
	if out, err := exec.Command("chown", "postgres:", d).CombinedOutput(); err != nil {
		return fmt.Errorf("chown: %v %s", err, out)
	}
	if out, err := asPG(bin+"/initdb", "-D", d+"/data", "-U", "postgres", "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync").CombinedOutput(); err != nil {
		return fmt.Errorf("initdb: %v %s", err, out)
	}
	if err := asPG(bin+"/pg_ctl", "-D", d+"/data", "-l", d+"/server.log", "-w", "-t", "60", "-o",
		"-k "+d+" -c listen_addresses= -c fsync=off -c synchronous_commit=off -c full_page_writes=off", "start").Run(); err != nil {
		return fmt.Errorf("pg_ctl start: %v", err)
	}
	n.pg = d
	if out, err := exec.Command(bin+"/createdb", "-h", d, "-U", "postgres", "syncv3").CombinedOutput(); err != nil {
		return fmt.Errorf("createdb: %v %s", err, out)
	}
	return nil
}

func (n *nativeRunner) stopPG() {
	if n.pg != "" {
		asPG(pgBin()+"/pg_ctl", "-D", n.pg+"/data", "-m", "immediate", "-w", "stop").Run()
		n.pg = ""
	}
}

// run executes one input vector; "" = no assertion failed.
func (n *nativeRunner) run(entry string, tier int, ins []InputVal) (label string, covers []string, err error) {
	r, w, err := os.Pipe()
	if err != nil {
		return "", nil, err
	}
	cmd := exec.Command(n.bin)
	cmd.Dir = n.dir
	if n.pg != "" {
		cmd.Env = append(os.Environ(), "VERIF_PGHOST="+n.pg)
	}
	req, _ := json.Marshal(map[string]any{"Entry": entry, "Tier": tier, "Inputs": ins})
	cmd.Stdin = bytes.NewReader(req)
	cmd.ExtraFiles = []*os.File{w}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return "", nil, err
	}
	w.Close()
	done := make(chan error, 1)
	var out struct {
		Label  string
		Covers []string
	}
	got := make(chan bool, 1)
	go func() {
		got <- json.NewDecoder(r).Decode(&out) == nil
	}()
	go func() { done <- cmd.Wait() }()
	select {
	case e := <-done:
		ok := <-got
		r.Close()
		if !ok {
			s := errb.String()
			if len(s) > 4000 {
				s = s[:4000]
			}
			if i := strings.Index(s, "goroutine stack exceeds"); i >= 0 {
				return "panic: stack overflow", nil, nil
			}
			if strings.Contains(s, "fatal error: all goroutines are asleep") {
				return "deadlock", nil, nil
			}
			for _, l := range strings.Split(s, "\n") {
				// a goroutine of the harness or of the code under test ended the process
				if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
					if strings.Contains(l, "vAssumeFail") {
						return "ASSUME-FALSE", nil, nil
					}
					return l, nil, nil
				}
			}
			return "", nil, fmt.Errorf("native run failed: %v %s", e, s)
		}
		return out.Label, out.Covers, nil
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		<-done
		r.Close()
		return "HANG (20s)", nil, nil
	}
}

type knownFinding struct{ prop, match, text string }

// known findings: lines "known: property=<id> match=<substring of the violation label> <text>"
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := knownFinding{text: strings.TrimPrefix(l, "known: ")}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "match=") {
				k.match = f[6:]
			}
		}
		out = append(out, k)
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	p, err := loadProp(rf.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for i := range p.Groups {
		g := &p.Groups[i]
		if g.Pkg != rf.Pkg {
			continue
		}
		for _, en := range g.Entries {
			if en.Name != rf.Entry {
				continue
			}
			nr, err := buildNative(g)
			if err != nil {
				fmt.Println(err)
				return 2
			}
			defer nr.close()
			l, _, err := nr.run(rf.Entry, rf.Tier, rf.Inputs)
			if err != nil {
				fmt.Println(err)
				return 2
			}
			if l == "" {
				fmt.Println("not reproduced")
				return 0
			}
			fmt.Println("reproduced on the real code:", l)
			return 1
		}
	}
	return 2
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	only := fs.String("entry", "", "only this entry")
	workers := fs.Int("j", runtime.NumCPU(), "")
	budget := fs.Int("budget", 0, "seconds per entry")
	trace := fs.Bool("trace", false, "")
	prof := fs.String("prof", "", "")
	noEv := fs.Bool("noevidence", false, "")
	crossv := fs.Int("cross", -1, "number of path samples re-executed natively per entry")
	id := args[0]
	fs.Parse(args[1:])
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := loadProp(id)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if *budget == 0 {
		*budget = 700
		if *tier == "thorough" {
			*budget = 3000
		}
	}
	if *crossv < 0 {
		*crossv = 4
		if *tier == "thorough" {
			*crossv = 60
		}
	}
	ntier := 0
	if *tier == "thorough" {
		ntier = 1
	}
	known := loadKnown()
	var results []*EntryResult
	status := 0
	nviol := 0
	knownHit := map[string]bool{}
	outDir := filepath.Join(verifDir, "out")
	type vrec struct{ label, path string }
	var vrecs []vrec
	for gi := range p.Groups {
		g := &p.Groups[gi]
		run := false
		for _, en := range g.Entries {
			if (*only == "" || *only == en.Name) && tierOK(en.Tiers, *tier) {
				run = true
			}
		}
		if !run {
			continue
		}
		ov, err := overlayFor(g)
		if err != nil {
			fmt.Println("INCONCLUSIVE", err)
			return 2
		}
		prog, err := loadProgram(ov, "./"+g.Pkg)
		if err != nil {
			fmt.Println("INCONCLUSIVE", err)
			return 2
		}
		var nr *nativeRunner
		native := func() *nativeRunner {
			if nr == nil {
				nr, err = buildNative(g)
				if err != nil {
					fmt.Println("native build:", err)
				}
			}
			return nr
		}
		for ei := range g.Entries {
			en := &g.Entries[ei]
			if *only != "" && *only != en.Name || !tierOK(en.Tiers, *tier) {
				continue
			}
			left := time.Duration(*budget)*time.Second - time.Since(t0)
			r := exploreEntry(prog, g, en, *tier, *workers, left, *trace)
			results = append(results, r)
			fmt.Printf("%s %s/%s: paths=%d %v queries=%d (sat %d, unsat %d) solver=%.1fs wall=%.1fs covers=%v viols=%d\n", id, g.Pkg, en.Name, r.Paths, r.Ended, r.Queries, r.Sat, r.Unsat, r.SolverS, r.WallS, r.Cover, len(r.Viols))
			// confirm violations natively
			confirmed := map[string]bool{}
			tried := map[string]int{}
			unconf := map[string]string{}
			for vi, v := range r.Viols {
				key := labelKey(v.Label)
				if confirmed[key] || tried[key] >= 6 {
					continue
				}
				tried[key]++
				nat := ""
				if en.NoReplay {
					nat = "(schedule-dependent; engine trace only)"
				} else if n := native(); n != nil {
					for k := 0; k < 5; k++ { // map iteration order may matter natively
						l, _, err := n.run(en.Name, ntier, v.Inputs)
						r.Replayed++
						if err != nil {
							fmt.Println("replay error:", err)
							unconf[key] = v.Label + " (replay error)"
							break
						}
						if l != "" && l != "ASSUME-FALSE" {
							nat = l
							break
						}
						if k == 0 {
							unconf[key] = fmt.Sprintf("%s (native said %q; inputs %v; at %s)", v.Label, l, v.Inputs, v.Where)
						}
					}
				} else {
					unconf[key] = v.Label + " (no native build)"
				}
				if nat == "" {
					continue
				}
				confirmed[key] = true
				delete(unconf, key)
				isKnown := false
				for _, k := range known {
					if k.prop == id && strings.Contains(key, k.match) {
						isKnown = true
						if !knownHit[k.text] {
							knownHit[k.text] = true
							fmt.Println("KNOWN-FINDING:", k.text)
						}
					}
				}
				if isKnown {
					continue
				}
				os.MkdirAll(outDir, 0o755)
				rp := filepath.Join(outDir, fmt.Sprintf("replay-%s-%s-%d.json", id, en.Name, vi))
				rb, _ := json.MarshalIndent(replayFile{id, g.Pkg, en.Name, ntier, v.Label, v.Where, v.Inputs, nat}, "", " ")
				os.WriteFile(rp, rb, 0o644)
				fmt.Printf("  violated: %s\n  at: %s\n  native: %s\n  inputs: %v\n", v.Label, v.Where, nat, fmtInputs(v.Inputs))
				vrecs = append(vrecs, vrec{v.Label, rp})
				nviol++
			}
			for k, s := range unconf {
				if !confirmed[k] {
					r.Fails = append(r.Fails, "counterexample not reproduced natively: "+s)
				}
			}
			// translator validation: paths' models re-executed natively must agree
			if *crossv > 0 && len(r.Viols) == 0 && !en.NoReplay && en.MapOrder != "any" {
				if n := native(); n != nil {
					for k, s := range r.Samples {
						if k >= *crossv {
							break
						}
						l, cov, err := n.run(en.Name, ntier, s.Inputs)
						r.Replayed++
						if err != nil || l != "" || strings.Join(cov, ",") != strings.Join(s.Covers, ",") {
							r.Fails = append(r.Fails, fmt.Sprintf("translator validation mismatch: native label=%q covers=%v engine covers=%v err=%v inputs=%v", l, cov, s.Covers, err, fmtInputs(s.Inputs)))
							break
						}
					}
				}
			}
			for i, f := range r.Fails {
				if i >= 4 {
					fmt.Printf("  ... and %d more\n", len(r.Fails)-i)
					break
				}
				fmt.Println("  INCONCLUSIVE:", f)
			}
		}
		if nr != nil {
			nr.close()
		}
	}
	wall := time.Since(t0).Seconds()
	incon := 0
	for _, r := range results {
		incon += len(r.Fails)
	}
	if !*noEv && *only == "" {
		writeEvidence(p, *tier, results, wall, nviol, knownHit)
	}
	if nviol > 0 {
		for _, v := range vrecs {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.path)
		}
		status = 1
	} else if incon > 0 {
		status = 2
	} else {
		fmt.Printf("%s holds on everything explored (%.1fs)\n", id, wall)
	}
	return status
}

func labelKey(l string) string {
	if i := strings.Index(l, " at "); i > 0 && strings.HasPrefix(l, "panic:") {
		// keep function of the panic site, drop the rest of the stack
		s := l[i+4:]
		if j := strings.Index(s, " < "); j > 0 {
			s = s[:j]
		}
		return l[:i] + " at " + s
	}
	return l
}

func fmtInputs(ins []InputVal) string {
	var l []string
	for _, i := range ins {
		if i.Kind == "str" {
			l = append(l, fmt.Sprintf("%s=%q", i.Name, i.Str))
		} else {
			l = append(l, fmt.Sprintf("%s=%d", i.Name, i.Int))
		}
	}
	return strings.Join(l, " ")
}

func tierOK(ts []string, tier string) bool {
	if len(ts) == 0 {
		return true
	}
	for _, t := range ts {
		if t == tier {
			return true
		}
	}
	return false
}

func writeEvidence(p *Prop, tier string, rs []*EntryResult, wall float64, nviol int, known map[string]bool) {
	funcs := map[string]bool{}
	tot := map[string]int{}
	var solver float64
	var bounds []string
	samples := []string{}
	for _, r := range rs {
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		tot["paths"] += r.Paths
		tot["steps"] += r.Steps
		for i, s := range r.Samples {
			if i < 3 {
				samples = append(samples, r.Entry+": "+fmtInputs(s.Inputs))
			}
		}
		tot["queries"] += r.Queries
		tot["unsat"] += r.Unsat
		tot["sat"] += r.Sat
		tot["asserts"] += r.Asserts
		tot["replays"] += r.Replayed
		tot["incon"] += len(r.Fails)
		solver += r.SolverS
		if r.Bounds != "" {
			bounds = append(bounds, r.Entry+": "+r.Bounds)
		}
	}
	cov := map[string]any{
		"functions_encoded":             sortedKeys(funcs),
		"functions_count":               len(funcs),
		"bounds":                        bounds,
		"queries_discharged":            tot["queries"],
		"queries_unsat":                 tot["unsat"],
		"queries_sat":                   tot["sat"],
		"assertions_evaluated":          tot["asserts"],
		"inconclusive":                  tot["incon"],
		"solver_seconds":                solver,
		"solver":                        solverPath(),
		"entries":                       rs,
		"states":                        tot["paths"],
		"transitions":                   tot["steps"],
		"traces_validated_against_impl": tot["replays"],
		"samples":                       samples,
		"exhaustive":                    tot["incon"] == 0 && nviol == 0,
		"explanation":                   "Bounded symbolic execution of the real code: the Go SSA of the functions listed in functions_encoded is regenerated from /repo and executed with symbolic inputs; `states` counts symbolic paths (each stands for every input satisfying its path condition, which is decided by the SMT solver), `transitions` the SSA instructions executed over them, `traces_validated_against_impl` the solver models re-executed on the natively compiled code. Exhaustive means: every path within the stated bounds was decided.",
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var kn []string
	for k := range known {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": levelOf(p.ID), "coverage": cov, "wall_s": wall,
		"assumptions": p.Assumptions, "violations": nviol,
	}
	if ev["assumptions"] == nil || p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), b, 0o644)
}

func levelOf(id string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == id {
					return c.Level
				}
			}
		}
	}
	return "model_checking"
}

var _ = ssa.NaiveForm
