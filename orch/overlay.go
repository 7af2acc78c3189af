package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A patch replaces one textual anchor of a standard-library file.  Every anchor
// must occur exactly once, or the build of the simulator fails loudly.
type patch struct {
	file, old, new string
}

var stdPatches = []patch{
	// --- scheduling: every choice of a goroutine goes through simPick ---
	{"runtime/proc.go", `	if pp.runSafePointFn != 0 {
		runSafePointFn()
	}

	// now and pollUntil are saved for work stealing later,`,
		`	if pp.runSafePointFn != 0 {
		runSafePointFn()
	}
	if simst.on {
		if gp := simPick(pp); gp != nil {
			return gp, false, false
		}
	}

	// now and pollUntil are saved for work stealing later,`},
	{"runtime/proc.go", `func retake(now int64) uint32 {
	n := 0
`, `func retake(now int64) uint32 {
	n := 0
	if simst.on {
		return 0
	}
`},
	{"runtime/proc.go", `const randomizeScheduler = raceenabled`, `const randomizeScheduler = false`},
	// --- what counts as blocked for the simulated clock ---
	{"runtime/runtime2.go", `	waitReasonSyncCondWait:          true,
	waitReasonSynctestWaitGroupWait: true,
`, `	waitReasonSyncCondWait:          true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
	waitReasonSyncWaitGroupWait:     true,
	waitReasonChanReceive:           true,
	waitReasonChanSend:              true,
	waitReasonSelect:                true,
	waitReasonSemacquire:            true,
	waitReasonSynctestWaitGroupWait: true,
`},
	// --- randomness ---
	{"runtime/rand.go", `	lock(&globalRand.lock)
	if globalRand.init {
		fatal("randinit twice")
	}
`, `	lock(&globalRand.lock)
	if globalRand.init {
		fatal("randinit twice")
	}
	for i := range startupRand {
		startupRand[i] = byte(37*i + 11)
	}
`},
	{"runtime/rand.go", `func rand() uint64 {
	// Note:`, `func rand() uint64 {
	if simActive() {
		return simRand()
	}
	// Note:`},
	{"runtime/rand.go", `func maps_rand() uint64 {
	return rand()
`, `func maps_rand() uint64 {
	if simActive() {
		return simMapRand()
	}
	return rand()
`},
	{"internal/sync/hashtriemap.go", `	ht.seed = uintptr(runtime_rand())`, `	ht.seed = 0x5bd1e995`},
	{"runtime/select.go", `		j := cheaprandn(uint32(norder + 1))`, `		var j uint32
		if simActive() {
			j = uint32(norder) - simSelectOrder(uint32(norder+1))
		} else {
			j = cheaprandn(uint32(norder + 1))
		}`},
	{"runtime/time.go", `			t.rand = cheaprand()
`, `			if simst.on {
				t.rand = simTimerOrder()
			} else {
				t.rand = cheaprand()
			}
`},
	// --- clocks ---
	{"runtime/time.go", `		sec = bubble.now / (1000 * 1000 * 1000)
		nsec = int32(bubble.now % (1000 * 1000 * 1000))
`, `		if bubble == simst.bubble {
			return simNow(bubble)
		}
		sec = bubble.now / (1000 * 1000 * 1000)
		nsec = int32(bubble.now % (1000 * 1000 * 1000))
`},
	{"runtime/sema.go", `func internal_sync_nanotime() int64 {
	return nanotime()
`, `func internal_sync_nanotime() int64 {
	if b := getg().bubble; b != nil {
		return b.now
	}
	return nanotime()
`},
	// --- network: net.Dial and net.Listen of simulated goroutines ---
	{"net/dial.go", `func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	ctx, cancel := d.dialCtx(ctx)
`, `func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if SimDial != nil {
		return SimDial(network, address)
	}
	ctx, cancel := d.dialCtx(ctx)
`},
	{"net/dial.go", `func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	addrs, err`, `func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if SimListen != nil {
		return SimListen(network, address)
	}
	addrs, err`},
	{"net/dial.go", `func Dial(network, address string) (Conn, error) {
`, `// SimDial and SimListen replace the real network for simulated goroutines.
var (
	SimDial   func(network, address string) (Conn, error)
	SimListen func(network, address string) (Listener, error)
)

func Dial(network, address string) (Conn, error) {
`},
	// --- memory ---
	{"runtime/malloc.go", `func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {
`, `func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {
	if simst.on {
		simBigAlloc(size)
	}
`},
}

// In a worker with the race detector the runtime's own reports pass the filter of rt/zrace.go.
var racePatches = []patch{
	{"runtime/race.go", `//go:noescape
func racereadpc(addr`, `//go:noescape
func simracereadpc(addr`},
	{"runtime/race.go", `//go:noescape
func racewritepc(addr`, `//go:noescape
func simracewritepc(addr`},
	{"runtime/race.go", `func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {
`, `func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {
	if simRaceSkip(callpc) {
		return
	}
`},
	{"runtime/race.go", `func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {
`, `func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {
	if simRaceSkip(callpc) {
		return
	}
`},
	{"runtime/race.go", `func racegoend() {
`, `func racegoend() {
	simRaceExit()
`},
	{"runtime/race_amd64.s", `TEXT	runtime·racereadpc(SB)`, `TEXT	runtime·simracereadpc(SB)`},
	{"runtime/race_amd64.s", `TEXT	runtime·racewritepc(SB)`, `TEXT	runtime·simracewritepc(SB)`},
}

// Site classes for per-package scheduling weights.
var siteClass = map[string]uint32{"transport": 1, "federation": 2, "lease": 3, "naming": 4, "serialization": 5, "common": 6}

type siteInfo struct {
	ID   uint32 `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
}

// makeOverlay writes patched copies below dir and returns the overlay file's path and the site table.
func makeOverlay(goroot, repo, verif, dir string, race bool) (string, []siteInfo, error) {
	repl := map[string]string{}
	byFile := map[string][]patch{}
	patches := stdPatches
	if race {
		patches = append(patches[:len(patches):len(patches)], racePatches...)
	}
	for _, p := range patches {
		byFile[p.file] = append(byFile[p.file], p)
	}
	for f, ps := range byFile {
		src, err := os.ReadFile(filepath.Join(goroot, "src", f))
		if err != nil {
			return "", nil, err
		}
		for _, p := range ps {
			if n := bytes.Count(src, []byte(p.old)); n != 1 {
				return "", nil, fmt.Errorf("runtime patch: anchor in %s occurs %d times:\n%s", f, n, p.old)
			}
			src = bytes.Replace(src, []byte(p.old), []byte(p.new), 1)
		}
		out := filepath.Join(dir, "std", strings.ReplaceAll(f, "/", "_"))
		if err := writeFile(out, src); err != nil {
			return "", nil, err
		}
		repl[filepath.Join(goroot, "src", f)] = out
	}
	for _, f := range []string{"zsim.go", "zrace.go", "zrace0.go"} {
		repl[filepath.Join(goroot, "src/runtime", f)] = filepath.Join(verif, "rt", f)
	}
	if race {
		if err := syncHarness(filepath.Join(verif, "sim"), filepath.Join(dir, "simrace"), repl); err != nil {
			return "", nil, err
		}
	}

	var sites []siteInfo
	next := map[uint32]uint32{}
	var files []string
	err := filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			b := d.Name()
			if path != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "examples" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	if err != nil {
		return "", nil, err
	}
	sort.Strings(files)
	ctx := build.Default
	for _, f := range files {
		if ok, err := ctx.MatchFile(filepath.Dir(f), filepath.Base(f)); err != nil || !ok {
			continue
		}
		rel, _ := filepath.Rel(repo, f)
		cls := siteClass[strings.SplitN(filepath.ToSlash(rel), "/", 2)[0]]
		if cls == 0 {
			cls = 7
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return "", nil, err
		}
		out, ss, err := instrument(f, rel, src, cls, next)
		if err != nil {
			return "", nil, err
		}
		sites = append(sites, ss...)
		o := filepath.Join(dir, "src", rel)
		if err := writeFile(o, out); err != nil {
			return "", nil, err
		}
		repl[f] = o
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	p := filepath.Join(dir, "overlay.json")
	if race {
		p = filepath.Join(dir, "overlay-race.json")
	}
	return p, sites, writeFile(p, js)
}

func writeFile(p string, b []byte) error {
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

// instrument inserts a yield point before every statement, keeping line numbers.
func instrument(path, rel string, src []byte, cls uint32, next map[uint32]uint32) ([]byte, []siteInfo, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	var sites []siteInfo
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			n := next[cls]
			next[cls]++
			id := cls<<24 | n
			pos := fset.PositionFor(s.Pos(), false)
			sites = append(sites, siteInfo{id, rel, pos.Line})
			all = append(all, ins{pos.Offset, fmt.Sprintf("__simrt.SimYield(%d);", id)})
		}
	}
	empty := func(b *ast.BlockStmt) {
		if b != nil && len(b.List) == 0 {
			n := next[cls]
			next[cls]++
			pos := fset.PositionFor(b.Lbrace, false)
			sites = append(sites, siteInfo{cls<<24 | n, rel, pos.Line})
			all = append(all, ins{pos.Offset + 1, fmt.Sprintf("__simrt.SimYield(%d);", cls<<24|n)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt:
			empty(n.Body)
		case *ast.RangeStmt:
			empty(n.Body)
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(n.List)
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	// package variables are put back before every run
	var vars []string
	for _, d := range f.Decls {
		if d, ok := d.(*ast.GenDecl); ok && d.Tok == token.VAR {
			for _, sp := range d.Specs {
				for _, n := range sp.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						vars = append(vars, "&"+n.Name)
					}
				}
			}
		}
	}
	if len(all) == 0 && len(vars) == 0 {
		return src, nil, nil
	}
	if len(vars) > 0 {
		all = append(all, ins{len(src), "\nfunc init() { __simrt.SimGlobal(" + strings.Join(vars, ", ") + ") }\n"})
	}
	all = append(all, ins{fset.PositionFor(f.Name.End(), false).Offset, `; import __simrt "runtime"`})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var out bytes.Buffer
	// The overlay file keeps the original's positions in stack traces.
	last := 0
	for _, in := range all {
		out.Write(src[last:in.off])
		out.WriteString(in.text)
		last = in.off
	}
	out.Write(src[last:])
	return out.Bytes(), sites, nil
}

// syncHarness puts a happens-before edge at every statement of the harness, save the network.
func syncHarness(src, dir string, repl map[string]string) error {
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		return err
	}
	for _, path := range files {
		if filepath.Base(path) == "simnet.go" {
			continue
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		const call = "__simrt.SimRaceSync();"
		at := map[int]string{}
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at[fset.PositionFor(s.Pos(), false).Offset] = call
				}
			}
			if len(list) == 0 {
				return
			}
			switch s := list[len(list)-1].(type) {
			case *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
			case *ast.ExprStmt:
				if c, ok := s.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return
					}
				}
			default:
				return
			}
			at[fset.PositionFor(list[len(list)-1].End(), false).Offset] = ";" + call
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
		at[fset.PositionFor(f.Name.End(), false).Offset] = `; import __simrt "runtime"`
		at[len(b)] = "\nvar _ = __simrt.SimRaceSync\n"
		var out bytes.Buffer
		for i := 0; i <= len(b); i++ {
			out.WriteString(at[i])
			if i < len(b) {
				out.WriteByte(b[i])
			}
		}
		o := filepath.Join(dir, filepath.Base(path))
		if err := writeFile(o, out.Bytes()); err != nil {
			return err
		}
		repl[path] = o
	}
	return nil
}
