// simtool prepares a deterministic-simulation build of /repo:
//
//	simtool -repo /repo -std engine/std -out DIR
//
// It writes DIR/overlay.json, which maps
//   - a handful of standard-library files to patched copies (the seeded scheduler,
//     the bubble clock, the PRNG, the simulated network), and
//   - every non-test, non-generated Go file of the repository's current working
//     tree to a copy with a preemption point before every statement.
//
// Every patch is anchored on exact source text; an anchor that is not found
// exactly once is a hard error.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "repository under test")
	std  = flag.String("std", "", "directory with files added to the standard library")
	out  = flag.String("out", "", "output directory")
	goV  = flag.String("go", "go1.27.3", "toolchain the patches are written for")
)

func main() {
	log.SetFlags(0)
	log.SetPrefix("simtool: ")
	flag.Parse()
	b, err := exec.Command("go", "env", "GOROOT", "GOVERSION").Output()
	if err != nil {
		log.Fatal(err)
	}
	f := strings.Fields(string(b))
	if len(f) != 2 || f[1] != *goV {
		log.Fatalf("toolchain is %v, patches are for %s", f, *goV)
	}
	goroot := f[0]
	overlay := map[string]string{}
	patchStd(goroot, overlay)
	instrument(*repo, overlay)
	mains(*repo, overlay)
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	write(filepath.Join(*out, "overlay.json"), j)
}

// write replaces path only when its content changes, so that the build cache
// and timestamps stay useful.
func write(path string, data []byte) {
	if old, err := os.ReadFile(path); err == nil && string(old) == string(data) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		log.Fatal(err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		log.Fatal(err)
	}
}

func read(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		log.Fatal(err)
	}
	return string(b)
}

type edit struct{ old, new string }

func patchStd(goroot string, overlay map[string]string) {
	patches := map[string][]edit{
		"runtime/proc.go": {
			{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif sim.active && gp.bubble != nil {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n"},
			{"func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n", "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif sim.active && gp.bubble != nil {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n"},
			{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif sim.active {\n\t\treturn 0\n\t}\n"},
			{"	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n", "	if sim.active {\n		if gp := simPick(); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
		},
		"runtime/select.go": {
			{"j := cheaprandn(uint32(norder + 1))", "j := simSelect(uint32(norder))"},
			// Timers are armed in case order, not in the order of the channels' addresses.
			{"		if c.timer != nil {\n			blockTimerChan(c)\n		}\n	}\n\n	// wait for someone to wake us up\n", "		if c.timer != nil && !sim.active {\n			blockTimerChan(c)\n		}\n	}\n	if sim.active {\n		for i := range scases {\n			if c := scases[i].c; c != nil && c.timer != nil {\n				blockTimerChan(c)\n			}\n		}\n	}\n\n	// wait for someone to wake us up\n"},
		},
		"runtime/rand.go": {
			{"	mp := getg().m\n	c := &mp.chacha8\n", "	if getg().bubble != nil && sim.active {\n		return simDataRand()\n	}\n	if mainStarted {\n		return simInitRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
			{"	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	globalRand.state.Init(*seed)\n"},
		},
		"runtime/time.go": {
			{"			t.rand = cheaprand()\n", "			t.rand = simTimer()\n"},
		},
		"runtime/sema.go": {
			{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if b := getg().bubble; b != nil {\n		return b.now\n	}\n"},
		},
		"crypto/internal/sysrand/rand.go": {
			{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if simActive() {\n		for i := 0; i < len(b); {\n			x := simRand()\n			for k := 0; k < 8 && i < len(b); k++ {\n				b[i] = byte(x)\n				x >>= 8\n				i++\n			}\n		}\n		return\n	}\n"},
			{"var testingOnlyFailRead bool\n", "var testingOnlyFailRead bool\n\n//go:linkname simRand runtime.rand\nfunc simRand() uint64\n\nfunc simActive() bool { return runtime.SimActive() }\n"},
			{"\t\"os\"\n", "\t\"os\"\n\t\"runtime\"\n"},
		},
		"net/dial.go": {
			{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if h := SimDialHook; h != nil {\n		ctx, cancel := d.dialCtx(ctx)\n		defer cancel()\n		return h(ctx, network, address)\n	}\n"},
			{"func Listen(network, address string) (Listener, error) {\n", "// SimDialHook and SimListenHook, when set, replace the operating system's network.\nvar (\n	SimDialHook   func(ctx context.Context, network, address string) (Conn, error)\n	SimListenHook func(network, address string) (Listener, error)\n)\n\nfunc Listen(network, address string) (Listener, error) {\n	if h := SimListenHook; h != nil {\n		return h(network, address)\n	}\n"},
		},
	}
	names := make([]string, 0, len(patches))
	for n := range patches {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		src := filepath.Join(goroot, "src", n)
		text := read(src)
		for _, e := range patches[n] {
			if c := strings.Count(text, e.old); c != 1 {
				log.Fatalf("%s: anchor found %d times: %q", n, c, e.old)
			}
			text = strings.Replace(text, e.old, e.new, 1)
		}
		dst := filepath.Join(*out, "std", n)
		write(dst, []byte(text))
		overlay[src] = dst
	}
	dst := filepath.Join(*out, "std", "runtime", "zsim.go")
	write(dst, []byte(read(filepath.Join(*std, "zsim.go.txt"))))
	overlay[filepath.Join(goroot, "src", "runtime", "zsim.go")] = dst
}

func instrument(repo string, overlay map[string]string) {
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || strings.HasPrefix(n, "bazel-")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, ".pb.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		log.Fatal(err)
	}
	type res struct {
		path, dst string
	}
	ch := make(chan string)
	done := make(chan []res)
	for i := 0; i < runtime.NumCPU(); i++ {
		go func() {
			var rs []res
			for p := range ch {
				rel, _ := filepath.Rel(repo, p)
				dst := filepath.Join(*out, "repo", rel)
				text, err := instrumentFile(p)
				if err != nil {
					// Let the compiler report it.
					fmt.Fprintf(os.Stderr, "simtool: not instrumented: %v\n", err)
					continue
				}
				write(dst, []byte(text))
				rs = append(rs, res{p, dst})
			}
			done <- rs
		}()
	}
	for _, p := range files {
		ch <- p
	}
	close(ch)
	for i := 0; i < runtime.NumCPU(); i++ {
		for _, r := range <-done {
			overlay[r.path] = r.dst
		}
	}
}

const rt = "simrt__"

// instrumentFile inserts preemption points by byte offset, leaving line numbers as they are.
func instrumentFile(path string) (string, error) { return instrumentSource(path, read(path)) }

func instrumentSource(path, src string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	type ins struct {
		off, ord int
		text     string
	}
	var inss []ins
	at := func(p token.Pos, s string) {
		inss = append(inss, ins{fset.Position(p).Offset, len(inss), s})
	}
	noList := map[*ast.BlockStmt]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at(s.Pos(), rt+".SimY();")
		}
	}
	wrap := func(e ast.Expr) {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return
		}
		switch fun := c.Fun.(type) {
		case *ast.Ident:
			switch fun.Name {
			case "min", "max", "len", "cap", "complex", "real", "imag", "append", "new", "make", "panic", "recover", "string":
				return
			}
		case *ast.SelectorExpr:
			if x, ok := fun.X.(*ast.Ident); ok && x.Name == "unsafe" {
				return
			}
		default:
			return
		}
		at(e.Pos(), rt+".SimV(")
		at(e.End(), ")")
	}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok != token.VAR {
				return false
			}
		case *ast.ArrayType:
			return false
		case *ast.FuncType:
			return false
		case *ast.SwitchStmt:
			noList[n.Body] = true
		case *ast.TypeSwitchStmt:
			noList[n.Body] = true
		case *ast.SelectStmt:
			noList[n.Body] = true
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				at(n.Body.Lbrace+1, rt+".SimY();")
				used = true
			}
		case *ast.BlockStmt:
			if !noList[n] {
				list(n.List)
				used = used || len(n.List) > 0
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.BinaryExpr:
			if n.Op != token.SHL && n.Op != token.SHR {
				wrap(n.X)
				wrap(n.Y)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "new" || id.Name == "append" || id.Name == "copy") {
				return true
			}
			if len(n.Args) >= 2 {
				for _, a := range n.Args {
					wrap(a)
				}
			}
		}
		return true
	})
	if !used {
		return src, nil
	}
	inss = append(inss, ins{fset.Position(f.Name.End()).Offset, -1, ";import " + rt + " \"runtime\";"})
	// A package-level wrapped initialiser would still need the import; "used" covers
	// function bodies, and the blank use below covers the rest.
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var b strings.Builder
	last := 0
	for _, in := range inss {
		b.WriteString(src[last:in.off])
		b.WriteString(in.text)
		last = in.off
	}
	b.WriteString(src[last:])
	return b.String(), nil
}
