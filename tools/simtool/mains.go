package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// mains makes the programs of the repository callable from a simulation: each
// program's directory is copied into importable packages (several copies of the
// CLI, which keeps its state in package-level variables) in which
//   - main and init are ordinary functions and every package-level variable can
//     be initialised again, so that every invocation starts like a new process,
//   - flags, arguments, standard output, exits, signals and the root context
//     belong to the invocation.
//
// Everything else, including the statements of main itself, is the program's text.
func mains(repo string, overlay map[string]string) {
	for _, m := range []struct {
		dir  string
		name []string
	}{
		{"cmd/gnmi_collector", []string{"collector"}},
		{"cmd/gnmi_cli", []string{"cli0", "cli1", "cli2", "cli3"}},
	} {
		for _, n := range m.name {
			if err := program(repo, m.dir, n, overlay); err != nil {
				// The checks that run programs fail to build; the others are not affected.
				fmt.Fprintf(os.Stderr, "simtool: %s: %v\n", m.dir, err)
			}
		}
	}
}

type sub struct {
	from, to int
	text     string
}

// redirected maps package path and name to the in-package replacement.
var redirected = map[string]map[string]string{
	"os":      {"Exit": "simExit", "Stdout": "simStdout", "Stderr": "simStderr", "Args": "simArgv"},
	"fmt":     {"Print": "simPrint", "Println": "simPrintln", "Printf": "simPrintf"},
	"context": {"Background": "simBackground", "TODO": "simBackground"},
	"os/signal": {"Notify": "simNotify", "NotifyContext": "simNotifyContext", "Stop": "simSignalStop",
		"Ignore": "simSignalIgnore", "Reset": "simSignalIgnore"},
	"github.com/golang/glog": {"Exit": "simLogExit", "Exitf": "simLogExitf", "Exitln": "simLogExit",
		"Fatal": "simLogExit", "Fatalf": "simLogExitf", "Fatalln": "simLogExit"},
	"log": {"Fatal": "simLogExit", "Fatalf": "simLogExitf", "Fatalln": "simLogExit"},
}

// flagTypes are the names of package flag that are left alone.
var flagTypes = map[string]bool{"Value": true, "Getter": true, "FlagSet": true, "Flag": true, "ErrorHandling": true,
	"NewFlagSet": true, "ContinueOnError": true, "ExitOnError": true, "PanicOnError": true, "ErrHelp": true, "UnquoteUsage": true}

func program(repo, dir, name string, overlay map[string]string) error {
	des, err := os.ReadDir(filepath.Join(repo, dir))
	if err != nil {
		return err
	}
	type unit struct {
		id   string // reset function
		def  []string
		uses map[string]bool
	}
	var units []*unit
	var inits []string
	bodies := map[string]ast.Node{} // functions and methods by name
	dstDir := filepath.Join(*out, "sut", name)
	nfile := 0
	refs := func(n ast.Node, into map[string]bool) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				into[n.Name] = true
			}
			return true
		})
	}
	for _, de := range des {
		fn := de.Name()
		if de.IsDir() || !strings.HasSuffix(fn, ".go") || strings.HasSuffix(fn, "_test.go") {
			continue
		}
		path := filepath.Join(repo, dir, fn)
		src := read(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name != "main" {
			continue
		}
		nfile++
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var subs []sub
		subs = append(subs, sub{off(f.Name.Pos()), off(f.Name.End()), "sut"})
		imports := map[string]string{}
		keep := ""
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			n := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			imports[n] = p
		}
		used := map[string]string{}
		ast.Inspect(f, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := se.X.(*ast.Ident)
			if !ok || x.Obj != nil {
				return true
			}
			p, ok := imports[x.Name]
			if !ok {
				return true
			}
			to := ""
			if p == "flag" {
				switch {
				case flagTypes[se.Sel.Name]:
				case se.Sel.Name == "Parse":
					to = "simParse"
				case se.Sel.Name == "CommandLine":
					to = "simFlags"
				default:
					to = "simFlags." + se.Sel.Name
				}
			} else {
				to = redirected[p][se.Sel.Name]
			}
			if to != "" {
				subs = append(subs, sub{off(se.Pos()), off(se.End()), to})
				used[x.Name] = se.Sel.Name
			}
			return true
		})
		for _, n := range sortedKeys(used) {
			keep += fmt.Sprintf("\nvar _ = %s.%s", n, used[n])
		}
		apply := func(from, to int) string {
			var b strings.Builder
			last := from
			for _, s := range subs {
				if s.from < from || s.to > to {
					continue
				}
				b.WriteString(src[last:s.from])
				b.WriteString(s.text)
				last = s.to
			}
			b.WriteString(src[last:to])
			return b.String()
		}
		sort.Slice(subs, func(i, j int) bool { return subs[i].from < subs[j].from })
		var resets strings.Builder
		var extra []sub
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					switch d.Name.Name {
					case "main":
						extra = append(extra, sub{off(d.Name.Pos()), off(d.Name.End()), "simMain"})
					case "init":
						id := fmt.Sprintf("simInit_%d_%d", nfile, len(inits))
						inits = append(inits, id)
						extra = append(extra, sub{off(d.Name.Pos()), off(d.Name.End()), id})
						continue
					}
				}
				if d.Body != nil {
					bodies[d.Name.Name] = d.Body
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					var names []string
					for _, n := range vs.Names {
						names = append(names, n.Name)
					}
					mk := func(def []string, body string, uses ast.Node) {
						u := &unit{id: fmt.Sprintf("simReset_%d_%d", nfile, len(units)), def: def, uses: map[string]bool{}}
						if uses != nil {
							refs(uses, u.uses)
						}
						units = append(units, u)
						fmt.Fprintf(&resets, "\nfunc %s() { %s }", u.id, body)
					}
					switch {
					case len(vs.Values) == 0:
						for _, n := range names {
							if n != "_" {
								mk([]string{n}, fmt.Sprintf("var z %s; %s = z", apply(off(vs.Type.Pos()), off(vs.Type.End())), n), nil)
							}
						}
					case len(vs.Values) == len(names):
						for i, v := range vs.Values {
							mk([]string{names[i]}, fmt.Sprintf("%s = %s", names[i], apply(off(v.Pos()), off(v.End()))), v)
						}
					default:
						v := vs.Values[0]
						mk(names, fmt.Sprintf("%s = %s", strings.Join(names, ", "), apply(off(v.Pos()), off(v.End()))), v)
					}
				}
			}
		}
		subs = append(subs, extra...)
		sort.Slice(subs, func(i, j int) bool { return subs[i].from < subs[j].from })
		text := apply(0, len(src)) + "\n" + resets.String() + keep + "\n"
		text, err = instrumentSource(path, text)
		if err != nil {
			return err
		}
		dst := filepath.Join(dstDir, fn)
		write(dst, []byte(text))
		overlay[filepath.Join(repo, "zzsim", "sut", name, fn)] = dst
	}
	// Initialisation order: the first variable in source order none of whose
	// dependencies (through functions) is still to be initialised.
	defs := map[string]int{}
	for i, u := range units {
		for _, d := range u.def {
			defs[d] = i
		}
	}
	deps := make([]map[int]bool, len(units))
	for i, u := range units {
		deps[i] = map[int]bool{}
		seen := map[string]bool{}
		var visit func(uses map[string]bool)
		visit = func(uses map[string]bool) {
			for n := range uses {
				if seen[n] {
					continue
				}
				seen[n] = true
				if j, ok := defs[n]; ok && j != i {
					deps[i][j] = true
				}
				if b, ok := bodies[n]; ok {
					m := map[string]bool{}
					refs(b, m)
					visit(m)
				}
			}
		}
		visit(u.uses)
	}
	done := make([]bool, len(units))
	var order []string
	for len(order) < len(units) {
		pick, fallback := -1, -1
		for i := range units {
			if done[i] {
				continue
			}
			if fallback < 0 {
				fallback = i // a cycle can only be an artefact of matching by name
			}
			ready := true
			for j := range deps[i] {
				ready = ready && done[j]
			}
			if ready {
				pick = i
				break
			}
		}
		if pick < 0 {
			pick = fallback
		}
		done[pick] = true
		order = append(order, units[pick].id)
	}
	var b strings.Builder
	b.WriteString(progText)
	b.WriteString("\nfunc simReset() {\n")
	for _, id := range order {
		b.WriteString("\t" + id + "()\n")
	}
	for _, id := range inits {
		b.WriteString("\t" + id + "()\n")
	}
	b.WriteString("}\n")
	if nfile == 0 {
		return fmt.Errorf("no program there")
	}
	dst := filepath.Join(dstDir, "zz_sim.go")
	write(dst, []byte(b.String()))
	overlay[filepath.Join(repo, "zzsim", "sut", name, "zz_sim.go")] = dst
	return nil
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

const progText = `package sut

import (
	"context"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"

	"github.com/openconfig/gnmi/zzsim/sim"
)

var (
	simFlags  = flag.NewFlagSet("", flag.ContinueOnError)
	simArgv   []string
	simCtx    = context.Background()
	simStdout = os.Stdout
	simStderr = os.Stderr
	simP      *Proc
	simSig    []chan<- os.Signal
	simSigFn  []func()
)

// Proc is one invocation of the program. Only one may run at a time.
type Proc struct {
	Done   chan struct{}
	Code   int
	Msg    string // what a log.Exit said
	ended  bool
	cancel func()
}

func (p *Proc) end(code int) {
	if !p.ended {
		p.ended = true
		p.Code = code
		close(p.Done)
		p.cancel()
	}
}

// Start runs the program in a new goroutine.
func Start(args []string, stdout, stderr *os.File) sim.Proc {
	p := &Proc{Done: make(chan struct{})}
	simCtx, p.cancel = context.WithCancel(context.Background())
	simFlags = flag.NewFlagSet(args[0], flag.ContinueOnError)
	simFlags.SetOutput(io.Discard)
	simArgv = args
	simStdout, simStderr = stdout, stderr
	simP = p
	simSig, simSigFn = nil, nil
	simReset()
	go func() {
		code := 255
		defer func() { p.end(code) }()
		simMain()
		code = 0
	}()
	return p
}

func (p *Proc) Wait() <-chan struct{} { return p.Done }
func (p *Proc) Result() (int, string) { return p.Code, p.Msg }

// Interrupt delivers SIGINT; Kill ends the program's root context.
func (p *Proc) Interrupt() {
	if simP != p {
		return
	}
	for _, c := range simSig {
		select {
		case c <- os.Interrupt:
		default:
		}
	}
	for _, f := range simSigFn {
		f()
	}
}

func (p *Proc) Kill() { p.cancel() }

func simExit(code int) {
	simP.end(code)
	runtime.Goexit()
}

func simLogExit(a ...interface{}) {
	simP.Msg = fmt.Sprint(a...)
	simExit(1)
}

func simLogExitf(f string, a ...interface{}) {
	simP.Msg = fmt.Sprintf(f, a...)
	simExit(1)
}

func simParse() {
	if err := simFlags.Parse(simArgv[1:]); err != nil {
		simP.Msg = err.Error()
		simExit(2)
	}
}

func simBackground() context.Context { return simCtx }

func simPrint(a ...interface{}) (int, error)            { return fmt.Fprint(simStdout, a...) }
func simPrintln(a ...interface{}) (int, error)          { return fmt.Fprintln(simStdout, a...) }
func simPrintf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(simStdout, f, a...) }

func simNotify(c chan<- os.Signal, sig ...os.Signal) { simSig = append(simSig, c) }
func simNotifyContext(ctx context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(ctx)
	simSigFn = append(simSigFn, cancel)
	return ctx, cancel
}
func simSignalStop(c chan<- os.Signal)      {}
func simSignalIgnore(sig ...os.Signal)      {}
`

