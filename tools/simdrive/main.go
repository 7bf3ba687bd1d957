// simdrive runs a property's simulation check: it builds the harness against
// /repo's working tree, spreads seeds over worker processes, collects the
// results, minimises and confirms a violation, and writes the evidence file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	root     = flag.String("root", "/verif", "")
	repo     = flag.String("repo", "/repo", "")
	property = flag.String("property", "", "")
	tier     = flag.String("tier", "", "quick or thorough (default VERIF_TIER)")
	replay   = flag.String("replay", "", "replay this file instead of exploring")
	buildAll = flag.Bool("build", false, "only build every harness")
	selftest = flag.Uint64("selftest", 0, "determinism self-test over this many seeds per harness")
	budget   = flag.Duration("budget", 0, "override the wall-clock budget")
	runsMul  = flag.Float64("mul", 1, "multiply the number of runs")
	only     = flag.String("only", "", "only this harness")
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simdrive: "+format+"\n", a...)
	os.Exit(2)
}

func buildDir() string { return filepath.Join(*root, ".build") }

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	return c
}

var prepOnce sync.Once

// prepare patches and instruments into .build and writes the overlay.
func prepare() {
	prepOnce.Do(func() {
		bd := buildDir()
		must(os.MkdirAll(bd, 0o755))
		c := exec.Command(filepath.Join(bd, "simtool"), "-repo", *repo, "-std", filepath.Join(*root, "engine/std"), "-out", bd)
		c.Stderr = os.Stderr
		if err := c.Run(); err != nil {
			fatal("simtool: %v", err)
		}
		var ov struct{ Replace map[string]string }
		readJSON(filepath.Join(bd, "overlay.json"), &ov)
		eng := filepath.Join(*root, "engine")
		for _, sub := range []string{"sim", "h", "cmd"} {
			filepath.Walk(filepath.Join(eng, sub), func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
					rel, _ := filepath.Rel(eng, p)
					ov.Replace[filepath.Join(*repo, "zzsim", rel)] = p
				}
				return nil
			})
		}
		writeJSON(filepath.Join(bd, "overlay.json"), ov)
		mod := readFile(filepath.Join(*repo, "go.mod"))
		mod += "\nrequire github.com/anishathalye/porcupine v1.3.1\n"
		mod += "\nreplace github.com/golang/glog => " + filepath.Join(*root, "stubs/glog") + "\n"
		mustWrite(filepath.Join(bd, "go.mod"), mod)
		sum := readFile(filepath.Join(*repo, "go.sum"))
		sum += readFile(filepath.Join(*root, "engine/extra.sum"))
		mustWrite(filepath.Join(bd, "go.sum"), sum)
	})
}

func binPath(cmd string, race bool) string {
	if race {
		cmd += "-race"
	}
	return filepath.Join(buildDir(), "bin", cmd)
}

// oneThread lists race-built harnesses that keep their own records without locks, which
// is fine under the scheduler: the race detector watches the code under test only.
var oneThread = map[string]bool{"queue": true}

func build(cmd string, race bool) {
	prepare()
	bd := buildDir()
	args := []string{"build", "-overlay", filepath.Join(bd, "overlay.json"), "-modfile", filepath.Join(bd, "go.mod"), "-o", binPath(cmd, race)}
	if race {
		args = append(args, "-race")
		if oneThread[cmd] {
			args = append(args, "-gcflags=github.com/openconfig/gnmi/zzsim/...=-race=false")
		}
	}
	args = append(args, "./zzsim/cmd/"+cmd)
	c := goCmd(*repo, args...)
	out, err := c.CombinedOutput()
	if err != nil {
		fatal("building %s: %v\n%s", cmd, err, out)
	}
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	must(err)
	return string(b)
}

func mustWrite(p, s string) {
	if old, err := os.ReadFile(p); err == nil && string(old) == s {
		return
	}
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(s), 0o644))
}

func readJSON(p string, v any) {
	must(json.Unmarshal([]byte(readFile(p)), v))
}

func writeJSON(p string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, append(b, '\n'), 0o644))
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func workerEnv() []string {
	env := os.Environ()
	return append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
}

// ---- running one harness process ----

const (
	hIndex = iota
	hTry
	hRecN
	hStep
	hState
	hBeat
	shmHdr = 64
)

type shmView struct {
	hdr  [shmHdr]uint64
	decs [][2]int64
}

func le(b []byte) uint64 {
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

func readShm(p string, withDecs bool) *shmView {
	f, err := os.Open(p)
	if err != nil {
		return &shmView{}
	}
	defer f.Close()
	buf := make([]byte, shmHdr*8)
	if _, err := f.ReadAt(buf, 0); err != nil {
		return &shmView{}
	}
	v := &shmView{}
	for i := range v.hdr {
		v.hdr[i] = le(buf[i*8:])
	}
	if withDecs {
		n := v.hdr[hRecN]
		if n > 1<<17 {
			n = 1 << 17
		}
		db := make([]byte, n*16)
		if n > 0 {
			f.ReadAt(db, shmHdr*8)
		}
		for i := uint64(0); i < n; i++ {
			v.decs = append(v.decs, [2]int64{int64(le(db[i*16:])), int64(le(db[i*16+8:]))})
		}
	}
	return v
}

type procResult struct {
	exit    int
	stderr  string
	hung    bool
	shmPath string
}

// runProc runs a harness process; it is killed when its step and run counters
// stop moving for stallFor.
func runProc(stallFor time.Duration, stop <-chan struct{}, shmPath string, bin string, args ...string) procResult {
	c := exec.Command(bin, args...)
	c.Env = workerEnv()
	var eb limitBuf
	c.Stderr = &eb
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		fatal("starting %s: %v", bin, err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var last [shmHdr]uint64
	lastMove := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	r := procResult{shmPath: shmPath}
	for {
		select {
		case err := <-done:
			r.stderr = eb.String()
			if err != nil {
				r.exit = 1
				if ee, ok := err.(*exec.ExitError); ok {
					r.exit = ee.ExitCode()
				}
			}
			return r
		case <-stop:
			c.Process.Kill()
			<-done
			r.exit = -2
			return r
		case <-tick.C:
			v := readShm(shmPath, false)
			if v.hdr != last {
				last = v.hdr
				lastMove = time.Now()
			} else if time.Since(lastMove) > stallFor {
				c.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(3 * time.Second):
					c.Process.Kill()
					<-done
				}
				r.hung = true
				r.exit = -1
				r.stderr = eb.String()
				return r
			}
		}
	}
}

type limitBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limitBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limitBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

const mod = "github.com/openconfig/gnmi/"

var frameRE = regexp.MustCompile(`(?m)^(?:created by )?([A-Za-z0-9_./\-]+(?:\.[^\s(]*|\(\*?[^)]*\)[^\s(]*)*)\(`)

// owner says whose code the innermost attributable frame of a stack is:
// "sut" with the function, or "harness".
func owner(stack string) (string, string) {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, " ") && !strings.HasPrefix(l, "  "+mod) {
			continue
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "created by") {
			break
		}
		switch {
		case strings.HasPrefix(l, mod+"zzsim/sut/"):
			return "sut", fn(strings.TrimPrefix(l, mod+"zzsim/sut/"))
		case strings.HasPrefix(l, mod+"zzsim/"), strings.HasPrefix(l, "main."):
			return "harness", fn(l)
		case strings.HasPrefix(l, mod):
			return "sut", fn(strings.TrimPrefix(l, mod))
		}
	}
	return "", ""
}

var argsRE = regexp.MustCompile(`\((0x|\{0x|\.\.\.|\)|\{\.\.\.|_)[^\n]*$`)
var closureRE = regexp.MustCompile(`(\.func\d+(\.\d+)*|\.gowrap\d+|\[\.\.\.\]|-fm|\.deferwrap\d+)`)

func fn(l string) string {
	if i := strings.LastIndex(l, "("); i > 0 {
		l = l[:i]
	}
	return closureRE.ReplaceAllString(l, "")
}

// classify turns a dead process into a violation, or says what went wrong.
func classify(r procResult) (*Violation, string) {
	e := r.stderr
	if strings.Contains(e, "SIM-HARNESS-ERROR") {
		return nil, tail(e, 2000)
	}
	if r.hung {
		return nil, "no step for a long time (hang outside instrumented code)\n" + tail(e, 6000)
	}
	if i := strings.Index(e, "SIM-BUDGET"); i >= 0 {
		o, f := owner(e[i:])
		if o != "sut" {
			f = "?"
		}
		return &Violation{"livelock", "step budget exhausted in " + f + "\n" + head(e[i:], 3000)}, ""
	}
	if i := strings.Index(e, "WARNING: DATA RACE"); i >= 0 {
		rep := e[i:]
		parts := strings.Split(rep, "\n\n")
		var owners []string
		sut := false
		for _, p := range parts {
			if strings.Contains(p, "ead at 0x") || strings.Contains(p, "rite at 0x") || strings.Contains(p, "revious ") {
				o, f := owner(strings.ReplaceAll(p, "  "+mod, mod))
				owners = append(owners, f)
				if o == "sut" {
					sut = true
				}
			}
			if len(owners) == 2 {
				break
			}
		}
		if !sut {
			return nil, "data race in the harness\n" + head(rep, 4000)
		}
		sort.Strings(owners)
		return &Violation{"race", "data race: " + strings.Join(owners, " / ") + "\n" + head(rep, 4000)}, ""
	}
	for _, key := range []string{"panic: ", "fatal error: "} {
		i := strings.Index(e, key)
		if i < 0 {
			continue
		}
		rest := e[i:]
		g := strings.Index(rest, "\ngoroutine ")
		if g < 0 {
			continue
		}
		st := rest[g+1:]
		if j := strings.Index(st, "\n\n"); j >= 0 {
			st = st[:j]
		}
		if k := strings.Index(rest, "[running"); k >= 0 {
			// the crashing goroutine is the one that is running
			b := strings.LastIndex(rest[:k], "goroutine ")
			st = rest[b:]
			if j := strings.Index(st, "\n\n"); j >= 0 {
				st = st[:j]
			}
		}
		o, f := owner(st)
		if o == "sut" {
			return &Violation{"panic@" + f, head(rest, 3000)}, ""
		}
		if strings.Contains(head(rest, 300), "concurrent map") {
			return &Violation{"concurrent-map", head(rest, 3000)}, ""
		}
		return nil, "panic outside the code under test\n" + head(rest, 4000)
	}
	return nil, fmt.Sprintf("exit %d\n%s", r.exit, tail(e, 3000))
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func tmpDir() string {
	d := filepath.Join(buildDir(), "tmp", strconv.Itoa(os.Getpid()))
	must(os.MkdirAll(d, 0o755))
	return d
}

var seqMu sync.Mutex
var seqN int

func tmpFile(suffix string) string {
	seqMu.Lock()
	defer seqMu.Unlock()
	seqN++
	return filepath.Join(tmpDir(), fmt.Sprintf("%d%s", seqN, suffix))
}

// execOne executes a replay in a fresh process.
func execOne(bin string, rp *Replay) *Outcome {
	in, out, sh := tmpFile(".in.json"), tmpFile(".out.json"), tmpFile(".shm")
	defer func() { os.Remove(in); os.Remove(out); os.Remove(sh) }()
	writeJSON(in, rp)
	r := runProc(40*time.Second, nil, sh, bin, "-mode", "exec", "-harness", rp.Harness, "-in", in, "-out", out, "-shm", sh)
	if r.exit == 0 {
		var o Outcome
		readJSON(out, &o)
		return &o
	}
	v, broken := classify(r)
	o := &Outcome{Violation: v, Broken: broken}
	m := readShm(sh, true)
	o.Sched = &Sched{Seed: rp.Sched.Seed, MSeed: rp.Sched.MSeed, Dec: m.decs}
	if rp.Tries > 0 {
		// The data PRNG of the failing try is derived inside the harness; ask for it.
		o.Sched = nil
		o.Broken = "crash in try"
	}
	return o
}

func main() {
	flag.Parse()
	os.Setenv("GOFLAGS", "-mod=mod")
	for k, v := range map[string]string{"GOENV": "off", "GOWORK": "off", "GO111MODULE": "on", "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod"} {
		os.Setenv(k, v)
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			h := uint64(14695981039346656037)
			for i := 0; i < len(s); i++ {
				h = (h ^ uint64(s[i])) * 1099511628211
			}
			n = h
		}
		seed = n
	}
	var cfg Config
	readJSON(filepath.Join(*root, "engine/checks.json"), &cfg)
	switch {
	case *buildAll:
		done := map[string]bool{}
		for _, k := range sortedKeys(cfg.Checks) {
			for _, h := range cfg.Checks[k].Harnesses {
				b := binPath(h.Cmd, h.Race)
				if !done[b] {
					done[b] = true
					build(h.Cmd, h.Race)
				}
			}
		}
	case *replay != "":
		doReplay(&cfg)
	default:
		chk := cfg.Checks[*property]
		if chk == nil {
			fatal("unknown property %q", *property)
		}
		code := runCheck(*property, chk, seed)
		os.RemoveAll(tmpDir())
		os.Exit(code)
	}
	os.RemoveAll(tmpDir())
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func findUse(cfg *Config, rp *Replay) *HarnessUse {
	c := cfg.Checks[rp.Property]
	if c == nil {
		fatal("unknown property %q", rp.Property)
	}
	for _, h := range c.Harnesses {
		if h.Name == rp.Harness && h.Race == rp.Race {
			return h
		}
	}
	fatal("no harness %q (race=%v) for %s", rp.Harness, rp.Race, rp.Property)
	return nil
}

func doReplay(cfg *Config) {
	var rp Replay
	readJSON(*replay, &rp)
	u := findUse(cfg, &rp)
	build(u.Cmd, u.Race)
	o := execOne(binPath(u.Cmd, u.Race), &rp)
	if o.Broken != "" {
		fatal("replay gave no answer: %s", o.Broken)
	}
	for _, l := range o.Log {
		fmt.Println(l)
	}
	if o.Violation == nil {
		fmt.Println("no violation")
		return
	}
	same := rp.Violation != nil && o.Violation.Class == rp.Violation.Class && (rp.LogHash == 0 || rp.LogHash == o.LogHash)
	fmt.Printf("%s: %s\nexact reproduction: %v\n", o.Violation.Class, o.Violation.Msg, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *replay)
	os.RemoveAll(tmpDir())
	os.Exit(1)
}
