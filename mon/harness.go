package main

import (
	"bufio"
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mon/ev"
)

//go:embed glue/*.txt
var glueFS embed.FS

//go:embed ev/ev.go
var evSrc string

func glue(name string) string {
	b, err := glueFS.ReadFile("glue/" + name)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var repoDir = envOr("VERIF_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// die reports an error of the check itself (neither held nor violated).
func die(format string, a ...interface{}) {
	fmt.Printf("CHECK-ERROR: "+format+"\n", a...)
	rc := 2
	if theCheck != nil && theCheck.violated() {
		rc = theCheck.Finish() // what has been seen remains true
	}
	cleanup()
	os.Exit(rc)
}

// theCheck is the check that runs
var theCheck *Check

// watchdog ends a quick check that has seen a violation before its time is up.
func (c *Check) watchdog() {
	if c.Thorough() {
		return
	}
	time.AfterFunc(780*time.Second, func() {
		for i := 0; i < 20; i++ {
			if c.violated() {
				fmt.Println("stopped for lack of time")
				os.Exit(c.Finish())
			}
			time.Sleep(5 * time.Second)
		}
	})
}

func (c *Check) violated() bool {
	c.mu.Lock()
	n := len(c.viol)
	c.mu.Unlock()
	return n > 0 || atomic.LoadInt32(&gogllHangs) > 0
}

var scratchDirs []string

func cleanup() {
	for _, d := range scratchDirs {
		os.RemoveAll(d)
	}
}

func scratch() string {
	d, err := os.MkdirTemp("", "vmon-")
	if err != nil {
		die("scratch: %s", err)
	}
	scratchDirs = append(scratchDirs, d)
	return d
}

// Env is one check's build of the code under test.
type Env struct {
	Dir   string // scratch
	Gogll string // binary built from the working tree
	Race  bool
	Main  string            // glue of the main package, main.go.txt by default
	Extra map[string]string // further files of the module
	Entry string            // one line of its table for unit ID, default "%[1]q: %[1]s.Run,"
}

func goEnv(extra ...string) []string {
	e := append(os.Environ(), "GOFLAGS=-mod=mod -trimpath -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cgo := "CGO_ENABLED=0"
	return append(append(e, cgo), extra...)
}

// NewEnv builds gogll from the repository's current working tree.
func NewEnv() *Env {
	e := &Env{Dir: scratch()}
	e.Gogll = filepath.Join(e.Dir, "gogll")
	c := exec.Command("go", "build", "-o", e.Gogll, ".")
	c.Dir = repoDir
	c.Env = goEnv("GOFLAGS=-mod=readonly -trimpath -buildvcs=false")
	if out, err := c.CombinedOutput(); err != nil {
		die("gogll does not build: %s\n%s", err, out)
	}
	return e
}

type RunRes struct {
	Out   string
	Code  int
	Crash bool // killed by a signal or by the CPU limit, or a Go panic
}

// RunGogll runs the compiler under a CPU limit in an otherwise empty
// environment. Code -1 means it was killed.
func (e *Env) RunGogll(dir string, args ...string) RunRes {
	return runLimited(dir, 25, e.Gogll, args...)
}

// gogllHangs is the number of runs of gogll that used all their CPU time.
// What hung is in gogllHung.
var (
	gogllHangs int32
	gogllHung  []map[string]string
	hungMu     sync.Mutex
)

func runLimited(dir string, cpuSec int, bin string, args ...string) RunRes {
	if atomic.LoadInt32(&gogllHangs) >= 4 {
		return RunRes{Code: -1, Crash: true, Out: "not run: gogll did not end on 4 other inputs"}
	}
	sh := fmt.Sprintf("ulimit -t %d; ulimit -v 3600000; exec \"$0\" \"$@\"", cpuSec)
	c := exec.Command("/bin/bash", append([]string{"-c", sh, bin}, args...)...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var buf bytes.Buffer
	c.Stdout = &buf
	c.Stderr = &buf
	err := c.Run()
	r := RunRes{Out: buf.String()}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		} else {
			die("cannot run %s: %s", bin, err)
		}
	}
	if r.Code < 0 || r.Code == 137 || r.Code == 152 || strings.Contains(r.Out, "\ngoroutine ") && r.Code == 2 {
		r.Crash = true
		if ps := c.ProcessState; ps.UserTime()+ps.SystemTime() > time.Duration(cpuSec)*time.Second*9/10 {
			hungMu.Lock()
			atomic.AddInt32(&gogllHangs, 1)
			w := map[string]string{"command": strings.Join(append([]string{bin}, args...), " "), "output": trunc(r.Out, 300)}
			if len(args) > 0 {
				if b, err := os.ReadFile(args[len(args)-1]); err == nil {
					w["grammar"] = trunc(string(b), 20000)
				}
			}
			gogllHung = append(gogllHung, w)
			hungMu.Unlock()
		}
	}
	return r
}

// parallel runs f(0..n-1) on all cores.
func parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Unit is one grammar to be generated and compiled into a workload module.
type Unit struct {
	ID    string
	Text  string   // grammar source
	Ext   string   // .txt or .md
	Flags []string // extra gogll flags
	Glue  string   // glue template: gll.go.txt ...
	// results
	Gen      RunRes
	BuildErr string
	OK       bool
	// optional hook run after generation, before build
	Post func(dir string) error
}

func (u *Unit) Pkg() string { return "m/" + u.ID }

type Module struct {
	Env   *Env
	Dir   string
	Units []*Unit
	Bin   string
	byID  map[string]*Unit
}

var goutilVersion = ""

func writeFile(name, text string) {
	if err := os.MkdirAll(filepath.Dir(name), 0777); err != nil {
		die("%s", err)
	}
	if err := os.WriteFile(name, []byte(text), 0666); err != nil {
		die("%s", err)
	}
}

func (e *Env) initModule(dir string) {
	if goutilVersion == "" {
		b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
		if err != nil {
			die("%s", err)
		}
		m := regexp.MustCompile(`github.com/goccmack/goutil (v\S+)`).FindStringSubmatch(string(b))
		if m == nil {
			die("no goutil in go.mod")
		}
		goutilVersion = m[1]
	}
	writeFile(filepath.Join(dir, "go.mod"), "module m\n\ngo 1.20\n\nrequire github.com/goccmack/goutil "+goutilVersion+"\n")
	sum, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	writeFile(filepath.Join(dir, "go.sum"), string(sum))
	writeFile(filepath.Join(dir, "ev", "ev.go"), evSrc)
	for k, v := range e.Extra {
		writeFile(filepath.Join(dir, k), v)
	}
}

// Build generates all units in one Go module and builds one driver binary for
// those that generate and compile.
func (e *Env) Build(units []*Unit) *Module {
	m := &Module{Env: e, Dir: filepath.Join(e.Dir, fmt.Sprintf("mod%d", len(scratchDirs))), Units: units, byID: map[string]*Unit{}}
	for i := 0; ; i++ {
		m.Dir = filepath.Join(e.Dir, fmt.Sprintf("mod%d", i))
		if _, err := os.Stat(m.Dir); err != nil {
			break
		}
	}
	e.initModule(m.Dir)
	parallel(len(units), func(i int) {
		u := units[i]
		d := filepath.Join(m.Dir, u.ID)
		if u.Ext == "" {
			u.Ext = ".txt"
		}
		src := filepath.Join(d, "g"+u.Ext)
		writeFile(src, u.Text)
		args := append(append([]string{}, u.Flags...), "-o", d, src)
		u.Gen = e.RunGogll(d, args...)
		if u.Gen.Code != 0 {
			return
		}
		if u.Post != nil {
			if err := u.Post(d); err != nil {
				u.BuildErr = err.Error()
				return
			}
		}
		if u.Glue != "" {
			writeFile(filepath.Join(d, "drv", "drv.go"), strings.ReplaceAll(glue(u.Glue), "PKG", u.Pkg()))
		}
		u.OK = true
	})
	for _, u := range units {
		m.byID[u.ID] = u
	}
	for try := 0; try < 4; try++ {
		var imp, tab strings.Builder
		n := 0
		mainGlue, entry := e.Main, e.Entry
		if mainGlue == "" {
			mainGlue, entry = "main.go.txt", "%[1]q: %[1]s.Run,"
		}
		for _, u := range units {
			if u.OK && u.Glue != "" {
				fmt.Fprintf(&imp, "\t%s \"%s/drv\"\n", u.ID, u.Pkg())
				fmt.Fprintf(&tab, "\t"+entry+"\n", u.ID)
				n++
			}
		}
		if n == 0 {
			return m
		}
		src := strings.Replace(strings.Replace(glue(mainGlue), "IMPORTS", imp.String(), 1), "TABLE", tab.String(), 1)
		writeFile(filepath.Join(m.Dir, "main.go"), src)
		m.Bin = filepath.Join(m.Dir, "driver")
		args := []string{"build", "-o", m.Bin}
		env := goEnv()
		if e.Race {
			args = append(args, "-race")
			env = append(env, "CGO_ENABLED=1")
		}
		c := exec.Command("go", append(args, ".")...)
		c.Dir = m.Dir
		c.Env = env
		out, err := c.CombinedOutput()
		if err == nil {
			return m
		}
		// find the units that do not compile
		bad := false
		errs := compileErrors(m.Dir, string(out), env)
		for id, msg := range errs {
			if u := m.byID[id]; u != nil && u.OK {
				u.OK = false
				u.BuildErr = msg
				bad = true
			}
		}
		if !bad {
			die("workload module does not build: %s\n%s", err, out)
		}
	}
	die("workload module does not build")
	return nil
}

// compileErrors maps unit ids to compiler messages.
func compileErrors(dir, out string, env []string) map[string]string {
	c := exec.Command("go", "build", "./...")
	c.Dir = dir
	c.Env = env
	o2, _ := c.CombinedOutput()
	errs := map[string]string{}
	cur := ""
	for _, ln := range strings.Split(out+"\n"+string(o2), "\n") {
		if strings.HasPrefix(ln, "# ") {
			cur = ""
			if m := regexp.MustCompile(`^# m/(\w+)`).FindStringSubmatch(ln); m != nil {
				cur = m[1]
			}
			continue
		}
		if m := regexp.MustCompile(`^(?:\./)?(\w+)/\S+\.go:\d+`).FindStringSubmatch(ln); m != nil {
			cur = m[1]
		}
		if m := regexp.MustCompile(`package m/(\w+)`).FindStringSubmatch(ln); m != nil {
			cur = m[1]
		}
		if cur != "" && len(errs[cur]) < 2000 {
			errs[cur] += ln + "\n"
		}
	}
	return errs
}

// RunJobs executes the jobs on several driver processes and returns one record
// per job. A driver that dies is restarted after the job that killed it.
func (m *Module) RunJobs(jobs []*ev.Job, cpuSec int, extraEnv ...string) []*ev.Res {
	res := make([]*ev.Res, len(jobs))
	for i, j := range jobs {
		j.I = i
	}
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	chunk := (len(jobs) + w*4 - 1) / (w * 4)
	if chunk == 0 {
		return res
	}
	nch := (len(jobs) + chunk - 1) / chunk
	var total int32
	parallel(nch, func(k int) {
		lo, hi := k*chunk, (k+1)*chunk
		if hi > len(jobs) {
			hi = len(jobs)
		}
		crashes := 0
		for lo < hi && atomic.LoadInt32(&total) < 24 {
			lo = m.runSome(jobs, res, lo, hi, cpuSec, extraEnv)
			if lo < hi {
				atomic.AddInt32(&total, 1)
				crashes++
				if crashes > 5 {
					return
				}
			}
		}
	})
	return res
}

func (m *Module) runSome(jobs []*ev.Job, res []*ev.Res, lo, hi, cpuSec int, extraEnv []string) int {
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, j := range jobs[lo:hi] {
		enc.Encode(j)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		die("%s", err)
	}
	c := exec.Command(m.Bin)
	c.Dir = m.Dir
	c.Stdin = &in
	var se bytes.Buffer
	c.Stderr = &limitWriter{w: &se, n: 20000}
	c.Stdout = io.Discard
	c.ExtraFiles = []*os.File{pw}
	c.Env = append(append(os.Environ(), fmt.Sprintf("JOB_CPU=%d", cpuSec), "GOTRACEBACK=single"), extraEnv...)
	if err := c.Start(); err != nil {
		die("driver: %s", err)
	}
	pw.Close()
	kill := time.AfterFunc(13*time.Minute, func() { c.Process.Kill() })
	next := lo
	rd := bufio.NewReaderSize(pr, 1<<20)
	dec := json.NewDecoder(rd)
	for {
		r := &ev.Res{}
		if err := dec.Decode(r); err != nil {
			break
		}
		if r.I >= lo && r.I < hi {
			res[r.I] = r
			next = r.I + 1
		}
	}
	pr.Close()
	err = c.Wait()
	if !kill.Stop() {
		die("driver exceeded the watchdog: inconclusive")
	}
	if next < hi && (next == lo || res[next-1] == nil || res[next-1].Hang == "") {
		msg := se.String()
		if len(msg) > 600 {
			msg = msg[:600]
		}
		res[next] = &ev.Res{I: next, Panic: fmt.Sprintf("driver process died (%v): %s", err, msg)}
		next++
	}
	return next
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

/*** Verdicts and evidence ***/

type Check struct {
	Prop   string
	Tier   string
	Seed   int64
	start  time.Time
	mu     sync.Mutex
	evals  int
	dist   map[string]bool
	rule   string
	counts map[string]int
	notes  []string
	sample []interface{}
	viol   []violation
	known  map[string]bool
	kprint map[string]bool
	assume []string
}

type violation struct {
	Key    string      `json:"key"`
	What   string      `json:"what"`
	Detail interface{} `json:"detail"`
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

func (c *Check) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Eval counts one oracle evaluation; key identifies the distinct case and is
// empty for a trivial one.
func (c *Check) Eval(key string) {
	c.mu.Lock()
	c.evals++
	if key != "" {
		c.dist[key] = true
	}
	c.mu.Unlock()
}

func (c *Check) Count(what string, n int) {
	c.mu.Lock()
	c.counts[what] += n
	c.mu.Unlock()
}

func (c *Check) Sample(x interface{}) {
	c.mu.Lock()
	if len(c.sample) < 12 {
		c.sample = append(c.sample, x)
	}
	c.mu.Unlock()
}

// Violate records a violation, unless key names a known finding.
func (c *Check) Violate(key, what string, detail interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.known[key] {
		if !c.kprint[key] {
			c.kprint[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.Prop, key, strings.Join(strings.Fields(what), " "))
		}
		return
	}
	if len(c.viol) < 50 {
		c.viol = append(c.viol, violation{key, what, detail})
	}
	c.counts["violations"]++
}

// Need fails the check as inconclusive if fewer than n events were observed.
func (c *Check) Need(what string, n int) {
	if c.counts[what] < n && !c.violated() {
		die("inconclusive: observed %d %s, expected at least %d", c.counts[what], what, n)
	}
}

func (c *Check) Finish() int {
	hungMu.Lock()
	for _, w := range gogllHung {
		c.Violate("hang", "gogll did not end within its CPU time", w)
	}
	hungMu.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	verifDir := envOr("VERIF_DIR", "/verif")
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.dist),
		"rule":                c.rule,
		"samples":             c.sample,
	}
	for k, v := range c.counts {
		cov["n_"+strings.ReplaceAll(k, " ", "_")] = v
	}
	evd := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(),
		"violations": len(c.viol), "assumptions": c.assume,
	}
	b, _ := json.MarshalIndent(evd, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0777)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.Prop+".json"), b, 0666); err != nil {
		fmt.Printf("CHECK-ERROR: evidence: %s\n", err)
		return 2
	}
	keys := []string{}
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %.1fs\n", c.Prop, c.Tier, c.Seed, c.evals, len(c.dist), time.Since(c.start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s: %d\n", k, c.counts[k])
	}
	if len(c.viol) > 0 {
		rep := filepath.Join(verifDir, "evidence", c.Prop+".replay.json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "violations": c.viol}, "", " ")
		os.WriteFile(rep, b, 0666)
		for i, v := range c.viol {
			if i < 8 {
				d, _ := json.Marshal(v.Detail)
				if len(d) > 1500 {
					d = d[:1500]
				}
				fmt.Printf("violated: %s: %s %s\n", v.Key, strings.ToValidUTF8(v.What, "?"), strings.ToValidUTF8(string(d), "?"))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rep)
		return 1
	}
	return 0
}

// readTree returns the files below dir.
func readTree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// diffTrees describes the first difference between two directories, or "".
func diffTrees(a, b string) string {
	ta, tb := readTree(a), readTree(b)
	var names []string
	for k := range ta {
		names = append(names, k)
	}
	for k := range tb {
		if _, ok := ta[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		x, okx := ta[n]
		y, oky := tb[n]
		switch {
		case !okx || !oky:
			return n + " exists in only one"
		case x != y:
			lx, ly := strings.Split(x, "\n"), strings.Split(y, "\n")
			for i := range lx {
				if i >= len(ly) || lx[i] != ly[i] {
					other := ""
					if i < len(ly) {
						other = ly[i]
					}
					return fmt.Sprintf("%s:%d: %q and %q", n, i+1, trunc(lx[i], 120), trunc(other, 120))
				}
			}
			return n + " differs"
		}
	}
	return ""
}
