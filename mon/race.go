package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"mon/ev"
)

func init() { checks["C17"] = checkC17 }

/*** C17: generated parsers under the race detector ***/

const yieldSrc = `// Package yield injects scheduling points. It synchronises nothing.
package yield

import (
	"math/rand/v2"
	"runtime"
)

func Y() {
	if rand.Uint32()&15 == 0 {
		runtime.Gosched()
	}
}
`

// injectYields puts a scheduling point at the start of every function and
// loop body of the generated packages.
func injectYields(dir string) error { return injectCalls(dir, "m/yield") }

// injectCalls calls function Y of a package in every function, loop and if body.
func injectCalls(dir, pkg string) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.Contains(p, "/drv/") || strings.Contains(p, "/ast/") && pkg == "m/work" {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := goparser.ParseFile(fs, p, src, goparser.SkipObjectResolution)
		if err != nil {
			return err
		}
		var at []int
		for _, d := range f.Decls {
			fd, ok := d.(*goast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			goast.Inspect(fd, func(n goast.Node) bool {
				var b *goast.BlockStmt
				switch n := n.(type) {
				case *goast.FuncDecl:
					b = n.Body
				case *goast.ForStmt:
					b = n.Body
				case *goast.RangeStmt:
					b = n.Body
				case *goast.IfStmt:
					b = n.Body
				}
				if b != nil {
					at = append(at, fs.Position(b.Lbrace).Offset+1)
				}
				return true
			})
		}
		if len(at) == 0 {
			return nil
		}
		sort.Ints(at)
		var out bytes.Buffer
		hdr := fs.Position(f.Name.End()).Offset
		out.Write(src[:hdr])
		fmt.Fprintf(&out, "; import vmonyield %q", pkg)
		last := hdr
		for _, o := range at {
			out.Write(src[last:o])
			out.WriteString(" vmonyield.Y();")
			last = o
		}
		out.Write(src[last:])
		return os.WriteFile(p, out.Bytes(), 0666)
	})
}

// pureAST makes the action functions render their arguments.
func pureAST(g *Grammar) string {
	var b strings.Builder
	b.WriteString("package ast\n\nimport (\n\t\"fmt\"\n\t\"strings\"\n)\n")
	b.WriteString(`
func rec(f string, args ...interface{}) (interface{}, error) {
	var ss []string
	for _, a := range args {
		switch v := a.(type) {
		case string:
			ss = append(ss, v)
		case interface{ LiteralString() string }:
			ss = append(ss, v.LiteralString())
		default:
			ss = append(ss, fmt.Sprintf("%T", a))
		}
	}
	return f + "(" + strings.Join(ss, " ") + ")", nil
}
`)
	fn := func(name string, n int) {
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("p%d", i))
		}
		p := strings.Join(ps, ", ")
		typ, sep := "", ""
		if n > 0 {
			typ, sep = " interface{}", ", "
		}
		fmt.Fprintf(&b, "func %s(%s%s) (interface{}, error) { return rec(%q%s%s) }\n", name, p, typ, name, sep, p)
	}
	fn(startHead(g)+"0", 1)
	for _, r := range g.Rules {
		for i, a := range r.Alts {
			fn(altFunc(g, r.Head, i), len(a))
		}
	}
	return b.String()
}

type raceCase struct {
	u  *Unit
	g  *Grammar
	c  *CFG
	lr bool
	y  bool
}

func checkC17(c *Check) {
	c.rule = "a unit is one generated package whose first uses are concurrent parses by a group of goroutines, followed by concurrent reads of shared results; distinct units and distinct finishing orders are counted"
	c.assume = []string{"the Go race detector reports every conflicting pair of accesses it sees without a happens-before order"}
	r := NewRng(c.Seed, "C17")
	e := NewEnv()
	e.Race = true
	e.Main = "race_main.go.txt"
	e.Entry = "%[1]q: {%[1]s.Open, %[1]s.Read, %[1]s.Tables, %[1]s.N},"
	var cases []*raceCase
	add := func(g *Grammar, mode string, lr bool) {
		cs := &raceCase{g: g, c: NewCFG(g), lr: lr, y: r.Chance(60)}
		id := fmt.Sprintf("r%03d", len(cases))
		cs.u = &Unit{ID: id, Text: g.Text("m/" + id), Glue: "race_gll.go.txt"}
		if lr {
			cs.u.Glue = "race_lr.go.txt"
			cs.u.Flags = []string{"-" + mode}
		}
		cs.u.Post = func(d string) error {
			if lr {
				if err := os.WriteFile(d+"/ast/ast.go", []byte(pureAST(g)), 0666); err != nil {
					return err
				}
			}
			if cs.y {
				return injectYields(d)
			}
			return nil
		}
		cases = append(cases, cs)
	}
	gs := gllGrammars(r, c.N(40, 120))
	shuffle(r, gs)
	if n := c.N(56, 150); len(gs) > n {
		gs = gs[:n]
	}
	for _, g := range gs {
		add(g, "", false)
	}
	lgs, _ := lrGrammars(r, c.N(60, 100), func(l *LR) bool { return l.Conflicts == 0 })
	shuffle(r, lgs)
	if n := c.N(16, 40); len(lgs) > n {
		lgs = lgs[:n]
	}
	for i, g := range lgs {
		add(g, []string{"knuth", "pager"}[i%2], true)
	}
	// the race runtime needs the yield package in every module
	e.Extra = map[string]string{"yield/yield.go": yieldSrc}
	us := []*Unit{}
	for _, cs := range cases {
		us = append(us, cs.u)
	}
	m := e.Build(us)
	reportBuild(c, us)
	reps := c.N(3, 6)
	var jobs []*ev.Job
	var meta []*raceCase
	for rep := 0; rep < reps; rep++ {
		for _, cs := range cases {
			if !cs.u.OK {
				continue
			}
			rr := r.Fork(fmt.Sprint(cs.u.ID, rep))
			long := 8
			if cs.lr {
				long = 16
			}
			ins := genInputs(rr, cs.c, 6, 16, 12, 4, long)
			shuffle(rr, ins)
			j := &ev.Job{I: len(jobs), G: cs.u.ID, Arg: pick(rr, []int{2, 4, 8, 16}), File: filepath.Join(e.Dir, fmt.Sprintf("dot%d", len(jobs)))}
			for _, w := range ins {
				if len(j.Ins) < 14 {
					in := renderTokens(rr, cs.c, w, hasComment(cs.g))
					if rr.Chance(5) {
						in += " §"
					}
					j.Ins = append(j.Ins, in)
				}
			}
			if len(j.Ins) == 0 {
				continue
			}
			jobs = append(jobs, j)
			meta = append(meta, cs)
		}
	}
	// every process runs a unit at most once, so that its first use is concurrent
	per := (len(cases) + 3) / 4
	var chunks [][2]int
	for lo := 0; lo < len(jobs); lo += per {
		hi := lo + per
		if hi > len(jobs) {
			hi = len(jobs)
		}
		chunks = append(chunks, [2]int{lo, hi})
	}
	res := make([]*ev.Res, len(jobs))
	errs := make([]string, len(jobs))
	w := make(chan struct{}, 4)
	done := make(chan int)
	for k := range chunks {
		go func(k int) {
			w <- struct{}{}
			m.runRace(jobs, res, errs, chunks[k][0], chunks[k][1])
			<-w
			done <- k
		}(k)
	}
	for range chunks {
		<-done
	}
	// a process ended from outside says nothing: run its unit again
	for i := range jobs {
		for n := 0; n < 2 && (res[i] == nil || !res[i].OK) && !strings.Contains(errs[i], "fatal error") && !strings.Contains(errs[i], "DATA RACE") && !strings.Contains(errs[i], "panic:"); n++ {
			c.Count("jobs run again", 1)
			res[i], errs[i] = nil, ""
			m.runRace(jobs, res, errs, i, i+1)
		}
	}
	orders := map[string]bool{}
	for i, j := range jobs {
		cs, rs := meta[i], res[i]
		det := func(x interface{}) map[string]interface{} {
			return map[string]interface{}{"grammar": cs.u.Text, "flags": cs.u.Flags, "inputs": j.Ins, "goroutines": j.Arg, "yields": cs.y, "observed": x}
		}
		if n := strings.Count(errs[i], "WARNING: DATA RACE"); n > 0 {
			c.Violate("race", "data race: "+raceFrames(errs[i]), det(trunc(errs[i], 3000)))
			c.Count("race reports", n)
		}
		for _, f := range []string{"fatal error: concurrent map", "all goroutines are asleep", "sync: unlock of unlocked"} {
			if strings.Contains(errs[i], f) {
				c.Violate("crash", f, det(trunc(errs[i], 3000)))
			}
		}
		if rs == nil || !rs.OK {
			c.Count("jobs without a result", 1)
			continue
		}
		kind := "GLL "
		if cs.lr {
			kind = "LR(1) "
		}
		key := ""
		over := 0
		for _, p := range rs.Pos {
			if p[0] > over {
				over = p[0]
			}
			if p[0] > 1 {
				c.Count("overlapping goroutine groups", 1)
			}
		}
		if over > 1 {
			key = cs.u.Text
		}
		c.Eval(key)
		c.Count(kind+"units run concurrently", 1)
		c.Count("results compared with sequential ones", rs.All)
		c.Count("sequential parses without panic", rs.NErr)
		if cs.y {
			c.Count("units with injected yields", 1)
		}
		for _, s := range rs.Strs {
			orders[fmt.Sprint(i, s)] = true
		}
		if i < 4 {
			c.Sample(map[string]interface{}{"unit": cs.u.Text, "inputs": len(j.Ins), "goroutines": j.Arg, "in flight": rs.Pos, "finishing orders": rs.Strs})
		}
		for _, s := range rs.Cycles {
			c.Violate("result", s, det(nil))
			break
		}
	}
	c.Count("distinct finishing orders", len(orders))
	c.Need("overlapping goroutine groups", 100)
	c.Need("results compared with sequential ones", 3000)
	if c.counts["jobs without a result"] > 0 && len(c.viol) == 0 {
		for i := range jobs {
			if res[i] == nil || !res[i].OK {
				die("inconclusive: no result for %s %q: %s", jobs[i].G, meta[i].u.Text, trunc(errs[i], 2000))
			}
		}
	}
}

var frameRE = regexp.MustCompile(`(?m)^  (m/\S+)\(`)

func raceFrames(s string) string {
	var out []string
	seen := map[string]bool{}
	for _, m := range frameRE.FindAllStringSubmatch(s, -1) {
		f := regexp.MustCompile(`^m/r\d+/`).ReplaceAllString(m[1], "")
		if !seen[f] && len(out) < 6 {
			seen[f] = true
			out = append(out, f)
		}
	}
	return strings.Join(out, ", ")
}

// runRace runs jobs lo..hi-1 in one process, restarting it after a crash.
func (m *Module) runRace(jobs []*ev.Job, res []*ev.Res, errs []string, lo, hi int) {
	for lo < hi {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, j := range jobs[lo:hi] {
			enc.Encode(j)
		}
		pr, pw, err := os.Pipe()
		if err != nil {
			die("%s", err)
		}
		c := exec.Command("/bin/bash", "-c", "ulimit -t 1800; exec \"$0\"", m.Bin)
		c.Dir = m.Dir
		c.Stdin = &in
		var se bytes.Buffer
		c.Stderr = &limitWriter{w: &se, n: 8 << 20}
		c.Stdout = io.Discard
		c.ExtraFiles = []*os.File{pw}
		c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=4", fmt.Sprint("GOMAXPROCS=", min(4, runtime.NumCPU())), "GOTRACEBACK=single")
		if err := c.Start(); err != nil {
			die("driver: %s", err)
		}
		pw.Close()
		kill := time.AfterFunc(10*time.Minute, func() { c.Process.Kill() })
		dec := json.NewDecoder(bufio.NewReader(pr))
		next := lo
		for {
			r := &ev.Res{}
			if dec.Decode(r) != nil {
				break
			}
			if r.I >= lo && r.I < hi {
				res[r.I] = r
				next = r.I + 1
			}
		}
		pr.Close()
		c.Wait()
		kill.Stop()
		if next < hi {
			errs[next] = "driver: " + c.ProcessState.String() + "\n"
		}
		for _, part := range strings.Split(se.String(), "\n@@JOB ")[1:] {
			var i int
			if _, err := fmt.Sscan(part, &i); err == nil && i >= lo && i < hi {
				errs[i] += part
			}
		}
		if next == hi {
			return
		}
		lo = next + 1
	}
}
