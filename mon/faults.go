package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { checks["C24"] = checkC24 }

// A faultRun is one execution of gogll as an unprivileged user.
type faultRun struct {
	code   int
	signal bool
	out    string
	cpuOut bool
}

// runFault runs gogll in dir with a limit on the size of the files it writes
// (in blocks of 512 bytes, < 0: none) and kills it after kill (0: never).
func runFault(dir, bin string, fsize int, kill time.Duration, args ...string) faultRun {
	sh := "ulimit -t 60; ulimit -v 12000000; "
	if fsize >= 0 {
		sh += fmt.Sprintf("ulimit -f %d; ", fsize)
	}
	// dash counts in blocks of 512 bytes
	c := exec.Command("/bin/sh", append([]string{"-c", sh + `exec "$0" "$@"`, bin}, args...)...)
	c.Dir = dir
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir, "GOTRACEBACK=single"}
	if canDrop() {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	// The output goes to a pipe, which no limit applies to.
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil {
		die("cannot run %s: %s", bin, err)
	}
	var t *time.Timer
	if kill > 0 {
		t = time.AfterFunc(kill, func() { c.Process.Kill() })
	}
	err := c.Wait()
	if t != nil {
		t.Stop()
	}
	r := faultRun{out: b.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		r.code = ee.ExitCode()
		r.signal = r.code < 0
	} else if err != nil {
		die("cannot run %s: %s", bin, err)
	}
	return r
}

var (
	dropOnce sync.Once
	dropOK   bool
)

// canDrop tells whether a command can run as an unprivileged user.
func canDrop() bool {
	dropOnce.Do(func() {
		if os.Getuid() == 0 {
			c := exec.Command("/bin/true")
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
			dropOK = c.Run() == nil
		}
	})
	return dropOK
}

func give(root string) {
	if !canDrop() {
		return
	}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, nobody, nobody)
		}
		return nil
	})
}

// outputFiles are the regular files below dir except the grammar. Symbolic
// links and what is under a blocked path are not outputs.
func outputFiles(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			rel, _ := filepath.Rel(dir, p)
			if rel != "g.md" {
				b, _ := os.ReadFile(p)
				m[rel] = string(b)
			}
		}
		return nil
	})
	return m
}

func isAST(f string) bool { return f == "ast/ast.go" || f == "src/ast/mod.rs" }

// checkC24: no fault of the file system while gogll writes passes for success,
// and a run after an interrupted or failed one makes the outputs whole.
func checkC24(c *Check) {
	c.rule = "a case is a grammar, options, an output and a fault (or a point of interruption)"
	c.assume = []string{"faults: a directory or a full device in the place of an output, a file in the place of its directory, a limit on the size of files, SIGKILL at a random time, and the residue of an interrupted run (a prefix of the outputs, the last one cut short or with blocks of zeros)",
		"an existing LR(1) AST file belongs to the user: it is never judged when it existed before the run"}
	r := NewRng(c.Seed, c.Prop)
	e := NewEnv()
	os.Chmod(e.Dir, 0755)
	os.Chmod(e.Gogll, 0755)
	modes := [][]string{{"-gll"}, {"-gll", "-v"}, {"-knuth", "-resolve_conflicts"}, {"-knuth", "-v", "-resolve_conflicts"}, {"-pager", "-resolve_conflicts"}, {"-pager", "-v", "-a", "-resolve_conflicts"}, {"-knuth", "-a"}, {"-rust"}, {"-rust", "-v"}, {"-rust", "-knuth", "-v", "-resolve_conflicts"}}
	type tcase struct {
		text  string
		flags []string
		seed  int64
	}
	var cases []tcase
	for i := 0; i < c.N(70, 500); i++ {
		var text string
		switch k := r.Intn(10); {
		case k < 3:
			text = pick(r, curatedGrammars()).Text("m/x")
		case k < 5:
			text = pick(r, curatedLR()).Text("m/x")
		case k < 6:
			text = "package \"m/x\"\nid : letter { letter } ;\n!sp : '/' { not \"/\" } '/' ;\n"
		default:
			text = randGrammar(r, GenOpts{MaxNT: 6, MaxAlts: 4, MaxLen: 4, MaxTerms: 5, NTPct: 45, EmptyPct: 10}).Text("m/x")
		}
		cases = append(cases, tcase{text, modes[i%len(modes)], int64(r.Intn(1 << 30))})
	}
	parallel(len(cases), func(i int) {
		t := cases[i]
		rr := NewRng(t.seed, "faults")
		root := filepath.Join(e.Dir, fmt.Sprintf("f%03d", i))
		args := append(append([]string{}, t.flags...), "g.md")
		overwrite := strings.Contains(strings.Join(t.flags, " ")+" ", "-a ")
		n := 0
		fresh := func() string {
			n++
			d := filepath.Join(root, fmt.Sprintf("r%03d", n))
			os.MkdirAll(d, 0755)
			writeFile(filepath.Join(d, "g.md"), "```\n"+t.text+"```\n")
			return d
		}
		done := func(d string) { os.RemoveAll(d) }
		wit := func(what string, f faultRun) map[string]interface{} {
			return map[string]interface{}{"grammar": t.text, "args": args, "fault": what, "exit": f.code, "output": trunc(f.out, 500)}
		}
		d := fresh()
		give(d)
		t0 := time.Now()
		ref := runFault(d, e.Gogll, -1, 0, args...)
		took := time.Since(t0)
		base := outputFiles(d)
		if ref.signal {
			done(d)
			return
		}
		// the order in which the outputs were written
		var names []string
		for f := range base {
			names = append(names, f)
		}
		mt := func(f string) int64 {
			fi, err := os.Stat(filepath.Join(d, f))
			if err != nil {
				return 0
			}
			return fi.ModTime().UnixNano()
		}
		sort.Slice(names, func(a, b int) bool {
			if x, y := mt(names[a]), mt(names[b]); x != y {
				return x < y
			}
			return names[a] < names[b]
		})
		done(d)
		if ref.code != 0 {
			// rejected, after verbose files perhaps
			c.Count("rejected grammars", 1)
		} else {
			c.Count("accepted grammars", 1)
		}
		if i%7 == 0 {
			c.Sample(wit("none", ref))
		}

		// whole compares the outputs of a run that succeeded with base, except
		// those that skip has. A run that fails has to say so.
		judge := func(d, what string, f faultRun, skip func(string) bool, mustFail bool, culprit string) {
			c.Eval(fmt.Sprint(i, what))
			if f.signal {
				c.Violate("killed", "gogll was killed: "+what, wit(what, f))
				return
			}
			if f.code != 0 {
				c.Count("failures reported", 1)
				if strings.TrimSpace(f.out) == "" {
					c.Violate("silent", "gogll failed without a word: "+what, wit(what, f))
				}
				if ref.code == 0 && culprit != "" && !strings.Contains(f.out, culprit) {
					c.Violate("unnamed", "the message does not name "+culprit+": "+what, wit(what, f))
				}
				if !mustFail && ref.code == 0 {
					c.Violate("spurious", "gogll failed without a fault: "+what, wit(what, f))
				}
				return
			}
			if ref.code != 0 {
				c.Violate("accepted", "gogll succeeds only with a fault: "+what, wit(what, f))
				return
			}
			got := outputFiles(d)
			for _, b := range names {
				if skip != nil && skip(b) {
					continue
				}
				if g, ok := got[b]; !ok {
					c.Violate("missing", "gogll reports success but did not write "+b+": "+what, wit(what, f))
					return
				} else if g != base[b] {
					c.Violate("incomplete", fmt.Sprintf("gogll reports success but %s has %d bytes that differ from the %d it has without the fault: %s", b, len(g), len(base[b]), what), wit(what, f))
					return
				}
			}
			c.Count("complete outputs", 1)
		}
		// rerun without the fault in the same directory
		rerun := func(d, what string, keep func(string) bool) {
			give(d)
			f := runFault(d, e.Gogll, -1, 0, args...)
			judge(d, "run after: "+what, f, keep, false, "")
			c.Count("reruns", 1)
		}

		// 1. a fault at every output
		outs := append([]string{}, names...)
		for _, b := range outs {
			kinds := []string{"directory", "full device"}
			if strings.Contains(b, "/") {
				kinds = append(kinds, "file for directory")
			}
			for _, kind := range kinds {
				if !c.Thorough() && rr.Chance(35) {
					continue
				}
				d := fresh()
				p := filepath.Join(d, b)
				skip := func(string) bool { return false }
				switch kind {
				case "directory":
					writeFile(filepath.Join(p, "keep"), "x")
				case "full device":
					os.MkdirAll(filepath.Dir(p), 0755)
					os.Symlink("/dev/full", p)
				case "file for directory":
					writeFile(filepath.Dir(p), "x")
				}
				if isAST(b) && !overwrite && kind != "file for directory" {
					skip = isAST
				}
				give(d)
				f := runFault(d, e.Gogll, -1, 0, args...)
				what := kind + " at " + b
				culprit := filepath.Base(b)
				if kind == "file for directory" {
					culprit = filepath.Base(filepath.Dir(b))
				}
				judge(d, what, f, skip, true, culprit)
				c.Count("faults: "+kind, 1)
				if f.code != 0 && rr.Chance(50) {
					os.RemoveAll(p)
					if kind == "file for directory" {
						os.Remove(filepath.Dir(p))
					}
					_, err := os.Lstat(filepath.Join(d, "ast/ast.go"))
					_, err2 := os.Lstat(filepath.Join(d, "src/ast/mod.rs"))
					had := err == nil || err2 == nil
					rerun(d, what, func(s string) bool { return had && isAST(s) && !overwrite })
				}
				done(d)
			}
		}
		// 2. files cut short by a limit on their size
		sizes := map[int]bool{0: true}
		for _, b := range names {
			sizes[len(base[b])/512] = true
			sizes[rr.Intn(len(base[b])/512+1)] = true
		}
		var lims []int
		for s := range sizes {
			lims = append(lims, s)
		}
		sort.Ints(lims)
		for _, lim := range lims {
			if !c.Thorough() && rr.Chance(50) {
				continue
			}
			d := fresh()
			give(d)
			f := runFault(d, e.Gogll, lim, 0, args...)
			big := false
			for _, b := range names {
				big = big || len(base[b]) > lim*512
			}
			what := fmt.Sprintf("files limited to %d bytes", lim*512)
			if f.signal {
				// SIGXFSZ is a way to report the limit
				c.Count("failures reported", 1)
				c.Eval(fmt.Sprint(i, what))
			} else {
				judge(d, what, f, nil, big, "")
			}
			c.Count("faults: limit", 1)
			if f.code != 0 {
				for _, a := range []string{"ast/ast.go", "src/ast/mod.rs"} {
					if !overwrite {
						os.Remove(filepath.Join(d, a)) // as the user has to
					}
				}
				rerun(d, what, nil)
			}
			done(d)
		}
		// 3. killed at any time
		for k := 0; k < c.N(8, 40); k++ {
			d := fresh()
			give(d)
			at := time.Duration(rr.Intn(int(took)*11/10)) + 1
			f := runFault(d, e.Gogll, -1, at, args...)
			if !f.signal {
				c.Count("runs that ended before the kill", 1)
				done(d)
				continue
			}
			c.Count("killed runs", 1)
			left := outputFiles(d)
			state := 0
			for _, b := range names {
				if g, ok := left[b]; ok && g == base[b] {
					state++
				} else if ok {
					c.Count("files cut short by a kill", 1)
				}
			}
			if state > 0 && state < len(names) {
				c.Count("kills between outputs", 1)
			}
			for _, a := range []string{"ast/ast.go", "src/ast/mod.rs"} {
				if !overwrite && left[a] != base[a] {
					os.Remove(filepath.Join(d, a))
				}
			}
			rerun(d, fmt.Sprintf("killed after %d of %d outputs", state, len(names)), nil)
			done(d)
		}
		// 4. the residue of an interruption at every output
		for k := range names {
			if !c.Thorough() && rr.Chance(40) {
				continue
			}
			b := names[k]
			if isAST(b) && !overwrite {
				continue
			}
			d := fresh()
			for _, x := range names[:k] {
				writeFile(filepath.Join(d, x), base[x])
			}
			cut := rr.Intn(len(base[b]) + 1)
			if rr.Chance(30) {
				cut = 0
			}
			what := fmt.Sprintf("%s cut short after %d of %d bytes, %d outputs before it", b, cut, len(base[b]), k)
			if rr.Chance(40) {
				// blocks that never reached the device
				cut = rr.Intn(len(base[b]) + 1)
				writeFile(filepath.Join(d, b), base[b][:cut]+strings.Repeat("\x00", len(base[b])-cut))
				what = fmt.Sprintf("%s zero from byte %d of %d on, %d outputs before it", b, cut, len(base[b]), k)
			} else {
				writeFile(filepath.Join(d, b), base[b][:cut])
			}
			// older, longer contents of the outputs not reached
			for _, x := range names[k+1:] {
				if rr.Chance(40) && !isAST(x) {
					writeFile(filepath.Join(d, x), base[x]+"// older\n")
				}
			}
			rerun(d, what, nil)
			c.Count("residues", 1)
			done(d)
		}
		os.RemoveAll(root)
	})
	// a grammar that cannot be read
	for _, k := range []string{"missing", "directory", "unreadable", "dangling link"} {
		for _, flags := range [][]string{{}, {"-v"}, {"-knuth"}} {
			d := filepath.Join(e.Dir, "src-"+strings.ReplaceAll(k, " ", "")+strings.Join(flags, ""))
			os.MkdirAll(d, 0755)
			p := filepath.Join(d, "g.md")
			switch k {
			case "directory":
				os.Mkdir(p, 0755)
			case "unreadable":
				writeFile(p, "```\npackage \"m/x\"\nS : \"a\" ;\n```\n")
			case "dangling link":
				os.Symlink(filepath.Join(d, "none.md"), p)
			}
			give(d)
			if k == "unreadable" {
				os.Chmod(p, 0)
			}
			if k == "unreadable" && !canDrop() {
				continue
			}
			f := runFault(d, e.Gogll, -1, 0, append(append([]string{}, flags...), "g.md")...)
			c.Eval("source " + k + strings.Join(flags, ""))
			c.Count("unreadable sources", 1)
			w := map[string]interface{}{"source": k, "args": flags, "exit": f.code, "output": trunc(f.out, 400)}
			if f.code == 0 || f.signal {
				c.Violate("source", "gogll does not fail for a grammar that cannot be read: "+k, w)
			} else if !strings.Contains(f.out, "g.md") && !strings.Contains(f.out, "none.md") {
				c.Violate("source-unnamed", "the message does not name the grammar that cannot be read: "+k, w)
			}
			if fs := outputFiles(d); len(fs) > 0 {
				c.Violate("source-output", "gogll wrote files for a grammar that cannot be read: "+k, w)
			}
			os.Chmod(p, 0644)
		}
	}
	c.Need("faults: directory", 20)
	c.Need("faults: full device", 20)
	c.Need("faults: limit", 20)
	c.Need("failures reported", 60)
	c.Need("complete outputs", 60)
	c.Need("kills between outputs", 1)
	c.Need("accepted grammars", 5)
}
