package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

/*** C16: gogll regenerates its own front end ***/

func init() { checks["C16"] = checkC16 }

// copyRepo copies the working tree without .git.
func copyRepo(dst string) {
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repoDir, p)
		if fi.IsDir() {
			if rel == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0777)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0666)
	})
	if err != nil {
		die("copy of the repository: %s", err)
	}
}

// regenerate runs gogll on its own grammar in a copy of the repository whose
// front end was removed, and builds the result.
func (e *Env) regenerate(gogll, name string) (bin, dir, msg string) {
	dir = filepath.Join(e.Dir, name)
	copyRepo(dir)
	for _, d := range []string{"lexer", "parser", "token", "sppf"} {
		os.RemoveAll(filepath.Join(dir, d))
	}
	r := runLimited(dir, 120, gogll, filepath.Join(dir, "gogll.md"))
	if r.Code != 0 {
		return "", dir, fmt.Sprintf("gogll rejects its own grammar: exit %d: %s", r.Code, trunc(r.Out, 600))
	}
	bin = filepath.Join(e.Dir, name+".bin")
	c := exec.Command("go", "build", "-o", bin, ".")
	c.Dir = dir
	c.Env = goEnv("GOFLAGS=-mod=readonly -trimpath -buildvcs=false")
	if out, err := c.CombinedOutput(); err != nil {
		return "", dir, "the regenerated front end does not build: " + trunc(string(out), 1500)
	}
	return bin, dir, ""
}

var frontDirs = []string{"lexer", "parser", "token", "sppf"}

func checkC16(c *Check) {
	c.rule = "a case is a (text, mode) pair given to both compilers; empty texts are trivial. Texts as for C14, and larger random grammars"
	c.assume = []string{"the regenerated gogll is built from a copy of the working tree in which only the front end was regenerated from gogll.md",
		"syntax errors are compared by exit status and first location, every other output byte for byte"}
	e := NewEnv()
	bin2, dir2, msg := e.regenerate(e.Gogll, "gen2")
	if msg != "" {
		c.Eval("bootstrap")
		c.Violate("bootstrap", msg, map[string]string{"grammar": "gogll.md"})
		return
	}
	bin3, dir3, msg := e.regenerate(bin2, "gen3")
	if msg != "" {
		c.Violate("bootstrap", "second generation: "+msg, map[string]string{"grammar": "gogll.md"})
		return
	}
	_ = bin3
	for _, d := range frontDirs {
		c.Eval("fixpoint|" + d)
		if x := diffTrees(filepath.Join(dir2, d), filepath.Join(dir3, d)); x != "" {
			c.Violate("bootstrap", "the regenerated front end generates another one: "+d+"/"+x, map[string]string{"grammar": "gogll.md"})
		}
	}
	r := NewRng(c.Seed, c.Prop)
	type job struct{ src, ext, mode string }
	var jobs []job
	for _, s := range append(append([]string{}, garbage...), directedTexts()...) {
		jobs = append(jobs, job{s, ".txt", ""})
	}
	// grammars of the repository itself
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".md") && !strings.Contains(p, "/.git/") {
			if b, err := os.ReadFile(p); err == nil && strings.Contains(string(b), "package \"") {
				jobs = append(jobs, job{string(b), ".md", ""}, job{string(b), ".md", "-pager"})
			}
		}
		return nil
	})
	n := c.N(1200, 25000)
	for i := 0; i < n; i++ {
		rr := r.Fork(fmt.Sprint(i))
		var s string
		if rr.Chance(12) {
			s = lrRandom(rr).Text("m/x")
		} else {
			s, _ = mutateText(rr, baseText(rr))
		}
		j := job{s, ".txt", ""}
		switch rr.Intn(8) {
		case 0:
			j.mode = "-knuth"
		case 1:
			j.mode = "-pager"
		case 2:
			j.mode = "-v"
		case 3:
			j.ext = ".md"
			j.src = "# T\n```\n" + s + "\n```\n"
		}
		jobs = append(jobs, j)
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		var res [2]RunRes
		var dirs [2]string
		for k, bin := range []string{e.Gogll, bin2} {
			d := filepath.Join(e.Dir, fmt.Sprintf("b%d-%d", i, k))
			dirs[k] = d
			src := filepath.Join(d, "g"+j.ext)
			writeFile(src, j.src)
			defer os.RemoveAll(d)
			args := []string{"-o", d, src}
			if j.mode != "" {
				args = append([]string{j.mode}, args...)
			}
			res[k] = runLimited(d, 25, bin, args...)
			res[k].Out = strings.ReplaceAll(res[k].Out, d, "DIR")
		}
		key := ""
		if j.src != "" {
			key = j.mode + j.ext + j.src
		}
		c.Eval(key)
		wit := map[string]interface{}{"text": j.src, "mode": j.mode, "ext": j.ext, "exit": res[0].Code, "output": trunc(res[0].Out, 500), "regenerated exit": res[1].Code, "regenerated output": trunc(res[1].Out, 500)}
		if i%401 == 0 {
			c.Sample(wit)
		}
		if res[0].Code != res[1].Code || res[0].Crash != res[1].Crash {
			c.Violate("behaviour", fmt.Sprintf("exit status %d, but %d of the regenerated gogll", res[0].Code, res[1].Code), wit)
			return
		}
		if res[0].Code == 0 {
			c.Count("accepted", 1)
		} else {
			c.Count("rejected", 1)
		}
		a, b := res[0].Out, res[1].Out
		if strings.HasPrefix(a, "Parse Errors") && strings.HasPrefix(b, "Parse Errors") {
			c.Count("syntax errors", 1)
			a, b = fmt.Sprint(reLoc.FindString(a)), fmt.Sprint(reLoc.FindString(b))
		}
		if a != b && !res[0].Crash {
			c.Violate("behaviour", "the outputs differ", wit)
			return
		}
		if x := diffTrees(dirs[0], dirs[1]); x != "" {
			c.Violate("behaviour", "the generated files differ: "+x, wit)
		}
	})
	c.Need("accepted", 300)
	c.Need("rejected", 300)
}
