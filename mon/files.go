package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() { checks["C18"] = checkC18 }

const nobody = 65534

var longAgo = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

type fstate struct {
	kind, content string
	mode          os.FileMode
	mtime         time.Time
}

func snapshot(root string) map[string]fstate {
	m := map[string]fstate{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		s := fstate{mode: fi.Mode(), mtime: fi.ModTime()}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			s.kind = "link"
			s.content, _ = os.Readlink(p)
		case fi.IsDir():
			s.kind = "dir"
			s.mtime = time.Time{}
		default:
			s.kind = "file"
			b, _ := os.ReadFile(p)
			s.content = string(b)
		}
		m[rel] = s
		return nil
	})
	return m
}

// runAsNobody runs gogll as an unprivileged user that owns only its sandbox, so
// that a write that escapes cannot reach anything real.
func runAsNobody(cwd, root, bin string, args ...string) (RunRes, bool) {
	do := func(cred bool) (RunRes, error) {
		c := exec.Command("/bin/bash", append([]string{"-c", `ulimit -t 60; ulimit -v 12000000; exec "$0" "$@"`, bin}, args...)...)
		c.Dir = cwd
		c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + root + "/home", "TMPDIR=" + root + "/tmp", "PWD=" + cwd, "GOTRACEBACK=single"}
		if cred {
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		}
		var b bytes.Buffer
		c.Stdout, c.Stderr = &b, &b
		err := c.Run()
		r := RunRes{Out: b.String()}
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
			r.Crash = r.Code < 0 || r.Code == 137 || r.Code == 152 || r.Code == 2 && strings.Contains(r.Out, "\ngoroutine ")
			err = nil
		}
		return r, err
	}
	if os.Getuid() == 0 {
		if r, err := do(true); err == nil {
			return r, true
		}
	}
	r, err := do(false)
	if err != nil {
		die("cannot run %s: %s", bin, err)
	}
	return r, false
}

var gllOutputs = []string{"token/token.go", "lexer/lexer.go", "parser/parser.go", "parser/bsr/bsr.go", "parser/slot/slot.go", "parser/symbols/symbols.go", "sppf/sppf.go"}
var lrOutputs = []string{"token/token.go", "lexer/lexer.go", "errors/errors.go", "ast/ast.go", "parser/action.go", "parser/actiontable.go", "parser/gototable.go", "parser/parser.go", "parser/productionstable.go"}
var verboseOutputs = []string{"first_follow.txt", "symbols.txt", "grammar_slots.txt", "lexfsa.txt"}
var lrVerbose = []string{"CFG_items.txt", "LR1_states.txt"}
var rustGLLOutputs = []string{"src/parser/symbols/mod.rs", "src/parser/mod.rs", "src/parser/slot/mod.rs", "src/parser/bsr/mod.rs", "src/lexer/mod.rs", "src/token/mod.rs"}
var rustLROutputs = []string{"src/parser/productions_table/mod.rs", "src/parser/goto_table/mod.rs", "src/parser/mod.rs", "src/parser/action_table/mod.rs", "src/lexer/mod.rs", "src/token/mod.rs", "src/ast/mod.rs", "src/errors/mod.rs"}

type c18grammar struct {
	kind, text string
	lr1        bool // no LR(1) conflicts
}

func c18grammars(r *Rng) c18grammar {
	switch k := r.Intn(20); {
	case k < 7:
		var g *Grammar
		if r.Chance(50) {
			g = randGrammar(r, GenOpts{MaxNT: 4, MaxAlts: 3, MaxLen: 3, MaxTerms: 4, NTPct: 40, EmptyPct: 10})
		} else {
			g = lrRandom(r)
		}
		l := NewLR(NewCFG(g), 700)
		if l.TooBig {
			return c18grammars(r)
		}
		return c18grammar{"valid", g.Text("m/x"), l.Conflicts == 0}
	case k < 12:
		g := pick(r, curatedLR())
		l := NewLR(NewCFG(g), 700)
		return c18grammar{"valid", g.Text("m/x"), l.Conflicts == 0}
	case k < 14:
		return c18grammar{"tokens", "package \"m/x\"\nid : letter { letter } ;\n!sp : '/' { not \"/\" } '/' ;\n", true}
	case k < 16:
		return c18grammar{"syntax", pick(r, []string{"", "package", "package \"m/x\" S : ;", "package \"m/x\" S : \"a\"", "S : \"a\" ;", "package \"m/x\" S : \"a\" ; §", "package \"m/x\" aa : ( 'a' ;"}), false}
	case k < 19:
		return c18grammar{"semantic", pick(r, []string{"package \"m/x\" S : T ;", "package \"m/x\" S : tk ;", "package \"m/x\" S : \"a\" ; S : \"b\" ;", "package \"m/x\" aa : 'x' ; aa : 'y' ; S : aa ;", "package \"m/x\" S : \"a b\" ;", "package \"m/x\" aa : bb ; S : aa ;"}), false}
	}
	return c18grammar{"uncalled", pick(r, []string{"package \"m/x\" S : \"a\" ; T : \"b\" ;", "package \"m/x\" S : \"a\" S | \"b\" ; T : T \"b\" | empty ; U : T ;"}), true}
}

func checkC18(c *Check) {
	c.rule = "a case is a (grammar, options, path form, directory contents) tuple; the whole sandbox tree is compared before and after the run; every case is non-trivial"
	c.assume = []string{"gogll runs as an unprivileged user owning only the sandbox: a write outside it fails and shows as a missing file",
		"the documented outputs are the lists in mon/files.go, taken from the documentation and the -h text; the content of each is compared with a run in an empty directory"}
	r := NewRng(c.Seed, c.Prop)
	e := NewEnv()
	os.Chmod(e.Dir, 0755)
	os.Chmod(e.Gogll, 0755)
	n := c.N(3000, 30000)
	parallel(n, func(i int) {
		rr := r.Fork(fmt.Sprint(i))
		g := c18grammars(rr)
		root := filepath.Join(e.Dir, fmt.Sprintf("t%d", i))
		ref := filepath.Join(e.Dir, fmt.Sprintf("r%d", i))
		defer os.RemoveAll(root)
		defer os.RemoveAll(ref)
		name := pick(rr, []string{"g.txt", "g.md", "my grammar.txt", "g.v2.bnf", "λ.md", "grammar", "a.md.txt", ".hidden.md"})
		text := g.text
		if strings.HasSuffix(name, ".md") {
			text = "# Title\n\n```\n" + text + "\n```\n"
		}
		// layout
		cwd := filepath.Join(root, pick(rr, []string{"w", "w/deep/er", "sp ace"}))
		srcDir := pick(rr, []string{cwd, cwd + "/src", root + "/elsewhere", filepath.Dir(cwd), cwd + "/s p", cwd + "/a.b/c"})
		outAbs := pick(rr, []string{cwd, cwd + "/out", cwd + "/new/nested/out", root + "/other", filepath.Dir(cwd) + "/sib", cwd + "/o ü", srcDir, root + "/link"})
		rel := func(p string) string {
			x, err := filepath.Rel(cwd, p)
			if err != nil {
				die("%s", err)
			}
			switch rr.Intn(4) {
			case 0:
				return p
			case 1:
				if !strings.HasPrefix(x, ".") {
					return "./" + x
				}
			case 2:
				return filepath.Dir(p) + "/./" + filepath.Base(p)
			}
			return x
		}
		src := rel(srcDir) + "/" + name
		if rr.Chance(50) {
			src = filepath.Clean(src)
		}
		var flags []string
		out := srcDir
		if rr.Chance(65) {
			out = outAbs
			o := rel(outAbs)
			if rr.Chance(25) {
				o += "/"
			}
			flags = append(flags, "-o", o)
			if rr.Chance(30) {
				flags = []string{"-o=" + o}
			}
		}
		mode := pick(rr, []string{"", "", "-gll", "-knuth", "-knuth", "-pager", "-pager", "-rust", "both"})
		lr := mode == "-knuth" || mode == "-pager"
		verbose, all, resolve, prof := rr.Chance(35), rr.Chance(30), rr.Chance(40), rr.Chance(10)
		rust := mode == "-rust"
		var mflags []string
		switch mode {
		case "":
		case "both":
			mflags = append(mflags, "-knuth", "-pager")
		default:
			mflags = append(mflags, mode)
		}
		if rust && rr.Chance(50) {
			mflags = append(mflags, "-pager")
			lr = true
		}
		if verbose {
			mflags = append(mflags, "-v")
		}
		if all {
			mflags = append(mflags, "-a")
		}
		if resolve {
			mflags = append(mflags, "-resolve_conflicts")
		}
		special := ""
		if rr.Chance(4) {
			special = pick(rr, []string{"-h", "-version", "nosrc"})
		}
		var args []string
		args = append(args, flags...)
		args = append(args, mflags...)
		if prof {
			args = append(args, "-CPUProf")
		}
		if special != "" && special != "nosrc" {
			args = append(args, special)
		}
		if special != "nosrc" {
			args = append(args, src)
		}
		// contents
		os.MkdirAll(root+"/home", 0755)
		os.MkdirAll(root+"/tmp", 0755)
		os.MkdirAll(cwd, 0755)
		writeFile(filepath.Join(srcDir, name), text)
		if out == root+"/link" {
			os.MkdirAll(root+"/real", 0755)
			os.Symlink(root+"/real", root+"/link")
		}
		writeFile(root+"/bystander.txt", "x")
		writeFile(cwd+"/LR1_notes.txt", "x")
		userAST := false
		if rr.Chance(60) {
			// a directory in use: user files beside the outputs and old outputs
			for _, f := range []string{"ast/mine.go", "ast/ast_test.go", "parser/extra.go", "parser/parser_test.go", "lexer/lexer_test.go", "token/README", "main.go", "go.mod", "errors/mine.go", "sppf/x.dot", "src/main.rs", "src/parser/mine.rs", "LICENSE", "ast.go", "parser.go"} {
				if rr.Chance(50) {
					writeFile(filepath.Join(out, f), "user file "+f)
				}
			}
			outs := append(append(append([]string{}, gllOutputs...), lrOutputs...), verboseOutputs...)
			outs = append(append(append(outs, lrVerbose...), rustLROutputs...), rustGLLOutputs...)
			for _, f := range append(outs, "LR1_conflicts.txt") {
				if rr.Chance(50) && !strings.HasPrefix(f, "ast/") {
					writeFile(filepath.Join(out, f), strings.Repeat("// old output of "+f+"\n", rr.Range(1, 3000)))
				}
			}
			if rr.Chance(60) {
				userAST = true
				writeFile(filepath.Join(out, "ast/ast.go"), "package ast // edited by the user\n")
				writeFile(filepath.Join(out, "src/ast/mod.rs"), "// edited by the user\n")
			}
		}
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if os.Getuid() == 0 {
				os.Lchown(p, nobody, nobody)
			}
			if fi.Mode()&os.ModeSymlink == 0 {
				os.Chtimes(p, longAgo, longAgo)
			}
			return nil
		})
		before := snapshot(root)
		res, priv := runAsNobody(cwd, root, e.Gogll, args...)
		after := snapshot(root)
		if priv {
			c.Count("unprivileged runs", 1)
		}
		wit := map[string]interface{}{"grammar": text, "args": args, "cwd": cwd, "file": filepath.Join(srcDir, name), "output": trunc(res.Out, 400), "exit": res.Code}
		key := fmt.Sprint(g.kind, g.lr1, args, userAST, len(before), text)
		c.Eval(key)
		if i%61 == 0 {
			c.Sample(wit)
		}
		// what may and what must be written
		real := out
		if out == root+"/link" {
			real = root + "/real"
		}
		outs := map[string]bool{} // may
		must := []string{}
		addMay := func(must1 bool, fs ...string) {
			for _, f := range fs {
				rp, _ := filepath.Rel(root, filepath.Join(real, f))
				outs[rp] = true
				if must1 {
					must = append(must, f)
				}
			}
		}
		state := ""
		wantExit := 0
		switch {
		case special == "nosrc" || mode == "both" && special == "":
			state, wantExit = "usage", 1
		case special != "":
			state = "information"
		case g.kind == "syntax" || g.kind == "semantic":
			state, wantExit = "rejected", 1
		case g.kind == "uncalled" && lr:
			state = "skip" // FOLLOW is only checked for GLL
		case g.kind == "uncalled":
			state, wantExit = "uncalled", 1
		case lr && !g.lr1 && !resolve:
			state, wantExit = "conflicts", 1
		default:
			state = "generated"
		}
		if state == "skip" {
			return
		}
		astGen := !userAST || all
		if prof && state != "usage" && state != "information" {
			rp, _ := filepath.Rel(root, filepath.Join(cwd, "cpu.prof"))
			outs[rp] = true
		}
		tok := []string{"token/token.go", "lexer/lexer.go"}
		if rust {
			tok = []string{"src/token/mod.rs", "src/lexer/mod.rs"}
		}
		if state == "generated" || state == "conflicts" || state == "uncalled" {
			if verbose {
				addMay(state != "uncalled", verboseOutputs...)
			}
			addMay(state == "generated", tok...)
		}
		if rust && state == "uncalled" { // unsupported target
			addMay(false, rustGLLOutputs...)
		}
		if state == "conflicts" || state == "generated" && lr && !g.lr1 && g.kind != "tokens" {
			addMay(true, "LR1_conflicts.txt")
		}
		if state == "generated" && g.kind != "tokens" {
			switch {
			case rust && lr:
				addMay(true, "src/parser/mod.rs")
				for _, f := range rustLROutputs {
					if f != "src/ast/mod.rs" || astGen {
						addMay(false, f)
					}
				}
			case rust:
				addMay(true, rustGLLOutputs...)
			case lr:
				for _, f := range lrOutputs {
					if f != "ast/ast.go" || astGen {
						addMay(true, f)
					}
				}
			default:
				addMay(true, gllOutputs...)
			}
			if lr && verbose {
				addMay(true, lrVerbose...)
			}
		}
		if lr && verbose && state == "conflicts" {
			addMay(false, lrVerbose...)
		}
		c.Count(state, 1)
		if res.Crash {
			c.Violate("crash", fmt.Sprintf("gogll crashed (exit %d)", res.Code), wit)
			return
		}
		if (res.Code == 0) != (wantExit == 0) {
			c.Violate("exit", fmt.Sprintf("exit status %d in state %s", res.Code, state), wit)
			return
		}
		// reports of an earlier run may be removed
		oldReport := map[string]bool{}
		if lr && (state == "generated" || state == "conflicts") {
			for _, f := range append([]string{"LR1_conflicts.txt"}, lrVerbose...) {
				rp, _ := filepath.Rel(root, filepath.Join(real, f))
				oldReport[rp] = true
			}
		}
		// everything that changed must be an output
		paths := map[string]bool{}
		for p := range before {
			paths[p] = true
		}
		for p := range after {
			paths[p] = true
		}
		var bad []string
		for p := range paths {
			b, okb := before[p]
			a, oka := after[p]
			what := ""
			switch {
			case !oka:
				if !oldReport[p] {
					what = "deleted"
				}
			case a.kind == "dir" && !okb:
				// a directory on the way to an output
				need := false
				for o := range outs {
					if strings.HasPrefix(o, p+"/") {
						need = true
					}
				}
				if !need {
					what = "directory created"
				}
			case outs[p]:
			case !okb:
				what = "created"
			case a.kind != b.kind || a.content != b.content:
				what = "changed"
			case a.mode != b.mode:
				what = "mode changed"
			case !a.mtime.Equal(b.mtime):
				what = "written"
			}
			if what != "" {
				bad = append(bad, what+" "+p)
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			wit["effects"] = bad
			c.Violate("effects-"+state, "files other than the documented outputs were affected: "+trunc(strings.Join(bad, ", "), 300), wit)
			return
		}
		if userAST && state == "generated" && lr {
			if all {
				c.Count("edited AST replaced on request", 1)
			} else {
				c.Count("edited AST kept", 1)
			}
		}
		// the outputs are those of a run in an empty directory
		if len(must) == 0 {
			return
		}
		writeFile(filepath.Join(ref, "g"+map[bool]string{true: ".md", false: ".txt"}[strings.HasSuffix(name, ".md")]), text)
		rsrc := filepath.Join(ref, "g"+map[bool]string{true: ".md", false: ".txt"}[strings.HasSuffix(name, ".md")])
		runLimited(ref, 60, e.Gogll, append(append([]string{}, mflags...), "-o", ref, rsrc)...)
		for _, f := range must {
			rp, _ := filepath.Rel(root, filepath.Join(real, f))
			a, ok := after[rp]
			if !ok {
				c.Violate("missing", "no "+f+" in the output directory", wit)
				return
			}
			b, err := os.ReadFile(filepath.Join(ref, f))
			if err != nil {
				c.Violate("missing", "no "+f+" in the output directory of a run in an empty directory", wit)
				return
			}
			if string(b) != a.content {
				c.Violate("content", f+" is not what a run in an empty directory writes", wit)
				return
			}
			c.Count("outputs compared", 1)
		}
	})
	c.Need("generated", 150)
	c.Need("rejected", 60)
	c.Need("conflicts", 10)
	c.Need("edited AST kept", 15)
	c.Need("edited AST replaced on request", 5)
}
