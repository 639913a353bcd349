package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C22", Run: c22, Bounds: map[string]string{
		"rule":     "cases: (platform variant, environment) or (platform variant, block of the battery); non-trivial: the decision is for East Asian or a setting that must be ignored would make it so; every block",
		"quick":    "Windows code on stand-in system calls: every output code page 0..65535 in one process; start-up in a fresh process for 24 output code pages x other code pages Western or East Asian x 8 values of RUNEWIDTH_EASTASIAN x up to 3 locales; js (run by node), appengine and 32-bit builds: 8 values of RUNEWIDTH_EASTASIAN x 8 locale settings; every variant against the native build: all code points in 4 settings with and without lookup table, all texts to length 3 over 24 parts (clusters, widths, alignment), tables of 0-3 columns x 0-8 items x 6 patterns x up to 4 column widths x 4 separators x 37 maximum widths x 4 modes",
		"thorough": "the same with texts to length 4, 0-10 items",
	}, Assume: []string{"the Windows code runs on Linux with syscall replaced by stand-ins (code guarded by runtime.GOOS is not reached)"}})
}

// Variant is one build of the plat program.
type Variant struct {
	Name string
	Cmd  []string // empty: not available here
	Note string
	Bad  string // set if the library does not build for the platform
}

func platFile() string { return filepath.Join(os.Getenv("TMPDIR"), "plat.json") }

func goCmd(env []string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

type pkgFiles struct {
	ImportPath, Dir            string
	GoFiles, Imports, CgoFiles []string
}

func listPkgs(env []string, mod string) (map[string]pkgFiles, error) {
	cmd := exec.Command("go", "list", mod, "-deps", "-json=ImportPath,Dir,GoFiles,Imports,CgoFiles", "./plat")
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	m := map[string]pkgFiles{}
	d := json.NewDecoder(bytes.NewReader(out))
	for d.More() {
		var p pkgFiles
		if err := d.Decode(&p); err != nil {
			return nil, err
		}
		if strings.HasPrefix(p.ImportPath, "github.com/ilius/go-table") {
			m[p.ImportPath] = p
		}
	}
	return m, nil
}

var (
	reConstraint = regexp.MustCompile(`(?m)^//(go:build| ?\+build).*$`)
	reSyscall    = regexp.MustCompile(`(?m)^(\s*import\s+|\s*)(?:[A-Za-z_]\w*\s+)?"syscall"`)
)

// winOverlay makes the files of the Windows build stand in for those of this platform.
func winOverlay(work, mod string) (string, error) {
	win, err := listPkgs([]string{"GOOS=windows", "GOARCH=amd64"}, mod)
	if err != nil {
		return "", fmt.Errorf("go list for windows: %v", err)
	}
	nat, err := listPkgs(nil, mod)
	if err != nil {
		return "", fmt.Errorf("go list: %v", err)
	}
	repl := map[string]string{}
	n := 0
	for path, p := range nat {
		in := map[string]bool{}
		for _, f := range win[path].GoFiles {
			in[f] = true
		}
		for _, f := range p.GoFiles {
			if !in[f] {
				repl[filepath.Join(p.Dir, f)] = ""
			}
			in[f] = false
		}
		for _, f := range win[path].GoFiles {
			if !in[f] {
				continue
			}
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				return "", err
			}
			s := string(b)
			if i := strings.Index(s, "\npackage "); i >= 0 {
				s = reConstraint.ReplaceAllString(s[:i], "//") + s[i:]
			}
			s = reSyscall.ReplaceAllStringFunc(s, func(m string) string {
				if strings.Contains(m, `syscall "syscall"`) || !regexp.MustCompile(`\w+\s+"syscall"`).MatchString(strings.TrimPrefix(strings.TrimSpace(m), "import")) {
					return strings.Replace(m, `"syscall"`, `syscall "verifmc/winsys"`, 1)
				}
				return strings.Replace(m, `"syscall"`, `"verifmc/winsys"`, 1)
			})
			n++
			out := filepath.Join(work, fmt.Sprintf("win%d.go", n))
			if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
				return "", err
			}
			repl[filepath.Join(p.Dir, fmt.Sprintf("zz_verif_plat%d.go", n))] = out
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	f := filepath.Join(work, "win.json")
	return f, os.WriteFile(f, b, 0o644)
}

// platBuild builds every variant into work and writes plat.json.
func platBuild(work string) {
	mod := "-modfile=" + filepath.Join(work, "go.mod")
	lib := []string{"github.com/ilius/go-table", "github.com/ilius/go-table/runewidth", "github.com/ilius/go-table/runewidth/uniseg"}
	vs := []*Variant{{Name: "native"}, {Name: "32-bit"}, {Name: "js"}, {Name: "appengine"}, {Name: "windows"}}
	var wg sync.WaitGroup
	for _, v := range vs {
		wg.Add(1)
		go func(v *Variant) {
			defer wg.Done()
			bin := filepath.Join(work, "plat-"+v.Name)
			args := []string{"build", mod, "-o", bin}
			var env []string
			run := []string{bin}
			switch v.Name {
			case "32-bit":
				if runtime.GOARCH != "amd64" {
					v.Note = "no 32-bit mode on this machine"
					return
				}
				env = []string{"GOARCH=386", "CGO_ENABLED=0"}
			case "js":
				env = []string{"GOOS=js", "GOARCH=wasm"}
				root, err := goCmd(nil, "env", "GOROOT")
				node, err2 := exec.LookPath("node")
				sup := filepath.Join(strings.TrimSpace(root), "lib", "wasm", "wasm_exec_node.js")
				if _, err3 := os.Stat(sup); err3 != nil {
					sup = filepath.Join(strings.TrimSpace(root), "misc", "wasm", "wasm_exec_node.js")
				}
				if _, err3 := os.Stat(sup); err != nil || err2 != nil || err3 != nil {
					v.Note = "no node or no wasm support here"
					return
				}
				run = []string{node, "--stack-size=16384", sup, bin}
			case "appengine":
				args = append(args, "-tags", "appengine")
			case "windows":
				f, err := winOverlay(work, mod)
				if err != nil {
					v.Note = err.Error()
				}
				args = append(args, "-overlay", f)
				env = []string{"CGO_ENABLED=0"}
			}
			out := ""
			var err error
			if v.Note == "" {
				out, err = goCmd(env, append(args, "./plat")...)
				if err == nil {
					v.Cmd = run
					p := exec.Command(run[0], append(run[1:], "probe")...)
					p.Env = cleanEnv(false)
					if b, err := p.CombinedOutput(); err != nil && v.Name != "windows" {
						v.Cmd, v.Note = nil, "does not run here: "+clip(string(b))
					}
					return
				}
				v.Note = clip2(out)
			}
			// is it the stand-ins, or does the library really not build?
			real := env
			if v.Name == "windows" {
				real = []string{"GOOS=windows", "GOARCH=amd64"}
			}
			a := []string{"build", mod}
			if v.Name == "appengine" {
				a = append(a, "-tags", "appengine")
			}
			if out, err := goCmd(real, append(a, lib...)...); err != nil {
				if o, err := goCmd(real, "build", "unicode/utf8", "regexp", "os", "syscall"); err != nil {
					v.Note = "no standard library for the platform: " + clip(o)
				} else {
					v.Bad = clip2(out)
				}
			}
		}(v)
	}
	wg.Wait()
	b, _ := json.MarshalIndent(vs, "", " ")
	must(os.WriteFile(filepath.Join(work, "plat.json"), b, 0o644))
	for _, v := range vs {
		if v.Cmd == nil {
			fmt.Printf("note: variant %s: %s%s\n", v.Name, v.Note, v.Bad)
		}
	}
}

func (v *Variant) run(env []string, args ...string) (string, error) {
	a := append(append([]string{}, v.Cmd[1:]...), args...)
	cmd := exec.Command(v.Cmd[0], a...)
	for _, kv := range cleanEnv(false) {
		if !strings.HasPrefix(kv, "LANG=") && !strings.HasPrefix(kv, "WINSYS_") {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	cmd.Env = append(cmd.Env, env...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		err = fmt.Errorf("%v: %s", err, clip2(eb.String()))
	}
	return string(out), err
}

type platProbe struct {
	EA, Def, New, Fun bool
	Amb, Col          int
}

var eaPages = map[int]bool{932: true, 51932: true, 936: true, 949: true, 950: true}

const platAmbiguous = "│½○αЯ①§…"

func c22(r *Run) {
	b, err := os.ReadFile(platFile())
	must(err)
	var vs []*Variant
	must(json.Unmarshal(b, &vs))
	by := map[string]*Variant{}
	for _, v := range vs {
		by[v.Name] = v
	}
	r.Phase("builds")
	for _, v := range vs {
		r.Case(func() string { return "build for " + v.Name }, func(c *C) {
			c.Op(1)
			if v.Bad != "" {
				c.Fail("the library does not build for %s:\n%s", v.Name, v.Bad)
			}
		})
	}
	wide := func(ea bool) int {
		cfg := ref.Plain
		if ea {
			cfg = ref.EA
		}
		return ref.StringWidth(cfg, platAmbiguous)
	}
	start := func(v *Variant, env []string, fun, want, nt bool) {
		if !r.Want() {
			return
		}
		r.State()
		r.Do(func() string { return fmt.Sprintf("%s build started with %q", v.Name, env) }, func(c *C) {
			c.Op(1)
			c.Nontrivial(nt)
			out, err := v.run(env, "probe")
			var o platProbe
			if err != nil || json.Unmarshal([]byte(out), &o) != nil {
				c.Fail("the process failed: %v %s", err, q(out))
				return
			}
			w := wide(want)
			c.OutcomeN(o.Amb)
			switch {
			case o.Fun != fun:
				c.Fail("IsEastAsian() = %v, want %v", o.Fun, fun)
			case o.EA != want || o.Def != want || o.New != want:
				c.Fail("EastAsianWidth %v, of DefaultCondition %v, of a new condition %v, want %v", o.EA, o.Def, o.New, want)
			case o.Amb != w || o.Col != w:
				c.Fail("ambiguous text is %d cells (table: %d), want %d", o.Amb, o.Col, w)
			}
		})
	}
	rws := []string{"\x00", "", "1", "0", "true", "11", "932", "no"}
	env := func(rw string, rest ...string) []string {
		if rw != "\x00" {
			rest = append(rest, "RUNEWIDTH_EASTASIAN="+rw)
		}
		return rest
	}
	decide := func(rw string, d bool) bool {
		if rw == "\x00" || rw == "" {
			return d
		}
		return rw == "1"
	}
	r.Phase("start-up of js, appengine and 32-bit builds")
	for _, name := range []string{"js", "appengine", "32-bit"} {
		v := by[name]
		for _, rw := range rws {
			for _, loc := range []string{"", "LANG=en_US.UTF-8", "LC_ALL=ja_JP.UTF-8", "LC_CTYPE=zh_CN.GBK", "LANG=ja", "LANG=ko_KR.UTF-8", "LANGUAGE=ja:zh", "LC_MESSAGES=ja_JP.eucJP"} {
				if v.Cmd == nil {
					r.Want()
					continue
				}
				ea := loc != "" && !strings.Contains(loc, "en_US")
				fun := name == "32-bit" && (loc == "LC_ALL=ja_JP.UTF-8" || loc == "LC_CTYPE=zh_CN.GBK" || loc == "LANG=ko_KR.UTF-8")
				e := env(rw)
				if loc != "" {
					e = append(e, loc)
				}
				start(v, e, fun, decide(rw, fun), rw == "1" || ea)
			}
		}
	}
	r.Phase("start-up of the Windows build")
	if v := by["windows"]; v.Cmd != nil {
		pages := []int{0, 1, 437, 850, 874, 931, 932, 933, 935, 936, 937, 948, 949, 950, 951, 1252, 1361, 20932, 20936, 51931, 51932, 51936, 51949, 54936, 65001, 65535, 65536, 65536 + 932, 65536 + 936, 65536 + 949, 65536 + 950, 65536 + 51932, 1<<24 + 932, 1<<20 + 950, 93200, 9320, 9490, 32932}
		for _, p := range pages {
			for _, other := range []string{"1252", "932"} {
				for _, rw := range rws {
					for _, loc := range []string{"LANG=en_US.UTF-8", "LC_ALL=ja_JP.UTF-8", "LANG=ja_JP.UTF-8"} {
						if loc == "LANG=ja_JP.UTF-8" && rw != "" {
							continue
						}
						e := env(rw, loc, "WINSYS_OUT="+strconv.Itoa(p), "WINSYS_IN="+other, "WINSYS_ACP="+other, "WINSYS_OEM="+other)
						start(v, e, eaPages[p], decide(rw, eaPages[p]), eaPages[p] || rw == "1" || other == "932")
					}
				}
			}
		}
		r.Phase("every code page")
		if r.Want() {
			r.State()
			r.Do(func() string { return "windows build, IsEastAsian for every output code page" }, func(c *C) {
				c.Op(65536)
				c.Nontrivial(true)
				out, err := v.run([]string{"WINSYS_OUT=1252", "WINSYS_IN=1252", "WINSYS_ACP=1252", "WINSYS_OEM=1252"}, "pages")
				var yes []int
				if err != nil || json.Unmarshal([]byte(out), &yes) != nil {
					c.Fail("the process failed: %v %s", err, q(out))
					return
				}
				// A mismatch is judged in a fresh process: the answer may be kept.
				n := 0
				for _, p := range yes {
					if eaPages[p] {
						continue
					}
					if n++; n > 200 {
						break
					}
					out, err := v.run([]string{"WINSYS_OUT=" + strconv.Itoa(p), "WINSYS_IN=1252", "WINSYS_ACP=1252", "WINSYS_OEM=1252"}, "probe")
					var o platProbe
					if err != nil || json.Unmarshal([]byte(out), &o) != nil || o.Fun || o.EA {
						c.Fail("output code page %d: IsEastAsian() = %v, EastAsianWidth %v, want false (%v)", p, o.Fun, o.EA, err)
						return
					}
				}
			})
		}
	}
	r.Phase("battery")
	depth := strconv.Itoa(r.Pick(3, 4))
	var base []string
	for _, name := range []string{"32-bit", "js", "appengine", "windows"} {
		for _, ea := range []string{"0", "1"} {
			v := by[name]
			if !r.Want() || v.Cmd == nil || by["native"].Cmd == nil {
				continue
			}
			e := []string{"LANG=C.UTF-8", "WINSYS_OUT=1252", "RUNEWIDTH_EASTASIAN=" + ea}
			bo, err := by["native"].run(e, "battery", depth)
			base = nil
			var got []string
			var err2 error
			if err == nil {
				base = strings.Split(strings.TrimSpace(bo), "\n")
				var o string
				o, err2 = v.run(e, "battery", depth)
				got = strings.Split(strings.TrimSpace(o), "\n")
			}
			for i, line := range base {
				f := strings.Split(line, "\t")
				r.State()
				r.Do(func() string { return fmt.Sprintf("%s build, RUNEWIDTH_EASTASIAN=%s, %s", name, ea, f[0]) }, func(c *C) {
					n, _ := strconv.Atoi(f[1])
					c.Op(n)
					c.Nontrivial(true)
					c.Outcome(f[2])
					if i >= len(got) || got[i] == "" {
						c.Fail("the process ended early: %v", err2)
						return
					}
					if got[i] != line {
						c.Fail("results differ from the native build: %q, native %q", got[i], line)
					}
				})
			}
		}
	}
}
