package main

// Native evaluation of the contracts on the real code: replay of failures and
// search for a concrete failing input.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Dict struct {
	Strs    []string
	NewStrs []string
	Ints    []int
	NewInts []int
}

type Found struct {
	Harness string
	Seed    int64
	Iter    int
	What    string
	Input   string
	Shrunk  bool
}

type nativeHarness struct {
	Name string // registry name: pkg.Fn
	Pkg  string
	Fn   string
	File string
	Prop string
}

// contractHarnesses lists the harnesses of a property from the contract files alone.
func contractHarnesses(contracts, prop string) ([]nativeHarness, error) {
	return listHarnesses(contracts, prop, "//verif:no-native")
}

func provable(contracts, prop string) ([]string, error) {
	hs, err := listHarnesses(contracts, prop, "//verif:native-only")
	var out []string
	for _, h := range hs {
		out = append(out, h.Name)
	}
	return out, err
}

func listHarnesses(contracts, prop, skipDirective string) ([]nativeHarness, error) {
	var out []nativeHarness
	err := filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contracts, p)
		dir := filepath.Dir(rel)
		if dir == "verifspec" {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			parts := strings.Split(fd.Name.Name, "_")
			if parts[0] != "Verif" || len(parts) < 3 || (prop != "" && parts[1] != prop) {
				continue
			}
			if fd.Doc != nil {
				skip := false
				for _, c := range fd.Doc.List {
					if strings.TrimSpace(c.Text) == skipDirective {
						skip = true
					}
				}
				if skip {
					continue
				}
			}
			pkg := modPath + "/" + dir
			if dir == "main" {
				pkg = modPath + "/zz_verif_cmd"
			}
			out = append(out, nativeHarness{Name: dir + "." + fd.Name.Name, Pkg: pkg, Fn: fd.Name.Name, File: p, Prop: parts[1]})
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, err
}

type nativeRunner struct {
	dir     string // scratch directory
	bin     string
	repo    string
	hs      []nativeHarness
	skipped map[string]string
	dict    Dict
}

// buildNative compiles the contracts together with the real code.
func buildNative(repo, contracts string, hs []nativeHarness, broken map[string]string, dict Dict) (*nativeRunner, error) {
	dir, err := os.MkdirTemp("", "govc-native-")
	if err != nil {
		return nil, err
	}
	os.Chmod(dir, 0755)
	nr := &nativeRunner{dir: dir, bin: filepath.Join(dir, "runner"), repo: repo, skipped: map[string]string{}, dict: dict}
	ov, err := overlayFiles(repo, contracts)
	if err != nil {
		return nil, err
	}
	rep := map[string]string{}
	for dst, src := range ov {
		if broken[src] == "" {
			rep[dst] = src
		}
	}
	for _, h := range hs {
		if broken[h.File] != "" {
			nr.skipped[h.Name] = broken[h.File]
			continue
		}
		nr.hs = append(nr.hs, h)
	}
	if len(nr.hs) == 0 {
		return nr, nil
	}
	if err := libraryOfMain(repo, dir, rep); err != nil {
		return nil, err
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"" + specPkg + "\"\n")
	al := map[string]string{}
	for _, h := range nr.hs {
		if al[h.Pkg] == "" {
			al[h.Pkg] = fmt.Sprintf("p%d", len(al))
			fmt.Fprintf(&b, "\t%s %q\n", al[h.Pkg], h.Pkg)
		}
	}
	b.WriteString(")\n\nfunc main() {\n\tverifspec.Main([]verifspec.Harness{\n")
	for _, h := range nr.hs {
		fmt.Fprintf(&b, "\t\t{Name: %q, Fn: %s.%s},\n", h.Name, al[h.Pkg], h.Fn)
	}
	b.WriteString("\t})\n}\n")
	mainFile := filepath.Join(dir, "main.go.txt")
	os.WriteFile(mainFile, []byte(b.String()), 0644)
	rep[filepath.Join(repo, "zz_verif_main", "main.go")] = mainFile
	ovf := filepath.Join(dir, "overlay.json")
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ovf, j, 0644)
	c := exec.Command("go", "build", "-overlay", ovf, "-o", nr.bin, "./zz_verif_main")
	c.Dir = repo
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return nr, fmt.Errorf("native build: %v\n%s", err, out)
	}
	os.Chmod(nr.bin, 0755)
	return nr, nil
}

// libraryOfMain makes a copy of package main, with its contracts, that can be
// imported: only the package clause differs.
func libraryOfMain(repo, dir string, rep map[string]string) error {
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for dst := range rep {
		if filepath.Dir(dst) == repo {
			files = append(files, dst)
		}
	}
	clause := regexp.MustCompile(`(?m)^package main\b`)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src := f
		if rep[f] != "" {
			src = rep[f]
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		cp := filepath.Join(dir, "main_"+filepath.Base(f)+".txt")
		if err := os.WriteFile(cp, clause.ReplaceAll(b, []byte("package cmd")), 0644); err != nil {
			return err
		}
		delete(rep, f)
		rep[filepath.Join(repo, "zz_verif_cmd", filepath.Base(f))] = cp
	}
	return nil
}

func (nr *nativeRunner) close() { os.RemoveAll(nr.dir) }

type nativeResult struct {
	found    []Found
	ran      map[string]int
	rejected map[string]int
	err      string
}

// run evaluates the harnesses (all, or the given set) with one process per seed.
func (nr *nativeRunner) run(names []string, seeds []int64, secsEach float64, maxIter int, only map[string]int) *nativeResult {
	res := &nativeResult{ran: map[string]int{}, rejected: map[string]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, seed := range seeds {
		wg.Add(1)
		go func(seed int64) {
			defer wg.Done()
			r := nr.runSeed(names, seed, secsEach, maxIter, only)
			mu.Lock()
			defer mu.Unlock()
			res.found = append(res.found, r.found...)
			for k, v := range r.ran {
				res.ran[k] += v
			}
			for k, v := range r.rejected {
				res.rejected[k] += v
			}
			if r.err != "" {
				res.err = r.err
			}
		}(seed)
	}
	wg.Wait()
	sort.Slice(res.found, func(i, j int) bool {
		a, b := res.found[i], res.found[j]
		if a.Harness != b.Harness {
			return a.Harness < b.Harness
		}
		return len(a.Input) < len(b.Input)
	})
	return res
}

func (nr *nativeRunner) runSeed(names []string, seed int64, secsEach float64, maxIter int, only map[string]int) *nativeResult {
	res := &nativeResult{ran: map[string]int{}, rejected: map[string]int{}}
	todo := append([]string{}, names...)
	work, _ := os.MkdirTemp(nr.dir, "w")
	os.Chmod(work, 0777)
	scratch := filepath.Join(work, "s")
	os.Mkdir(scratch, 0777)
	os.Chmod(scratch, 0777)
	for round := 0; len(todo) > 0 && round < 200; round++ {
		sel := map[string]int{}
		for _, n := range todo {
			sel[n] = -1
		}
		conf := map[string]interface{}{"Dict": nr.dict, "Seed": seed, "Secs": secsEach, "MaxIter": maxIter, "Out": filepath.Join(work, "out"), "Scratch": scratch, "Select": todo}
		if only != nil {
			conf["Only"] = only
		}
		j, _ := json.Marshal(conf)
		cf := filepath.Join(work, "conf.json")
		os.WriteFile(cf, j, 0644)
		os.Remove(filepath.Join(work, "out"))
		c := exec.Command(nr.bin, cf)
		c.Dir = scratch
		c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if os.Getuid() == 0 {
			c.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
		}
		done := make(chan error, 1)
		if err := c.Start(); err != nil {
			c = exec.Command(nr.bin, cf)
			c.Dir = scratch
			if err = c.Start(); err != nil {
				res.err = err.Error()
				return res
			}
		}
		go func() { done <- c.Wait() }()
		killed := false
		select {
		case <-done:
		case <-time.After(time.Duration(secsEach*float64(len(todo))*1.2+90) * time.Second):
			c.Process.Kill()
			<-done
			killed = true
		}
		lastH, lastIt, ended := "", 0, false
		finished := map[string]bool{}
		f, err := os.Open(filepath.Join(work, "out"))
		if err != nil {
			res.err = "runner produced no output"
			return res
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			l := sc.Text()
			switch {
			case strings.HasPrefix(l, "AT "):
				fmt.Sscanf(l, "AT %q %d", &lastH, &lastIt)
			case strings.HasPrefix(l, "FOUND "):
				var fd Found
				json.Unmarshal([]byte(l[6:]), &fd)
				res.found = append(res.found, fd)
			case strings.HasPrefix(l, "DONE "):
				var d struct {
					Harness       string
					Ran, Rejected int
				}
				json.Unmarshal([]byte(l[5:]), &d)
				res.ran[d.Harness] += d.Ran
				res.rejected[d.Harness] += d.Rejected
				finished[d.Harness] = true
			case l == "END":
				ended = true
			}
		}
		f.Close()
		if ended {
			break
		}
		what := "the process exits instead of returning"
		if killed {
			what = "does not finish"
		}
		if lastH != "" && !finished[lastH] {
			res.found = append(res.found, Found{Harness: lastH, Seed: seed, Iter: lastIt, What: what, Input: fmt.Sprintf("(seed %d, iteration %d)", seed, lastIt)})
			finished[lastH] = true
		}
		var rest []string
		for _, n := range todo {
			if !finished[n] {
				rest = append(rest, n)
			}
		}
		if len(rest) == len(todo) {
			res.err = "runner does not start"
			break
		}
		todo = rest
	}
	return res
}

// ---------------------------------------------------------------- vocabulary

func harvest(repo string) (map[string]bool, map[int]bool) {
	strs, ints := map[string]bool{}, map[int]bool{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if b, ok := n.(*ast.BasicLit); ok {
				switch b.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(b.Value); err == nil && len(s) < 60 {
						strs[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(b.Value); err == nil {
						strs[s] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(b.Value, 0, 32); err == nil {
						ints[int(v)] = true
					}
				}
			}
			return true
		})
		return nil
	})
	return strs, ints
}

type baseline struct {
	Strs []string `json:"strs"`
	Ints []int    `json:"ints"`
}

func makeDict(repo, basefile string) Dict {
	s, n := harvest(repo)
	var base baseline
	have := false
	if b, err := os.ReadFile(basefile); err == nil {
		have = json.Unmarshal(b, &base) == nil
	}
	bs, bi := map[string]bool{}, map[int]bool{}
	for _, x := range base.Strs {
		bs[x] = true
	}
	for _, x := range base.Ints {
		bi[x] = true
	}
	var d Dict
	for k := range s {
		d.Strs = append(d.Strs, k)
		if have && !bs[k] {
			d.NewStrs = append(d.NewStrs, k)
		}
	}
	for k := range n {
		d.Ints = append(d.Ints, k)
		if have && !bi[k] {
			d.NewInts = append(d.NewInts, k)
		}
	}
	sort.Strings(d.Strs)
	sort.Strings(d.NewStrs)
	sort.Ints(d.Ints)
	sort.Ints(d.NewInts)
	return d
}

func writeBaseline(repo, file string) {
	s, n := harvest(repo)
	var b baseline
	for k := range s {
		b.Strs = append(b.Strs, k)
	}
	for k := range n {
		b.Ints = append(b.Ints, k)
	}
	sort.Strings(b.Strs)
	sort.Ints(b.Ints)
	j, _ := json.MarshalIndent(b, "", " ")
	os.WriteFile(file, append(j, '\n'), 0644)
}
