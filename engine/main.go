package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc prove|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		cmdProve(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "baseline":
		writeBaseline("/repo", "/verif/contracts/baseline.json")
	default:
		os.Exit(2)
	}
}

func cmdProve(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	con := fs.String("contracts", "/verif/contracts", "")
	secs := fs.Int("secs", 10, "")
	exact := fs.Bool("exact", false, "")
	asJSON := fs.String("json", "", "")
	claim := fs.String("claim", "", "") // also prove the contracts used; claims are files in this directory
	fs.Parse(args)
	t0 := time.Now()
	p, err := loadProgram(*repo, *con)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		if *asJSON != "" {
			b, _ := json.Marshal(map[string]interface{}{"Err": err.Error()})
			os.WriteFile(*asJSON, b, 0644)
		}
		os.Exit(2)
	}
	for f, m := range p.broken {
		fmt.Println("BROKEN", f, m)
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	var reps []*HarnessReport
	var queue []*Harness
	for _, h := range p.harnesses {
		match := fs.NArg() == 0
		for _, a := range fs.Args() {
			if *exact && h.Name == a || !*exact && harnessMatch(h, a) {
				match = true
			}
		}
		if !match || h.Native {
			continue
		}
		queue = append(queue, h)
	}
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		r := p.proveHarness(h, *secs)
		if *claim != "" {
			for _, by := range provedBy(r.Contracts) {
				for _, g := range p.harnesses {
					if !strings.HasSuffix(g.Name, "."+by) || g.Native {
						continue
					}
					f, err := os.OpenFile(filepath.Join(*claim, g.Name2()), os.O_CREATE|os.O_EXCL, 0644)
					if err == nil {
						f.Close()
						queue = append(queue, g)
					}
				}
			}
		}
		reps = append(reps, r)
		st := "OK  "
		if !r.ok() {
			st = "FAIL"
		}
		n := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				n++
			}
		}
		if *asJSON == "" {
			fmt.Printf("%s %s %d/%d obligations, %d inv of %d, %d rounds, %s %.1fs %s\n", st, h.Name, n, len(r.Obls), len(r.Invariants), r.InvTried, r.Rounds, r.Vacuity, r.WallS, r.Error)
			for _, o := range r.Obls {
				if o.Status != "proved" {
					fmt.Printf("     %s [%s] %s at %s: %s %s\n", o.Status, o.Kind, o.Name, o.Pos, o.Status, o.By)
				}
			}
		}
	}
	if *asJSON != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"Reports": reps, "Broken": p.broken}, "", " ")
		os.WriteFile(*asJSON, b, 0644)
	}
}

// provedBy: the harnesses that prove the contracts used ("f (contract proved by H)").
func provedBy(contracts []string) []string {
	var r []string
	for _, c := range contracts {
		if i := strings.LastIndex(c, " by "); i >= 0 {
			r = append(r, strings.TrimSuffix(c[i+4:], ")"))
		}
	}
	return r
}

// Name2 is the name of the harness as a file name.
func (h *Harness) Name2() string { return strings.ReplaceAll(h.Name, "/", "_") }
