package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"gov/eng"
	"gov/smt"
)

var (
	repo    = flag.String("repo", "/repo", "module under verification")
	spec    = flag.String("spec", "/verif/spec", "specification overlay")
	verbose = flag.Bool("v", false, "verbose")
	tmo     = flag.Duration("t", 5*time.Minute, "time limit per target")
	match   = flag.String("m", "", "only targets containing this")
	par     = flag.Int("j", 8, "parallel targets")
)

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gov [flags] check PROP | list PROP | target NAME")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(check(args[1], *tmo))
	case "run":
		os.Exit(runOnly(args[1:]))
	case "list", "target":
		p, err := eng.Load(*repo, *spec)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var ts []eng.Target
		if args[0] == "list" {
			ts = p.Targets(args[1])
		} else {
			ts = find(p, args[1])
		}
		pool := smt.NewPool(12)
		defer pool.Close()
		bad := 0
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, *par)
		for _, t := range ts {
			if *match != "" && !strings.Contains(t.Name, *match) {
				continue
			}
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				r := eng.Verify(p, pool, t, *tmo, *verbose)
				<-sem
				mu.Lock()
				defer mu.Unlock()
				n := 0
				for _, o := range r.Obls {
					if o.Status == "proved" {
						n++
					}
				}
				fmt.Printf("%-60s %d/%d obligations, %d paths, %d queries, solver %.1fs wall %.1fs %s\n", t.Name, n, len(r.Obls), r.Paths, r.Queries, r.Solve.Seconds(), r.Wall.Seconds(), r.Err)
				for _, o := range r.Obls {
					if o.Status != "proved" {
						bad++
						fmt.Printf("    %s: %s [%s] %s\n", o.Status, o.Name, o.Pos, o.Detail)
					} else if *verbose {
						fmt.Printf("    ok: %s (%s)\n", o.Name, o.Backend)
					}
				}
				if *verbose {
					fmt.Println("    used:", keys(r.Used))
					fmt.Println("    inlined:", keys(r.Inlined))
					fmt.Println("    models:", keys(r.Models))
				}
				if r.Err != "" {
					bad++
				}
			}()
		}
		wg.Wait()
		if bad > 0 {
			os.Exit(1)
		}
	}
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

func find(p *eng.Program, name string) []eng.Target {
	var out []eng.Target
	for k, c := range p.Contracts {
		if !c.Abstract && (k == name || strings.HasSuffix(k, name)) {
			out = append(out, eng.Target{Name: k, Con: c})
		}
		if c.Abstract && strings.HasSuffix(k, name) {
			out = append(out, p.Concretes(c)...)
		}
	}
	for _, l := range p.Lemmas {
		if l.Name == name {
			out = append(out, eng.Target{Name: "lemma " + l.Name, Lemma: l})
		}
	}
	for _, l := range p.Facts {
		if l.Name == name {
			out = append(out, eng.Target{Name: "fact " + l.Name, Lemma: l})
		}
	}
	for k, ps := range p.Pools {
		if "pool "+k == name {
			out = append(out, eng.Target{Name: name, Pool: ps})
		}
	}
	return out
}
