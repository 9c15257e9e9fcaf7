package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc fn|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "fn":
		cmdFn(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdFn: verify single functions (development)
func cmdFn(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	tag := fs.String("tag", "", "")
	list := fs.Bool("l", false, "")
	dump := fs.String("dump", "", "")
	fs.Parse(args)
	t0 := time.Now()
	e, err := loadEngine(*repo, *specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	defer e.fz.stop()
	if err := e.setup(); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	e.onlyTag = *tag
	dir, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(dir)
	e.pool = newPool(dir, 4, 20)
	fmt.Printf("loaded in %v\n", time.Since(t0))
	names := fs.Args()
	if len(names) == 0 {
		for n, c := range e.contracts {
			if !c.Extern && !c.Trusted {
				names = append(names, n)
			}
		}
		sort.Strings(names)
	}
	for _, n := range names {
		ct := e.contracts[n]
		if ct == nil {
			fmt.Println("no contract for", n)
			continue
		}
		t1 := time.Now()
		r := e.verify(ct, *tag == "")
		tx := time.Since(t1)
		e.pool.wait()
		ok, bad := 0, 0
		for _, o := range r.Obls {
			if o.Status == "proved" || o.Status == "trivial" {
				ok++
			} else {
				bad++
			}
		}
		fmt.Printf("%-50s exec %6.2fs total %6.2fs steps %d returns %d obligations %d/%d %s\n", n, tx.Seconds(), time.Since(t1).Seconds(), r.Steps, r.Returns, ok, ok+bad, r.Err)
		for i, o := range r.Obls {
			if *list {
				fmt.Printf("   %s %s %s %s\n", o.Status, o.Kind, o.Label, o.Pos)
			}
			if o.Status != "proved" && o.Status != "trivial" {
				fmt.Printf("   FAIL %s %s %s [%s] %s\n", o.Kind, o.Label, o.Pos, strings.Join(o.Tags, ","), clip(o.Output))
				if *dump != "" {
					os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", *dump, sanitize(n), i), []byte(o.script), 0o644)
				}
			} else if o.TimeMs > 3000 {
				fmt.Printf("   slow %s %s %s %dms %s\n", o.Kind, o.Label, o.Pos, o.TimeMs, o.Backend)
			}
		}
	}
	fmt.Printf("feasibility: %d calls %v\n", e.fz.calls, e.fz.dur)
}

func clip(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}
