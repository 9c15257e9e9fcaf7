package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

const verifDir = "/verif"

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func (c *Contract) concerns(p string) bool {
	if hasTag(c.Tags, p) || hasTag(c.NoPanic, p) || hasTag(c.LockTags, p) {
		return true
	}
	for _, cs := range [][]Clause{c.Ensures, c.Requires} {
		for _, cl := range cs {
			if hasTag(cl.Tags, p) {
				return true
			}
		}
	}
	for _, l := range c.AtCall {
		for _, a := range l {
			if hasTag(a.Tags, p) {
				return true
			}
		}
	}
	for _, a := range c.OnSend {
		if hasTag(a.Tags, p) {
			return true
		}
	}
	return false
}

func (c *Contract) concernsAny(tags []string) bool {
	for _, t := range tags {
		if c.concerns(t) {
			return true
		}
	}
	return false
}

type knownFinding struct {
	prop, key, text string
}

// known_findings.txt lines: known: property=C07 key=<fn>|<kind>|<label>|<source line> :: what fails
func loadKnown(file string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, knownFinding{l[:i], l[i+5 : j], l[j+4:]})
	}
	return out
}

func srcLine(repo, pos string) string {
	i := strings.LastIndexByte(pos, ':')
	if i < 0 {
		return ""
	}
	n, err := strconv.Atoi(pos[i+1:])
	if err != nil {
		return ""
	}
	b, err := os.ReadFile(filepath.Join(repo, pos[:i]))
	if err != nil {
		return ""
	}
	ls := strings.Split(string(b), "\n")
	if n < 1 || n > len(ls) {
		return ""
	}
	return strings.Join(strings.Fields(ls[n-1]), " ")
}

var modelRe = regexp.MustCompile(`\(define-fun \|?(p\.[A-Za-z0-9_.!]+)\|? \(\) (Int|Bool|String|Real)\s+([^\n]*)\)`)

// modelOf: what the solver says about the parameters where it can
func modelOf(dir string, o *Obl) string {
	if o.script == "" {
		return ""
	}
	f := filepath.Join(dir, "model.smt2")
	os.WriteFile(f, []byte(o.script+"\n(get-model)\n"), 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	b, _ := exec.CommandContext(ctx, "z3", "-t:5000", f).CombinedOutput()
	var ls []string
	for _, m := range modelRe.FindAllStringSubmatch(string(b), -1) {
		ls = append(ls, m[1]+" = "+m[3])
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", verifDir+"/contracts", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	evid := fs.String("evidence", verifDir+"/evidence", "")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	os.MkdirAll(*evid, 0o755)
	e, err := loadEngine(*repo, *specs)
	if err != nil {
		fmt.Println("govc: cannot load the source:", err)
		os.Exit(2)
	}
	if err := e.setup(); err != nil {
		// a contract no longer matches the declarations it names
		fail(*repo, *evid, *prop, *tier, seed, t0, e, nil, []string{"contracts do not match the source: " + err.Error()}, nil, nil)
		return
	}
	e.onlyTag = *prop
	dir, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(dir)
	tmo := 20
	if *tier == "thorough" {
		tmo = 90
	}
	e.pool = newPool(dir, 6, tmo)
	e.pool.retry = 150 * time.Second

	var roots []string
	for n, c := range e.contracts {
		if !c.Extern && !c.Trusted && c.concerns(*prop) {
			roots = append(roots, n)
		}
	}
	sort.Strings(roots)
	if len(roots) == 0 {
		fmt.Println("govc: no contract mentions", *prop)
		os.Exit(2)
	}
	done := map[string]*FnResult{}
	isRoot := map[string]bool{}
	for _, n := range roots {
		isRoot[n] = true
		done[n] = e.verify(e.contracts[n], false)
	}
	// the callees a proof relied on are proved against their own contracts, transitively
	full := map[string]bool{}
	for changed := true; changed; {
		changed = false
		need := map[string]bool{}
		for n := range done {
			for c := range e.callees[n] {
				ct := e.contracts[c]
				if ct != nil && !ct.Extern && !ct.Trusted && !full[c] {
					need[c] = true
				}
			}
		}
		var ns []string
		for n := range need {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			full[n] = true
			changed = true
			done[n] = e.verify(e.contracts[n], true)
		}
	}
	e.pool.wait()
	e.fz.stop()
	var rep *replayed
	if len(e.pool.fails) > 0 {
		// a failing input settles it; without one the open obligations are tried again, alone
		var model, first string
		for i, o := range e.pool.fails {
			if i >= 3 {
				break
			}
			if o.Model = modelOf(dir, o); o.Model != "" && model == "" {
				model = o.Model
			}
		}
		first = filepath.Dir(e.pool.fails[0].Pos)
		rep = &replayed{}
		rep.out, rep.found = runReplay(*repo, *prop, seed, *tier, model, first)
		if rep.found == "" {
			e.pool.tryAgain()
		}
	}

	var names []string
	for n := range done {
		names = append(names, n)
	}
	sort.Strings(names)
	known := loadKnown(verifDir + "/known_findings.txt")
	hit := map[int]bool{}
	var problems []string
	var failed []*Obl
	for _, n := range names {
		r := done[n]
		if r.Err != "" {
			problems = append(problems, n+" ("+r.Pos+"): "+r.Err)
			continue
		}
		if len(r.Smoke) > 0 {
			vac := true
			for _, s := range r.Smoke {
				if s.Status != "proved" {
					vac = false
				}
			}
			if vac {
				problems = append(problems, n+": every sampled path end is contradictory (vacuous verification)")
			}
		}
		for _, o := range r.Obls {
			if o.Status == "proved" || o.Status == "trivial" {
				continue
			}
			key := o.Fn + "|" + o.Kind + "|" + o.Label + "|" + srcLine(*repo, o.Pos)
			matched := false
			for i, k := range known {
				if k.prop == *prop && k.key == key {
					hit[i] = true
					matched = true
				}
			}
			if !matched {
				failed = append(failed, o)
			}
		}
	}
	problems = append(problems, e.uncovered(*prop, done)...)
	var kl []string
	for i, k := range known {
		if hit[i] {
			kl = append(kl, fmt.Sprintf("KNOWN-FINDING: property=%s %s", *prop, k.text))
		}
	}
	for _, l := range kl {
		fmt.Println(l)
	}
	if len(problems) == 0 && len(failed) == 0 && *tier == "thorough" {
		// everything is proved: the replay driver, run against the real code, checks the contracts and the verifier
		out, found := runReplay(*repo, *prop, seed, *tier, "", "")
		if found != "" {
			replay := filepath.Join(*evid, "replay-"+*prop+".txt")
			os.WriteFile(replay, []byte("every obligation is discharged, but the replay driver found a failing input\n\n"+out), 0o644)
			writeEvidence(e, *evid, *prop, *tier, seed, t0, done, isRoot, names, 1, kl, nil)
			fmt.Println("failing input on the real code:", found)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
			os.Exit(1)
		}
	}
	if len(problems) == 0 && len(failed) == 0 {
		n, _ := writeEvidence(e, *evid, *prop, *tier, seed, t0, done, isRoot, names, 0, kl, nil)
		fmt.Printf("%s: %d obligations of %d functions discharged, %d known findings, %.1f s\n", *prop, n, len(names), len(kl), time.Since(t0).Seconds())
		return
	}
	writeEvidence(e, *evid, *prop, *tier, seed, t0, done, isRoot, names, 1, kl, problems)
	os.RemoveAll(dir)
	fail(*repo, *evid, *prop, *tier, seed, t0, e, failed, problems, done, rep)
}

// fail reports the violation, with a confirmed failing input of the real code where the driver finds one
func fail(repo, evid, prop, tier string, seed int, t0 time.Time, e *Engine, failed []*Obl, problems []string, done map[string]*FnResult, rep *replayed) {
	if done == nil {
		writeEvidence(e, evid, prop, tier, seed, t0, nil, nil, nil, 1, nil, problems)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s is not proved for the source in %s\n\n", prop, repo)
	seen := map[string]bool{}
	for _, p := range problems {
		fmt.Fprintf(&b, "NOT VERIFIED %s\n", p)
		fmt.Println("not verified:", p)
	}
	for _, o := range failed {
		k := o.Fn + o.Kind + o.Label + o.Pos
		if seen[k] {
			continue
		}
		seen[k] = true
		fmt.Fprintf(&b, "FAILED OBLIGATION %s [%s] %s\n  at %s: %s\n  verifier: %s\n", o.Fn, o.Kind, o.Label, o.Pos, srcLine(repo, o.Pos), o.Output)
		if len(o.Trace) > 0 {
			fmt.Fprintf(&b, "  path: %s\n", strings.Join(o.Trace, " ; "))
		}
		if o.Model != "" {
			fmt.Fprintf(&b, "  countermodel (parameters):\n    %s\n", strings.ReplaceAll(o.Model, "\n", "\n    "))
		}
		if len(seen) <= 8 {
			fmt.Printf("failed obligation: %s [%s] %s at %s\n", o.Fn, o.Kind, clip(o.Label), o.Pos)
		}
	}
	replay := filepath.Join(evid, "replay-"+prop+".txt")
	suffix := " no-failing-input-found"
	if rep == nil {
		rep = &replayed{}
		rep.out, rep.found = runReplay(repo, prop, seed, tier, "", "")
	}
	out, found := rep.out, rep.found
	fmt.Fprintf(&b, "\nREPLAY AGAINST THE REAL CODE\n%s\n", out)
	if found != "" {
		suffix = ""
		fmt.Println("failing input on the real code:", found)
	}
	os.WriteFile(replay, []byte(b.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
	os.Exit(1)
}

// replayed is what the replay driver found
type replayed struct{ out, found string }

// runReplay runs the property's replay driver (an in-package test, through an overlay) on the real code
func runReplay(repo, prop string, seed int, tier, model, first string) (string, string) {
	root := filepath.Join(verifDir, "replay", prop)
	ents, err := os.ReadDir(root)
	if err != nil {
		return "no replay driver for this property", ""
	}
	var all strings.Builder
	found := ""
	// the package of the failed obligation first
	sort.SliceStable(ents, func(i, j int) bool {
		isFirst := func(n string) bool { return first != "" && strings.HasSuffix(first, strings.ReplaceAll(n, "__", "/")) }
		return isFirst(ents[i].Name()) && !isFirst(ents[j].Name())
	})
	start := time.Now()
	for _, en := range ents {
		if time.Since(start) > 420*time.Second {
			break
		}
		if !en.IsDir() {
			continue
		}
		// directory name: package path with __ for /
		pkg := strings.ReplaceAll(en.Name(), "__", "/")
		ov := map[string]map[string]string{"Replace": {}}
		gos, _ := filepath.Glob(filepath.Join(root, en.Name(), "*.go"))
		for _, g := range gos {
			ov["Replace"][filepath.Join(repo, pkg, "zz_verif_"+strings.TrimSuffix(filepath.Base(g), ".go")+"_test.go")] = g
		}
		tmp, _ := os.MkdirTemp("", "govcreplay")
		defer os.RemoveAll(tmp)
		j, _ := json.Marshal(ov)
		of := filepath.Join(tmp, "overlay.json")
		os.WriteFile(of, j, 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
		args := []string{"test", "-overlay", of, "-vet=off", "-count=1", "-v", "-timeout", "200s", "-run", "^TestVerifReplay", "./" + pkg}
		if prop == "C23" {
			// conflicting unordered accesses are found by the race detector
			args[len(args)-2] += "Race"
			args = append([]string{"test", "-race"}, args[1:]...)
		}
		c := exec.CommandContext(ctx, "go", args...)
		c.Dir = repo
		c.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "VERIF_MODEL="+model, "VERIF_PROP="+prop, "VERIF_SCRATCH="+tmp, fmt.Sprintf("VERIF_SEED=%d", seed))
		o, err := c.CombinedOutput()
		cancel()
		s := string(o)
		if len(s) > 6000 {
			s = s[:3000] + "\n…\n" + s[len(s)-3000:]
		}
		fmt.Fprintf(&all, "go test -overlay … -run TestVerifReplay ./%s (%v)\n%s\n", pkg, err, s)
		for _, l := range strings.Split(string(o), "\n") {
			if i := strings.Index(l, "REPLAY-FAIL:"); i >= 0 && found == "" {
				found = strings.TrimSpace(l[i+len("REPLAY-FAIL:"):])
				if len(found) > 400 {
					found = found[:400]
				}
			}
		}
		if l := string(o); found == "" && prop == "C23" {
			i := strings.Index(l, "WARNING: DATA RACE")
			if i < 0 {
				i = strings.Index(l, "fatal error: ")
			}
			if i >= 0 {
				l = strings.Join(strings.Fields(l[i:]), " ")
				if len(l) > 600 {
					l = l[:600]
				}
				found = l
			}
		}
		if found == "" && prop == "C07" && err != nil && !strings.Contains(string(o), "panic: test timed out") {
			// a crash in a goroutine of the code itself ends the whole process
			for _, l := range strings.Split(string(o), "\n") {
				if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
					found = "the process crashes: " + strings.TrimSpace(l)
					break
				}
			}
		}
		os.RemoveAll(tmp)
		if found != "" {
			break
		}
	}
	if all.Len() == 0 {
		return "no replay driver for this property", ""
	}
	return all.String(), found
}

func writeEvidence(e *Engine, evid, prop, tier string, seed int, t0 time.Time, done map[string]*FnResult, isRoot map[string]bool, names []string, viol int, known, problems []string) (int, error) {
	type fnEv struct {
		Name        string   `json:"function"`
		Pos         string   `json:"at"`
		Role        string   `json:"role"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		ByKind      []string `json:"kinds"`
		Returns     int      `json:"returning_paths"`
		Inlined     []string `json:"verified_inline,omitempty"`
		Err         string   `json:"error,omitempty"`
	}
	obl, ok := 0, 0
	back := map[string]int{}
	var solver int64
	used := map[string]bool{}
	var fns []fnEv
	for _, n := range names {
		r := done[n]
		f := fnEv{Name: n, Pos: r.Pos, Role: "property", Returns: r.Returns, Err: r.Err}
		if !isRoot[n] {
			f.Role = "callee relied on"
		}
		kinds := map[string]int{}
		for _, o := range r.Obls {
			f.Obligations++
			kinds[o.Kind]++
			if o.Status == "proved" || o.Status == "trivial" {
				f.Discharged++
				if o.Status == "trivial" {
					back["simplifier"]++
				} else {
					back[o.Backend]++
				}
			}
			solver += o.TimeMs
		}
		for k, v := range kinds {
			f.ByKind = append(f.ByKind, fmt.Sprintf("%s:%d", k, v))
		}
		sort.Strings(f.ByKind)
		for c := range e.inlined[n] {
			f.Inlined = append(f.Inlined, c)
		}
		sort.Strings(f.Inlined)
		for u := range r.Used {
			used[u] = true
		}
		obl += f.Obligations
		ok += f.Discharged
		fns = append(fns, f)
	}
	assum := []string{
		"int, int64, uint32 … arithmetic is mathematical (no overflow); floating point is treated as real arithmetic",
		"append always copies: two slices never share a backing array through append; slices received from outside start at their array's first element",
		"digest and encoding functions are free of collisions (stated as axioms in contracts/)",
		"data races are excluded by the lock discipline of C23; between lock regions other goroutines are modelled only where a contract says so",
		"the Go compiler, go/ssa (golang.org/x/tools), govc itself and the SMT solvers are trusted",
		"memory exhaustion, stack overflow and runtime faults outside the listed kinds are not modelled",
	}
	var tb []string
	for u := range used {
		if strings.HasPrefix(u, "assumed contract") || strings.HasPrefix(u, "modelled") || strings.HasPrefix(u, "no effect") {
			tb = append(tb, u)
		} else {
			assum = append(assum, u)
		}
	}
	sort.Strings(tb)
	sort.Strings(assum[6:])
	tb = append(tb, "go/ssa of golang.org/x/tools, govc (verification condition generator), z3 4.8.12, z3-new, cvc5 1.1.2")
	if e.pool != nil && obl == 0 && viol == 0 {
		viol = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": obl, "discharged": ok,
			"checker_cmd":           "govc check -prop " + prop + " (weakest-precondition style symbolic execution of go/ssa built from /repo's source, obligations decided by z3 and cvc5)",
			"trusted_base":          tb,
			"functions":             fns,
			"discharged_by_backend": back,
			"solver_time_s":         float64(solver) / 1000,
			"known_findings":        known,
			"not_verified":          problems,
		},
		"assumptions": assum,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return ok, err
	}
	return ok, os.WriteFile(filepath.Join(evid, prop+".json"), b, 0o644)
}
