package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"
var repoDir = "/repo"

func main() {
	if d := os.Getenv("GOSYM_VERIF"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		repoDir = d
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check -property ID | gosym replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("property", "", "property id")
		tier := fs.String("tier", "", "quick or thorough")
		only := fs.String("harness", "", "run only this harness")
		workers := fs.Int("workers", 0, "workers")
		_ = fs.Parse(os.Args[2:])
		if *tier == "" {
			*tier = os.Getenv("VERIF_TIER")
		}
		if *tier == "" {
			*tier = "quick"
		}
		os.Exit(runCheck(*prop, *tier, *only, *workers))
	case "replay":
		os.Exit(runReplayFile(os.Args[2]))
	case "dump":
		os.Exit(dumpOverlay(os.Args[2]))
	}
	os.Exit(2)
}

// knownEntry is one line of known_findings: property, harness and message, plus optional inputs.
type knownEntry struct {
	prop, harness, match string
	inputs               map[string]string
	text                 string
	used                 bool
}

// Lines: "finding: property=Cxx harness=H match=<substring of the message> [input=name:value ...] :: text"
func loadKnown() []*knownEntry {
	f, err := os.Open(filepath.Join(verifDir, "known_findings"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []*knownEntry
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		p := strings.SplitN(l, " :: ", 2)
		k := &knownEntry{inputs: map[string]string{}}
		if len(p) == 2 {
			k.text = p[1]
		}
		for _, kv := range strings.Fields(p[0]) {
			x := strings.SplitN(kv, "=", 2)
			if len(x) != 2 {
				continue
			}
			v := strings.ReplaceAll(x[1], "_", " ")
			switch x[0] {
			case "property":
				k.prop = x[1]
			case "harness":
				k.harness = x[1]
			case "match":
				k.match = v
			case "input":
				y := strings.SplitN(x[1], ":", 2)
				if len(y) == 2 {
					k.inputs[y[0]] = y[1]
				}
			}
		}
		r = append(r, k)
	}
	return r
}

func (k *knownEntry) matches(prop string, v *Violation) bool {
	if k.prop != prop || k.harness != v.Harness || !strings.Contains(v.Msg, k.match) {
		return false
	}
	for n, want := range k.inputs {
		ok := false
		for _, in := range v.Inputs {
			if in.Name == n && in.Val == want {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func applyTier(h *HarnessCfg, tier string) bool {
	t := h.Quick
	if tier == "thorough" && h.Thorough != nil {
		t = *h.Thorough
		if t.Bounds == nil {
			t.Bounds = h.Quick.Bounds
		}
		for k, v := range h.Quick.Bounds {
			if _, ok := t.Bounds[k]; !ok {
				t.Bounds[k] = v
			}
		}
	}
	if t.Skip {
		return false
	}
	h.Bounds, h.Preempt, h.MaxSteps, h.IdleRounds, h.SoftMs, h.HardS = t.Bounds, t.Preempt, t.MaxSteps, t.Idle, t.SoftMs, t.HardS
	h.MaxAlloc = t.MaxAlloc
	h.Timeout = t.Timeout
	if h.Timeout == 0 {
		h.Timeout = 40
		if tier == "thorough" {
			h.Timeout = 240
		}
	}
	return true
}

type harnessEv struct {
	Harness      string           `json:"harness"`
	Package      string           `json:"package"`
	Bounds       map[string]int64 `json:"bounds"`
	Preemptions  int              `json:"preemption_bound"`
	FreeSchedule bool             `json:"free_schedule"`
	DelayBounded bool             `json:"delay_bounded"`
	Paths        int64            `json:"paths"`
	Infeasible   int64            `json:"infeasible_paths"`
	Cut          int64            `json:"paths_cut"`
	Complete     bool             `json:"exhaustive_within_bounds"`
	Incomplete   map[string]int   `json:"incomplete,omitempty"`
	Steps        int64            `json:"ssa_instructions"`
	Forks        int64            `json:"forks"`
	Asserts      int64            `json:"assertions_met"`
	SymAsserts   int64            `json:"assertions_decided_by_solver"`
	Queries      int64            `json:"solver_queries"`
	Sat          int64            `json:"sat"`
	Unsat        int64            `json:"unsat"`
	UnknownQ     int64            `json:"unknown"`
	Fallback     int64            `json:"portfolio_queries"`
	SolverS      float64          `json:"solver_s"`
	WallS        float64          `json:"wall_s"`
	Functions    []string         `json:"functions_encoded"`
	Reached      map[string]int   `json:"labels_reached"`
	NotReached   []string         `json:"labels_not_reached,omitempty"`
	Validated    int              `json:"paths_replayed_natively"`
	ValMismatch  []string         `json:"validation_mismatches,omitempty"`
	Candidates   int              `json:"counterexamples"`
	Confirmed    int              `json:"confirmed_natively"`
	Unconfirmed  []string         `json:"unconfirmed,omitempty"`
	Notes        map[string]int   `json:"notes,omitempty"`
	Error        string           `json:"error,omitempty"`
}

func runCheck(prop, tier, only string, workers int) int {
	t0 := time.Now()
	dir := filepath.Join(verifDir, "harness", prop)
	cfgB, err := os.ReadFile(filepath.Join(dir, "harness.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var pc PropCfg
	if err := json.Unmarshal(cfgB, &pc); err != nil {
		fmt.Fprintln(os.Stderr, "harness.json:", err)
		return 2
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	known := loadKnown()
	var evs []*harnessEv
	var violLines []string
	exit := 0
	overall, last := t0.Add(560*time.Second), t0.Add(800*time.Second)
	confirmS, validateS := 0.0, 0.0 // time spent in native runs
	if tier == "thorough" {
		overall = t0.Add(6 * time.Hour)
		last = overall.Add(time.Hour)
	}
	replayDir := filepath.Join(verifDir, "evidence", "replay")
	_ = os.MkdirAll(replayDir, 0o755)
	nviol := 0
	for ui, u := range pc.Units {
		var hs []*HarnessCfg
		for _, h := range u.Harnesses {
			if (only == "" || h.Name == only) && applyTier(h, tier) {
				hs = append(hs, h)
			}
		}
		if len(hs) == 0 {
			continue
		}
		tmp, err := os.MkdirTemp("", "gosym-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(tmp)
		eng := &Engine{repo: repoDir, dir: dir, tmp: tmp, unit: u}
		fmt.Printf("[%s] unit %d: package %s: encoding\n", prop, ui, u.Pkg)
		if err := eng.load(); err != nil {
			for _, h := range hs {
				evs = append(evs, &harnessEv{Harness: h.Name, Package: u.Pkg, Bounds: h.Bounds, Error: err.Error(), Incomplete: map[string]int{"not encoded": 1}})
			}
			fmt.Printf("[%s] INCONCLUSIVE package %s: %v\n", prop, u.Pkg, err)
			continue
		}
		rp := &Replayer{eng: eng}
		var names []string
		for _, h := range u.Harnesses {
			names = append(names, h.Name)
		}
		buildDone := make(chan error, 1)
		go func() { buildDone <- rp.build(names) }()
		built := false
		for _, h := range hs {
			ev := &harnessEv{Harness: h.Name, Package: u.Pkg, Bounds: h.Bounds, Preemptions: h.Preempt, FreeSchedule: h.SchedFree, DelayBounded: h.Delay}
			evs = append(evs, ev)
			fn := eng.pkg.Func(h.Name)
			if fn == nil {
				ev.Error = "harness function not found"
				continue
			}
			eng.realLog = h.RealLog
			ht0 := time.Now()
			dl := ht0.Add(time.Duration(h.Timeout) * time.Second)
			if dl.After(overall) {
				dl = overall
			}
			run, err := eng.explore(h, fn, workers, dl)
			if err != nil {
				ev.Error = err.Error()
				ev.Incomplete = map[string]int{"not encoded: " + err.Error(): 1}
				fmt.Printf("[%s] %s INCONCLUSIVE: %v\n", prop, h.Name, err)
				continue
			}
			fillEv(ev, run, h)
			ev.WallS = time.Since(ht0).Seconds()
			fmt.Printf("[%s] %s: %d paths (%d infeasible, %d cut), %d SSA instructions, %d queries (%d sat %d unsat %d unknown, %.1fs), %.1fs wall, complete=%v, candidates=%d\n",
				prop, h.Name, ev.Paths, ev.Infeasible, ev.Cut, ev.Steps, ev.Queries, ev.Sat, ev.Unsat, ev.UnknownQ, ev.SolverS, ev.WallS, ev.Complete, len(run.Violations))
			for _, k := range sortedKeys(ev.Incomplete) {
				fmt.Printf("[%s]   incomplete: %s (%d)\n", prop, k, ev.Incomplete[k])
			}
			for _, k := range ev.NotReached {
				fmt.Printf("[%s]   label not reached: %s\n", prop, k)
			}
			if !built {
				if err := <-buildDone; err != nil {
					fmt.Printf("[%s] %v\n", prop, err)
					ev.Notes["native replay does not build"]++
				}
				built = true
			}
			if rp.err != nil {
				ev.Unconfirmed = append(ev.Unconfirmed, "native replay does not build")
				continue
			}
			// counterexamples
			confirmedMsg := map[string]bool{}
			sort.SliceStable(run.Violations, func(i, j int) bool {
				return len(run.Violations[i].Sched) < len(run.Violations[j].Sched)
			})
			for i := range run.Violations {
				v := &run.Violations[i]
				if confirmedMsg[v.Kind+v.Msg] {
					continue
				}
				ev.Candidates++
				rc := &replayCase{Harness: h.Name, Inputs: v.Inputs, Sched: v.Sched, Bounds: h.Bounds, Property: prop, Pkg: u.Pkg, Kind: v.Kind, Msg: v.Msg, Tier: tier}
				ok := false
				lastMsg := ""
				tries := 1
				if len(v.Sched) > 0 || h.SchedFree {
					tries = 4
				}
				if h.NoReplay {
					tries = 0
				}
				for t := 0; t < tries && !ok && time.Now().Before(last) && confirmS < 250; t++ {
					c0 := time.Now()
					r, err := rp.run(rc, 25*time.Second)
					confirmS += time.Since(c0).Seconds()
					if err != nil {
						lastMsg = err.Error()
						continue
					}
					ok = confirms(v, r)
					lastMsg = r.Kind + ": " + r.Msg
				}
				rc.Native = lastMsg
				if !ok {
					ev.Unconfirmed = append(ev.Unconfirmed, fmt.Sprintf("%s: %s (native: %s)", v.Kind, v.Msg, lastMsg))
					fmt.Printf("[%s]   not confirmed natively: %s %q, native run: %s\n", prop, v.Kind, v.Msg, lastMsg)
					if os.Getenv("GOSYM_DEBUG") != "" {
						b, _ := json.Marshal(rc)
						fmt.Printf("    %s\n", b)
					}
					continue
				}
				ev.Confirmed++
				kn := false
				for _, k := range known {
					if k.matches(prop, v) {
						if !k.used {
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
						}
						k.used = true
						kn = true
						break
					}
				}
				if kn {
					continue
				}
				confirmedMsg[v.Kind+v.Msg] = true
				nviol++
				f := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, nviol))
				b, _ := json.MarshalIndent(rc, "", " ")
				_ = os.WriteFile(f, b, 0o644)
				fmt.Printf("[%s]   %s: %s: %s (native: %s)\n", prop, h.Name, v.Kind, v.Msg, lastMsg)
				violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f))
				exit = 1
			}
			// translation validation: replay explored paths natively
			for _, s := range run.Samples {
				if h.NoReplay || time.Now().After(overall) || validateS > 60 {
					break
				}
				if len(run.Violations) > 0 && ev.Validated >= 2 {
					break
				}
				rc := &replayCase{Harness: h.Name, Inputs: s.Inputs, Sched: s.Sched, Bounds: h.Bounds}
				var msg string
				for t := 0; t < 3; t++ {
					msg = ""
					c0 := time.Now()
					r, err := rp.run(rc, 20*time.Second)
					validateS += time.Since(c0).Seconds()
					if err != nil {
						msg = err.Error()
						continue
					}
					if r.Kind != "ok" {
						msg = "native outcome " + r.Kind + ": " + r.Msg
					} else if len(r.Missing) > 0 {
						msg = "native run asked for inputs " + strings.Join(r.Missing, ",")
					} else {
						msg = diffObs(s.Observe, r.Observe)
					}
					if msg == "" {
						break
					}
					if len(s.Sched) == 0 {
						break
					}
				}
				if msg == "" {
					ev.Validated++
				} else {
					ev.ValMismatch = append(ev.ValMismatch, msg)
					fmt.Printf("[%s]   validation mismatch in %s: %s\n", prop, h.Name, msg)
					if os.Getenv("GOSYM_DEBUG") != "" {
						b, _ := json.Marshal(rc)
						fmt.Printf("    %s\n", b)
					}
				}
			}
		}
		if !built {
			<-buildDone
		}
		os.RemoveAll(tmp)
	}
	writeEvidence(prop, tier, seed, &pc, evs, violLines, time.Since(t0))
	for _, l := range violLines {
		fmt.Println(l)
	}
	fmt.Printf("[%s] done in %.1fs\n", prop, time.Since(t0).Seconds())
	return exit
}

func diffObs(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("observations differ in number: model %d, native %d", len(a), len(b))
	}
	for i := range a {
		if strings.HasSuffix(a[i], "=?") {
			continue
		}
		if a[i] != b[i] {
			return fmt.Sprintf("observation differs: model %s, native %s", a[i], b[i])
		}
	}
	return ""
}

func fillEv(ev *harnessEv, r *Run, h *HarnessCfg) {
	ev.Paths, ev.Infeasible, ev.Cut = r.Paths, r.Infeasible, r.Limited
	ev.Steps, ev.Forks, ev.Asserts, ev.SymAsserts = r.Steps, r.Forks, r.Asserts, r.SymAsserts
	ev.Queries, ev.Sat, ev.Unsat, ev.UnknownQ, ev.Fallback = r.stats.Queries, r.stats.SatN, r.stats.UnsatN, r.stats.UnknownN, r.stats.Portfolio
	ev.SolverS = float64(r.stats.TimeNs) / 1e9
	ev.Incomplete = r.Incomplete
	ev.Complete = len(r.Incomplete) == 0
	ev.Functions = sortedKeys(r.Funcs)
	ev.Reached = r.Reached
	for _, l := range h.Reach {
		if r.Reached[l] == 0 {
			ev.NotReached = append(ev.NotReached, l)
		}
	}
	ev.Notes = map[string]int{}
	for k, v := range r.SolverNote {
		ev.Notes[k] += v
	}
}

func writeEvidence(prop, tier string, seed int, pc *PropCfg, evs []*harnessEv, viol []string, d time.Duration) {
	var states, trans, queries, unsat, sat, unk, samples int64
	var solver float64
	validated := 0
	complete := true
	fset := map[string]bool{}
	for _, e := range evs {
		states += e.Paths
		trans += e.Steps
		queries += e.Queries
		unsat += e.Unsat
		sat += e.Sat
		unk += e.UnknownQ
		solver += e.SolverS
		validated += e.Validated
		if !e.Complete || e.Error != "" || len(e.NotReached) > 0 {
			complete = false
		}
		for _, f := range e.Functions {
			fset[f] = true
		}
		samples += e.SymAsserts
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": d.Seconds(),
		"violations": len(viol),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated,
			"exhaustive_within_bounds": complete,
			"functions_encoded":        sortedKeys(fset),
			"queries":                  queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk,
			"solver_time_s":                solver,
			"assertions_decided_by_solver": samples,
			"explanation":                  "states = explored symbolic paths (each stands for all inputs that satisfy its path condition); transitions = SSA instructions of the real code executed symbolically; every assertion on every path was decided by an SMT solver for all values on the path",
			"harnesses":                    evs,
		},
		"assumptions":    pc.Assumptions,
		"outside_bounds": pc.Outside,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func runReplayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rc replayCase
	if err := json.Unmarshal(b, &rc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir := filepath.Join(verifDir, "harness", rc.Property)
	cb, err := os.ReadFile(filepath.Join(dir, "harness.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var pc PropCfg
	if err := json.Unmarshal(cb, &pc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, u := range pc.Units {
		for _, h := range u.Harnesses {
			if h.Name != rc.Harness {
				continue
			}
			tmp, _ := os.MkdirTemp("", "gosym-")
			defer os.RemoveAll(tmp)
			eng := &Engine{repo: repoDir, dir: dir, tmp: tmp, unit: u}
			if err := eng.load(); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			rp := &Replayer{eng: eng}
			var names []string
			for _, x := range u.Harnesses {
				names = append(names, x.Name)
			}
			if err := rp.build(names); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			r, err := rp.run(&rc, 60*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			fmt.Printf("%s: %s\n", r.Kind, r.Msg)
			if r.Kind == "ok" {
				return 0
			}
			return 1
		}
	}
	return 2
}

// dumpOverlay prints the transformed sources of a property's units.
func dumpOverlay(prop string) int {
	dir := filepath.Join(verifDir, "harness", prop)
	cb, err := os.ReadFile(filepath.Join(dir, "harness.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var pc PropCfg
	if err := json.Unmarshal(cb, &pc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, u := range pc.Units {
		eng := &Engine{repo: repoDir, dir: dir, unit: u}
		if err := eng.prepare(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for _, p := range sortedKeys(eng.overlay) {
			if strings.Contains(p, "/zzverif/") {
				continue
			}
			fmt.Printf("==== %s\n%s\n", p, eng.overlay[p])
		}
	}
	return 0
}
