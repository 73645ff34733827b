// Command runner searches simulated histories of the compiler for violations
// of one property.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"gosim/wire"
)

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Int64("seed", 1, "base seed")
	fRepo   = flag.String("repo", "/repo", "source tree")
	fGosim  = flag.String("gosim", "/verif/gosim", "this module")
	fWork   = flag.String("work", "", "scratch folder")
	fOut    = flag.String("out", "/verif", "where evidence and replays go")
	fReplay = flag.String("replay", "", "replay file")
	fCount  = flag.Int("count", 0, "number of scenarios")
	fFrom   = flag.Int("from", 0, "first scenario")
	fLimit  = flag.Int("limit", 0, "seconds")
	fAll    = flag.Bool("all", false, "do not stop at the first violation")
	fKnown  = flag.String("known", "/verif/known_findings.jsonl", "known findings")
	fSelf   = flag.Bool("selftest", false, "run every scenario twice and compare")
)

func main() {
	flag.Parse()
	os.Exit(realMain())
}

func fail(format string, args ...any) int {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	return 2
}

// outcome of one scenario
type outcome struct {
	idx  int
	seed uint64
	sc   *Scenario
	v    *Verdict
	err  error
}

func seedOf(base int64, prop string, idx int) uint64 {
	return wire.Hash(uint64(base), prop, fmt.Sprint(idx)) >> 1
}

func judge(sim *Sim, pr *Prop, sc *Scenario) (*Verdict, error) {
	v := &Verdict{}
	w := &World{sim: sim, sc: sc, img: sc.Proj.Img, v: v}
	err := pr.Judge(w)
	return v, err
}

func realMain() int {
	start := time.Now()
	var pr *Prop
	for _, p := range props {
		if p.ID == *fProp {
			pr = p
		}
	}
	if pr == nil {
		return fail("no property %q", *fProp)
	}
	if *fWork == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			return fail("%v", err)
		}
		defer os.RemoveAll(d)
		*fWork = d
	}
	sim, err := newSim(*fRepo, *fGosim, *fWork)
	if err != nil {
		return fail("building the simulated program: %v", err)
	}
	if err := loadFull(*fRepo); err != nil {
		return fail("reading the library: %v", err)
	}
	if *fReplay != "" {
		return replay(sim, pr)
	}
	n, limit := pr.Quick, 240*time.Second
	if *fTier == "thorough" {
		n, limit = pr.Thorough, 780*time.Second
	}
	if *fCount > 0 {
		n = *fCount
	}
	if *fLimit > 0 {
		limit = time.Duration(*fLimit) * time.Second
	}
	workers := runtime.NumCPU()
	next := *fFrom
	var mu sync.Mutex
	var found []*outcome
	var infra error
	seenClass := map[string]bool{}
	keys := map[uint64]bool{}
	notes := map[string]int64{}
	skipped := map[string]int64{}
	evals, faulted, sound := 0, 0, 0
	var samples []string
	timeUp := false
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= *fFrom+n || infra != nil || (len(found) > 0 && !*fAll) {
					mu.Unlock()
					return
				}
				if time.Since(start) > limit {
					timeUp = true
					mu.Unlock()
					return
				}
				idx := next
				next++
				mu.Unlock()
				o := &outcome{idx: idx, seed: seedOf(*fSeed, pr.ID, idx)}
				r := wire.NewRand(o.seed)
				o.sc = pr.Gen(r, o.seed, idx)
				o.v, o.err = judge(sim, pr, o.sc)
				if *fSelf && o.err == nil {
					sc2 := pr.Gen(wire.NewRand(o.seed), o.seed, idx)
					v2, err := judge(sim, pr, sc2)
					if err != nil || fmt.Sprint(v2.Digests) != fmt.Sprint(o.v.Digests) {
						o.err = fmt.Errorf("scenario %d is not repeatable: %v %v %v", idx, err, v2.Digests, o.v.Digests)
					}
				}
				mu.Lock()
				switch {
				case o.err != nil:
					infra = fmt.Errorf("scenario %d: %w", idx, o.err)
				case o.v.V != nil:
					if !*fAll || !seenClass[o.v.V.Class] {
						found = append(found, o)
					}
					seenClass[o.v.V.Class] = true
					notes["violation "+o.v.V.Class]++
				case o.v.Skipped != "":
					skipped[o.v.Skipped]++
				default:
					evals++
					if o.v.Faults > 0 {
						faulted++
					}
					sound++
					for _, s := range o.v.Notes {
						notes[s]++
					}
					keys[o.v.Key] = true
					if len(samples) < 6 && o.v.Faults > 0 || len(samples) < 3 {
						samples = append(samples, describe(o))
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if infra != nil {
		if errors.Is(infra, errHang) {
			return fail("%v", infra)
		}
		return fail("%v", infra)
	}
	sort.Slice(found, func(i, j int) bool { return found[i].idx < found[j].idx })
	code := 0
	var viol []map[string]any
	known, err := loadKnown(*fKnown)
	if err != nil {
		return fail("known findings: %v", err)
	}
	for _, o := range found {
		sc, v := minimise(sim, pr, o)
		if k := known.match(pr.ID, sc, v.V); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, k)
			continue
		}
		dir := filepath.Join(*fOut, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-scenario%d.json", pr.ID, *fSeed, o.idx))
		rp := &Replay{Scenario: sc, Violation: v.V, Digests: v.Digests, BaseSeed: *fSeed, Index: o.idx}
		if err := writeReplay(path, rp); err != nil {
			return fail("%v", err)
		}
		fmt.Printf("%s: %s\n", v.V.Class, v.V.Detail)
		for _, t := range v.V.Trace {
			fmt.Println("   ", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
		viol = append(viol, map[string]any{"class": v.V.Class, "detail": v.V.Detail, "seed": *fSeed, "scenario": o.idx, "replay": path})
		code = 1
	}
	if code == 0 && evals == 0 {
		return fail("no scenario could be judged: %v", skipped)
	}
	if nsk := skipped["the undisturbed build fails"]; code == 0 && nsk*5 > int64(evals) {
		return fail("%d of %d scenarios are not judged because the undisturbed build fails", nsk, evals)
	}
	wall := time.Since(start).Seconds()
	ev := map[string]any{
		"property": pr.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"wall_s": wall,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": pr.Rule, "samples": samples,
			"scenarios_with_faults": faulted, "scenarios_not_judged": skipped, "outcomes": notes,
			"simulated_runs": sim.runs, "simulated_runs_per_hour": int64(float64(sim.runs) / wall * 3600),
			"seeds_per_hour":    int64(float64(evals) / wall * 3600),
			"simulated_seconds": float64(sim.simNs) / 1e9, "operations": sim.steps,
			"faults_injected":              sim.fired,
			"distinct_operation_histories": len(sim.digests),
			"distinct_final_disks":         len(sim.states),
			"stopped_by_time_limit":        timeUp,
			"components_real":              []string{"whole vxlisp program (all of /repo/src) from the working tree", "Go standard library above the system call layer"},
			"components_simulated":         []string{"file system calls", "disk contents and durability", "wall clock", "map iteration and select order", "goroutine scheduling, lock hand-over and timer ties", "environment, host name, process id, starting folder, memory layout", "network (web server)", "process exit", "scheduling of concurrent processes"},
		},
		"assumptions": []string{"a write that reported success is visible to later reads until power is lost", "unsynced data may survive power loss in part; unchanged files survive"},
	}
	if viol != nil {
		ev["violations"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fOut, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*fOut, "evidence", pr.ID+".json"), append(b, '\n'), 0644); err != nil {
		return fail("%v", err)
	}
	fmt.Printf("%s %s seed %d: %d scenarios judged, %d simulated runs, %d with faults, %.1f s, skipped %v, %v\n", pr.ID, *fTier, *fSeed, evals, sim.runs, faulted, wall, skipped, notes)
	return code
}

func describe(o *outcome) string {
	var s []string
	for _, st := range o.sc.Steps {
		t := st.Op
		if len(st.Cmds) > 0 {
			t += " " + strings.Join(st.Cmds, ",")
		}
		for i, f := range st.Cfg.Faults {
			if i == 4 {
				t += " ..."
				break
			}
			t += fmt.Sprintf(" %s@%d", f.Kind, f.Op)
		}
		if len(st.Cfg.BadPaths) > 0 {
			t += " bad:" + st.Cfg.BadPaths[0]
		}
		s = append(s, t)
	}
	return fmt.Sprintf("scenario %d: %s", o.idx, strings.Join(s, "; "))
}

func replay(sim *Sim, pr *Prop) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		return fail("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		return fail("%v", err)
	}
	v, err := judge(sim, pr, rp.Scenario)
	if err != nil {
		return fail("%v", err)
	}
	if v.V == nil {
		fmt.Println("replay: the property holds in this history")
		return 0
	}
	fmt.Printf("%s: %s\n", v.V.Class, v.V.Detail)
	for _, t := range v.V.Trace {
		fmt.Println("   ", t)
	}
	fmt.Printf("same operations as recorded: %v\n", fmt.Sprint(v.Digests) == fmt.Sprint(rp.Digests))
	fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, *fReplay)
	return 1
}
