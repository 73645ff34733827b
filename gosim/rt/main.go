// Command rt searches simulated histories of generated programs for violations
// of one property. Programs are generated, compiled by the compiler of the
// working tree for JavaScript, Java and C++, and run by drivers that decide
// when every asynchronous call completes.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"gosim/wire"
)

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Int64("seed", 1, "base seed")
	fRepo   = flag.String("repo", "/repo", "source tree")
	fRt     = flag.String("rt", "/verif/rt", "drivers")
	fWork   = flag.String("work", "", "scratch folder")
	fOut    = flag.String("out", "/verif", "where evidence and replays go")
	fReplay = flag.String("replay", "", "replay file")
	fLimit  = flag.Int("limit", 0, "seconds")
	fAll    = flag.Bool("all", false, "report every class of violation")
	fBatch  = flag.Int("batches", 0, "number of batches")
	fPer    = flag.Int("programs", 0, "programs per batch")
	fScen   = flag.Int("scenarios", 0, "scenarios per program")
	fLangs  = flag.String("langs", "", "languages")
	fSelf   = flag.Bool("selftest", false, "run every scenario twice and compare")
	fDump   = flag.Bool("dump", false, "print the programs")
	fKnown  = flag.String("known", "/verif/known_findings.jsonl", "known findings")
)

func main() {
	flag.Parse()
	os.Exit(realMain())
}

func fail(format string, args ...any) int {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	return 2
}

type finding struct {
	batch, prog, idx int
	lang             string
	b                *Batch
	sc               *Scenario
	v                *Violation
	hist             string
}

// pool holds one driver per language for one worker.
type pool struct {
	b     *Batch
	procs map[string]*Proc
}

func (p *pool) run(lang, line string) (string, string, error) {
	pr := p.procs[lang]
	if pr == nil {
		var err error
		pr, err = start(p.b.cmds[lang], p.b.env[lang])
		if err != nil {
			return "", "", err
		}
		p.procs[lang] = pr
	}
	h, died, err := pr.run(line)
	if died != "" || err != nil {
		delete(p.procs, lang)
	}
	if strings.Contains(died, "driver:") {
		err = fmt.Errorf("%s", died)
	}
	return h, died, err
}

func (p *pool) close() {
	for _, pr := range p.procs {
		pr.stop()
	}
}

// one runs a scenario in one language and judges it.
func one(pr *Prop, p *pool, lang string, sc *Scenario, x *Expect) (*Hist, *Violation, string, error) {
	raw, died, err := p.run(lang, sc.line(p.b, lang != "js"))
	if err != nil {
		return nil, nil, "", err
	}
	if died == "blocks" {
		return nil, viol("blocks", "the %s program never comes back", lang), died, nil
	}
	if died != "" {
		return nil, viol("crash", "the %s program crashes: %s", lang, died), died, nil
	}
	h, err := parseHist(raw)
	if err != nil {
		return nil, nil, raw, err
	}
	return h, pr.Judge(p.b, sc, x, lang, h), raw, nil
}

func seeded(parts ...any) *wire.Rand {
	return wire.NewRand(wire.Hash(uint64(*fSeed), fmt.Sprint(parts...)) >> 1)
}

func makePrograms(pr *Prop, batch, n int) []*Program {
	var ps []*Program
	for i := 0; i < n; i++ {
		if pr.Kit != nil {
			ps = append(ps, pr.Kit.Make(seeded(pr.ID, "program", batch, i), fmt.Sprintf("p%d", i), i%4 == 3 && pr.uses("js")))
			continue
		}
		ps = append(ps, pick(seeded(pr.ID, "program", batch, i), fmt.Sprintf("p%d", i), pr.Profile, i%4 == 3 && pr.uses("js")))
	}
	return ps
}

// prune drops functions the entry never reaches.
func prune(p *Program) *Program {
	keep := map[string]bool{}
	var walk func(e *Expr)
	var mark func(name string)
	walk = func(e *Expr) {
		if e.Op == "call" || e.Op == "amap" {
			mark(e.S)
		}
		for _, a := range e.Args {
			walk(a)
		}
		for _, b := range e.Bind {
			if b.E != nil {
				walk(b.E)
			}
		}
	}
	mark = func(name string) {
		if keep[name] {
			return
		}
		keep[name] = true
		walk(p.fn(name).Body)
	}
	mark(p.Funcs[0].Name)
	out := &Program{Chain: p.Chain}
	for _, f := range p.Funcs {
		if keep[f.Name] {
			out.Funcs = append(out.Funcs, f)
		}
	}
	return out
}

func realMain() int {
	began := time.Now()
	var pr *Prop
	for _, p := range props {
		if p.ID == *fProp {
			pr = p
		}
	}
	if pr == nil {
		return fail("no property %q", *fProp)
	}
	theKit = pr.Kit
	if *fWork == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			return fail("%v", err)
		}
		defer os.RemoveAll(d)
		*fWork = d
	}
	tc, err := newToolchain(*fRepo, *fRt, *fWork)
	if err != nil {
		return fail("building the compiler: %v", err)
	}
	if *fReplay != "" {
		return replay(tc, pr)
	}
	batches, limit := pr.Batches, 300*time.Second
	if *fTier == "thorough" {
		batches, limit = pr.ThoroughBatches, 700*time.Second
	}
	per, scen := pr.PerBatch, pr.Scenarios
	if *fBatch > 0 {
		batches = *fBatch
	}
	if *fPer > 0 {
		per = *fPer
	}
	if *fScen > 0 {
		scen = *fScen
	}
	if *fLimit > 0 {
		limit = time.Duration(*fLimit) * time.Second
	}
	want := pr.Langs
	if *fLangs != "" {
		want = strings.Split(*fLangs, ",")
	}
	var mu sync.Mutex
	var found []*finding
	var infra error
	classes := map[string]bool{}
	distinct := map[uint64]bool{}
	nontrivial := map[uint64]bool{}
	orders := map[uint64]bool{}
	runs := map[string]int{}
	faults := map[string]int{}
	outcomes := map[string]int{}
	steps, leaves, evals, skipped, programs := 0, 0, 0, 0, 0
	var samples []string
	timeUp := false
	for bi := 0; bi < batches && len(found) == 0 && infra == nil; bi++ {
		if bi > 0 && time.Since(began) > limit*3/4 {
			timeUp = true
			break
		}
		ps := makePrograms(pr, bi, per)
		if *fDump {
			fmt.Println(source(ps, "js"))
		}
		b, err := tc.build(ps, want)
		if err != nil {
			return fail("%v", err)
		}
		programs += len(ps)
		for lang, out := range b.Broken {
			q, msg := isolate(tc, b, lang, out)
			found = append(found, &finding{batch: bi, prog: q, lang: lang, b: b, sc: &Scenario{Tasks: []*Task{{Prog: q}}}, v: viol("does not compile", "a program is rejected in %s: %s", lang, msg)})
		}
		if len(found) > 0 {
			break
		}
		type job struct{ p, i int }
		jobs := make(chan job, len(ps)*scen)
		for i := 0; i < scen; i++ {
			for p := range ps {
				jobs <- job{p, i}
			}
		}
		close(jobs)
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				pl := &pool{b: b, procs: map[string]*Proc{}}
				defer pl.close()
				for j := range jobs {
					mu.Lock()
					stop := infra != nil || (len(found) > 0 && !*fAll)
					if time.Since(began) > limit {
						timeUp, stop = true, true
					}
					mu.Unlock()
					if stop {
						return
					}
					sc := pr.Gen(seeded(pr.ID, "scenario", bi, j.p, j.i), b, j.p)
					x, err := expect(b, sc)
					if err != nil || x.Leaves > 80 {
						mu.Lock()
						skipped++
						mu.Unlock()
						continue
					}
					for _, lang := range want {
						if !ps[j.p].in(lang) {
							continue
						}
						h, v, raw, err := one(pr, pl, lang, sc, x)
						if *fSelf && err == nil && v == nil {
							_, _, raw2, _ := one(pr, pl, lang, sc, x)
							if raw2 != raw {
								err = fmt.Errorf("not repeatable: %s\n%s", raw, raw2)
							}
						}
						mu.Lock()
						runs[lang]++
						switch {
						case err != nil:
							if infra == nil {
								infra = fmt.Errorf("%s: %w", lang, err)
							}
						case v != nil:
							outcomes["violation "+lang+" "+v.Class]++
							if !*fAll || !classes[lang+v.Class] {
								classes[lang+v.Class] = true
								found = append(found, &finding{bi, j.p, j.i, lang, b, sc, v, raw})
							}
						default:
							evals++
							steps += h.Steps
							leaves += len(h.Starts)
							key := wire.Hash(uint64(bi), fmt.Sprint(j.p), lang, h.Order, fmt.Sprint(sc.Fails))
							distinct[key] = true
							orders[wire.Hash(1, h.Order)] = true
							fired := 0
							for _, f := range sc.Fails {
								for _, s := range h.Starts {
									if strings.HasPrefix(s, fmt.Sprintf("%d ", f.ID)) && (f.Arg == "" || strings.HasSuffix(s, f.Arg)) {
										faults[map[int]string{1: "error message delivered", 2: "outright failure"}[f.Mode]]++
										fired++
									}
								}
							}
							if pr.nontrivial(h) && (pr.ID != "C13" || fired > 0) {
								nontrivial[key] = true
							}
							if h.Dropped > 0 {
								faults["result abandoned"] += h.Dropped
							}
							for _, p := range h.Reports {
								for _, f := range p.Faults {
									faults["disk "+f]++
								}
							}
							if outOfOrder(h) {
								faults["completion out of order"]++
							}
							if len(samples) < 5 && pr.nontrivial(h) {
								samples = append(samples, clip(fmt.Sprintf("%s %s: %s", lang, ps[j.p].Funcs[0].Name, h.Order), 300))
							}
						}
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		if len(found) == 0 {
			b.remove()
		}
	}
	if infra != nil {
		return fail("%v", infra)
	}
	known, err := loadKnown(*fKnown)
	if err != nil {
		return fail("known findings: %v", err)
	}
	sort.Slice(found, func(i, j int) bool {
		a, b := found[i], found[j]
		return fmt.Sprintf("%d %05d %05d %s", a.batch, a.idx, a.prog, a.lang) < fmt.Sprintf("%d %05d %05d %s", b.batch, b.idx, b.prog, b.lang)
	})
	if !*fAll && len(found) > 1 {
		found = found[:1]
	}
	code := 0
	var viols []map[string]any
	for _, f := range found {
		rp, err := minimise(tc, pr, f)
		if err != nil {
			return fail("minimising: %v", err)
		}
		if k := known.match(pr.ID, rp.Violation); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, k)
			continue
		}
		dir := filepath.Join(*fOut, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-batch%d-program%d-scenario%d-%s.json", pr.ID, *fSeed, f.batch, f.prog, f.idx, f.lang))
		bs, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, append(bs, '\n'), 0644); err != nil {
			return fail("%v", err)
		}
		fmt.Printf("%s: %s\n", rp.Violation.Class, rp.Violation.Detail)
		fmt.Println(rp.Source)
		fmt.Println(rp.History)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
		viols = append(viols, map[string]any{"class": rp.Violation.Class, "detail": rp.Violation.Detail, "seed": *fSeed, "replay": path})
		code = 1
	}
	if code == 0 && evals == 0 {
		return fail("nothing could be judged")
	}
	wall := time.Since(began).Seconds()
	total := 0
	for _, n := range runs {
		total += n
	}
	ev := map[string]any{
		"property": pr.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "wall_s": wall,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(nontrivial), "rule": pr.Rule, "samples": samples,
			"programs": programs, "simulated_runs_by_language": runs,
			"simulated_runs_per_hour": int64(float64(total) / wall * 3600),
			"seeds_per_hour":          int64(float64(evals) / wall * 3600 / float64(len(want))),
			"scheduler_decisions":     steps, "leaf_calls": leaves,
			"simulated_time":             "the programs use no clock; logical time is the number of scheduler decisions",
			"faults_injected":            faults,
			"distinct_runs":              len(distinct),
			"distinct_event_orders":      len(orders),
			"scenarios_too_large_to_run": skipped,
			"stopped_by_time_limit":      timeUp,
			"outcomes":                   outcomes,
			"components_real":            []string{"compiler of the working tree", "generated program and library code in " + strings.Join(want, ", "), "language runtimes"},
			"components_simulated":       simulated(pr),
		},
		"assumptions": []string{"programs come from the asynchronous fragment that the unchanged compiler translates for the languages used"},
	}
	if viols != nil {
		ev["violations"] = viols
	}
	bs, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fOut, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*fOut, "evidence", pr.ID+".json"), append(bs, '\n'), 0644); err != nil {
		return fail("%v", err)
	}
	fmt.Printf("%s %s seed %d: %d programs, %d runs, %d judged, %d distinct, %.1f s, faults %v %v\n", pr.ID, *fTier, *fSeed, programs, total, evals, len(distinct), wall, faults, outcomes)
	return code
}

func simulated(pr *Prop) []string {
	out := []string{"asynchronous leaf calls (when each completes, what it delivers, whether it fails)", "order in which calls are started and waited for"}
	if pr.Kit == uiKit {
		out = append(out, "document of the browser and the user's events")
	}
	if pr.Kit != nil && pr.Kit.Disk {
		out = append(out, "disk")
	}
	return out
}

// outOfOrder: some call completed before one that started earlier.
func outOfOrder(h *Hist) bool {
	last := -1
	for _, p := range strings.Split(h.Raw, ";") {
		var k int
		if n, _ := fmt.Sscanf(p, "C %d", &k); n == 1 {
			if k < last {
				return true
			}
			last = k
		}
	}
	return false
}
