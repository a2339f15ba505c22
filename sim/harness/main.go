package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/simrt"
)

const sigwinch = syscall.SIGWINCH

// Replay is a replay file.
type Replay struct {
	Property string            `json:"property"`
	Key      string            `json:"violation_key"`
	Detail   string            `json:"violation"`
	Seed     int64             `json:"base_seed"`
	Run      int64             `json:"run"`
	RunSeed  int64             `json:"run_seed"`
	Mode     string            `json:"mode"` // "trace": scenario + decisions; "seed": scenario + seed
	Scn      *Scn              `json:"scenario"`
	Devs     []simrt.Deviation `json:"decisions"`
	Hash     string            `json:"event_hash"`
	Original struct {
		Size int `json:"scenario_size"`
		Devs int `json:"decisions"`
	} `json:"before_minimising"`
	Trace []string `json:"trace,omitempty"`
}

// Stats is what a worker reports.
type Stats struct {
	Runs, Steps, Switches, Cases int64
	SimNS                        int64
	Fired, Offered, Probes       map[string]int64
	IL                           []uint64 // sample is complete unless ILOver
	NT                           []uint64 // the non-trivial ones
	Strat                        map[string]int64
	Samples                      []string
	Known                        map[string]int64
	KnownDetail                  map[string]string
	Viol                         *Replay
	Determinism                  int64
}

func addAll(dst, src map[string]int64) {
	for k, v := range src {
		dst[k] += v
	}
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Where    string `json:"where"`
	What     string `json:"what"`
}

func loadKnown(path string) []Known {
	var f struct {
		Findings []Known `json:"findings"`
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &f); err != nil {
		simrt.HarnessError("%s: %v", path, err)
	}
	return f.Findings
}

func isKnown(known []Known, prop string, v Viol) *Known {
	for i := range known {
		if known[i].Property == prop && known[i].Key == v.Key && (known[i].Where == "" || strings.Contains(v.Detail, known[i].Where)) {
			return &known[i]
		}
	}
	return nil
}

func scenarioFor(p *Property, base int64, k int64) (*Scn, int64) {
	rs := subSeed(base, p.ID, k)
	r := rand.New(rand.NewSource(rs))
	sc := p.Gen(r)
	sc.Prop = p.ID
	if sc.Strat.Kind == "" {
		sc.Strat = randStrategy(r)
	}
	return sc, rs
}

func worker(p *Property, base int64, w, n int, deadline time.Time, maxRuns int64, progress string, known []Known) *Stats {
	st := &Stats{Fired: map[string]int64{}, Offered: map[string]int64{}, Probes: map[string]int64{}, Strat: map[string]int64{}, Known: map[string]int64{}, KnownDetail: map[string]string{}}
	ils := map[uint64]bool{}
	nts := map[uint64]bool{}
	var pf *os.File
	if progress != "" {
		pf, _ = os.OpenFile(progress, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0666)
	}
	for k := int64(w); ; k += int64(n) {
		if maxRuns > 0 && k >= maxRuns {
			break
		}
		if time.Now().After(deadline) {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-20d", k)), 0)
		}
		sc, rs := scenarioFor(p, base, k)
		res := execute(p, sc, rs, false, nil, false)
		if st.Runs < 3 || st.Runs%997 == 0 {
			again := execute(p, sc, rs, false, nil, false)
			if again.Hash != res.Hash || again.Steps != res.Steps {
				simrt.HarnessError("run %d of %s is not deterministic (hash %x/%x steps %d/%d)", k, p.ID, res.Hash, again.Hash, res.Steps, again.Steps)
			}
			st.Determinism++
		}
		st.Runs++
		st.Steps += res.Steps
		st.Switches += res.Sw
		st.Cases += res.Cases
		st.SimNS += int64(res.SimNow)
		addAll(st.Fired, res.Fired)
		addAll(st.Offered, res.Offer)
		addAll(st.Probes, res.Probes)
		st.Strat[sc.Strat.Kind]++
		ils[res.IL] = true
		if res.Cases > 0 && res.Sw > 8 {
			nts[res.IL] = true
		}
		if len(st.Samples) < 2 {
			st.Samples = append(st.Samples, fmt.Sprintf("run %d seed %d: %s", k, rs, sc.json()))
		}
		for _, v := range res.Viols {
			if kf := isKnown(known, p.ID, v); kf != nil {
				st.Known[kf.Key+" "+kf.What]++
				continue
			}
			rep := &Replay{Property: p.ID, Key: v.Key, Detail: v.Detail, Seed: base, Run: k, RunSeed: rs, Mode: "trace", Scn: sc, Devs: res.Devs, Hash: fmt.Sprintf("%016x", res.Hash)}
			st.Viol = rep
			break
		}
		if st.Viol != nil {
			break
		}
	}
	for h := range ils {
		st.IL = append(st.IL, h)
	}
	for h := range nts {
		st.NT = append(st.NT, h)
	}
	return st
}

func replayOnce(p *Property, rp *Replay, trace bool) *RunResult {
	if rp.Mode == "seed" {
		return execute(p, rp.Scn, rp.RunSeed, false, nil, trace)
	}
	return execute(p, rp.Scn, rp.RunSeed, true, rp.Devs, trace)
}

func hasKey(r *RunResult, key string) *Viol {
	for i := range r.Viols {
		if r.Viols[i].Key == key {
			return &r.Viols[i]
		}
	}
	return nil
}

// keepParams decide which keys of a scenario have a meaning at all.
var keepParams = map[string]bool{"vim": true, "remote": true, "kind": true, "badsvr": true, "second": true, "mute": true}

// minimise shrinks the scenario and the schedule of a violation.
// save is called with every smaller counterexample.
func minimise(p *Property, rp *Replay, budget time.Duration, save func(*Replay)) *Replay {
	end := time.Now().Add(budget)
	rp.Original.Size = rp.Scn.size()
	rp.Original.Devs = len(rp.Devs)
	cur := *rp
	try := func(sc *Scn) bool {
		for i := 0; i < 12; i++ {
			if time.Now().After(end) {
				return false
			}
			seed := rp.RunSeed
			if i > 0 {
				seed = subSeed(rp.RunSeed, "shrink", i)
			}
			res := execute(p, sc, seed, false, nil, false)
			if v := hasKey(res, rp.Key); v != nil {
				cur.Scn, cur.Devs, cur.Detail, cur.RunSeed = sc, res.Devs, v.Detail, seed
				cur.Hash = fmt.Sprintf("%016x", res.Hash)
				save(&cur)
				return true
			}
		}
		return false
	}
	// cheap strategy first
	for _, st := range []simrt.Strategy{{Kind: "fifo"}, {Kind: "walk", PSync: 0.05, PBlock: 0.3}} {
		sc := cur.Scn.clone()
		sc.Strat = st
		if sc.Strat != cur.Scn.Strat && try(sc) {
			break
		}
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for f := range cur.Scn.Faults {
			sc := cur.Scn.clone()
			delete(sc.Faults, f)
			if try(sc) {
				changed = true
			}
		}
		var actors []string
		for a := range cur.Scn.A {
			actors = append(actors, a)
		}
		sort.Strings(actors)
		for _, a := range actors {
			for chunk := len(cur.Scn.A[a]); chunk >= 1; chunk /= 2 {
				for i := 0; i+chunk <= len(cur.Scn.A[a]); {
					if time.Now().After(end) {
						break
					}
					sc := cur.Scn.clone()
					sc.A[a] = append(append([]Op{}, sc.A[a][:i]...), sc.A[a][i+chunk:]...)
					if try(sc) {
						changed = true
					} else {
						i += chunk
					}
				}
			}
		}
		var ps []string
		for k := range cur.Scn.P {
			ps = append(ps, k)
		}
		sort.Strings(ps)
		for _, k := range ps {
			if cur.Scn.P[k] == 0 || strings.HasPrefix(k, "fixed") || keepParams[k] {
				continue
			}
			sc := cur.Scn.clone()
			delete(sc.P, k)
			if try(sc) {
				changed = true
			}
		}
	}
	// schedule: remove deviations
	check := func(d []simrt.Deviation) bool {
		res := execute(p, cur.Scn, cur.RunSeed, true, d, false)
		if v := hasKey(res, rp.Key); v != nil {
			cur.Devs, cur.Detail = d, v.Detail
			return true
		}
		return false
	}
	if !check(cur.Devs) {
		simrt.HarnessError("violation %s does not reproduce from its recorded decisions", rp.Key)
	}
	for chunk := len(cur.Devs); chunk >= 1 && time.Now().Before(end); chunk /= 2 {
		for i := 0; i+chunk <= len(cur.Devs) && time.Now().Before(end); {
			d := append(append([]simrt.Deviation{}, cur.Devs[:i]...), cur.Devs[i+chunk:]...)
			if !check(d) {
				i += chunk
			}
		}
	}
	res := execute(p, cur.Scn, cur.RunSeed, true, cur.Devs, true)
	cur.Hash = fmt.Sprintf("%016x", res.Hash)
	cur.Trace = res.Trace
	if len(cur.Trace) > 400 {
		cur.Trace = append([]string{fmt.Sprintf("... %d earlier lines omitted", len(cur.Trace)-400)}, cur.Trace[len(cur.Trace)-400:]...)
	}
	return &cur
}

func main() {
	debug.SetGCPercent(200)
	mode := flag.String("mode", "check", "check, worker, replay, shrink, one")
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "base seed")
	w := flag.Int("w", 0, "worker number")
	n := flag.Int("n", 8, "workers")
	secs := flag.Float64("secs", 20, "seconds of search")
	maxRuns := flag.Int64("runs", 0, "stop after this many runs (0: none)")
	file := flag.String("file", "", "replay file")
	outDir := flag.String("replays", "/verif/replays", "where replay files go")
	evidence := flag.String("evidence", "", "evidence file")
	tier := flag.String("tier", "quick", "tier")
	knownFile := flag.String("known", "", "known findings")
	progress := flag.String("progress", "", "progress file")
	verbose := flag.Bool("v", false, "verbose")
	cont := flag.Bool("all", false, "exploration aid: list every distinct violation key instead of stopping")
	flag.Parse()
	p := registry[*prop]
	if *mode == "replay" || *mode == "shrink" {
		b, err := os.ReadFile(*file)
		if err != nil {
			simrt.HarnessError("%v", err)
		}
		rp := new(Replay)
		if err := json.Unmarshal(b, rp); err != nil {
			simrt.HarnessError("%v", err)
		}
		p = registry[rp.Property]
		if p == nil {
			simrt.HarnessError("unknown property %s", rp.Property)
		}
		runtime.GOMAXPROCS(1)
		if *mode == "shrink" {
			save := func(m *Replay) {
				b, _ := json.MarshalIndent(m, "", " ")
				if err := os.WriteFile(*file, b, 0666); err != nil {
					simrt.HarnessError("%v", err)
				}
			}
			save(minimise(p, rp, time.Duration(*secs*float64(time.Second)), save))
			return
		}
		res := replayOnce(p, rp, *verbose)
		if *verbose {
			for _, l := range res.Trace {
				fmt.Println(l)
			}
		}
		v := hasKey(res, rp.Key)
		if v == nil {
			fmt.Printf("replay of %s: not reproduced (violations: %v)\n", *file, res.Viols)
			os.Exit(4)
		}
		h := fmt.Sprintf("%016x", res.Hash)
		fmt.Printf("replay of %s: reproduced %s, event hash %s (recorded %s)\n%s\n", *file, v.Key, h, rp.Hash, v.Detail)
		if rp.Mode != "seed" && h != rp.Hash {
			os.Exit(5)
		}
		os.Exit(1)
	}
	if p == nil {
		simrt.HarnessError("unknown property %q", *prop)
	}
	known := loadKnown(*knownFile)
	switch *mode {
	case "worker":
		runtime.GOMAXPROCS(1)
		st := worker(p, *seed, *w, *n, time.Now().Add(time.Duration(*secs*float64(time.Second))), *maxRuns, *progress, known)
		json.NewEncoder(os.Stdout).Encode(st)
	case "one":
		runtime.GOMAXPROCS(1)
		sc, rs := scenarioFor(p, *seed, int64(*w))
		fmt.Println(sc.json())
		res := execute(p, sc, rs, false, nil, *verbose)
		for _, l := range res.Trace {
			fmt.Println(l)
		}
		fmt.Printf("steps=%d switches=%d devs=%d sim=%v fired=%v probes=%v cases=%d\n", res.Steps, res.Sw, len(res.Devs), res.SimNow, res.Fired, res.Probes, res.Cases)
		for _, v := range res.Viols {
			fmt.Println("VIOL", v.Key, v.Detail)
		}
	case "survey":
		// exploration aid: all violation keys with counts, one process
		runtime.GOMAXPROCS(1)
		count := map[string]int{}
		first := map[string]string{}
		end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
		k := int64(*w)
		for ; time.Now().Before(end); k += int64(*n) {
			sc, rs := scenarioFor(p, *seed, k)
			res := execute(p, sc, rs, false, nil, false)
			for _, v := range res.Viols {
				count[v.Key]++
				if first[v.Key] == "" {
					first[v.Key] = fmt.Sprintf("run %d: %s", k, v.Detail)
				}
			}
		}
		var ks []string
		for q := range count {
			ks = append(ks, q)
		}
		sort.Strings(ks)
		fmt.Printf("%d runs\n", (k-int64(*w))/int64(*n))
		for _, q := range ks {
			d := first[q]
			if len(d) > 700 && !*verbose {
				d = d[:700] + "..."
			}
			fmt.Printf("%6d %s\n       %s\n", count[q], q, d)
		}
	case "check":
		_ = cont
		os.Exit(check(p, *seed, *n, *secs, *maxRuns, *outDir, *evidence, *tier, *knownFile))
	}
}

func check(p *Property, seed int64, n int, secs float64, maxRuns int64, outDir, evidence, tier, knownFile string) int {
	start := time.Now()
	self, _ := os.Executable()
	os.MkdirAll(outDir, 0777)
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		simrt.HarnessError("%v", err)
	}
	defer os.RemoveAll(tmp)
	stats := make([]*Stats, n)
	crashed := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			prog := filepath.Join(tmp, fmt.Sprintf("progress%d", i))
			cmd := exec.Command(self, "-mode", "worker", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-w", fmt.Sprint(i), "-n", fmt.Sprint(n),
				"-secs", fmt.Sprint(secs), "-runs", fmt.Sprint(maxRuns), "-progress", prog, "-known", knownFile)
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errb
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=3GiB")
			if err := cmd.Start(); err != nil {
				simrt.HarnessError("%v", err)
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var werr error
			last, lastAt := "", time.Now()
		loop:
			for {
				select {
				case werr = <-done:
					break loop
				case <-time.After(time.Second):
					b, _ := os.ReadFile(prog)
					if string(b) != last {
						last, lastAt = string(b), time.Now()
					} else if time.Since(lastAt) > 90*time.Second {
						cmd.Process.Kill()
						<-done
						werr = fmt.Errorf("one run did not end within 90 s of real time")
						break loop
					}
				}
			}
			if werr != nil {
				b, _ := os.ReadFile(prog)
				k := strings.TrimSpace(string(b))
				if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 3 {
					simrt.HarnessError("worker %d: %s", i, errb.String())
				}
				msg := errb.String()
				if len(msg) > 3000 {
					msg = msg[:3000]
				}
				crashed[i] = k + "\n" + werr.Error() + "\n" + msg
				return
			}
			st := new(Stats)
			if err := json.Unmarshal(out.Bytes(), st); err != nil {
				simrt.HarnessError("worker %d: bad report: %v\n%s", i, err, errb.String())
			}
			stats[i] = st
		}(i)
	}
	wg.Wait()
	tot := &Stats{Fired: map[string]int64{}, Offered: map[string]int64{}, Probes: map[string]int64{}, Strat: map[string]int64{}, Known: map[string]int64{}}
	ils, nts := map[uint64]bool{}, map[uint64]bool{}
	var viol *Replay
	for i, st := range stats {
		if st == nil {
			parts := strings.SplitN(crashed[i], "\n", 2)
			var k int64
			fmt.Sscan(parts[0], &k)
			sc, rs := scenarioFor(p, seed, k)
			rp := &Replay{Property: p.ID, Key: "process-died", Detail: "the whole process ended during this run: " + parts[1], Seed: seed, Run: k, RunSeed: rs, Mode: "seed", Scn: sc}
			if viol == nil {
				viol = rp
			}
			continue
		}
		tot.Runs += st.Runs
		tot.Steps += st.Steps
		tot.Switches += st.Switches
		tot.Cases += st.Cases
		tot.SimNS += st.SimNS
		for _, h := range st.NT {
			nts[h] = true
		}
		tot.Determinism += st.Determinism
		addAll(tot.Fired, st.Fired)
		addAll(tot.Offered, st.Offered)
		addAll(tot.Probes, st.Probes)
		addAll(tot.Strat, st.Strat)
		addAll(tot.Known, st.Known)
		tot.Samples = append(tot.Samples, st.Samples...)
		for _, h := range st.IL {
			ils[h] = true
		}
		if st.Viol != nil && (viol == nil || viol.Mode == "seed" || st.Viol.Run < viol.Run) {
			viol = st.Viol
		}
	}
	code := 0
	nviol := 0
	if viol != nil {
		nviol = 1
		path := filepath.Join(outDir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, viol.Run))
		write := func() {
			b, _ := json.MarshalIndent(viol, "", " ")
			if err := os.WriteFile(path, b, 0666); err != nil {
				simrt.HarnessError("%v", err)
			}
		}
		write()
		if viol.Mode == "trace" {
			b := 45.0
			if tier == "thorough" {
				b = 240
			}
			cmd := exec.Command(self, "-mode", "shrink", "-file", path, "-secs", fmt.Sprint(b))
			var errb bytes.Buffer
			cmd.Stderr = &errb
			if err := cmd.Run(); err != nil {
				fmt.Printf("note: could not minimise: %v %s\n", err, errb.String())
				write()
			}
		}
		// a run that never ends has to do so again
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		cmd := exec.CommandContext(ctx, self, "-mode", "replay", "-file", path)
		out, err := cmd.CombinedOutput()
		cancel()
		ee, _ := err.(*exec.ExitError)
		switch {
		case viol.Mode == "seed":
			if err == nil {
				simrt.HarnessError("worker died at run %d but the run succeeds on its own: %s", viol.Run, viol.Detail)
			}
		case ee == nil || ee.ExitCode() != 1:
			simrt.HarnessError("replay file %s does not reproduce the violation in a fresh process: %v\n%s", path, err, out)
		}
		if b, err := os.ReadFile(path); err == nil {
			m := new(Replay)
			if json.Unmarshal(b, m) == nil {
				viol = m
			}
		}
		fmt.Printf("violation of %s: %s\n%s\n", p.ID, viol.Key, viol.Detail)
		fmt.Printf("scenario (minimised from size %d with %d decisions to size %d with %d): %s\n", viol.Original.Size, viol.Original.Devs, viol.Scn.size(), len(viol.Devs), viol.Scn.json())
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	}
	for _, kf := range loadKnown(knownFile) {
		if kf.Property == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s (seen in %d runs of this check)\n", p.ID, kf.Key, kf.What, tot.Known[kf.Key+" "+kf.What])
		}
	}
	wall := time.Since(start).Seconds()
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"the operating system behaves as the simulated terminal, file system, clock and network do",
			"data races inside one statement are not explored: tasks interleave at statement, synchronisation and I/O boundaries",
		},
		"coverage": map[string]interface{}{
			"evaluations":             tot.Runs,
			"distinct_nontrivial":     len(nts),
			"rule":                    p.Rule + " One evaluation is one simulated run of a generated scenario; it counts as distinct and non-trivial when its sequence of context switches (task and code point) was not seen before, it switched tasks more than 8 times and at least one oracle evaluation took place.",
			"samples":                 firstN(tot.Samples, 3),
			"oracle_evaluations":      tot.Cases,
			"runs_and_seeds_per_hour": int64(float64(tot.Runs) / secs0(secs, wall) * 3600),
			"simulated_seconds":       float64(tot.SimNS) / 1e9,
			"scheduler_decisions":     tot.Steps,
			"context_switches":        tot.Switches,
			"distinct_interleavings":  len(ils),
			"interleaving_measure":    "hash over the run of (task switched to, code point or primitive where the switch happened)",
			"faults_injected":         tot.Fired,
			"fault_opportunities":     tot.Offered,
			"probes":                  tot.Probes,
			"strategies":              tot.Strat,
			"determinism_selfchecks":  tot.Determinism,
			"known_findings_observed": tot.Known,
			"real_code":               append([]string{"the whole package built from /repo's working tree (linux files), mechanically rewritten at its seams only"}, p.Real...),
			"simulated":               append([]string{"goroutine scheduler, channels, select, sync, sync/atomic, time, os files, termios/window ioctls, signals, process stop/resume"}, p.Stub...),
		},
	}
	if evidence != "" {
		os.MkdirAll(filepath.Dir(evidence), 0777)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, b, 0666); err != nil {
			simrt.HarnessError("%v", err)
		}
	}
	if code == 0 {
		fmt.Printf("%s held on %d runs (%d distinct interleavings, %d oracle evaluations) in %.1f s\n", p.ID, tot.Runs, len(ils), tot.Cases, wall)
	}
	return code
}

func secs0(secs, wall float64) float64 {
	if wall < secs || secs == 0 {
		return wall
	}
	return secs
}

func firstN(s []string, n int) []string {
	sort.Strings(s)
	if len(s) > n {
		s = s[:n]
	}
	for i := range s {
		if len(s[i]) > 2500 {
			s[i] = s[i][:2500] + "..."
		}
	}
	return s
}
