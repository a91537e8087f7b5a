// Command harness runs simulated executions of the code under test, looks for
// violations of one property, and minimises and replays what it finds.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/si-co/vpir-code/zzsim/rt"
)

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

// Replay is the replay file of a violation.
type ReplayFile struct {
	Property string     `json:"property"`
	Scenario string     `json:"scenario"`
	Kind     string     `json:"kind"`
	Msg      string     `json:"msg"`
	Tier     string     `json:"tier"`
	Seed     uint64     `json:"seed"`
	Hash     uint64     `json:"hash"`
	Record   *rt.Record `json:"record"`
	Fatal    bool       `json:"fatal,omitempty"` // the process running the code died
	Trace    []string   `json:"trace"`
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
	Scenario string `json:"scenario,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Contains string `json:"contains,omitempty"`
	What     string `json:"what"`
}

func loadKnown(path string) []Known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var ks []Known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatalf("%s: %v", path, err)
		}
		ks = append(ks, k)
	}
	return ks
}

func matchKnown(ks []Known, f *rt.Failure) *Known {
	for i, k := range ks {
		if k.Status == "known" && k.Property == f.Property && k.Kind == f.Kind && k.Kind != "" && strings.Contains(f.Msg, k.Contains) {
			return &ks[i]
		}
	}
	return nil
}

// shrinkFor is the time spent on making a failing run smaller.
func shrinkFor() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("ZZSHRINK")); err == nil {
		return d
	}
	return 40 * time.Second
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: harness check|worker|replay|run|list ...")
	}
	if g := os.Getenv("ZZGC"); g == "" {
		debug.SetGCPercent(200)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	secs := fs.Float64("secs", 45, "")
	workers := fs.Int("workers", 8, "")
	index := fs.Int("index", 0, "")
	outp := fs.String("out", "", "")
	knownp := fs.String("known", "", "")
	replayDir := fs.String("replays", "", "")
	scen := fs.String("scenario", "", "")
	trace := fs.Bool("trace", false, "")
	maxRuns := fs.Int("runs", 0, "")
	quiet := fs.Bool("quiet", false, "")
	fs.Parse(os.Args[2:])
	initFixtures()
	var p *Property
	if *prop != "" {
		p = props[*prop]
		if p == nil {
			fatalf("unknown property %s", *prop)
		}
	}
	switch cmd {
	case "list":
		for _, id := range propIDs() {
			for _, s := range props[id].Scenarios {
				fmt.Println(id, s.Name, s.Weight)
			}
		}
	case "run":
		runtime.GOMAXPROCS(1)
		c := rt.NewChoices(*seed)
		t := time.Now()
		r := runOne(p, *scen, c, *tier == "thorough", *trace)
		if *trace {
			for _, l := range r.trace {
				fmt.Println(l)
			}
		}
		r.Record = nil
		b, _ := json.Marshal(r)
		fmt.Println(string(b), time.Since(t))
		if r.Failure != nil {
			os.Exit(1)
		}
	case "worker":
		worker(p, *scen, *tier, *seed, *index, *workers, *secs, *maxRuns, *outp, loadKnown(*knownp))
		rt.WriteCov()
	case "replay":
		runtime.GOMAXPROCS(1)
		os.Exit(replay(fs.Arg(0), *quiet))
	case "check":
		os.Exit(check(p, *scen, *tier, *seed, *secs, *workers, *maxRuns, *outp, *knownp, *replayDir))
	default:
		fatalf("unknown command %s", cmd)
	}
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Summary is what one worker found.
type Summary struct {
	Runs      int
	Checks    int
	Nontriv   int
	SimNs     int64
	Steps     int64
	Switches  int64
	Counters  map[string]int
	Sigs      map[string]int
	Points    map[string]int
	Scenarios map[string]int
	Hashes    []uint64
	NtHashes  int
	Wall      float64
	Seeds     int
	Redo      int // determinism self-checks
	RedoBad   int
	KnownHits map[string]int
	Samples   []string
	Failure   *RunResult
	Reran     int
}

func worker(p *Property, scen, tier string, seed uint64, index, of int, secs float64, maxRuns int, out string, known []Known) {
	runtime.GOMAXPROCS(1)
	w := bufio.NewWriter(os.Stdout)
	sm := &Summary{Counters: map[string]int{}, Sigs: map[string]int{}, Points: map[string]int{}, Scenarios: map[string]int{}, KnownHits: map[string]int{}}
	hs := map[uint64]bool{}
	nt := map[uint64]bool{}
	start := time.Now()
	stop := start.Add(time.Duration(secs * float64(time.Second)))
	for i := index; ; i += of {
		if sm.Runs > 0 && !time.Now().Before(stop) || maxRuns > 0 && sm.Runs >= maxRuns {
			break
		}
		rs := seed*1_000_003 + uint64(i)
		fmt.Fprintf(w, "B %d\n", rs)
		w.Flush()
		c := rt.NewChoices(rs)
		r := runOne(p, scen, c, tier == "thorough", false)
		sm.Runs++
		sm.Checks += r.Checks
		sm.SimNs += r.SimNs
		sm.Steps += r.Steps
		sm.Switches += r.Switches
		sm.Sigs[r.Sig]++
		sm.Scenarios[r.Scenario]++
		for _, k := range r.Points {
			sm.Points[k]++
		}
		for k, v := range r.Counters {
			sm.Counters[k] += v
		}
		if !hs[r.Hash] {
			hs[r.Hash] = true
			sm.Hashes = append(sm.Hashes, r.Hash)
		}
		if r.Nontriv {
			sm.Nontriv++
			nt[r.Hash] = true
		}
		if len(sm.Samples) < 3 && r.Nontriv && r.Failure == nil {
			tr := r.trace
			if len(tr) > 14 {
				tr = append(append([]string{}, tr[:10]...), append([]string{"..."}, tr[len(tr)-3:]...)...)
			}
			sm.Samples = append(sm.Samples, fmt.Sprintf("seed %d, scenario %s, %s | %s", rs, r.Scenario, r.Sig, strings.Join(tr, " | ")))
		}
		if r.Failure == nil && (sm.Runs <= 2 || sm.Runs%200 == 0) {
			// the same record must give the same execution
			sm.Redo++
			r2 := runOne(p, r.Scenario, rt.Replay(c.Record()), tier == "thorough", false)
			if r2.Hash != r.Hash || r2.Failure != nil {
				sm.RedoBad++
				fmt.Fprintf(os.Stderr, "harness: seed %d (%s) is not deterministic: %x %x\n", rs, r.Scenario, r.Hash, r2.Hash)
				if os.Getenv("ZZDIFF") != "" {
					diffTraces(r.trace, r2.trace)
				}
			}
		}
		if r.Failure != nil {
			if k := matchKnown(known, r.Failure); k != nil {
				sm.KnownHits[k.What]++
				continue
			}
			sm.Failure = r
			break
		}
		if sm.Runs%50 == 0 {
			runtime.GC()
		}
	}
	sm.NtHashes = len(nt)
	sm.Wall = time.Since(start).Seconds()
	b, err := json.Marshal(sm)
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatalf("%v", err)
	}
	fmt.Fprintln(w, "E")
	w.Flush()
}

func diffTraces(a, b []string) {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			fmt.Fprintf(os.Stderr, "  first difference at event %d:\n   %s\n   %s\n", i, a[i], b[i])
			return
		}
	}
	fmt.Fprintf(os.Stderr, "  traces equal up to %d/%d events\n", len(a), len(b))
}

func check(p *Property, scen, tier string, seed uint64, secs float64, workers, maxRuns int, out, knownp, replayDir string) int {
	start := time.Now()
	known := loadKnown(knownp)
	for _, k := range known {
		if k.Property == p.ID && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	tmp, err := os.MkdirTemp("", "zzsim")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	type wres struct {
		sum   *Summary
		died  bool
		seed  uint64
		stder string
		hung  bool
	}
	res := make([]wres, workers)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var cmds []*exec.Cmd
	found := false
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			of := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
			c := exec.Command(self, "worker", "-property", p.ID, "-scenario", scen, "-tier", tier, "-seed", fmt.Sprint(seed), "-index", fmt.Sprint(i),
				"-workers", fmt.Sprint(workers), "-secs", fmt.Sprint(secs), "-runs", fmt.Sprint(maxRuns), "-out", of, "-known", knownp)
			c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
			var eb tail
			c.Stderr = &eb
			pipe, err := c.StdoutPipe()
			if err != nil {
				fatalf("%v", err)
			}
			if err := c.Start(); err != nil {
				fatalf("%v", err)
			}
			mu.Lock()
			cmds = append(cmds, c)
			mu.Unlock()
			var last uint64
			ended := false
			lastAt := time.Now()
			done := make(chan bool)
			go func() {
				t := time.NewTicker(time.Second)
				defer t.Stop()
				for {
					select {
					case <-done:
						return
					case <-t.C:
						mu.Lock()
						if time.Since(lastAt) > 150*time.Second {
							res[i].hung = true
							c.Process.Kill()
						}
						mu.Unlock()
					}
				}
			}()
			sc := bufio.NewScanner(pipe)
			for sc.Scan() {
				l := sc.Text()
				mu.Lock()
				lastAt = time.Now()
				mu.Unlock()
				if strings.HasPrefix(l, "B ") {
					fmt.Sscan(l[2:], &last)
				}
				if l == "E" {
					ended = true
				}
			}
			err = c.Wait()
			close(done)
			res[i].seed = last
			res[i].stder = eb.String()
			if err != nil || !ended {
				res[i].died = true
			}
			if b, err := os.ReadFile(of); err == nil {
				sm := &Summary{}
				if json.Unmarshal(b, sm) == nil {
					res[i].sum = sm
				}
			}
			mu.Lock()
			if (res[i].sum != nil && res[i].sum.Failure != nil) || res[i].died {
				if !found {
					found = true
					// the others need not go on for long
					for _, o := range cmds {
						if o != c && o.Process != nil {
							o := o
							time.AfterFunc(1500*time.Millisecond, func() { o.Process.Kill() })
						}
					}
				}
			}
			mu.Unlock()
		}(i)
	}
	wg.Wait()

	tot := &Summary{Counters: map[string]int{}, Sigs: map[string]int{}, Points: map[string]int{}, Scenarios: map[string]int{}, KnownHits: map[string]int{}}
	hs := map[uint64]bool{}
	var fail *RunResult
	for _, r := range res {
		sm := r.sum
		if sm == nil {
			continue
		}
		tot.Runs += sm.Runs
		tot.Checks += sm.Checks
		tot.Nontriv += sm.Nontriv
		tot.NtHashes += sm.NtHashes
		tot.SimNs += sm.SimNs
		tot.Steps += sm.Steps
		tot.Switches += sm.Switches
		tot.Redo += sm.Redo
		tot.RedoBad += sm.RedoBad
		tot.Wall += sm.Wall
		for k, v := range sm.Counters {
			tot.Counters[k] += v
		}
		for k, v := range sm.Sigs {
			tot.Sigs[k] += v
		}
		for k, v := range sm.Points {
			tot.Points[k] += v
		}
		for k, v := range sm.Scenarios {
			tot.Scenarios[k] += v
		}
		for k, v := range sm.KnownHits {
			tot.KnownHits[k] += v
		}
		for _, h := range sm.Hashes {
			hs[h] = true
		}
		if len(tot.Samples) < 4 && len(sm.Samples) > 0 {
			tot.Samples = append(tot.Samples, sm.Samples[0])
		}
		if sm.Failure != nil && (fail == nil || len(fmt.Sprint(sm.Failure.Record)) < len(fmt.Sprint(fail.Record))) {
			fail = sm.Failure
		}
	}
	code := 0
	violations := 0
	var vinfo interface{}
	var fatalRun *ReplayFile
	if fail == nil {
		for _, r := range res {
			if !r.died || r.sum != nil {
				continue
			}
			if r.hung {
				fmt.Fprintf(os.Stderr, "harness: seed %d ran for more than 150 s\n", r.seed)
				code = 3
				continue
			}
			if strings.Contains(r.stder, "fatal error:") || strings.Contains(r.stder, "goroutine stack exceeds") || strings.Contains(r.stder, "SIG") || strings.Contains(r.stder, "panic:") {
				msg := firstLines(r.stder, 3)
				if strings.Contains(r.stder, "zzsim/") && strings.Contains(r.stder, "panic:") && !strings.Contains(r.stder, "stack overflow") {
					fmt.Fprintf(os.Stderr, "harness: worker died at seed %d: %s\n", r.seed, r.stder)
					code = 3
					continue
				}
				fatalRun = &ReplayFile{Property: p.ID, Kind: "process-killed", Msg: msg, Tier: tier, Seed: r.seed, Fatal: true}
				break
			}
			if !found || r.stder != "" && !strings.Contains(r.stder, "deterministic") {
				fmt.Fprintf(os.Stderr, "harness: worker died at seed %d: %s\n", r.seed, r.stder)
				code = 3
			}
		}
	}
	for _, r := range res {
		if r.stder != "" && fail == nil {
			fmt.Fprint(os.Stderr, r.stder)
		}
	}
	if fail != nil && fail.Failure.Property == "HARNESS" {
		fmt.Fprintf(os.Stderr, "harness: the harness itself failed at seed %d (%s): %s\n", fail.Seed, fail.Scenario, fail.Failure.Msg)
		code = 3
	} else if fail != nil {
		os.MkdirAll(replayDir, 0o755)
		rf, n := shrink(p, fail, tier, shrinkFor())
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", p.ID, fail.Seed))
		writeJSON(path, rf)
		c := exec.Command(self, "replay", "-quiet", path)
		c.Env = append(os.Environ(), "GOMAXPROCS=1")
		err := c.Run()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
			fmt.Printf("property %s violated in scenario %s (%s), seed %d\n  %s\n  minimised in %d runs; replay reproduces it\n", p.ID, rf.Scenario, rf.Kind, fail.Seed, strings.ReplaceAll(rf.Msg, "\n", "\n  "), n)
			fmt.Println("  trace:")
			tr := rf.Trace
			if len(tr) > 40 {
				fmt.Printf("  (%d earlier events in the replay file)\n", len(tr)-40)
				tr = tr[len(tr)-40:]
			}
			for _, l := range tr {
				fmt.Println("   ", l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			code = 1
			violations = 1
			vinfo = map[string]interface{}{"kind": rf.Kind, "msg": rf.Msg, "seed": fail.Seed, "replay": path}
		} else {
			fmt.Fprintf(os.Stderr, "harness: a failure (%s %s: %s, seed %d) did not replay (%v)\n", p.ID, rf.Kind, rf.Msg, fail.Seed, err)
			code = 3
		}
	} else if fatalRun != nil {
		os.MkdirAll(replayDir, 0o755)
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", p.ID, fatalRun.Seed))
		writeJSON(path, fatalRun)
		c := exec.Command(self, "replay", "-quiet", path)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
		err := c.Run()
		if err != nil {
			fmt.Printf("property %s: the process running the code was killed: %s\n", p.ID, fatalRun.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			code, violations = 1, 1
		} else {
			fmt.Fprintf(os.Stderr, "harness: a worker death (%s) did not replay\n", fatalRun.Msg)
			code = 3
		}
	}
	if tot.RedoBad > 0 {
		fmt.Fprintf(os.Stderr, "harness: warning: %d of %d repeated runs differed\n", tot.RedoBad, tot.Redo)
	}
	wall := time.Since(start).Seconds()
	if out != "" {
		faults := map[string]int{}
		other := map[string]int{}
		for k, v := range tot.Counters {
			if strings.HasPrefix(k, "fault:") {
				faults[k[6:]] = v
			} else {
				other[k] = v
			}
		}
		perHour := 0.0
		if wall > 0 {
			perHour = float64(tot.Runs) / wall * 3600
		}
		samples := []interface{}{}
		for _, s := range tot.Samples {
			samples = append(samples, s)
		}
		if len(samples) == 0 {
			samples = append(samples, "no run was non-trivial")
		}
		cov := map[string]interface{}{
			"evaluations": tot.Checks, "distinct_nontrivial": tot.NtHashes, "rule": p.Rule,
			"samples": samples, "simulated_runs": tot.Runs, "seeds_per_hour": int(perHour), "simulated_seconds": float64(tot.SimNs) / 1e9,
			"faults_injected": faults, "events": other, "distinct_interleavings": len(hs),
			"interleaving_measure":       "distinct hash of the whole event log: every scheduling decision, clock advance, message and disk event of a run",
			"distinct_behaviour_classes": len(tot.Sigs), "coverage_points": tot.Points, "runs_per_scenario": tot.Scenarios,
			"statements_executed": tot.Steps, "context_switches": tot.Switches,
			"determinism_reruns": tot.Redo, "determinism_mismatches": tot.RedoBad,
			"first_seed": seed * 1_000_003, "real_code": p.Real, "stubs": p.Stub, "known_finding_hits": tot.KnownHits,
		}
		ev := map[string]interface{}{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
			"assumptions": p.Assume, "wall_s": wall, "violations": []interface{}{}}
		if violations > 0 && vinfo != nil {
			ev["violations"] = []interface{}{vinfo}
		}
		if p.Assume == nil {
			ev["assumptions"] = []string{}
		}
		os.MkdirAll(filepath.Dir(out), 0o755)
		writeJSON(out, ev)
	}
	fmt.Printf("%s %s: %d runs, %d oracle checks, %d distinct non-trivial executions, %.0f s\n", p.ID, tier, tot.Runs, tot.Checks, tot.NtHashes, wall)
	if code == 0 && tot.Runs == 0 {
		fmt.Fprintln(os.Stderr, "harness: nothing was run")
		return 3
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

var _ io.Writer = (*tail)(nil)

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
}

func replay(path string, quiet bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fatalf("%v", err)
	}
	p := props[rf.Property]
	if p == nil {
		fatalf("unknown property %s", rf.Property)
	}
	var c *rt.Choices
	if rf.Fatal {
		c = rt.NewChoices(rf.Seed)
	} else {
		c = rt.Replay(rf.Record)
	}
	r := runOne(p, rf.Scenario, c, rf.Tier == "thorough", true)
	if !quiet {
		for _, l := range r.trace {
			fmt.Println(l)
		}
	}
	if r.Failure == nil {
		if !quiet {
			fmt.Println("the run completes without a violation")
		}
		return 0
	}
	if !quiet {
		fmt.Printf("%s %s\n%s\n", r.Failure.Property, r.Failure.Kind, r.Failure.Msg)
		if r.Hash == rf.Hash {
			fmt.Println("identical to the recorded execution")
		} else {
			fmt.Println("the execution differs from the recorded one (other code?)")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	} else if r.Failure.Kind != rf.Kind || r.Hash != rf.Hash {
		fmt.Fprintf(os.Stderr, "replay: %s %x, recorded %s %x\n", r.Failure.Kind, r.Hash, rf.Kind, rf.Hash)
		return 2
	}
	return 1
}
