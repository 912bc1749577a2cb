// Command simcheck runs the simulated executions of one property's check.
//
//	simcheck check -prop C01 [-tier quick] [-seed 1] -verif /verif
//	simcheck worker ...      (internal)
//	simcheck replay FILE     (exit 1 and the violation line if it fails again)
//	simcheck one -prop C01 -scen NAME -seed N [-trace]
//	simcheck determinism -prop C01 -n N
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/rt"
	"verifsim/scen"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simcheck check|worker|replay|one|minimise|list")
	}
	cmd, args := os.Args[1], os.Args[2:]
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	switch cmd {
	case "check":
		os.Exit(check(args))
	case "worker":
		worker(args)
	case "minimise":
		minimiseCmd(args)
	case "replay":
		os.Exit(replay(args))
	case "one":
		os.Exit(one(args))
	case "list":
		for _, p := range scen.Props() {
			for _, s := range scen.For(p) {
				fmt.Println(p, s.Name)
			}
		}
	default:
		fatal("unknown command %q", cmd)
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	os.Exit(2)
}

// pickScen and runSeed make run number i of a check a pure function of the
// seed and i.
func pickScen(list []*scen.Scenario, i int64) *scen.Scenario {
	tot := 0
	for _, s := range list {
		tot += s.Weight
	}
	k := int(i % int64(tot))
	for _, s := range list {
		if k < s.Weight {
			return s
		}
		k -= s.Weight
	}
	return list[0]
}

func runSeed(seed uint64, i int64) uint64 {
	x := seed*0x9E3779B97F4A7C15 + uint64(i)*0xD1B54A32D192ED03 + 0x632BE59BD9B4E019
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// Found is a failing run.
type Found struct {
	Property  string   `json:"property"`
	Scenario  string   `json:"scenario"`
	Run       int64    `json:"run"`
	Seed      uint64   `json:"seed"`
	Kind      string   `json:"kind"`
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	Hash      string   `json:"hash"`
	Steps     int64    `json:"steps"`
	Minimised bool     `json:"minimised"`
	Original  int      `json:"original_deviations"`
	Devs      []rt.Dev `json:"deviations"`
	Trace     []string `json:"trace,omitempty"`
	Note      string   `json:"note,omitempty"`
}

type workerOut struct {
	Runs      int64            `json:"runs"`
	Steps     int64            `json:"steps"`
	Switches  int64            `json:"switches"`
	SimNs     float64          `json:"sim_ns"`
	Devs      int64            `json:"devs"`
	Stats     map[string]int64 `json:"stats"`
	StatRuns  map[string]int64 `json:"stat_runs"`
	Strategy  map[string]int64 `json:"strategy"`
	ByScen    map[string]int64 `json:"by_scenario"`
	Twice     int64            `json:"twice"`
	Differ    int64            `json:"differ"`
	DifferMsg string           `json:"differ_msg"`
	Found     []Found          `json:"found"`
	Known     map[string]int64 `json:"known"`
	Samples   []string         `json:"samples"`
	First     map[int64]string `json:"first"`
	WallS     float64          `json:"wall_s"`
}

func exec1(s *scen.Scenario, prop string, seed uint64) *rt.World {
	return scen.Exec(s, prop, rt.Config{Seed: seed})
}

func bad(w *rt.World) bool { return w.Outcome().Kind != "ok" }

func class(o rt.Outcome) string {
	if o.Kind == "violation" {
		return "violation: " + o.Class
	}
	return o.Kind + ": " + o.Class
}

func mkFound(s *scen.Scenario, prop string, i int64, seed uint64, w *rt.World) Found {
	o := w.Outcome()
	return Found{Property: prop, Scenario: s.Name, Run: i, Seed: seed, Kind: o.Kind, Class: class(o), Message: o.Msg,
		Hash: fmt.Sprintf("%016x", w.Hash), Steps: w.Steps(), Devs: w.Log, Original: len(w.Log)}
}

type knownList map[string]bool

func (k knownList) has(prop, scn, class string) bool {
	return k[prop+"|"+scn+"|"+class] || k[prop+"|*|"+class]
}

func loadKnown(path, prop string) (k knownList, lines []string) {
	k = knownList{}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 scenario=name class=<class> -- description
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		desc := l
		if j := strings.Index(l, " -- "); j > 0 {
			desc = l[j+4:]
			l = l[:j]
		}
		m := map[string]string{}
		if j := strings.Index(l, " class="); j > 0 {
			m["class"] = l[j+7:]
			l = l[:j]
		}
		for _, kv := range strings.Fields(l) {
			if j := strings.IndexByte(kv, '='); j > 0 {
				m[kv[:j]] = kv[j+1:]
			}
		}
		if m["property"] != prop {
			continue
		}
		k[prop+"|"+m["scenario"]+"|"+m["class"]] = true
		lines = append(lines, desc)
	}
	return
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	step := fs.Int64("step", 1, "")
	count := fs.Int64("count", 1, "")
	secs := fs.Float64("secs", 30, "")
	prog := fs.String("progress", "", "")
	hashes := fs.String("hashes", "", "")
	known := fs.String("known", "", "")
	all := fs.Bool("all", false, "")
	only := fs.String("scen", "", "")
	firstN := fs.Int64("first", 0, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	list := scen.For(*prop)
	if *only != "" {
		list = filter(list, *only)
	}
	kn, _ := loadKnown(*known, *prop)
	var pf *os.File
	if *prog != "" {
		var err error
		if pf, err = os.Create(*prog); err != nil {
			fatal("%v", err)
		}
	}
	o := workerOut{Stats: map[string]int64{}, StatRuns: map[string]int64{}, Strategy: map[string]int64{}, ByScen: map[string]int64{}, Known: map[string]int64{}, First: map[int64]string{}}
	distinct := map[uint64]bool{}
	start := time.Now()
	classes := map[string]int{}
	var n int64
	for i := *from; n < *count; i += *step {
		if time.Since(start).Seconds() > *secs {
			break
		}
		s := pickScen(list, i)
		sd := runSeed(*seed, i)
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
			pf.WriteAt(b[:], 0)
		}
		w := exec1(s, *prop, sd)
		n++
		o.Runs++
		o.Steps += w.Steps()
		o.Switches += w.Switches
		o.SimNs += float64(w.Now())
		o.Devs += int64(len(w.Log))
		o.Strategy[w.StrategyName()]++
		o.ByScen[s.Name]++
		for k, v := range w.Stats {
			o.Stats[k] += v
			o.StatRuns[k]++
		}
		if w.Switches > 0 {
			distinct[w.Hash] = true
		}
		if i < *firstN {
			o.First[i] = fmt.Sprintf("%016x/%d/%d/%s", w.Hash, w.Steps(), len(w.Log), w.Outcome().Kind)
		}
		if n <= 2 && *from == 0 {
			o.Samples = append(o.Samples, fmt.Sprintf("run %d: scenario %s, seed %d, strategy %s, %d scheduling points, %d task switches, %d recorded decisions, %.3f simulated s, outcome %s, counters %v", i, s.Name, sd, w.StrategyName(), w.Steps(), w.Switches, len(w.Log), float64(w.Now())/1e9, w.Outcome().Kind, w.Stats))
		}
		if n%97 == 1 {
			w2 := exec1(s, *prop, sd)
			o.Twice++
			if w2.Hash != w.Hash || w2.Steps() != w.Steps() || len(w2.Log) != len(w.Log) || class(w2.Outcome()) != class(w.Outcome()) {
				o.Differ++
				o.DifferMsg = fmt.Sprintf("scenario %s seed %d: %x/%d/%v against %x/%d/%v", s.Name, sd, w.Hash, w.Steps(), class(w.Outcome()), w2.Hash, w2.Steps(), class(w2.Outcome()))
			}
		}
		if bad(w) {
			c := class(w.Outcome())
			if kn.has(*prop, s.Name, c) {
				o.Known[s.Name+": "+c]++
				continue
			}
			classes[s.Name+c]++
			if classes[s.Name+c] <= 1 {
				o.Found = append(o.Found, mkFound(s, *prop, i, sd, w))
			} else {
				o.Stats["found."+s.Name+": "+c]++
			}
			if !*all {
				break
			}
		}
	}
	o.WallS = time.Since(start).Seconds()
	if *hashes != "" {
		f, err := os.Create(*hashes)
		if err != nil {
			fatal("%v", err)
		}
		bw := bufio.NewWriter(f)
		var b [8]byte
		for h := range distinct {
			binary.LittleEndian.PutUint64(b[:], h)
			bw.Write(b[:])
		}
		bw.Flush()
		f.Close()
	}
	json.NewEncoder(os.Stdout).Encode(&o)
}

func filter(list []*scen.Scenario, name string) (r []*scen.Scenario) {
	for _, s := range list {
		if s.Name == name {
			r = append(r, s)
		}
	}
	if len(r) == 0 {
		fatal("no scenario %q", name)
	}
	return
}

func envInt(name string, d int64) int64 {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return n
		}
	}
	return d
}

type wres struct {
	out  workerOut
	err  error
	dead int64 // run number that ended the process, or 0
	log  string
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "", "")
	seedF := fs.Int64("seed", -1, "")
	secsF := fs.Float64("secs", 0, "")
	workersF := fs.Int("workers", 0, "")
	only := fs.String("scen", "", "")
	all := fs.Bool("all", false, "keep going and list every class of failure")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := *seedF
	if seed < 0 {
		seed = envInt("VERIF_SEED", 1)
	}
	list := scen.For(*prop)
	if len(list) == 0 {
		fatal("no scenarios for %q", *prop)
	}
	fmt.Printf("check %s tier=%s seed=%d\n", *prop, *tier, seed)
	secs := 30.0
	if *tier == "thorough" {
		secs = 600
	}
	if v := envInt("VERIF_SECS", 0); v > 0 {
		secs = float64(v)
	}
	if *secsF > 0 {
		secs = *secsF
	}
	nw := *workersF
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
		if nw < 2 {
			nw = 2
		}
	}
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp(filepath.Join(*verif, ".build"), "run-"+*prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	knownPath := filepath.Join(*verif, "known_findings.txt")
	_, knownLines := loadKnown(knownPath, *prop)

	const overlap = 24
	res := make([]wres, nw+1)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var procs []*exec.Cmd
	stop := false
	launch := func(k int, a ...string) {
		defer wg.Done()
		hf := filepath.Join(tmp, fmt.Sprintf("h%d", k))
		pf := filepath.Join(tmp, fmt.Sprintf("p%d", k))
		base := []string{"worker", "-prop", *prop, "-seed", fmt.Sprint(seed), "-progress", pf, "-hashes", hf, "-known", knownPath, "-first", fmt.Sprint(overlap)}
		if *only != "" {
			base = append(base, "-scen", *only)
		}
		if *all {
			base = append(base, "-all")
		}
		c := exec.Command(self, append(base, a...)...)
		var ob, eb bytes.Buffer
		c.Stdout = &ob
		c.Stderr = &capWriter{b: &eb, max: 1 << 16}
		mu.Lock()
		if stop {
			mu.Unlock()
			res[k].err = fmt.Errorf("stopped")
			return
		}
		err := c.Start()
		procs = append(procs, c)
		mu.Unlock()
		if err == nil {
			err = c.Wait()
		}
		if e2 := json.Unmarshal(ob.Bytes(), &res[k].out); e2 != nil && err == nil {
			err = e2
		}
		mu.Lock()
		stopped := stop
		mu.Unlock()
		if err != nil {
			res[k].err = err
			res[k].log = eb.String()
			if b, e := os.ReadFile(pf); e == nil && len(b) == 8 && !stopped {
				res[k].dead = int64(binary.LittleEndian.Uint64(b))
			}
		}
		if (len(res[k].out.Found) > 0 || res[k].dead > 0) && !*all {
			// one failure decides the check; no need to search on
			mu.Lock()
			stop = true
			for _, p := range procs {
				if p != c {
					p.Process.Kill()
				}
			}
			mu.Unlock()
		}
	}
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go launch(k, "-from", fmt.Sprint(k), "-step", fmt.Sprint(nw), "-count", "1000000000", "-secs", fmt.Sprint(secs))
	}
	// the first runs once more in another process with another stride
	wg.Add(1)
	go launch(nw, "-from", "0", "-step", "1", "-count", fmt.Sprint(overlap), "-secs", fmt.Sprint(secs))
	wg.Wait()

	tot := workerOut{Stats: map[string]int64{}, StatRuns: map[string]int64{}, Strategy: map[string]int64{}, ByScen: map[string]int64{}, Known: map[string]int64{}}
	distinct := map[uint64]bool{}
	var found []Found
	first := map[int64]string{}
	for k := 0; k < nw; k++ {
		for i, h := range res[k].out.First {
			first[i] = h
		}
	}
	crossed, crossBad := 0, ""
	for i, h := range res[nw].out.First {
		if g, ok := first[i]; ok {
			crossed++
			if g != h {
				crossBad = fmt.Sprintf("run %d: %s in one process, %s in another", i, g, h)
			}
		}
	}
	for k := range res {
		o := &res[k].out
		found = append(found, o.Found...)
		if k == nw {
			break
		}
		tot.Runs += o.Runs
		tot.Steps += o.Steps
		tot.Switches += o.Switches
		tot.SimNs += o.SimNs
		tot.Devs += o.Devs
		tot.Twice += o.Twice
		tot.Differ += o.Differ
		if o.DifferMsg != "" {
			tot.DifferMsg = o.DifferMsg
		}
		add(tot.Stats, o.Stats)
		add(tot.StatRuns, o.StatRuns)
		add(tot.Strategy, o.Strategy)
		add(tot.ByScen, o.ByScen)
		add(tot.Known, o.Known)
		tot.Samples = append(tot.Samples, o.Samples...)
		if b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("h%d", k))); err == nil {
			for ; len(b) >= 8; b = b[8:] {
				distinct[binary.LittleEndian.Uint64(b)] = true
			}
		}
	}
	sort.Slice(found, func(i, j int) bool { return found[i].Run < found[j].Run })
	searchS := time.Since(t0).Seconds()

	code := 0
	trouble := ""
	for k := range res {
		if res[k].dead > 0 {
			// a run ended the whole process: confirm it alone
			i := res[k].dead - 1
			l := list
			if *only != "" {
				l = filter(l, *only)
			}
			s := pickScen(l, i)
			f := Found{Property: *prop, Scenario: s.Name, Run: i, Seed: runSeed(uint64(seed), i), Kind: "process-death", Class: "process death", Note: "the run ends the process; replayed from its seed", Message: head(res[k].log, 2000)}
			if confirmDeath(self, f) {
				found = append(found, f)
			} else {
				trouble = fmt.Sprintf("worker %d died in run %d (%v) and the run alone does not: %s", k, i, res[k].err, head(res[k].log, 1500))
			}
		} else if res[k].err != nil && !stop {
			trouble = fmt.Sprintf("worker %d: %v %s", k, res[k].err, head(res[k].log, 1500))
		}
	}
	if *all {
		// the smallest run of every class, minimised
		least := map[string]Found{}
		var keys []string
		for _, f := range found {
			k := f.Scenario + ": " + f.Class
			if g, ok := least[k]; !ok {
				keys = append(keys, k)
				least[k] = f
			} else if len(f.Devs) < len(g.Devs) {
				least[k] = f
			}
		}
		text := make([]string, len(keys))
		var mg sync.WaitGroup
		for i, k := range keys {
			mg.Add(1)
			go func(i int, k string) {
				defer mg.Done()
				rp := filepath.Join(filepath.Dir(self), fmt.Sprintf("all-%s-%d.json", *prop, i))
				f, ok, why := settle(self, rp, least[k], *tier)
				text[i] = fmt.Sprintf("  FOUND %s run=%d seed=%d devs=%d %s %v %s\n    %s", k, f.Run, f.Seed, len(f.Devs), rp, ok, why, strings.ReplaceAll(head(f.Message, 1500), "\n", "\n    "))
			}(i, k)
		}
		mg.Wait()
		for _, x := range text {
			fmt.Println(x)
		}
		if len(found) > 0 {
			return 1
		}
	}
	replayPath := ""
	if len(found) > 0 {
		f := found[0]
		rp := filepath.Join(*verif, "evidence", "replay-"+*prop+".json")
		f, ok, why := settle(self, rp, f, *tier)
		if ok {
			replayPath = rp
			code = 1
			fmt.Printf("violated: %s\n  scenario %s, run %d, seed %d, %d of %d decisions left after minimisation\n  %s\n", f.Class, f.Scenario, f.Run, f.Seed, len(f.Devs), f.Original, strings.ReplaceAll(head(f.Message, 3000), "\n", "\n  "))
		} else {
			trouble = "a failing run did not fail again: " + why
		}
	}
	if tot.Differ > 0 {
		trouble = "runs repeated with the same seed differ: " + tot.DifferMsg
	}
	if crossBad != "" {
		trouble = "runs differ between processes: " + crossBad
	}
	if tot.Runs == 0 && trouble == "" {
		trouble = "no run was made"
	}

	faults, probes := map[string]int64{}, map[string]int64{}
	other := map[string]int64{}
	for k, v := range tot.Stats {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = v
		default:
			other[k] = v
		}
	}
	var real, stub []string
	seenC := map[string]bool{}
	for _, s := range list {
		for _, x := range []struct {
			s string
			p *[]string
		}{{s.Real, &real}, {s.Stub, &stub}} {
			if x.s != "" && !seenC[x.s] {
				seenC[x.s] = true
				*x.p = append(*x.p, x.s)
			}
		}
	}
	nviol := 0
	if code == 1 {
		nviol = 1
	}
	samples := tot.Samples
	if len(samples) == 0 {
		samples = []string{}
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "exploration",
		"wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": []string{
			"plain memory accesses interleave at statement granularity (sequential consistency); weaker reorderings allowed by the Go memory model are not simulated",
			"the simulated TCP delivers bytes reliably and in order until a connection is reset, dies or is partitioned",
			"sampling: a clean batch of runs is evidence, not proof",
		},
		"coverage": map[string]interface{}{
			"evaluations":                      tot.Runs,
			"distinct_nontrivial":              len(distinct),
			"rule":                             "one evaluation is one whole simulated execution (workload, schedule and faults drawn from its seed); non-trivial means at least one task switch happened, distinct means the sequence of (task, scheduling point, event) differs from every other run (64-bit hash)",
			"samples":                          samples,
			"runs_per_hour":                    int64(float64(tot.Runs) / searchS * 3600),
			"seeds":                            fmt.Sprintf("base seed %d, run numbers 0..%d", seed, tot.Runs-1),
			"simulated_seconds":                tot.SimNs / 1e9,
			"scheduling_points":                tot.Steps,
			"task_switches":                    tot.Switches,
			"recorded_decisions":               tot.Devs,
			"runs_by_scenario":                 tot.ByScen,
			"runs_by_strategy":                 tot.Strategy,
			"faults_injected":                  faults,
			"probes":                           probes,
			"counters":                         other,
			"runs_with":                        tot.StatRuns,
			"repeated_same_seed":               tot.Twice,
			"repeated_other_process":           crossed,
			"nondeterministic":                 tot.Differ,
			"known_findings_hit":               tot.Known,
			"components_real":                  real,
			"components_simulated_or_scripted": stub,
			"workers":                          nw,
		},
	}
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		p := filepath.Join(*verif, "evidence", *prop+".json")
		if err := os.WriteFile(p, b, 0o644); err != nil {
			fatal("%v", err)
		}
	} else {
		fatal("%v", err)
	}
	fmt.Printf("%d runs, %d distinct schedules, %.0f simulated s, %.1f s, faults %v\n", tot.Runs, len(distinct), tot.SimNs/1e9, time.Since(t0).Seconds(), faults)
	for _, l := range knownLines {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, l)
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		return 1
	}
	if trouble != "" {
		fmt.Fprintf(os.Stderr, "simcheck: %s\n", trouble)
		return 2
	}
	return 0
}

type capWriter struct {
	b   *bytes.Buffer
	max int
}

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < c.max {
		c.b.Write(p)
	}
	return len(p), nil
}

func add(a, b map[string]int64) {
	for k, v := range b {
		a[k] += v
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeFound(path string, f Found) error {
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, b, 0o644)
}

func confirmDeath(self string, f Found) bool {
	tmp := filepath.Join(os.TempDir(), fmt.Sprintf("simcheck-%d.json", os.Getpid()))
	defer os.Remove(tmp)
	if writeFound(tmp, f) != nil {
		return false
	}
	c := exec.Command(self, "replay", "-raw", tmp)
	out, err := c.CombinedOutput()
	if err == nil {
		return false
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 3 {
		return false
	}
	return len(out) > 0
}

// settle minimises f and replays it in a fresh process.
func settle(self, rp string, f Found, tier string) (Found, bool, string) {
	if err := writeFound(rp, f); err != nil {
		return f, false, err.Error()
	}
	if f.Kind == "process-death" {
		return f, true, ""
	}
	secs := "40"
	if tier == "thorough" {
		secs = "150"
	}
	if v := os.Getenv("VERIF_MINIMISE"); v != "" {
		secs = v
	}
	c := exec.Command(self, "minimise", "-secs", secs, rp)
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "minimisation failed: %v %s\n", err, head(string(out), 500))
		if err := writeFound(rp, f); err != nil {
			return f, false, err.Error()
		}
	}
	c = exec.Command(self, "replay", rp)
	out, err := c.CombinedOutput()
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
		if b, e := os.ReadFile(rp); e == nil {
			json.Unmarshal(b, &f)
		}
		return f, true, ""
	}
	return f, false, string(out)
}

func devMap(ds []rt.Dev) map[rt.DevKey]int64 {
	m := make(map[rt.DevKey]int64, len(ds))
	for _, d := range ds {
		m[rt.DevKey{S: d.S, I: d.I}] = d.V
	}
	return m
}

func find(prop, name string) *scen.Scenario {
	for _, s := range scen.For(prop) {
		if s.Name == name {
			return s
		}
	}
	fatal("no scenario %q for %s", name, prop)
	return nil
}

func readFound(p string) Found {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	var f Found
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	return f
}

func minimiseCmd(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	secs := fs.Float64("secs", 40, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	path := fs.Arg(0)
	f := readFound(path)
	s := find(f.Property, f.Scenario)
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var best *rt.World
	try := func(ds []rt.Dev) bool {
		w := scen.Exec(s, f.Property, rt.Config{Seed: f.Seed, Replay: true, Devs: devMap(ds), MaxSteps: f.Steps*4 + 100000})
		if bad(w) && class(w.Outcome()) == f.Class {
			best = w
			return true
		}
		return false
	}
	if !try(f.Devs) {
		fatal("the recorded decisions do not reproduce the failure")
	}
	ds := append([]rt.Dev(nil), best.Log...)
	// ddmin
	n := 2
	for len(ds) > 0 && time.Now().Before(end) {
		sz := (len(ds) + n - 1) / n
		hit := false
		for a := 0; a < len(ds) && time.Now().Before(end); a += sz {
			b := a + sz
			if b > len(ds) {
				b = len(ds)
			}
			c := append(append([]rt.Dev(nil), ds[:a]...), ds[b:]...)
			if try(c) {
				if len(best.Log) <= len(c) {
					c = append([]rt.Dev(nil), best.Log...)
				}
				ds = c
				hit = true
				a -= sz
				if a < -sz {
					a = -sz
				}
				if sz > len(ds) {
					break
				}
			}
		}
		if !hit {
			if sz <= 1 {
				break
			}
			n *= 2
			if n > len(ds) {
				n = len(ds)
			}
		} else if n > len(ds) {
			n = len(ds)
		}
		if n < 2 {
			n = 2
		}
	}
	// smaller values
	for i := range ds {
		for _, v := range []int64{1, ds[i].V / 2, ds[i].V - 1} {
			if !time.Now().Before(end) || v <= 0 || v >= ds[i].V {
				continue
			}
			c := append([]rt.Dev(nil), ds...)
			c[i].V = v
			if try(c) {
				ds = c
			}
		}
	}
	w := scen.Exec(s, f.Property, rt.Config{Seed: f.Seed, Replay: true, Devs: devMap(ds), MaxSteps: f.Steps*4 + 100000, Trace: true})
	if !bad(w) || class(w.Outcome()) != f.Class {
		fatal("minimised run does not fail")
	}
	f.Devs = ds
	f.Minimised = true
	f.Hash = fmt.Sprintf("%016x", w.Hash)
	f.Message = w.Outcome().Msg
	f.Trace = w.Trace()
	if len(f.Trace) > 400 {
		f.Trace = f.Trace[len(f.Trace)-400:]
	}
	if err := writeFound(path, f); err != nil {
		fatal("%v", err)
	}
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	raw := fs.Bool("raw", false, "")
	trace := fs.Bool("trace", false, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	f := readFound(fs.Arg(0))
	s := find(f.Property, f.Scenario)
	cfg := rt.Config{Seed: f.Seed, Trace: *trace}
	if f.Kind != "process-death" {
		cfg.Replay = true
		cfg.Devs = devMap(f.Devs)
		cfg.MaxSteps = f.Steps*4 + 100000
	}
	w := scen.Exec(s, f.Property, cfg)
	if *trace {
		for _, l := range w.Trace() {
			fmt.Println(l)
		}
	}
	o := w.Outcome()
	if *raw {
		return 3
	}
	if !bad(w) {
		fmt.Printf("replay: no failure (%s)\n", o.Kind)
		return 0
	}
	if class(o) != f.Class {
		fmt.Printf("replay: another failure: %s instead of %s\n%s\n", class(o), f.Class, o.Msg)
		return 4
	}
	if h := fmt.Sprintf("%016x", w.Hash); f.Minimised && h != f.Hash {
		fmt.Printf("replay: same failure, another execution: %s instead of %s\n", h, f.Hash)
		return 4
	}
	fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", class(o), o.Msg, f.Property, fs.Arg(0))
	return 1
}

func one(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	name := fs.String("scen", "", "")
	seed := fs.Uint64("seed", 1, "")
	trace := fs.Bool("trace", false, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	w := scen.Exec(find(*prop, *name), *prop, rt.Config{Seed: *seed, Trace: *trace})
	if *trace {
		for _, l := range w.Trace() {
			fmt.Println(l)
		}
	}
	o := w.Outcome()
	fmt.Println(o.Kind, o.Prop, o.Class, o.Msg)
	fmt.Printf("steps %d, time %.6f s, strategy %s, stats %v\n", w.Steps(), float64(w.Now())/1e9, w.StrategyName(), w.Stats)
	if bad(w) {
		return 1
	}
	return 0
}

var _ = io.EOF
