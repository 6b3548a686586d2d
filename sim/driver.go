package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const chunkSize = 64

// runsPerProcess is smaller where a run takes long.
func (d *driver) runsPerProcess() int {
	if d.prop == "C19" {
		return 8
	}
	return chunkSize
}

type driver struct {
	prop, tier, dir, instr string
	seed                   uint64
	workers, runs          int

	start    time.Time
	mu       sync.Mutex
	total    Outcome
	done     int
	keys     map[uint64]bool
	nontriv  map[uint64]bool
	hashes   map[uint64]bool
	digests  map[int]uint64
	bad      []finding
	trouble  []string
	scen     map[string]int
	stop     bool
	deadline time.Time
	evals    int
}

type finding struct {
	run   int
	viols []Viol
}

// runCount is the number of runs; quick is meant to take less than a minute on eight cores.
var runCount = map[string]int{
	"C01": 40000, "C02": 36000, "C03": 45000, "C04": 20000, "C05": 16000, "C06": 15000, "C07": 80000,
	"C08": 20000, "C09": 20000, "C10": 20000, "C11": 20000, "C12": 50000, "C13": 20000, "C14": 80000, "C19": 600,
}

func (d *driver) count() int {
	if d.runs > 0 {
		return d.runs
	}
	if d.tier == "thorough" {
		return 40 * runCount[d.prop]
	}
	return runCount[d.prop]
}

// process carries out a job in a fresh process.
func (d *driver) process(job *Job, timeout time.Duration) (reports []Report, started int, err error) {
	in, e := json.Marshal(job)
	if e != nil {
		return nil, -1, e
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	exe, e := os.Executable()
	if e != nil {
		return nil, -1, e
	}
	args := []string{"-worker"}
	if d.instr != "" {
		args = append(args, "-instr", d.instr)
	}
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB")
	err = cmd.Run()
	started = -1
	dec := json.NewDecoder(&out)
	for {
		var r Report
		if e := dec.Decode(&r); e != nil {
			break
		}
		if r.Start {
			started = r.Run
			continue
		}
		reports = append(reports, r)
	}
	if ctx.Err() != nil {
		err = fmt.Errorf("watchdog: no end after %v", timeout)
	} else if err != nil {
		msg := errb.String()
		if i := strings.Index(msg, "\n"); i > 0 {
			msg = msg[:i]
		}
		err = &crash{fmt.Sprintf("%v: %v", err, msg), errb.String()}
	}
	return reports, started, err
}

// crash is the end of a worker process by something that can't be recovered from.
type crash struct{ msg, stderr string }

func (c *crash) Error() string { return c.msg }

func (c *crash) fatal() bool {
	return strings.Contains(c.stderr, "fatal error:") || strings.Contains(c.stderr, "panic:") || strings.Contains(c.stderr, "goroutine stack exceeds")
}

func (d *driver) main() int {
	d.start = time.Now()
	limit := 330 * time.Second
	if d.tier == "thorough" {
		limit = 50 * time.Minute
	}
	d.deadline = d.start.Add(limit)
	if d.workers == 0 {
		d.workers = runtime.NumCPU()
	}
	d.keys, d.nontriv, d.hashes, d.digests = map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}, map[int]uint64{}
	d.total.Stats, d.total.Faults, d.scen = map[string]int{}, map[string]int{}, map[string]int{}
	if propChecks[d.prop] == "" && d.prop != "C07" && d.prop != "C14" {
		fmt.Fprintln(os.Stderr, "simulator: unknown property", d.prop)
		return 3
	}

	d.batch(0, d.count(), d.workers, d.collect)

	if len(d.trouble) > 0 && len(d.bad) == 0 {
		for _, t := range d.trouble {
			fmt.Fprintln(os.Stderr, "simulator:", t)
		}
		return 3
	}

	if len(d.bad) > 0 {
		sort.Slice(d.bad, func(i, j int) bool { return d.bad[i].run < d.bad[j].run })
		code := d.report()
		return code
	}

	mism := d.determinism()
	d.evidence(0, mism)
	fmt.Printf("%v: %v runs, %v steps, no violation, %.1fs\n", d.prop, d.done, d.total.Steps, time.Since(d.start).Seconds())
	return 0
}

// batch runs [from, to) in chunks, each in a process of its own.
func (d *driver) batch(from, to, workers int, f func(Report)) {
	type chunk struct{ a, b int }
	ch := make(chan chunk)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				d.chunk(c.a, c.b, f)
			}
		}()
	}
	for a := from; a < to; a += d.runsPerProcess() {
		d.mu.Lock()
		stop := d.stop || time.Now().After(d.deadline)
		d.mu.Unlock()
		if stop {
			break
		}
		ch <- chunk{a, min(to, a+d.runsPerProcess())}
	}
	close(ch)
	wg.Wait()
}

func (d *driver) chunk(a, b int, f func(Report)) {
	for a < b {
		reports, started, err := d.process(&Job{Prop: d.prop, Seed: d.seed, From: a, To: b, Thorough: d.tier == "thorough"}, 300*time.Second)
		for _, r := range reports {
			f(r)
		}
		if err == nil {
			return
		}
		if c, ok := err.(*crash); ok && c.fatal() && started >= a {
			// The process ended in the middle of this run.
			f(Report{Run: started, Out: &Outcome{Viols: []Viol{{Class: "fatal", Detail: c.msg}}}})
			a = started + 1
			continue
		}
		d.mu.Lock()
		d.trouble = append(d.trouble, fmt.Sprintf("runs %v-%v, at %v: %v", a, b, started, err))
		d.stop = true
		d.mu.Unlock()
		return
	}
}

func (d *driver) collect(r Report) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.done++
	o := r.Out
	d.total.Steps += o.Steps
	d.total.Switches += o.Switches
	d.total.Perms += o.Perms
	for k, v := range o.Stats {
		d.total.Stats[k] += v
	}
	for k, v := range o.Faults {
		d.total.Faults[k] += v
	}
	d.keys[r.Key] = true
	if o.Nontrivial {
		d.nontriv[r.Key] = true
	}
	d.hashes[o.Hash] = true
	d.digests[r.Run] = o.Digest
	if o.Sites > d.total.Sites {
		d.total.Sites = o.Sites
	}
	for _, t := range o.Internal {
		d.trouble = append(d.trouble, fmt.Sprintf("run %v: %v", r.Run, t))
		d.stop = true
	}
	if len(o.Viols) > 0 {
		d.bad = append(d.bad, finding{r.Run, o.Viols})
		if len(d.bad) >= 24 {
			d.stop = true
		}
	}
}

// determinism runs a part again, with another number of processes at a time, and compares
// everything observed.
func (d *driver) determinism() int {
	n := min(d.done, 6*d.runsPerProcess())
	mism := 0
	d.batch(0, n, 3, func(r Report) {
		d.mu.Lock()
		defer d.mu.Unlock()
		if d.digests[r.Run] != r.Out.Digest {
			mism++
			fmt.Fprintf(os.Stderr, "simulator: run %v differs when repeated\n", r.Run)
		}
	})
	return mism
}

// one evaluates plans in a fresh process and reports on the last.
func (d *driver) one(plans []*Plan, detail bool) (*Outcome, error) {
	d.mu.Lock()
	d.evals++
	d.mu.Unlock()
	reports, _, err := d.process(&Job{Plans: plans, Last: true, Detail: detail}, 120*time.Second)
	if err != nil {
		if c, ok := err.(*crash); ok && c.fatal() {
			return &Outcome{Viols: []Viol{{Class: "fatal", Detail: c.msg}}}, nil
		}
		return nil, err
	}
	if len(reports) == 0 {
		return nil, fmt.Errorf("no report")
	}
	if len(reports[0].Out.Internal) > 0 {
		return nil, fmt.Errorf("%v", reports[0].Out.Internal[0])
	}
	return reports[0].Out, nil
}

func has(o *Outcome, class string) bool {
	if o == nil {
		return false
	}
	for _, v := range o.Viols {
		if v.Class == class {
			return true
		}
	}
	return false
}

// report reproduces, attributes, minimises and writes down violations.
func (d *driver) report() int {
	var reasons []string
	notOurs := 0
	for n, f := range d.bad {
		if n >= 12 || time.Now().After(d.start.Add(780*time.Second)) {
			break
		}
		plan := genPlan(d.prop, d.seed, f.run, d.tier == "thorough")
		var prelude []*Plan
		out, err := d.one([]*Plan{plan}, true)
		if err != nil {
			reasons = append(reasons, fmt.Sprintf("run %v: %v", f.run, err))
			continue
		}
		class := ""
		for _, v := range f.viols {
			if has(out, v.Class) {
				class = v.Class
				break
			}
		}
		if class == "" {
			// It may take what went before in the same process.
			for i := f.run / d.runsPerProcess() * d.runsPerProcess(); i < f.run; i++ {
				prelude = append(prelude, genPlan(d.prop, d.seed, i, d.tier == "thorough"))
			}
			out, err = d.one(append(append([]*Plan{}, prelude...), plan), true)
			if err == nil {
				for _, v := range f.viols {
					if has(out, v.Class) {
						class = v.Class
						break
					}
				}
			}
		}
		if class == "" {
			reasons = append(reasons, fmt.Sprintf("run %v: %v was seen, but not again in a fresh process", f.run, f.viols[0].Class))
			continue
		}
		if len(prelude) == 0 {
			own, class2 := d.attributable(plan, out)
			if !own {
				notOurs++
				fmt.Fprintf(os.Stderr, "run %v: %v: %v (also without what the property is about)\n", f.run, f.viols[0].Class, f.viols[0].Detail)
				continue
			}
			class = class2
		}
		m := &minimiser{d: d, class: class, plan: plan, prelude: prelude, until: time.Now().Add(75 * time.Second)}
		m.run()
		path, last := d.write(m)
		if path == "" {
			reasons = append(reasons, fmt.Sprintf("run %v: replay does not repeat the violation", f.run))
			continue
		}
		d.evidence(len(d.bad), 0)
		for _, v := range last.Viols {
			if v.Class == class {
				fmt.Printf("%v: %v\n", v.Class, v.Detail)
				break
			}
		}
		fmt.Printf("seed %v run %v, %v violating runs of %v; minimised with %v executions\n", d.seed, f.run, len(d.bad), d.done, d.evals)
		fmt.Printf("VIOLATION property=%v replay=%v\n", d.prop, path)
		return 1
	}
	if len(reasons) > 0 {
		for _, r := range reasons {
			fmt.Fprintln(os.Stderr, "simulator:", r)
		}
		return 3
	}
	// Everything that went wrong goes wrong just as well without what this property is about.
	fmt.Printf("%v: %v runs, %v of them with deviations that do not depend on what the property is about\n", d.prop, d.done, notOurs)
	d.total.Stats["deviations that belong to other properties"] = notOurs
	mism := 0
	d.evidence(0, mism)
	return 0
}

// inherent are the violations that are always the property's own.
var inherent = map[string][]string{
	"C03": {"problem-changed"},
	"C05": {"result-changed", "query-refused", "query-answered", "query-mixed-up", "list-incomplete"},
	"C06": {"cause-lost", "failure-swallowed", "result-with-error", "panic-replaced"},
}

// attributable tells if a violation needs what the property speaks of, by control runs that lack it:
// the same caller alone, a single solve, no faults, no reused layout.
func (d *driver) attributable(plan *Plan, out *Outcome) (bool, string) {
	// What the property says in so many words needs no control.
	for _, v := range out.Viols {
		if slices.Contains(inherent[plan.Prop], v.Class) {
			return true, v.Class
		}
	}
	seen := map[string]bool{}
	// In controls without the history there is nothing that corresponds to single steps.
	caller := 0
	if plan.Prop == "C03" || plan.Prop == "C05" {
		caller = -1
	}
	for _, c := range controlPlans(plan) {
		o, err := d.one([]*Plan{c.Plan}, false)
		if err != nil {
			continue
		}
		for _, v := range o.Viols {
			seen[v.at(c.caller)] = true
		}
	}
	for _, v := range out.Viols {
		if !seen[v.at(caller)] {
			return true, v.Class
		}
	}
	return false, ""
}

var stepOf = regexp.MustCompile(`^caller (\d+), step (\d+) `)

// at says at which step of which caller something went wrong, and how, or only how if caller is
// negative. In the control run the callers before the given one are left out.
func (v *Viol) at(caller int) string {
	if m := stepOf.FindStringSubmatch(v.Detail); m != nil && caller >= 0 {
		n, _ := strconv.Atoi(m[1])
		return fmt.Sprintf("%v at %v of %v", controlClass(v.Class), m[2], n+caller)
	}
	return controlClass(v.Class)
}

// control is a run to compare with.
type control struct {
	*Plan
	caller int
}

// controlClass lumps together the ways in which a result can be wrong.
func controlClass(c string) string {
	c = strings.TrimPrefix(c, "stale-")
	switch c {
	case "primary", "reaction", "curve", "curve-domain", "curve-missing", "curve-extra", "curve-empty", "value-missing", "value-extra", "dimension", "listed-twice", "result-wrong":
		return "wrong"
	}
	return c
}

// controlPlans are the same histories without what the property is about.
func controlPlans(p *Plan) []control {
	var l []control
	switch p.Prop {
	case "C02":
		for i := range p.Tasks {
			c := p.clone()
			c.Tasks = c.Tasks[i : i+1]
			l = append(l, control{c, i})
		}
	case "C03":
		// Nobody but the one who solves the shared problems in the end.
		c := p.clone()
		for i := range c.Tasks {
			for k := range c.Tasks[i].Ops {
				c.Tasks[i].Ops[k].Off = true
			}
		}
		l = append(l, control{c, -1})
	case "C05":
		// Every result asked for everything once, right away; nothing afterwards.
		for i := range p.Tasks {
			for k, op := range p.Tasks[i].Ops {
				if op.K != "solve" {
					continue
				}
				c := p.clone()
				c.Tasks = c.Tasks[i : i+1]
				c.Tasks[0].Ops = c.Tasks[0].Ops[:k+1]
				for n := range c.Tasks[0].Ops {
					o := &c.Tasks[0].Ops[n]
					if n < k && (o.K == "solve" || o.K == "look" || o.K == "query") {
						o.Off = true
					}
					o.Mask = 31
				}
				c.NoMore = true
				l = append(l, control{c, -1})
			}
		}
	case "C06":
		c := p.clone()
		for i := range c.Tasks {
			for k := range c.Tasks[i].Ops {
				o := &c.Tasks[i].Ops[k]
				if o.Fault != nil || o.Bad || o.K == "query" && strings.HasPrefix(o.Kind, "bad") {
					o.Off = true
				}
			}
		}
		l = append(l, control{c, 0})
	case "C09":
		c := p.clone()
		for i := range c.Tasks {
			for k := range c.Tasks[i].Ops {
				c.Tasks[i].Ops[k].Lay = 0
			}
		}
		l = append(l, control{c, 0})
	}
	return l
}

func (p *Plan) clone() *Plan {
	d, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var c Plan
	if err := json.Unmarshal(d, &c); err != nil {
		panic(err)
	}
	return &c
}

// Replay is a replay file.
type Replay struct {
	Property string  `json:"property"`
	Class    string  `json:"class"`
	Detail   string  `json:"detail"`
	Seed     uint64  `json:"seed"`
	Run      int     `json:"run"`
	Digest   uint64  `json:"digest"`
	Prelude  []*Plan `json:"prelude,omitempty"`
	Plan     *Plan   `json:"plan"`
}

func (d *driver) write(m *minimiser) (string, *Outcome) {
	plans := append(append([]*Plan{}, m.prelude...), m.plan)
	out, err := d.one(plans, true)
	if err != nil || !has(out, m.class) {
		return "", nil
	}
	detail := ""
	for _, v := range out.Viols {
		if v.Class == m.class {
			detail = v.Detail
			break
		}
	}
	dir := filepath.Join(d.dir, "replays")
	os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(Replay{Property: d.prop, Class: m.class, Detail: detail, Seed: d.seed, Run: m.plan.Run,
		Digest: out.Digest, Prelude: m.prelude, Plan: m.plan}, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%v-%v-%v.json", d.prop, d.seed, m.plan.Run))
	if err := os.WriteFile(path, data, 0o644); err != nil {
		return "", nil
	}
	return path, out
}

func replayFile(path string) int {
	data, err := os.ReadFile(path)
	var r Replay
	if err == nil {
		err = json.Unmarshal(data, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simulator:", err)
		return 3
	}
	d := &driver{prop: r.Property}
	out, err := d.one(append(append([]*Plan{}, r.Prelude...), r.Plan), true)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simulator:", err)
		return 3
	}
	for _, v := range out.Viols {
		fmt.Printf("%v: %v\n", v.Class, v.Detail)
	}
	if !has(out, r.Class) {
		fmt.Printf("%v does not happen\n", r.Class)
		return 0
	}
	if out.Digest != r.Digest {
		fmt.Println("(not the same execution as recorded: the code has changed)")
	}
	fmt.Printf("VIOLATION property=%v replay=%v\n", r.Property, path)
	return 1
}

func (d *driver) evidence(violations, mism int) {
	wall := time.Since(d.start).Seconds()
	perHour := func(n int) int { return int(float64(n) / wall * 3600) }
	var samples []any
	for i := 0; i < 400 && len(samples) < 2; i++ {
		p := genPlan(d.prop, d.seed, i, d.tier == "thorough")
		data, _ := json.Marshal(p)
		if len(data) < 6000 {
			samples = append(samples, p)
		}
	}
	cov := map[string]any{
		"evaluations":         d.done,
		"distinct_nontrivial": len(d.nontriv),
		"rule":                rules[d.prop],
		"samples":             samples,

		"simulated_runs_per_hour":       perHour(d.done),
		"seeds_per_hour":                perHour(len(d.keys)),
		"simulated_time_steps":          d.total.Steps,
		"simulated_time_unit":           "statements of the library executed under the scheduler (the library has no clocks or timers)",
		"faults_injected":               d.total.Faults,
		"faults_injected_total":         sum(d.total.Faults),
		"distinct_interleavings":        len(d.hashes),
		"interleaving_measure":          "distinct sequences of (caller, step, next caller) switches and of map visiting orders",
		"task_switches":                 d.total.Switches,
		"map_visits_ordered":            d.total.Perms,
		"statements_with_switch_in_run": d.total.Sites,
		"events":                        d.total.Stats,
		"determinism":                   fmt.Sprintf("%v runs repeated in other processes with another number of processes at a time, %v differ", min(d.done, 6*d.runsPerProcess()), mism),
		"real_components":               "all of package deflect (instrumented copy: scheduling points, map iteration behind a seam), gonum, encoding/json",
		"stub_components":               "callers, equation solver failures, user-supplied members/sections/transformations (wrappers around the real ones), byte-level document storage",
		"instrumented":                  instrumented,
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration",
		"coverage":    cov,
		"assumptions": assumptions,
		"wall_s":      wall,
		"violations":  violations,
	}
	dir := filepath.Join(d.dir, "evidence")
	os.MkdirAll(dir, 0o755)
	data, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, d.prop+".json"), data, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simulator: evidence:", err)
		os.Exit(3)
	}
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

var assumptions = []string{
	"callers are interleaved at statements; two callers inside one statement (data races below that) are not simulated",
	"numbers are compared with tolerances derived from the condition number of the system; problems that are too ill-conditioned are not compared",
	"gonum and encoding/json run uninstrumented, as single steps",
}

var rules = map[string]string{
	"C01": "one description (document or lists) taken through reading, layout, solving and all queries under several orders of records and of map visits; non-trivial: at least two variants compared, or refused alike",
	"C02": "two to five callers with histories of their own under a seeded scheduler, with faults and stalls; non-trivial: at least one switch between callers in the middle of their work, and at least two results compared",
	"C03": "one to four callers of one problem, layouts, solves and queries only; non-trivial: at least two results compared",
	"C04": "a history of edits, solves and failed solves of one to three problems with reused solvers; non-trivial: at least one edit and one result compared",
	"C05": "a history in which results are asked again after other queries, solves and edits; non-trivial: at least one answer repeated",
	"C06": "a history with injected failures and ill-formed problems; non-trivial: at least one failed solve and one result compared afterwards",
	"C07": "a document with one to three kinds of damage, read and, if read, laid out, solved and queried; non-trivial: the damage found a place",
	"C08": "a history of loads added, removed and refused; non-trivial: at least two load steps and one result compared",
	"C09": "a history with index layouts kept across edits, problems and callers; non-trivial: at least one solve with a kept layout",
	"C10": "a history whose results are checked for equilibrium; non-trivial: at least one result with loads or settlements",
	"C11": "a history whose member curves are checked; non-trivial: at least one result",
	"C12": "load cases put on and taken off one structure in some order; non-trivial: at least one combination compared",
	"C13": "a history of structures with settlements and inclined supports; non-trivial: at least one result",
	"C14": "a document as it is, or with one record spoiled; non-trivial: read and compared, or refused as it must be",
	"C19": "a cycle of steps repeated some hundred times; non-trivial: every cycle ended where it began",
}
