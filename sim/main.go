package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
)

// Job is what a worker process is asked to do.
type Job struct {
	Prop     string  `json:"prop,omitempty"`
	Seed     uint64  `json:"seed,omitempty"`
	From     int     `json:"from,omitempty"`
	To       int     `json:"to,omitempty"`
	Thorough bool    `json:"thorough,omitempty"`
	Plans    []*Plan `json:"plans,omitempty"` // run these instead
	Last     bool    `json:"last,omitempty"`  // and only report on the last one
	Detail   bool    `json:"detail,omitempty"`
}

var heapDebug = flag.Bool("heap", false, "print what long use does to memory")

func main() {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(64 << 20)
	var (
		prop    = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "seed")
		dir     = flag.String("dir", "/verif", "where evidence and replays go")
		replay  = flag.String("replay", "", "replay file")
		runs    = flag.Int("runs", 0, "number of runs, instead of the tier's")
		workers = flag.Int("workers", 0, "number of worker processes")
		instr   = flag.String("instr", "", "what the instrumentation reports")
		worker  = flag.Bool("worker", false, "worker process: a job on standard input")
		show    = flag.Int("show", -1, "print the plan of a run")
		bench   = flag.Int("bench", 0, "carry out this many runs in this process")
	)
	flag.Parse()

	if *instr != "" {
		readInstr(*instr)
	}

	switch {
	case *worker:
		work(os.Stdin, os.Stdout)
	case *show >= 0:
		p := genPlan(*prop, *seed, *show, *tier == "thorough")
		d, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(d))
	case *bench > 0:
		for i := 0; i < *bench; i++ {
			p := genPlan(*prop, *seed, i, *tier == "thorough")
			o := runPlan(p)
			if len(o.Viols) > 0 || len(o.Internal) > 0 {
				fmt.Println(i, p.Scenario, o.Viols, o.Internal)
			}
		}
	case *replay != "":
		os.Exit(replayFile(*replay))
	default:
		d := &driver{prop: *prop, tier: *tier, seed: *seed, dir: *dir, instr: *instr, workers: *workers, runs: *runs}
		os.Exit(d.main())
	}
}

// instrReport is what the instrumentation found.
type instrReport struct {
	Files       int      `json:"files"`
	Yields      int      `json:"yield_sites"`
	MapRanges   int      `json:"map_ranges"`
	Unsupported []string `json:"unsupported"`
}

var instrumented instrReport

func readInstr(f string) {
	data, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(data, &instrumented)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simulator:", err)
		os.Exit(3)
	}
	uncontrolled = len(instrumented.Unsupported) > 0
}

// Report is what a worker says about one run.
type Report struct {
	Run   int      `json:"run"`
	Start bool     `json:"start,omitempty"`
	Out   *Outcome `json:"out,omitempty"`
	Key   uint64   `json:"key,omitempty"`
}

func work(in io.Reader, out io.Writer) {
	var job Job
	if err := json.NewDecoder(in).Decode(&job); err != nil {
		fmt.Fprintln(os.Stderr, "simulator: job:", err)
		os.Exit(3)
	}
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	n := job.To - job.From
	if job.Plans != nil {
		n = len(job.Plans)
	}
	for i := 0; i < n; i++ {
		run := job.From + i
		enc.Encode(Report{Run: run, Start: true})
		w.Flush()
		var p *Plan
		if job.Plans != nil {
			p = job.Plans[i]
		} else {
			p = genPlan(job.Prop, job.Seed, run, job.Thorough)
		}
		o := runPlan(p)
		if !job.Detail {
			o.Trace, o.PermEvents = nil, nil
		}
		if job.Last && i < n-1 {
			continue
		}
		enc.Encode(Report{Run: run, Out: o, Key: p.key(o)})
		w.Flush()
	}
}

// key tells runs apart.
func (p *Plan) key(o *Outcome) uint64 {
	c := *p
	c.Run, c.Seed, c.Seed2 = 0, 0, c.Seed2
	c.Sched, c.Perm = SchedPlan{}, PermPlan{}
	d, err := json.Marshal(&c)
	if err != nil {
		panic(err)
	}
	return mix(strHash(string(d)) ^ o.Hash)
}
