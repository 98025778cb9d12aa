package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Property binds a property to the jobs that decide it.
type Property struct {
	ID          string
	Level       string
	Rule        string   // how the explored space is made
	Assumptions []string // what the verdict rests on
	Jobs        func(thorough bool) []Job
}

const (
	hangCPU   = 10 * time.Second // CPU time (not wall time) spent inside one operation
	memLimit  = 3 << 30
	quickWall = 420 * time.Second
	deepWall  = 800 * time.Second
)

type result struct {
	Job     int      `json:"job"`
	Stats   Stats    `json:"stats"`
	Failure *Failure `json:"failure,omitempty"`
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func memInUse() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64() + s[1].Value.Uint64()
}

// Main is the entry point of the checker binary.
func Main(props []*Property) {
	if len(os.Args) < 2 {
		fatal("usage: check ID | worker ID | replay FILE | list")
	}
	find := func(id string) *Property {
		for _, p := range props {
			if p.ID == id {
				return p
			}
		}
		fatal("unknown property " + id)
		return nil
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "jobs": // every job, for the curious
		for _, p := range props {
			for _, j := range p.Jobs(os.Getenv("VERIF_TIER") == "thorough") {
				if s := asSpace(j); s != nil {
					fmt.Println(p.ID, j.JobName(), "operations", s.NOps-s.Init, "configurations", s.Init, "depth", s.Depth)
				} else {
					fmt.Println(p.ID, j.JobName())
				}
			}
		}
	case "check":
		os.Exit(check(find(os.Args[2]), os.Getenv("VERIF_TIER") == "thorough"))
	case "worker":
		worker(find(os.Args[2]), os.Args[3] == "thorough", os.Args[4])
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal(err.Error())
		}
		var f Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fatal(err.Error())
		}
		os.Exit(replay(find(f.Property), &f))
	default:
		fatal("unknown command")
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "vmc:", s)
	os.Exit(3)
}

// asSpace returns the Space that j runs, or nil.
func asSpace(j Job) *Space {
	if o, ok := j.(*orderJob); ok {
		j = o.Job
	}
	s, _ := j.(*Space)
	return s
}

func tierName(thorough bool) string {
	if thorough {
		return "thorough"
	}
	return "quick"
}

// replay re-executes one counterexample: exit 1 if it fails again, 0 if not.
func replay(p *Property, f *Failure) int {
	debug.SetMaxStack(256 << 20)
	for _, j := range p.Jobs(f.Tier == "thorough") {
		if j.JobName() != f.Job {
			continue
		}
		ctx := NewCtx()
		done := make(chan struct{})
		watch(ctx, done, func(why string) {
			fmt.Println("REPRODUCED:", why)
			os.Exit(1)
		})
		var g *Failure
		n := 1
		if v, err := strconv.Atoi(os.Getenv("VMC_REPLAY_TRIES")); err == nil {
			n = v
		}
		for i := 0; i < n && g == nil; i++ {
			g = j.Replay(ctx, f)
		}
		close(done)
		if g != nil {
			for _, o := range g.Ops {
				fmt.Println("  ", o)
			}
			if g.CaseName != "" {
				fmt.Println("  case", g.CaseName)
			}
			fmt.Println("REPRODUCED:", g.Msg)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	fatal("no such job: " + f.Job)
	return 3
}

// watch reports an operation that consumes CPU or memory without end. CPU time
// is used, not wall time, so that a slow or suspended machine raises nothing.
func watch(ctx *Ctx, done chan struct{}, report func(why string)) {
	go func() {
		last := int64(-1)
		var start time.Duration
		memPolls := 0
		for {
			select {
			case <-done:
				return
			case <-time.After(100 * time.Millisecond):
			}
			b := ctx.Journal.beat.Load()
			now := cpuTime()
			if b != last {
				last, start, memPolls = b, now, 0
				continue
			}
			if memInUse() > memLimit {
				memPolls++
				if memPolls >= 3 {
					report(fmt.Sprintf("operation uses more than %d GB of memory without terminating", memLimit>>30))
				}
			}
			if now-start > hangCPU {
				report(fmt.Sprintf("operation does not terminate (%v of CPU time)", hangCPU))
			}
		}
	}()
}

func worker(p *Property, thorough bool, journal string) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(memLimit / 3 * 2) // collect garbage more often rather than reach the limit
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	jobs := p.Jobs(thorough)
	j, err := OpenJournal(journal)
	if err != nil {
		fatal(err.Error())
	}
	deadline := time.Now().Add(quickWall)
	if v, err := strconv.ParseInt(os.Getenv("VMC_DEADLINE"), 10, 64); err == nil {
		deadline = time.Unix(v, 0)
	}
	out := bufio.NewWriter(os.Stdout)
	var mu sync.Mutex
	send := func(r result) {
		mu.Lock()
		defer mu.Unlock()
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		n, err := strconv.Atoi(strings.TrimSpace(in.Text()))
		if err != nil || n < 0 || n >= len(jobs) {
			fatal("bad job number")
		}
		ctx := NewCtx()
		ctx.Journal = j
		ctx.Deadline = deadline
		ctx.Budget, ctx.Loops = 50*time.Second, 60*time.Second
		ctx.Repeat = 1000000
		if thorough {
			ctx.Budget, ctx.Loops = 250*time.Second, 120*time.Second
			ctx.Repeat = 20000000
		}
		ctx.Stop = func() string {
			if memInUse() > memLimit {
				return "memory"
			}
			return ""
		}
		j.SetJob(n)
		done := make(chan struct{})
		watch(ctx, done, func(why string) {
			_, kind, h, cse := ReadJournal(j.Mem())
			f := &Failure{Job: jobs[n].JobName(), Crash: true, Msg: why}
			fillFromJournal(f, jobs[n], kind, h, cse)
			send(result{Job: n, Failure: f})
			os.Exit(0)
		})
		f := jobs[n].Run(ctx)
		close(done)
		send(result{Job: n, Stats: ctx.Stats, Failure: f})
		debug.FreeOSMemory()
	}
}

func fillFromJournal(f *Failure, j Job, kind byte, h []int, cse int) {
	switch kind {
	case 1:
		f.Kind = "space"
		f.History = h
		if s := asSpace(j); s != nil {
			f.Ops = compress(s.histNames(h))
		}
	case 2:
		f.Kind = "sweep"
		f.Case = cse
		if c, ok := j.(interface{ CaseName(int) string }); ok {
			f.CaseName = c.CaseName(cse)
		}
	}
}

// check runs all jobs of a property and returns the exit status.
func check(p *Property, thorough bool) int {
	t0 := time.Now()
	jobs := p.Jobs(thorough)
	wall := quickWall
	if thorough {
		wall = deepWall
	}
	if v, err := strconv.Atoi(os.Getenv("VMC_WALL")); err == nil && v > 0 {
		wall = time.Duration(v) * time.Second
	}
	deadline := t0.Add(wall)
	tmp, err := os.MkdirTemp("", "vmc")
	if err != nil {
		fatal(err.Error())
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fatal(err.Error())
	}
	nw := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VMC_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	if nw > len(jobs) {
		nw = len(jobs)
	}
	// Spaces last: one that a change makes infinite must not starve the others.
	var order []int
	for pass := 0; pass < 2; pass++ {
		for i, j := range jobs {
			if (asSpace(j) != nil) == (pass == 1) {
				order = append(order, i)
			}
		}
	}
	var next atomic.Int64
	var stop atomic.Bool
	results := make([]*result, len(jobs))
	var mu sync.Mutex
	var failures []*Failure
	var notes []string
	var cmds []*exec.Cmd
	var wg sync.WaitGroup
	onFailure := func(f *Failure) {
		mu.Lock()
		failures = append(failures, f)
		stop.Store(true)
		for _, c := range cmds {
			_ = c.Process.Kill()
		}
		mu.Unlock()
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			jf := filepath.Join(tmp, fmt.Sprint("journal", w))
			for !stop.Load() && int(next.Load()) < len(jobs) {
				cmd := exec.Command(self, "worker", p.ID, tierName(thorough), jf)
				cmd.Env = append(os.Environ(), fmt.Sprint("VMC_DEADLINE=", deadline.Unix()))
				stdin, _ := cmd.StdinPipe()
				stdout, _ := cmd.StdoutPipe()
				var stderr tail
				cmd.Stderr = &stderr
				mu.Lock()
				if stop.Load() {
					mu.Unlock()
					return
				}
				if err := cmd.Start(); err != nil {
					mu.Unlock()
					fatal(err.Error())
				}
				cmds = append(cmds, cmd)
				mu.Unlock()
				rd := bufio.NewReaderSize(stdout, 1<<20)
				cur := -1
				for !stop.Load() {
					n := int(next.Add(1)) - 1
					if n >= len(jobs) {
						break
					}
					n = order[n]
					cur = n
					fmt.Fprintln(stdin, n)
					line, err := rd.ReadBytes('\n')
					if err != nil {
						break
					}
					var r result
					if json.Unmarshal(line, &r) != nil {
						break
					}
					mu.Lock()
					results[n] = &r
					mu.Unlock()
					cur = -1
					if r.Failure != nil {
						onFailure(r.Failure)
					}
				}
				stdin.Close()
				werr := cmd.Wait()
				if cur >= 0 && !stop.Load() {
					// The worker died while executing job cur.
					b, _ := os.ReadFile(jf)
					_, kind, h, cse := ReadJournal(b)
					f := &Failure{Job: jobs[cur].JobName(), Crash: true,
						Msg: fmt.Sprintf("the process died (%v): %s", werr, stderr.head())}
					fillFromJournal(f, jobs[cur], kind, h, cse)
					if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
						mu.Lock()
						notes = append(notes, "job "+jobs[cur].JobName()+" was killed from outside (memory?) and is not covered")
						mu.Unlock()
					} else if kind != 0 {
						onFailure(f)
					} else {
						mu.Lock()
						notes = append(notes, "job "+jobs[cur].JobName()+": worker died outside any history: "+f.Msg)
						mu.Unlock()
					}
				}
			}
		}(w)
	}
	wg.Wait()

	// Confirm before believing.
	violations := 0
	var confirmed *Failure
	known := loadKnown(p.ID)
	sort.SliceStable(failures, func(i, j int) bool { return len(failures[i].History) < len(failures[j].History) })
	for _, f := range failures {
		f.Property, f.Tier = p.ID, tierName(thorough)
		path := writeReplay(p.ID, f, violations)
		tries, reproduced := 5, 0
		if f.Crash {
			tries = 2
		}
		for i := 0; i < tries; i++ {
			cmd := exec.Command(self, "replay", path)
			cmd.Env = append(os.Environ(), "VMC_REPLAY_TRIES=1")
			if i == tries-1 && reproduced == 0 && !f.Crash {
				// outcome may depend on Go's map iteration order: try harder
				cmd.Env = append(os.Environ(), "VMC_REPLAY_TRIES=2000")
			}
			if err := cmd.Run(); err != nil {
				reproduced++
			}
		}
		if reproduced == 0 {
			notes = append(notes, fmt.Sprintf("unreproducible failure ignored: %s: %s (%s)", f.Job, f.Msg, path))
			continue
		}
		if k := known.match(f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
			continue
		}
		violations++
		if confirmed == nil {
			confirmed = f
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  reproduced %d/%d times\n  job: %s\n", reproduced, tries, f.Job)
			if f.CaseName != "" {
				fmt.Printf("  case: %s\n", f.CaseName)
			}
			for _, o := range f.Ops {
				fmt.Println("   ", o)
			}
			fmt.Println("  ", f.Msg)
		}
	}
	writeEvidence(p, thorough, jobs, results, notes, violations, time.Since(t0))
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if violations > 0 {
		return 1
	}
	return 0
}

// tail keeps the first 4 KB written to it.
type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if n := 4096 - t.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.b.Write(p[:n])
	}
	return len(p), nil
}

func (t *tail) head() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := t.b.String()
	n := 600
	if strings.Contains(s, "DATA RACE") {
		n = 1800
	} else if i := strings.Index(s, "\n\n"); i > 0 {
		s = s[:i]
	}
	if len(s) > n {
		s = s[:n]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}

func root() string {
	if r := os.Getenv("VMC_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func writeReplay(id string, f *Failure, n int) string {
	dir := filepath.Join(root(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, n))
	b, _ := json.MarshalIndent(f, "", "  ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// Known findings: lines of JSON {"property","job","ops"|"case_name","what"} in
// known_findings.jsonl; lines with "fixed" suppress nothing.
type knownFinding struct {
	Property string   `json:"property"`
	Job      string   `json:"job"`
	Ops      []string `json:"ops"`
	CaseName string   `json:"case_name"`
	What     string   `json:"what"`
	Fixed    string   `json:"fixed"`
}
type knownList []knownFinding

func loadKnown(id string) (l knownList) {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		var k knownFinding
		if strings.TrimSpace(line) != "" && json.Unmarshal([]byte(line), &k) == nil && k.Property == id && k.Fixed == "" {
			l = append(l, k)
		}
	}
	return
}

func (l knownList) match(f *Failure) string {
	for _, k := range l {
		if k.Job == f.Job && k.CaseName == f.CaseName && strings.Join(k.Ops, ";") == strings.Join(f.Ops, ";") {
			return k.What
		}
	}
	return ""
}

func writeEvidence(p *Property, thorough bool, jobs []Job, results []*result, notes []string, violations int, wall time.Duration) {
	var tot Stats
	tot.OpCount = map[string]int64{}
	tot.Extra = map[string]int64{}
	var samples []any
	var detail []any
	exhaustive := violations == 0
	closed, ran := 0, 0
	var capped []string
	for i, r := range results {
		if r == nil {
			exhaustive = false
			continue
		}
		s := r.Stats
		ran++
		tot.States += s.States
		tot.Transitions += s.Transitions
		tot.Histories += s.Histories
		tot.Steps += s.Steps
		tot.Cases += s.Cases
		if s.MaxDepth > tot.MaxDepth {
			tot.MaxDepth = s.MaxDepth
		}
		for k, v := range s.OpCount {
			tot.OpCount[k] += v
		}
		for k, v := range s.Extra {
			tot.Extra[k] += v
		}
		if s.Closed {
			closed++
		}
		if s.Capped != "" {
			exhaustive = false
			capped = append(capped, fmt.Sprintf("%s: %s at depth %d after %d states", jobs[i].JobName(), s.Capped, s.MaxDepth, s.States))
		}
		if s.Sample != "" && len(samples) < 6 {
			samples = append(samples, s.Sample)
		}
		if len(detail) < 200 {
			detail = append(detail, map[string]any{"job": jobs[i].JobName(), "states": s.States, "transitions": s.Transitions,
				"cases": s.Cases, "max_depth": s.MaxDepth, "complete": s.Closed, "wall_s": float64(int(s.WallS*100)) / 100})
		}
	}
	if samples == nil {
		samples = []any{"none: stopped at the first violation"}
	}
	cov := map[string]any{
		"rule": p.Rule, "samples": samples, "exhaustive": exhaustive,
		"jobs": len(jobs), "jobs_completed": closed, "capped": capped,
		"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Histories,
		"operations_executed": tot.Steps, "enumerated_cases": tot.Cases, "max_depth": tot.MaxDepth,
		"operation_counts": tot.OpCount, "detail": detail, "notes": notes,
	}
	for k, v := range tot.Extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": p.ID, "tier": tierName(thorough), "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": wall.Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err.Error())
	}
	fmt.Printf("%s %s: jobs=%d/%d states=%d transitions=%d histories=%d cases=%d maxdepth=%d exhaustive=%v wall=%.1fs\n",
		p.ID, tierName(thorough), closed, len(jobs), tot.States, tot.Transitions, tot.Histories, tot.Cases, tot.MaxDepth, exhaustive, wall.Seconds())
	for _, c := range capped {
		fmt.Println("  capped:", c)
	}
}
