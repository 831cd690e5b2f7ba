package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/rt"
)

// Replay is a replay file.
type Replay struct {
	Property  string    `json:"property"`
	BatchSeed uint64    `json:"batch_seed"`
	Index     int       `json:"index"`
	Race      bool      `json:"race_detector"`
	Violation Violation `json:"violation"`
	Prelude   []*Plan   `json:"prelude,omitempty"` // executions of the same process that must precede
	Plan      *Plan     `json:"plan"`
	Original  [3]int    `json:"size_before_minimisation_ops_faults_schedule"`
	Log       []string  `json:"event_log,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim run|worker|exec|replay|selftest|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "env":
		envMain(os.Args[2])
	case "exec":
		execMain(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	case "list":
		fmt.Println(strings.Join(specIDs(), " "))
	case "plan":
		fs := flag.NewFlagSet("plan", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		seed := fs.Uint64("seed", 1, "")
		i := fs.Int("i", 0, "")
		race := fs.Bool("race", false, "")
		thorough := fs.Bool("thorough", false, "")
		fs.Parse(os.Args[2:])
		b, _ := json.MarshalIndent(makePlan(specs[*prop], *seed, *i, *race, *thorough), "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

func limits() {
	runtime.GOMAXPROCS(1)
	if !rt.Race {
		lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(200)
}

// watch ends the process when an execution is stuck where the scheduler can not see it.
var beat = make(chan struct{}, 1)

func watchdog(d time.Duration) {
	go func() {
		for {
			select {
			case <-beat:
			case <-time.After(d):
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "WATCHDOG: execution stuck for %v\n%s\n", d, buf)
				os.Exit(9)
			}
		}
	}()
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	thorough := fs.Bool("thorough", false, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 1, "")
	deadline := fs.Int64("deadline", 0, "")
	fs.Parse(args)
	limits()
	watchdog(150 * time.Second)
	s := specs[*prop]
	out := bufio.NewWriter(os.Stdout)
	emit := func(kind string, i int, v any) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(out, "%s %d %s\n", kind, i, b)
		out.Flush()
	}
	for i, k := *from, 0; i < *count; i, k = i+*stride, k+1 {
		if s.Fresh > 0 && k == s.Fresh {
			emit("R", i, 0)
			break
		}
		if *deadline > 0 && time.Now().UnixMilli() > *deadline {
			emit("D", i, 0)
			break
		}
		p := makePlan(s, *seed, i, rt.Race, *thorough)
		if p.Cold && k > 0 {
			emit("R", i, 0)
			break
		}
		emit("B", i, 0)
		res := execute(p, i < 2)
		select {
		case beat <- struct{}{}:
		default:
		}
		if res.Err != "" {
			fmt.Fprintln(os.Stderr, res.Err)
			emit("X", i, res.Err)
			os.Exit(8)
		}
		emit("E", i, res)
		if res.Viol != nil {
			break
		}
	}
	emit("Q", 0, 0)
}

// execMain executes the plans of a file (prelude, then plan) and prints the last result.
func execMain(args []string) {
	limits()
	watchdog(150 * time.Second)
	b, err := os.ReadFile(args[0])
	if err != nil {
		panic(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	for _, p := range r.Prelude {
		if res := execute(p, false); res.Err != "" {
			fmt.Fprintln(os.Stderr, res.Err)
			os.Exit(8)
		}
		select {
		case beat <- struct{}{}:
		default:
		}
	}
	res := execute(r.Plan, true)
	if res.Err != "" {
		fmt.Fprintln(os.Stderr, res.Err)
		os.Exit(8)
	}
	o, _ := json.Marshal(res)
	fmt.Println(string(o))
}

type supervisor struct {
	prop     string
	seed     uint64
	thorough bool
	bin      string
	raceBin  string
	raceRuns int
	work     string
	spec     *Spec
	start    time.Time

	mu       sync.Mutex
	agg      map[string]int64
	runs     [2]int // normal, race
	planned  [2]int
	hist     map[uint64]bool
	inter    map[uint64]bool
	nontriv  int
	ticks    int64
	simUs    int64
	hists    [2]map[int]uint64
	samples  []any
	viols    []found
	trouble  []string
	capped   bool
	cpuS     float64
	rechecks int
	mismatch int
	procs    map[*exec.Cmd]bool
	known    map[string]string
	stopping bool
}

// stopAll ends the other workers: one violation is enough.
func (sv *supervisor) stopAll() {
	sv.stopping = true
	for c := range sv.procs {
		c.Process.Kill()
	}
}

type found struct {
	i       int
	race    bool
	viol    *Violation
	prelude []int
}

func (sv *supervisor) cmd(race bool, args ...string) *exec.Cmd {
	bin := sv.bin
	if race {
		bin = sv.raceBin
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=7", "GOMAXPROCS=1", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// crashViolation explains an execution whose process died.
func crashViolation(prop string, code int, stderr string) *Violation {
	switch {
	case code == 9 || code == 8 || code < 0 && !strings.Contains(stderr, "fatal error"):
		return nil
	case code == 66 || strings.Contains(stderr, "WARNING: DATA RACE"):
		i := strings.Index(stderr, "WARNING: DATA RACE")
		msg := stderr
		if i >= 0 {
			msg = stderr[i:]
		}
		return &Violation{prop, "race", raceSummary(msg)}
	case !strings.Contains(stderr, "github.com/ing-bank/zkrp/"):
		return nil // not in the code under test
	case strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "panic:") || strings.Contains(stderr, "runtime:"):
		k := strings.Index(stderr, "fatal error:")
		if k < 0 {
			k = strings.Index(stderr, "panic:")
		}
		if k < 0 {
			k = 0
		}
		msg := stderr[k:]
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		return &Violation{prop, "process-died", "the process died: " + msg}
	}
	return nil
}

var raceAddr = regexp.MustCompile(` at 0x[0-9a-f]+| by goroutine [0-9]+`)

func raceSummary(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "WARNING") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous") ||
			strings.HasPrefix(t, "github.com/ing-bank") || strings.Contains(t, "/crypto/") {
			keep = append(keep, raceAddr.ReplaceAllString(t, ""))
		}
		if len(keep) > 14 {
			break
		}
	}
	return "data race: " + strings.Join(keep, " | ")
}

// batch runs the executions [0, count) on w workers.
func (sv *supervisor) batch(race bool, count, w int, seed uint64, deadline time.Time) {
	var wg sync.WaitGroup
	ri := 0
	if race {
		ri = 1
	}
	sv.planned[ri] += count
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := k
			for from < count {
				next, again := sv.oneWorker(race, ri, from, w, count, seed, deadline)
				if !again {
					return
				}
				from = next
			}
		}(k)
	}
	wg.Wait()
}

func (sv *supervisor) oneWorker(race bool, ri, from, w, count int, seed uint64, deadline time.Time) (int, bool) {
	args := []string{"worker", "-prop", sv.prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(w),
		"-count", fmt.Sprint(count), "-deadline", fmt.Sprint(deadline.UnixMilli())}
	if sv.thorough {
		args = append(args, "-thorough")
	}
	cmd := sv.cmd(race, args...)
	stdout, _ := cmd.StdoutPipe()
	var stderr tail
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		sv.trouble1("start worker: " + err.Error())
		return 0, false
	}
	sv.mu.Lock()
	if sv.procs == nil {
		sv.procs = map[*exec.Cmd]bool{}
	}
	sv.procs[cmd] = true
	if sv.stopping {
		cmd.Process.Kill()
	}
	sv.mu.Unlock()
	cur := -1
	quit := false
	resume := -1
	var done []int
	sc := bufio.NewReaderSize(stdout, 1<<20)
	for {
		line, err := sc.ReadString('\n')
		if err != nil {
			break
		}
		parts := strings.SplitN(strings.TrimSpace(line), " ", 3)
		if len(parts) < 3 {
			continue
		}
		i, _ := strconv.Atoi(parts[1])
		switch parts[0] {
		case "B":
			cur = i
		case "E":
			var res Result
			if err := json.Unmarshal([]byte(parts[2]), &res); err != nil {
				sv.trouble1("bad worker line: " + err.Error())
				continue
			}
			sv.note(ri, i, &res, seed)
			if res.Viol != nil {
				sv.mu.Lock()
				if !sv.stopping {
					sv.viols = append(sv.viols, found{i, race, res.Viol, done})
					if sv.known[res.Viol.Class] == "" {
						sv.stopAll()
					}
				}
				sv.mu.Unlock()
			}
			done = append(done, i)
			cur = -1
		case "X":
			sv.trouble1(parts[2])
		case "D":
			sv.mu.Lock()
			sv.capped = true
			sv.mu.Unlock()
		case "R":
			resume = i
		case "Q":
			quit = true
		}
	}
	err := cmd.Wait()
	sv.mu.Lock()
	if cmd.ProcessState != nil {
		sv.cpuS += (cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()).Seconds()
	}
	delete(sv.procs, cmd)
	stopped := sv.stopping
	sv.mu.Unlock()
	if quit && err == nil && resume >= 0 && !stopped {
		return resume, true
	}
	if quit && err == nil || stopped {
		return 0, false
	}
	code := cmd.ProcessState.ExitCode()
	if cur >= 0 {
		if v := crashViolation(sv.prop, code, stderr.String()); v != nil {
			sv.mu.Lock()
			sv.viols = append(sv.viols, found{cur, race, v, done})
			sv.runs[ri]++
			if sv.known[v.Class] == "" {
				sv.stopAll()
			}
			sv.mu.Unlock()
			return 0, false
		}
	}
	sv.trouble1(fmt.Sprintf("worker died (exit %d, execution %d): %s", code, cur, stderr.String()))
	return 0, false
}

func (sv *supervisor) trouble1(s string) {
	sv.mu.Lock()
	defer sv.mu.Unlock()
	if len(s) > 4000 {
		s = s[:4000]
	}
	sv.trouble = append(sv.trouble, s)
}

func (sv *supervisor) note(ri, i int, res *Result, seed uint64) {
	sv.mu.Lock()
	defer sv.mu.Unlock()
	sv.runs[ri]++
	st := res.Stats
	for k, v := range st.C {
		sv.agg[k] += v
	}
	sv.ticks += st.Ticks
	sv.simUs += st.SimUs
	if st.Nontriv {
		sv.nontriv++
		sv.hist[st.Hist] = true
	}
	if st.Inter != 0 {
		sv.inter[st.Inter] = true
	}
	if sv.hists[ri] == nil {
		sv.hists[ri] = map[int]uint64{}
	}
	if seed == sv.seed {
		sv.hists[ri][i] = st.Hist ^ st.Inter*3
	}
	if len(res.Log) > 0 && len(sv.samples) < 3 {
		p := makePlan(sv.spec, seed, i, ri == 1, sv.thorough)
		ops := p.Ops
		if len(ops) > 6 {
			ops = ops[:6]
		}
		log := res.Log
		if len(log) > 20 {
			log = log[:20]
		}
		f := p.Faults
		if len(f) > 10 {
			f = f[:10]
		}
		sc := p.Sched
		if len(sc) > 10 {
			sc = sc[:10]
		}
		sv.samples = append(sv.samples, map[string]any{"seed": p.Seed, "index": i, "kind": p.Kind, "ops": ops, "faults": f, "schedule": sc, "history": log})
	}
}

// try executes a candidate replay in a fresh process.
func (sv *supervisor) try(r *Replay) (*Violation, *Result, string) {
	b, _ := json.Marshal(r)
	f, err := os.CreateTemp(sv.work, "try-*.json")
	if err != nil {
		return nil, nil, err.Error()
	}
	name := f.Name()
	f.Write(b)
	f.Close()
	defer os.Remove(name)
	cmd := sv.cmd(r.Race, "exec", name)
	var out bytes.Buffer
	var errb tail
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nil, nil, err.Error()
	}
	timer := time.AfterFunc(170*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	if err != nil {
		v := crashViolation(r.Property, cmd.ProcessState.ExitCode(), errb.String())
		if v == nil {
			return nil, nil, fmt.Sprintf("exit %d: %s", cmd.ProcessState.ExitCode(), errb.String())
		}
		return v, nil, ""
	}
	var res Result
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, nil, err.Error()
	}
	return res.Viol, &res, ""
}

func clone(p *Plan) *Plan { q := *p; return &q }

// minimise removes what the violation does not need, in fresh processes.
func (sv *supervisor) minimise(r *Replay, until time.Time) {
	same := func(c *Replay) bool {
		v, _, _ := sv.try(c)
		return v != nil && v.Class == r.Violation.Class
	}
	// each list is reduced in turn
	lists := []struct {
		n   func() int
		cut func(p *Plan, a, b int)
	}{
		{func() int { return oneIf(r.Plan.RR > 0) }, func(p *Plan, a, b int) { p.RR = 0 }},
		{func() int { return len(r.Plan.Sched) }, func(p *Plan, a, b int) { p.Sched = append(append([]rt.Seg{}, p.Sched[:a]...), p.Sched[b:]...) }},
		{func() int { return len(r.Plan.Faults) }, func(p *Plan, a, b int) { p.Faults = append(append([]Fault{}, p.Faults[:a]...), p.Faults[b:]...) }},
		{func() int { return len(r.Plan.Ops) }, func(p *Plan, a, b int) { p.Ops = append(append([]Op{}, p.Ops[:a]...), p.Ops[b:]...) }},
	}
	if len(r.Prelude) > 0 {
		lists = lists[:0]
		sv.minPrelude(r, same, until)
		return
	}
	for round := 0; round < 2; round++ {
		changed := false
		for _, l := range lists {
			size := l.n()
			for size > 0 && time.Now().Before(until) {
				n := l.n()
				if n == 0 {
					break
				}
				if size > n {
					size = n
				}
				var cands []*Replay
				for a := 0; a < n; a += size {
					b := a + size
					if b > n {
						b = n
					}
					q := clone(r.Plan)
					l.cut(q, a, b)
					c := *r
					c.Plan = q
					cands = append(cands, &c)
				}
				hit := -1
				for k := 0; k < len(cands) && hit < 0 && time.Now().Before(until); k += 8 {
					e := k + 8
					if e > len(cands) {
						e = len(cands)
					}
					ok := make([]bool, e-k)
					var wg sync.WaitGroup
					for j := k; j < e; j++ {
						wg.Add(1)
						go func(j int) { defer wg.Done(); ok[j-k] = same(cands[j]) }(j)
					}
					wg.Wait()
					for j := range ok {
						if ok[j] {
							hit = k + j
							break
						}
					}
				}
				if hit >= 0 {
					r.Plan = cands[hit].Plan
					changed = true
					continue
				}
				size /= 2
			}
		}
		if !changed {
			break
		}
	}
}

func (sv *supervisor) minPrelude(r *Replay, same func(*Replay) bool, until time.Time) {
	size := len(r.Prelude)
	for size > 0 && time.Now().Before(until) {
		hit := false
		for a := 0; a < len(r.Prelude) && time.Now().Before(until); a += size {
			b := a + size
			if b > len(r.Prelude) {
				b = len(r.Prelude)
			}
			c := *r
			c.Prelude = append(append([]*Plan{}, r.Prelude[:a]...), r.Prelude[b:]...)
			if same(&c) {
				r.Prelude = c.Prelude
				hit = true
				break
			}
		}
		if !hit {
			size /= 2
		} else if size > len(r.Prelude) {
			size = len(r.Prelude)
		}
	}
}

func supervise(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	raceBin := fs.String("racebin", "", "")
	work := fs.String("work", "", "scratch directory")
	evidence := fs.String("evidence", "", "evidence file")
	replays := fs.String("replays", "", "directory for replay files")
	known := fs.String("known", "", "known findings file")
	instr := fs.String("instr", "", "report of the instrumenter")
	count := fs.Int("count", 0, "override the number of executions")
	seconds := fs.Int("seconds", 0, "wall clock of the thorough tier / cap of the quick tier")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	fs.Parse(args)
	self, _ := os.Executable()
	sv := &supervisor{prop: *prop, seed: *seed, thorough: *tier == "thorough", bin: self, raceBin: *raceBin, work: *work,
		spec: specs[*prop], start: time.Now(), agg: map[string]int64{}, hist: map[uint64]bool{}, inter: map[uint64]bool{}}
	if sv.spec == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	fmt.Printf("seed %d property %s tier %s\n", *seed, *prop, *tier)
	sv.known = readKnown(*known, *prop)
	sv.raceRuns = sv.spec.QuickRace
	if b, err := os.ReadFile(*instr); err == nil && sv.raceRuns == 0 {
		var in struct {
			Go int `json:"go_statements"`
		}
		if json.Unmarshal(b, &in) == nil && in.Go > 0 {
			sv.raceRuns = 24 + sv.spec.Quick/50 // operations use threads of their own
		}
	}
	w := *workers
	if w > 8 {
		w = 8
	}
	if w < 1 {
		w = 1
	}
	if !sv.thorough {
		limit := *seconds
		if limit == 0 {
			limit = 300
		}
		deadline := sv.start.Add(time.Duration(limit) * time.Second)
		n := sv.spec.Quick
		if *count > 0 {
			n = *count
		}
		nr := sv.raceRuns
		if *count > 0 && nr > *count {
			nr = *count
		}
		var wg sync.WaitGroup
		wr := 0
		if nr > 0 && *raceBin != "" {
			wr = w / 2
			if wr < 1 {
				wr = 1
			}
			wg.Add(1)
			go func() { defer wg.Done(); sv.batch(true, nr, wr, *seed, deadline) }()
		}
		wn := w - wr
		if wn < 1 {
			wn = 1
		}
		sv.batch(false, n, wn, *seed, deadline)
		wg.Wait()
	} else {
		limit := *seconds
		if limit == 0 {
			limit = 1800
		}
		deadline := sv.start.Add(time.Duration(limit) * time.Second)
		for b := uint64(0); time.Now().Before(deadline) && len(sv.viols) == 0 && len(sv.trouble) == 0; b++ {
			bs := *seed + b*1000003
			n, nr := sv.spec.Quick, sv.raceRuns
			var wg sync.WaitGroup
			wr := 0
			if nr > 0 && *raceBin != "" {
				wr = w / 2
				if wr < 1 {
					wr = 1
				}
				wg.Add(1)
				go func() { defer wg.Done(); sv.batch(true, nr, wr, bs, deadline) }()
			}
			wn := w - wr
			if wn < 1 {
				wn = 1
			}
			sv.batch(false, n, wn, bs, deadline)
			wg.Wait()
			for k := range sv.viols {
				if sv.viols[k].i >= 0 {
					sv.viols[k] = sv.viols[k].withSeed(bs)
				}
			}
		}
	}
	return sv.report(*evidence, *replays, *known, *instr, *tier)
}

var batchSeeds = map[int]uint64{}

func (f found) withSeed(s uint64) found { batchSeeds[f.i] = s; return f }

func (sv *supervisor) report(evidence, replays, known, instr, tier string) int {
	wallSearch := time.Since(sv.start).Seconds()
	sort.Slice(sv.viols, func(a, b int) bool {
		if sv.viols[a].race != sv.viols[b].race {
			return !sv.viols[a].race
		}
		return sv.viols[a].i < sv.viols[b].i
	})
	knownKeys := sv.known
	exit := 0
	nviol := 0
	hitKnown := map[string]bool{}
	var confirmed *Replay
	for _, f := range sv.viols {
		if k, ok := knownKeys[f.viol.Class]; ok {
			hitKnown[k] = true
			continue
		}
		nviol++
		if confirmed != nil {
			continue
		}
		bs := sv.seed
		if s, ok := batchSeeds[f.i]; ok {
			bs = s
		}
		r := &Replay{Property: sv.prop, BatchSeed: bs, Index: f.i, Race: f.race, Violation: *f.viol,
			Plan: makePlan(sv.spec, bs, f.i, f.race, sv.thorough)}
		r.Original = [3]int{len(r.Plan.Ops), len(r.Plan.Faults), len(r.Plan.Sched)}
		v, _, terr := sv.try(r)
		if v == nil {
			// it needs executions that preceded it in the same process
			for _, i := range f.prelude {
				r.Prelude = append(r.Prelude, makePlan(sv.spec, bs, i, f.race, sv.thorough))
			}
			v, _, terr = sv.try(r)
		}
		if v == nil {
			sv.trouble = append(sv.trouble, fmt.Sprintf("violation of execution %d (%s: %s) did not reproduce in a fresh process: %s", f.i, f.viol.Class, f.viol.Msg, terr))
			continue
		}
		if k, ok := knownKeys[v.Class]; ok {
			hitKnown[k] = true
			nviol--
			continue
		}
		r.Violation = *v
		sv.minimise(r, time.Now().Add(60*time.Second))
		v2, res, _ := sv.try(r)
		if v2 == nil {
			sv.trouble = append(sv.trouble, "minimised replay did not reproduce")
			continue
		}
		r.Violation = *v2
		if res != nil {
			r.Log = res.Log
		}
		confirmed = r
	}
	for _, k := range sortedKeys(hitKnown) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", sv.prop, k)
	}
	if confirmed != nil {
		os.MkdirAll(replays, 0o755)
		path := filepath.Join(replays, fmt.Sprintf("%s-seed%d-%d.json", sv.prop, confirmed.BatchSeed, confirmed.Index))
		b, _ := json.MarshalIndent(confirmed, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s\n", confirmed.Violation.Class, confirmed.Violation.Msg)
		fmt.Printf("minimised from %v to %d ops, %d faults, %d schedule segments\n", confirmed.Original, len(confirmed.Plan.Ops), len(confirmed.Plan.Faults), len(confirmed.Plan.Sched))
		fmt.Printf("VIOLATION property=%s replay=%s\n", sv.prop, path)
		exit = 1
	}
	if exit == 0 && len(sv.trouble) > 0 {
		exit = 2
	}
	if exit == 0 {
		sv.recheck()
	}
	for _, t := range sv.trouble {
		fmt.Fprintln(os.Stderr, "TROUBLE:", t)
	}
	sv.writeEvidence(evidence, instr, tier, wallSearch, nviol)
	fmt.Printf("runs %d (+%d under the race detector), distinct histories %d, interleavings %d, %.1f s, exit %d\n", sv.runs[0], sv.runs[1], len(sv.hist), len(sv.inter), wallSearch, exit)
	return exit
}

// recheck re-executes some plans in fresh processes and compares the event histories.
func (sv *supervisor) recheck() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := 8
	for k := 0; k < n; k++ {
		race := k%4 == 3 && sv.runs[1] > 0
		ri := 0
		if race {
			ri = 1
		}
		i := (k * 7919) % (sv.planned[ri] + 1)
		want, ok := sv.hists[ri][i]
		if !ok {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &Replay{Property: sv.prop, Race: race, Plan: makePlan(sv.spec, sv.seed, i, race, sv.thorough)}
			_, res, _ := sv.try(r)
			mu.Lock()
			defer mu.Unlock()
			sv.rechecks++
			if res == nil || res.Stats.Hist^res.Stats.Inter*3 != want {
				sv.mismatch++
				fmt.Fprintf(os.Stderr, "WARNING: execution %d (race %v) was not repeated exactly\n", i, race)
			}
		}()
	}
	wg.Wait()
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// readKnown reads the lines "known: property=<id> key=<class> <text>".
func readKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
		k := strings.SplitN(rest, " ", 2)
		text := k[0]
		if len(k) > 1 {
			text = k[1]
		}
		out[k[0]] = text
	}
	return out
}

func (sv *supervisor) writeEvidence(path, instr, tier string, wall float64, nviol int) {
	if path == "" {
		return
	}
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range sv.agg {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = v
		} else {
			probes[k] = v
		}
	}
	runs := sv.runs[0] + sv.runs[1]
	perHour := 0.0
	if wall > 0 {
		perHour = float64(runs) / wall * 3600
	}
	var in any
	if b, err := os.ReadFile(instr); err == nil {
		json.Unmarshal(b, &in)
	}
	samples := sv.samples
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":                        runs,
		"distinct_nontrivial":                len(sv.hist),
		"rule":                               sv.spec.Rule + " Two executions are distinct when their event histories (operations, results, deliveries, verdicts) differ.",
		"samples":                            samples,
		"simulated_runs":                     sv.runs[0],
		"simulated_runs_race_detector":       sv.runs[1],
		"nontrivial_runs":                    sv.nontriv,
		"runs_per_hour":                      int64(perHour),
		"seeds_per_hour":                     int64(perHour),
		"simulated_time_s":                   float64(sv.simUs) / 1e6,
		"scheduling_points_passed":           sv.ticks,
		"faults_injected":                    faults,
		"probes":                             probes,
		"distinct_interleavings":             len(sv.inter),
		"interleaving_measure":               "hash of the sequence of (thread, scheduling point) at which control changed hands",
		"real_components":                    sv.spec.Real,
		"stub_components":                    sv.spec.Stub,
		"instrumentation":                    in,
		"determinism_rechecked":              sv.rechecks,
		"determinism_mismatches":             sv.mismatch,
		"stopped_by_wall_clock_before_count": sv.capped,
		"worker_cpu_s":                       sv.cpuS,
	}
	ev := map[string]any{
		"property": sv.prop, "tier": tier, "seed": sv.seed, "level": "exploration", "coverage": cov,
		"assumptions": sv.spec.Assume, "wall_s": time.Since(sv.start).Seconds(), "violations": nviol,
	}
	if sv.spec.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// replayMain re-executes a replay file: exit 1 when the violation reproduces.
func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	raceBin := fs.String("racebin", "", "")
	work := fs.String("work", os.TempDir(), "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	sv := &supervisor{prop: r.Property, bin: self, raceBin: *raceBin, work: *work}
	v, res, terr := sv.try(&r)
	if res != nil {
		for _, l := range res.Log {
			fmt.Println(l)
		}
	}
	if v != nil {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
		return 1
	}
	if terr != "" {
		fmt.Fprintln(os.Stderr, terr)
		return 2
	}
	fmt.Println("no violation")
	return 0
}

// selftest executes batches at two worker counts and compares every history.
func selftest(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	raceBin := fs.String("racebin", "", "")
	work := fs.String("work", os.TempDir(), "")
	count := fs.Int("count", 40, "")
	seeds := fs.Int("seeds", 2, "")
	only := fs.String("prop", "", "")
	fs.Parse(args)
	self, _ := os.Executable()
	bad := 0
	for _, id := range specIDs() {
		if *only != "" && *only != id {
			continue
		}
		for seed := uint64(1); seed <= uint64(*seeds); seed++ {
			var h [2][2]map[int]uint64
			for k, w := range []int{3, 8} {
				sv := &supervisor{prop: id, seed: seed, bin: self, raceBin: *raceBin, work: *work, spec: specs[id], start: time.Now(),
					agg: map[string]int64{}, hist: map[uint64]bool{}, inter: map[uint64]bool{}}
				sv.batch(false, *count, w, seed, time.Now().Add(time.Hour))
				if specs[id].QuickRace > 0 && *raceBin != "" {
					sv.batch(true, *count/4, w, seed, time.Now().Add(time.Hour))
				}
				h[k] = sv.hists
				for _, t := range sv.trouble {
					fmt.Println("TROUBLE", id, t)
					bad++
				}
				for _, v := range sv.viols {
					fmt.Println("VIOL", id, v.i, v.race, v.viol.Class, v.viol.Msg)
				}
			}
			n := 0
			for ri := 0; ri < 2; ri++ {
				for i, x := range h[0][ri] {
					n++
					if h[1][ri][i] != x {
						fmt.Printf("MISMATCH %s seed %d execution %d race %d\n", id, seed, i, ri)
						bad++
					}
				}
			}
			fmt.Printf("%s seed %d: %d executions compared\n", id, seed, n)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 1<<16 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.buf) }

var _ io.Writer = (*tail)(nil)

func oneIf(b bool) int {
	if b {
		return 1
	}
	return 0
}
