// Command h is the simulation harness. As master it distributes batches of seeded runs
// over worker processes (itself), confirms and minimises what fails, and writes the
// evidence; -replay FILE re-executes one recorded violation.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/rt"
	_ "verifsim/sites"

	"github.com/sirupsen/logrus"
)

type Check struct {
	ID    string
	Run   func(x *X)
	Quick int64 // runs of the quick tier
	Thor  int64 // runs of the thorough tier
	Batch int64
	Level string
	Rule  string
	// Real and Stub say which components run as shipped and which are simulated
	Real, Stub []string
	Assume     []string
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Batch == 0 {
		c.Batch = 200
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

type Found struct {
	Idx     int64
	Kind    string
	Msg     string
	Choices Choices
	Trace   []string
	Died    bool
}

type BatchOut struct {
	From, To  int64
	Runs      int64
	Steps     int64
	SimNanos  int64
	FSOps     int64
	Accesses  int64
	MapIters  int64
	Switches  int64
	Fired     map[string]int
	Cover     map[string]int
	NT        int64
	CaseHash  []uint64 // of non-trivial runs
	States    []uint64
	Scheds    []uint64
	Found     *Found
	Samples   [][]string
	AllHashes []uint64 `json:",omitempty"` // log hash per run, for the determinism test
	AllSteps  []int64  `json:",omitempty"` // and how many steps it took
}

type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"verif_seed"`
	Tier     string   `json:"tier"`
	RunSeed  uint64   `json:"run_seed"`
	Run      int64    `json:"run"`
	Prefix   []int64  `json:"earlier_runs_in_same_process,omitempty"`
	Choices  *Choices `json:"choices,omitempty"` // nil: the unminimised run of run_seed
	Original int      `json:"choices_before_minimising"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"violation"`
	Trace    []string `json:"trace"`
	LogHash  string   `json:"event_log_hash"`
}

func runSeed(id string, seed uint64, idx int64) uint64 {
	h := fnv.New64a()
	io.WriteString(h, id)
	return rt.Mix(rt.Mix(h.Sum64()^seed*0x9e3779b97f4a7c15) + uint64(idx)*0xd1342543de82ef95)
}

// execute performs one run and returns the violation, if any.
func execute(c *Check, x *X) (v *Violation) {
	defer func() {
		e := recover()
		if x.S != nil {
			x.S.Shutdown()
		}
		rt.S = nil
		if e != nil {
			if vv, ok := e.(*Violation); ok {
				v = vv
				return
			}
			panic(e)
		}
	}()
	x.NewSim()
	c.Run(x)
	return nil
}

func (x *X) logHash() uint64 {
	h := uint64(14695981039346656037)
	for _, s := range x.sims {
		for _, v := range [...]uint64{s.LogHash, s.SchedHash} {
			h ^= v
			h *= 1099511628211
		}
	}
	return h
}

func (x *X) steps() (n int64) {
	for _, s := range x.sims {
		n += s.Steps
	}
	return n
}

var (
	fCheck    = flag.String("check", "", "")
	fTier     = flag.String("tier", "quick", "")
	fSeed     = flag.Uint64("seed", 1, "")
	fEvidence = flag.String("evidence", "", "")
	fReplays  = flag.String("replays", "", "")
	fWorker   = flag.Bool("worker", false, "")
	fFrom     = flag.Int64("from", 0, "")
	fTo       = flag.Int64("to", 0, "")
	fHashes   = flag.Bool("hashes", false, "")
	fReplay   = flag.String("replay", "", "")
	fMin      = flag.String("minimise", "", "")
	fMinSecs  = flag.Int("minsecs", 20, "")
	fRuns     = flag.Int64("runs", 0, "")
	fCap      = flag.Int("cap", 0, "")
	fList     = flag.Bool("list", false, "")
	fSelftest = flag.Bool("selftest", false, "")
	fVerbose  = flag.Bool("v", false, "")
)

func main() {
	flag.Parse()
	logrus.SetOutput(io.Discard)
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	tryReset()
	if *fList {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	switch {
	case *fReplay != "":
		os.Exit(doReplay(*fReplay))
	case *fMin != "":
		os.Exit(doMinimise(*fMin))
	case *fWorker:
		worker()
	default:
		c := checks[*fCheck]
		if c == nil {
			fmt.Fprintf(os.Stderr, "unknown check %q\n", *fCheck)
			os.Exit(2)
		}
		os.Exit(master(c))
	}
}

// tryReset finds out whether the state of packages can be made anew; if not, it lasts
// from run to run.
func tryReset() {
	defer func() {
		rt.S = nil
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "package state cannot be reset: %v\n", e)
			exe, err := os.Executable()
			if err == nil && !rt.NoReset {
				err = syscall.Exec(exe, os.Args, append(os.Environ(), "VERIFSIM_NORESET=1"))
			}
			panic(fmt.Sprint(e, err))
		}
	}()
	s := rt.New()
	s.Begin()
	s.Shutdown()
}

func worker() {
	c := checks[*fCheck]
	runtime.GOMAXPROCS(2)
	out := &BatchOut{From: *fFrom, To: *fTo, Fired: map[string]int{}, Cover: map[string]int{}}
	states, scheds, cases := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	w := bufio.NewWriter(os.Stdout)
	for i := *fFrom; i < *fTo; i++ {
		fmt.Fprintf(os.Stdout, "R %d\n", i)
		x := newX(c.ID, i, runSeed(c.ID, *fSeed, i))
		v := execute(c, x)
		out.Runs++
		for _, s := range x.sims {
			out.Steps += s.Steps
			out.SimNanos += int64(s.Now)
			out.FSOps += s.FS.Ops
			out.Accesses += s.Accesses
			out.MapIters += s.MapIter
			out.Switches += int64(len(s.Switches))
			for k, n := range s.FS.Fired {
				out.Fired[k] += n
			}
			if len(s.Switches) > 0 {
				scheds[s.SchedHash] = struct{}{}
			}
		}
		for k, n := range x.Cover {
			out.Cover[k] += n
		}
		for h := range x.States {
			states[h] = struct{}{}
		}
		if x.NonTrivial {
			out.NT++
			cases[x.logHash()] = struct{}{}
			if len(out.Samples) < 1 && len(x.trace) > 3 {
				t := x.trace
				if len(t) > 40 {
					t = t[:40]
				}
				out.Samples = append(out.Samples, t)
			}
		}
		if *fHashes {
			out.AllHashes = append(out.AllHashes, x.logHash())
			out.AllSteps = append(out.AllSteps, x.steps())
		}
		if v != nil {
			out.Found = &Found{Idx: i, Kind: v.Kind, Msg: v.Msg, Choices: x.choices(), Trace: x.trace}
			break
		}
	}
	out.CaseHash, out.States, out.Scheds = keys(cases), keys(states), keys(scheds)
	b, _ := json.Marshal(out)
	w.WriteString("J ")
	w.Write(b)
	w.WriteString("\n")
	w.Flush()
}

func keys(m map[uint64]struct{}) []uint64 {
	r := make([]uint64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// spawn runs a batch in a child process. A batch that dies or stalls is reported as
// Died with the run it was in.
func spawn(c *Check, from, to int64, limit time.Duration, hashes bool) (*BatchOut, string, error) {
	args := []string{"-worker", "-check", c.ID, "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to)}
	if hashes {
		args = append(args, "-hashes")
	}
	cmd := exec.Command(os.Args[0], args...)
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{w: &eb, n: 20000}
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return nil, "", err
	}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	var mu sync.Mutex
	last := time.Now()
	killed := false
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				mu.Lock()
				if time.Since(last) > limit {
					killed = true
					cmd.Process.Kill()
				}
				mu.Unlock()
			}
		}
	}()
	rd := bufio.NewReaderSize(pipe, 1<<20)
	cur := from
	var out *BatchOut
	for {
		l, err := rd.ReadString('\n')
		if strings.HasPrefix(l, "R ") {
			cur, _ = strconv.ParseInt(strings.TrimSpace(l[2:]), 10, 64)
			mu.Lock()
			last = time.Now()
			mu.Unlock()
		} else if strings.HasPrefix(l, "J ") {
			out = new(BatchOut)
			if e := json.Unmarshal([]byte(l[2:]), out); e != nil {
				out = nil
			}
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	close(stop)
	if out != nil && werr == nil {
		return out, "", nil
	}
	why := "the process died"
	if killed {
		why = fmt.Sprintf("no progress within %v", limit)
	}
	msg := why
	for _, l := range strings.Split(eb.String(), "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") {
			msg += ": " + l
			break
		}
	}
	return &BatchOut{From: from, To: to, Found: &Found{Idx: cur, Kind: "died", Msg: msg, Died: true}}, eb.String(), nil
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	n := len(p)
	if l.n <= 0 {
		return n, nil
	}
	if len(p) > l.n {
		p = p[:l.n]
	}
	l.n -= len(p)
	l.w.Write(p)
	return n, nil
}

func master(c *Check) int {
	start := time.Now()
	runs, capS := c.Quick, 100
	if *fTier == "thorough" {
		runs, capS = c.Thor, 780
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fCap > 0 {
		capS = *fCap
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var mu sync.Mutex
	next := int64(0)
	var outs []*BatchOut
	stop, failed := false, false
	stderrs := map[int64]string{}
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= runs || time.Since(start) > time.Duration(capS)*time.Second {
					mu.Unlock()
					return
				}
				from := next
				to := from + c.Batch
				if to > runs {
					to = runs
				}
				next = to
				mu.Unlock()
				o, se, err := spawn(c, from, to, 60*time.Second, false)
				mu.Lock()
				if err != nil {
					fmt.Fprintln(os.Stderr, "spawn:", err)
					stop, failed = true, true
				} else {
					outs = append(outs, o)
					if o.Found != nil {
						stop = true
						stderrs[o.From] = se
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(outs, func(i, j int) bool { return outs[i].From < outs[j].From })
	explore := time.Since(start)
	if len(outs) == 0 || failed {
		fmt.Fprintln(os.Stderr, "a batch could not be run")
		return 2
	}
	var found *Found
	var batch *BatchOut
	for _, o := range outs {
		if o.Found != nil {
			found, batch = o.Found, o
			break
		}
	}
	det := -1
	if found == nil {
		det = determinism(c, outs)
		if det == 0 {
			fmt.Fprintln(os.Stderr, "the simulation is not deterministic: two executions of the same seeds differ")
			return 2
		}
	}
	code := 0
	var rp *Replay
	if found != nil {
		rp = confirm(c, batch, found)
		if rp == nil {
			fmt.Fprintf(os.Stderr, "run %d of %s reported %s: %s, which a fresh process did not reproduce\n%s\n", found.Idx, c.ID, found.Kind, found.Msg, stderrs[batch.From])
			code = 2
		} else {
			code = 1
		}
	}
	writeEvidence(c, outs, start, explore, det, code)
	if code == 1 {
		path := filepath.Join(*fReplays, fmt.Sprintf("%s-seed%d-run%d.json", c.ID, *fSeed, rp.Run))
		os.MkdirAll(*fReplays, 0755)
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s\n", rp.Kind, rp.Msg)
		n := len(rp.Trace)
		t := rp.Trace
		if n > 30 {
			t = t[n-30:]
		}
		for _, l := range t {
			fmt.Println("  | " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	} else if code == 0 {
		var runs int64
		for _, o := range outs {
			runs += o.Runs
		}
		fmt.Printf("%s %s: held on %d simulated runs in %.1fs\n", c.ID, *fTier, runs, time.Since(start).Seconds())
	}
	return code
}

// uneven counts the runs that were executed again with the same events and schedule but
// another number of steps (code that looks at where objects lie in memory, say).
var uneven int

// determinism re-executes one batch in a new process and compares event-log hashes.
func determinism(c *Check, outs []*BatchOut) int {
	from := outs[len(outs)/2].From
	to := from + 40
	if to > outs[len(outs)/2].To {
		to = outs[len(outs)/2].To
	}
	a, _, e1 := spawn(c, from, to, 60*time.Second, true)
	b, _, e2 := spawn(c, from, to, 60*time.Second, true)
	if e1 != nil || e2 != nil || len(a.AllHashes) != len(b.AllHashes) || len(a.AllHashes) == 0 {
		return 0
	}
	for i := range a.AllHashes {
		if a.AllHashes[i] != b.AllHashes[i] {
			fmt.Fprintf(os.Stderr, "run %d differs\n", from+int64(i))
			return 0
		}
		if a.AllSteps[i] != b.AllSteps[i] {
			uneven++
		}
	}
	return len(a.AllHashes)
}

// child runs this binary on a replay file and reports what it saw.
func child(mode string, r *Replay, extra ...string) (int, *Replay) {
	dir, err := os.MkdirTemp("", "verifreplay")
	if err != nil {
		return 2, nil
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "r.json")
	b, _ := json.Marshal(r)
	os.WriteFile(f, b, 0644)
	cmd := exec.Command(os.Args[0], append([]string{mode, f, "-seed", fmt.Sprint(*fSeed)}, extra...)...)
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return 2, nil
	}
	go func() { done <- cmd.Wait() }()
	limit := 60 * time.Second
	if mode == "-minimise" {
		limit = 150 * time.Second
	}
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return 3, nil
	}
	code := cmd.ProcessState.ExitCode()
	nb, err := os.ReadFile(f + ".out")
	if err != nil {
		return code, nil
	}
	o := new(Replay)
	if json.Unmarshal(nb, o) != nil {
		return code, nil
	}
	return code, o
}

// confirm reproduces a violation in fresh processes, minimises it and returns the
// replay; nil when it does not reproduce.
func confirm(c *Check, b *BatchOut, f *Found) *Replay {
	r := &Replay{Property: c.ID, Seed: *fSeed, Tier: *fTier, RunSeed: runSeed(c.ID, *fSeed, f.Idx), Run: f.Idx, Kind: f.Kind, Msg: f.Msg, Trace: f.Trace, Original: f.Choices.len()}
	if f.Died {
		// run it alone; then with what came before
		code, o := child("-replay", r)
		if o != nil && code == 1 {
			return o
		}
		if code != 0 {
			r.Msg += " (again in a fresh process)"
			return r
		}
		for i := b.From; i < f.Idx; i++ {
			r.Prefix = append(r.Prefix, i)
		}
		if code, o := child("-replay", r); code == 1 && o != nil {
			return o
		} else if code != 0 {
			return r
		}
		return nil
	}
	r.Choices = &f.Choices
	code, o := child("-replay", r)
	if code != 1 || o == nil || o.Kind != r.Kind {
		for i := b.From; i < f.Idx; i++ {
			r.Prefix = append(r.Prefix, i)
		}
		code, o = child("-replay", r)
		if code != 1 || o == nil {
			return nil
		}
		r.Kind, r.Msg = o.Kind, o.Msg
		// drop earlier runs while the violation stays
		t0 := time.Now()
		for step := len(r.Prefix); step >= 1; step /= 2 {
			for i := 0; i < len(r.Prefix) && time.Since(t0) < 25*time.Second; {
				end := i + step
				if end > len(r.Prefix) {
					end = len(r.Prefix)
				}
				t := *r
				t.Prefix = append(append([]int64(nil), r.Prefix[:i]...), r.Prefix[end:]...)
				if code, o := child("-replay", &t); code == 1 && o != nil && o.Kind == r.Kind {
					r.Prefix = t.Prefix
				} else {
					i = end
				}
			}
		}
		if code, o := child("-replay", r); code == 1 && o != nil {
			return o
		}
		return nil
	}
	code, m := child("-minimise", r, "-minsecs", fmt.Sprint(*fMinSecs))
	if m != nil {
		m.Original = r.Original
		if code, o2 := child("-replay", m); code == 1 && o2 != nil && o2.Kind == r.Kind {
			return o2
		}
	}
	return o
}

func load(file string) (*Replay, *Check) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := new(Replay)
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c := checks[r.Property]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		os.Exit(2)
	}
	return r, c
}

func (r *Replay) runOnce(c *Check) (*X, *Violation) {
	var x *X
	if r.Choices != nil {
		x = replayX(c.ID, r.Run, *r.Choices)
	} else {
		x = newX(c.ID, r.Run, r.RunSeed)
	}
	v := execute(c, x)
	return x, v
}

func doReplay(file string) int {
	runtime.GOMAXPROCS(2)
	r, c := load(file)
	for _, i := range r.Prefix {
		execute(c, newX(c.ID, i, runSeed(c.ID, r.Seed, i)))
	}
	x, v := r.runOnce(c)
	if *fVerbose || !strings.HasSuffix(file, "r.json") {
		for _, l := range x.trace {
			fmt.Println("  | " + l)
		}
	}
	if v == nil {
		if !strings.HasSuffix(file, "r.json") {
			fmt.Println("no violation")
		}
		return 0
	}
	ch := x.choices()
	h := fmt.Sprintf("%016x", x.logHash())
	if !strings.HasSuffix(file, "r.json") { // a replay by hand
		same := v.Kind == r.Kind && v.Msg == r.Msg && (r.LogHash == "" || h == r.LogHash)
		fmt.Printf("%s: %s\nreproduced exactly: %v\nVIOLATION property=%s replay=%s\n", v.Kind, v.Msg, same, r.Property, file)
		return 1
	}
	r.Kind, r.Msg, r.Trace, r.Choices = v.Kind, v.Msg, x.trace, &ch
	r.LogHash = h
	b, _ := json.Marshal(r)
	os.WriteFile(file+".out", b, 0644)
	return 1
}

func doMinimise(file string) int {
	runtime.GOMAXPROCS(2)
	r, c := load(file)
	deadline := time.Now().Add(time.Duration(*fMinSecs) * time.Second)
	best := *r.Choices
	kind := r.Kind
	try := func(ch Choices) bool {
		x := replayX(c.ID, r.Run, ch)
		v := execute(c, x)
		if v == nil || v.Kind != kind {
			return false
		}
		rec := x.choices()
		if smaller(rec, best) {
			best = rec
			return true
		}
		return false
	}
	get := func(ch *Choices, i int) *[]uint32 {
		return [...]*[]uint32{&ch.G, &ch.SC, &ch.F, &ch.M}[i]
	}
	with := func(i int, l []uint32) Choices {
		ch := best
		*get(&ch, i) = l
		return ch
	}
	for round := 0; round < 6; round++ {
		improved := false
		for _, st := range []int{3, 2, 1, 0} {
			// delete blocks
			for size := len(*get(&best, st)); size >= 1; size /= 2 {
				for i := 0; i < len(*get(&best, st)); {
					if time.Now().After(deadline) {
						goto out
					}
					l := *get(&best, st)
					end := i + size
					if end > len(l) {
						end = len(l)
					}
					if try(with(st, append(append([]uint32(nil), l[:i]...), l[end:]...))) {
						improved = true
					} else {
						i += size
					}
				}
			}
			// lower values
			for i := 0; i < len(*get(&best, st)); i++ {
				l := *get(&best, st)
				for _, nv := range []uint32{0, l[i] / 2, l[i] - 1} {
					if time.Now().After(deadline) {
						goto out
					}
					if l[i] == 0 || nv >= l[i] || i >= len(*get(&best, st)) {
						continue
					}
					nl := append([]uint32(nil), *get(&best, st)...)
					if i >= len(nl) {
						break
					}
					nl[i] = nv
					if try(with(st, nl)) {
						improved = true
						break
					}
				}
			}
		}
		if !improved {
			break
		}
	}
out:
	r.Choices = &best
	b, _ := json.Marshal(r)
	os.WriteFile(file+".out", b, 0644)
	return 1
}

func smaller(a, b Choices) bool {
	if a.len() != b.len() {
		return a.len() < b.len()
	}
	sum := func(c Choices) (t uint64) {
		for _, l := range [][]uint32{c.G, c.SC, c.F, c.M} {
			for _, v := range l {
				t += uint64(v)
			}
		}
		return
	}
	return sum(a) < sum(b)
}
