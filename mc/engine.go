//go:build go1.22

// Exploration engine: exhaustive case enumeration by worker processes, confirmation, replay, evidence.

package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Rec collects what one worker covered.
type Rec struct {
	evals, trans, traces int64
	states               map[uint64]struct{}
	distinct             map[uint64]struct{}
	samples              []string
	counts               map[string]int64
	quiet                bool // replaying: do not count
	artefact             []byte
	note                 string
	key                  string
}

func newRec() *Rec {
	return &Rec{states: map[uint64]struct{}{}, distinct: map[uint64]struct{}{}, counts: map[string]int64{}}
}

// State notes a visited model state.
func (r *Rec) State(h uint64) {
	if len(r.states) < 4_000_000 {
		r.states[h] = struct{}{}
	}
}

// Trans counts executed transitions (operations run on both the model and the implementation).
func (r *Rec) Trans(n int) { r.trans += int64(n) }

// Trace counts complete model traces replayed on the implementation.
func (r *Rec) Trace(n int) { r.traces += int64(n) }

// Eval counts executions.
func (r *Rec) Eval(n int) { r.evals += int64(n) }

// Distinct notes a non-trivial case.
func (r *Rec) Distinct(h uint64) {
	if len(r.distinct) < 4_000_000 {
		r.distinct[h] = struct{}{}
	}
}

// Count adds to a named counter shown in the evidence.
func (r *Rec) Count(name string, n int) { r.counts[name] += int64(n) }

// Sample keeps a few written out cases.
func (r *Rec) Sample(f string, a ...interface{}) {
	if len(r.samples) < 2 {
		r.samples = append(r.samples, r.key+": "+fmt.Sprintf(f, a...))
	}
}

// Input remembers the bytes of the case for the replay artefact.
func (r *Rec) Input(b []byte) { r.artefact = b }

// Case is one enumerated unit. Run must be self-contained and deterministic.
type Case struct {
	Key string
	Run func(r *Rec) error
}

// Ctx is given to generators.
type Ctx struct {
	Tier  string
	emit  func(Case)
	stop  func() bool
	Props map[string]interface{} // extra evidence (bounds)
}

// Thorough tells the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick selects a bound by tier.
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Emit adds a case.
func (c *Ctx) Emit(key string, run func(r *Rec) error) { c.emit(Case{key, run}) }

// Bound documents a bound in the evidence.
func (c *Ctx) Bound(name string, v interface{}) { c.Props[name] = v }

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	Serial bool // run cases on one worker
	Gen    func(c *Ctx)
}

var checks = map[string]*Check{}

var slowLog = os.Getenv("VERIF_SLOW") != "" // for tuning only: prints each case's duration

func register(c *Check) { checks[c.ID] = c }

func fatalExit(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "verifmc: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		fatalExit("usage: run ID TIER VERIFDIR | replay FILE | list ID TIER")
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2], os.Args[3], os.Args[4]))
	case "worker":
		w, _ := strconv.Atoi(os.Args[6])
		os.Exit(runWorker(os.Args[2], os.Args[3], os.Args[4], os.Args[5], w))
	case "confirm":
		n, _ := strconv.Atoi(os.Args[5])
		os.Exit(runOne(os.Args[2], os.Args[3], os.Args[4], n))
	case "history":
		os.Exit(runHistory(os.Args[2], os.Args[3], os.Args[4]))
	case "one":
		if p := os.Getenv("VERIF_PROFILE"); p != "" { // for tuning only
			if f, err := os.Create(p); err == nil && pprof.StartCPUProfile(f) == nil {
				c := runOne(os.Args[2], os.Args[3], os.Args[4], 1)
				pprof.StopCPUProfile()
				os.Exit(c)
			}
		}
		os.Exit(runOne(os.Args[2], os.Args[3], os.Args[4], 1))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		c := mustCheck(os.Args[2])
		n := 0
		c.Gen(&Ctx{Tier: os.Args[3], Props: map[string]interface{}{}, stop: func() bool { return false }, emit: func(k Case) {
			fmt.Println(k.Key)
			n++
		}})
		fmt.Println("cases:", n)
	case "instrument":
		os.Exit(instrumentMain(os.Args[2], os.Args[3], os.Args[4], len(os.Args) > 5 && os.Args[5] == "maps"))
	case "helper":
		os.Exit(helperMain(os.Args[2:]))
	default:
		fatalExit("unknown mode %s", os.Args[1])
	}
}

func mustCheck(id string) *Check {
	c := checks[id]
	if c == nil {
		fatalExit("no check %s", id)
	}
	return c
}

// guarded runs a case and turns panics into errors.
func guarded(c Case, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	r.key = c.Key
	return c.Run(r)
}

type finding struct{ prop, key, what string }

func knownFindings(verif string) []finding {
	var out []finding
	f, err := os.Open(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		p := strings.SplitN(l, " ", 3)
		if len(p) == 3 && strings.HasPrefix(p[1], "key=") {
			out = append(out, finding{p[0], strings.TrimPrefix(p[1], "key="), p[2]})
		}
	}
	return out
}

func cpuSeconds() float64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return float64(u.Utime.Sec) + float64(u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func tierLimit(tier string) time.Duration {
	d := 350 * time.Second
	if tier == "thorough" {
		d = 700 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			d = time.Duration(n) * time.Second
		}
	}
	return d
}

// Workers are processes: the library never runs concurrently with itself except where a check wants it to, and what a
// worker did before a failure is a list of cases that can be run again. The cases are enumerated by every worker in
// the same order; shared memory says which is the next one nobody has claimed.

// control is the memory shared by the supervisor and its workers.
type control struct{ next, minFail *int64 }

func openControl(path string) control {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fatalExit("%v", err)
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		fatalExit("%v", err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalExit("%v", err)
	}
	return control{(*int64)(unsafe.Pointer(&m[0])), (*int64)(unsafe.Pointer(&m[64]))}
}

const never = int64(1) << 62

// failure is what a worker reports about a case.
type failure struct {
	Seq     int64
	Key     string
	Err     string
	Data    []byte
	Runaway bool
}

// workerStats is what a worker reports at its end.
type workerStats struct {
	Evals, Trans, Traces int64
	Counts               map[string]int64
	Samples              []string
	Props                map[string]interface{}
	Generated            int64
	Capped               bool
	KnownHit             []string
}

func workerFile(dir, what string, w int) string {
	return filepath.Join(dir, fmt.Sprintf("%s.%d", what, w))
}

func limitProcess() {
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(400)
}

// monitor ends the process when the current case runs away (time or memory); nothing here is a short wall-clock oracle.
func monitor(began *int64, tick *int64, runaway func(why string)) {
	var seen int64
	var cpuAt float64
	for sub := 1; ; sub++ {
		time.Sleep(100 * time.Millisecond)
		if sub%5 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 5<<30 {
				runaway("memory use exceeds 5 GB")
			}
		}
		if sub%10 == 0 {
			now := atomic.AddInt64(tick, 1)
			b := atomic.LoadInt64(began)
			if b == 0 || b != seen {
				seen = b
				cpuAt = cpuSeconds()
				continue
			}
			if now-b > 200 && cpuSeconds()-cpuAt > 100 || now-b > 450 {
				runaway("does not terminate")
			}
		}
	}
}

// runWorker is worker w: it claims and runs cases until none is left, one fails or the time is up.
func runWorker(id, tier, verif, dir string, w int) int {
	chk := mustCheck(id)
	limitProcess()
	ctl := openControl(filepath.Join(dir, "control"))
	hist, err := os.Create(workerFile(dir, "history", w))
	if err != nil {
		fatalExit("%v", err)
	}
	deadline := time.Now().Add(tierLimit(tier))
	known := map[string]string{}
	for _, k := range knownFindings(verif) {
		if k.prop == id {
			known[k.key] = k.what
		}
	}
	st := workerStats{Props: map[string]interface{}{}}
	r := newRec()
	var began, tick int64 = 0, 1
	var cur Case
	var curSeq int64
	report := func(f failure) {
		b, _ := json.Marshal(f)
		if err := os.WriteFile(workerFile(dir, "failure", w), b, 0o600); err != nil {
			fatalExit("%v", err)
		}
		for {
			m := atomic.LoadInt64(ctl.minFail)
			if f.Seq >= m || atomic.CompareAndSwapInt64(ctl.minFail, m, f.Seq) {
				return
			}
		}
	}
	go monitor(&began, &tick, func(why string) {
		report(failure{Seq: curSeq, Key: cur.Key, Err: why, Runaway: true})
		os.Exit(5)
	})
	claimed := atomic.AddInt64(ctl.next, 1) - 1
	seq := int64(-1)
	failed := false
	ctx := &Ctx{Tier: tier, Props: st.Props}
	ctx.stop = func() bool {
		if !st.Capped && time.Now().After(deadline) {
			st.Capped = true
		}
		return st.Capped || failed || seq > atomic.LoadInt64(ctl.minFail)
	}
	ctx.emit = func(c Case) {
		if ctx.stop() {
			return
		}
		seq++
		st.Generated++
		if seq != claimed {
			return
		}
		if seq > atomic.LoadInt64(ctl.minFail) {
			return
		}
		cur, curSeq = c, seq
		fmt.Fprintf(hist, "%d\t%s\n", seq, c.Key)
		r.artefact = nil
		atomic.StoreInt64(&began, atomic.LoadInt64(&tick))
		t0 := time.Now()
		err := guarded(c, r)
		if slowLog {
			fmt.Printf("%8.3fs %s\n", time.Since(t0).Seconds(), c.Key)
		}
		atomic.StoreInt64(&began, 0)
		claimed = atomic.AddInt64(ctl.next, 1) - 1
		if err == nil {
			if len(r.samples) < 2 {
				r.samples = append(r.samples, c.Key)
			}
			return
		}
		if what, ok := known[c.Key]; ok {
			st.KnownHit = append(st.KnownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, what))
			return
		}
		failed = true
		data := r.artefact
		if len(data) > 1<<20 {
			data = nil
		}
		report(failure{Seq: seq, Key: c.Key, Err: err.Error(), Data: data})
	}
	chk.Gen(ctx)
	st.Evals, st.Trans, st.Traces, st.Counts, st.Samples = r.evals, r.trans, r.traces, r.counts, r.samples
	b, err := json.Marshal(st)
	if err != nil {
		fatalExit("stats: %v", err)
	}
	writeHashes(workerFile(dir, "states", w), r.states)
	writeHashes(workerFile(dir, "distinct", w), r.distinct)
	if err := os.WriteFile(workerFile(dir, "stats", w), b, 0o600); err != nil {
		fatalExit("stats: %v", err)
	}
	return 0
}

func writeHashes(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	if err := os.WriteFile(path, b, 0o600); err != nil {
		fatalExit("stats: %v", err)
	}
}

func unionSize(dir, what string, workers int) int {
	var all []uint64
	for w := 0; w < workers; w++ {
		b, _ := os.ReadFile(workerFile(dir, what, w))
		for ; len(b) >= 8; b = b[8:] {
			all = append(all, binary.LittleEndian.Uint64(b))
		}
	}
	slices.Sort(all)
	return len(slices.Compact(all))
}

// total is what all workers covered.
type total struct {
	workerStats
	states, distinct int
}

// supervise runs the check and confirms what it finds. A failing case is run again on its own in a new process; if it
// does not fail there, everything its worker had run before is run again in the same order (a fault can need what
// earlier calls left behind). Only if neither fails is the failure set aside, and then the whole exploration is
// repeated: a second failure is reported whatever happens.
func supervise(id, tier, verif string) int {
	start := time.Now()
	setAside := 0
	for {
		code, again := explore(id, tier, verif, start, &setAside)
		if again {
			continue
		}
		if code == 0 && os.Getenv("VERIF_386_BIN") != "" {
			return explore32(id, tier, verif)
		}
		return code
	}
}

// explore32 runs the quick tier once more in the 32-bit build, whose results are added to the evidence.
func explore32(id, tier, verif string) int {
	dir, err := os.MkdirTemp("", "verifmc32")
	if err != nil {
		return 0
	}
	defer os.RemoveAll(dir)
	if b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt")); err == nil {
		os.WriteFile(filepath.Join(dir, "KNOWN_FINDINGS.txt"), b, 0o644)
	}
	evPath := filepath.Join(verif, "evidence", id+".json")
	var ev map[string]interface{}
	if b, err := os.ReadFile(evPath); err != nil || json.Unmarshal(b, &ev) != nil {
		return 0
	}
	var tail tailBuf
	cmd := exec.Command(os.Getenv("VERIF_386_BIN"), "run", id, "quick", dir)
	cmd.Stderr = &tail
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_386_BIN=") && !strings.HasPrefix(e, "VERIF_DIR=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_DIR="+dir)
	out, err := cmd.Output()
	cov, _ := ev["coverage"].(map[string]interface{})
	if cov == nil {
		return 0
	}
	code := 0
	switch {
	case err == nil:
		var sub struct{ Coverage map[string]interface{} }
		if b, err := os.ReadFile(filepath.Join(dir, "evidence", id+".json")); err == nil && json.Unmarshal(b, &sub) == nil {
			got := map[string]interface{}{}
			for _, k := range []string{"cases", "states", "transitions", "traces_validated_against_impl", "exhaustive"} {
				got[k] = sub.Coverage[k]
			}
			cov["also_on_32_bits"] = got
		}
	case cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1:
		code = 1
		path := filepath.Join(verif, "out", id+".replay.json")
		os.MkdirAll(filepath.Dir(path), 0o755)
		var m map[string]interface{}
		if b, err := os.ReadFile(filepath.Join(dir, "out", id+".replay.json")); err == nil && json.Unmarshal(b, &m) == nil {
			m["arch"] = "386"
			m["rerun"] = "bash /verif/run.sh replay " + path
			if h, ok := m["history"].(string); ok {
				hp := filepath.Join(verif, "out", id+".history")
				if b, err := os.ReadFile(h); err == nil && os.WriteFile(hp, b, 0o644) == nil {
					m["history"] = hp
				}
			}
			if b, err := json.MarshalIndent(m, "", " "); err == nil {
				os.WriteFile(path, b, 0o644)
			}
			cov["stopped"] = m["error"]
		}
		ev["violations"] = 1
		cov["exhaustive"] = false
		for _, l := range strings.Split(string(out), "\n") {
			if l != "" && !strings.HasPrefix(l, "VIOLATION") {
				fmt.Println("on 32 bits: " + l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	default:
		os.Stderr.Write(tail.head)
		cov["32_bits"] = fmt.Sprintf("not decided: %v", err)
	}
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		os.WriteFile(evPath, append(b, '\n'), 0o644)
	}
	return code
}

func explore(id, tier, verif string, start time.Time, setAside *int) (code int, again bool) {
	chk := mustCheck(id)
	self, err := os.Executable()
	if err != nil {
		fatalExit("%v", err)
	}
	dir, err := os.MkdirTemp("", "verifmc")
	if err != nil {
		fatalExit("%v", err)
	}
	defer os.RemoveAll(dir)
	ctl := openControl(filepath.Join(dir, "control"))
	atomic.StoreInt64(ctl.minFail, never)
	workers := max(1, min(8, runtime.NumCPU()))
	if chk.Serial {
		workers = 1
	}
	env := append(os.Environ(), "VERIF_SCRATCH="+dir)
	type ended struct {
		code int
		tail tailBuf
	}
	ends := make([]ended, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		cmd := exec.Command(self, "worker", id, tier, verif, dir, strconv.Itoa(w))
		cmd.Stdout = os.Stdout
		cmd.Stderr = &ends[w].tail
		cmd.Env = env
		if err := cmd.Start(); err != nil {
			fatalExit("%v", err)
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			cmd.Wait()
			ends[w].code = cmd.ProcessState.ExitCode()
		}(w)
	}
	wg.Wait()

	var tot total
	tot.Counts, tot.Props = map[string]int64{}, map[string]interface{}{}
	for w := 0; w < workers; w++ {
		var st workerStats
		b, err := os.ReadFile(workerFile(dir, "stats", w))
		if err != nil || json.Unmarshal(b, &st) != nil {
			continue
		}
		tot.Evals += st.Evals
		tot.Trans += st.Trans
		tot.Traces += st.Traces
		tot.Generated = max(tot.Generated, st.Generated)
		tot.Capped = tot.Capped || st.Capped
		tot.Samples = append(tot.Samples, st.Samples...)
		tot.KnownHit = append(tot.KnownHit, st.KnownHit...)
		for k, v := range st.Counts {
			tot.Counts[k] += v
		}
		for k, v := range st.Props {
			tot.Props[k] = v
		}
	}
	tot.states, tot.distinct = unionSize(dir, "states", workers), unionSize(dir, "distinct", workers)
	tot.Props["worker_processes"] = workers

	// What failed, in enumeration order.
	type suspect struct {
		failure
		w     int
		crash bool
	}
	var sus []suspect
	for w := 0; w < workers; w++ {
		var f failure
		if b, err := os.ReadFile(workerFile(dir, "failure", w)); err == nil && json.Unmarshal(b, &f) == nil {
			sus = append(sus, suspect{f, w, false})
		} else if ends[w].code != 0 {
			os.Stderr.Write(ends[w].tail.head)
			h := readHistory(workerFile(dir, "history", w))
			if len(h) == 0 || ends[w].code == 3 {
				return 3, false
			}
			msg := "the process crashes"
			if l := strings.SplitN(string(ends[w].tail.head), "\n", 4); len(l) > 0 {
				msg += ": " + strings.Join(l[:min(3, len(l))], " / ")
			}
			sus = append(sus, suspect{failure{Seq: h[len(h)-1].seq, Key: h[len(h)-1].key, Err: msg}, w, true})
		}
	}
	sort.Slice(sus, func(i, j int) bool { return sus[i].Seq < sus[j].Seq })
	violation := func(f failure, history []histEntry) int {
		path := writeReplay(verif, id, tier, f, history)
		fmt.Printf("case %s: %s\n", f.Key, f.Err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		tot.Props["stopped"] = f.Err
		writeEvidence(verif, chk, tier, tot, start, false, 1)
		return 1
	}
	fails := func(args ...string) bool {
		cmd := exec.Command(self, args...)
		cmd.Env = env
		cmd.Run()
		c := cmd.ProcessState.ExitCode()
		return c != 0 && c != 3
	}
	for _, s := range sus {
		if s.Runaway {
			return violation(s.failure, nil), false
		}
		tries := "30"
		if s.crash {
			tries = "3"
		}
		if fails("confirm", id, tier, s.Key, tries) {
			return violation(s.failure, nil), false
		}
		h := readHistory(workerFile(dir, "history", s.w))
		hf := filepath.Join(dir, "rerun")
		writeHistory(hf, h)
		if fails("history", id, tier, hf) && fails("history", id, tier, hf) {
			s.Err = fmt.Sprintf("after the %d cases before it in the same process: %s", len(h)-1, s.Err)
			return violation(s.failure, h), false
		}
		if *setAside > 0 {
			s.Err = "in two of two explorations a case failed that does not fail every time; here: " + s.Err
			return violation(s.failure, h), false
		}
		fmt.Printf("set aside (does not fail again): %s: %s\n", s.Key, s.Err)
	}
	if len(sus) > 0 {
		*setAside++
		return 0, true
	}
	for _, l := range tot.KnownHit {
		fmt.Println(l)
	}
	if *setAside > 0 {
		tot.Props["repeated"] = "a failure in a first exploration did not occur again, neither alone nor in this second exploration"
	}
	if len(tot.KnownHit) > 0 {
		tot.Props["known_findings"] = tot.KnownHit
	}
	writeEvidence(verif, chk, tier, tot, start, !tot.Capped, 0)
	fmt.Printf("%s %s: held on %d cases in %.1fs (exhaustive within bounds: %v)\n", id, tier, tot.Generated, time.Since(start).Seconds(), !tot.Capped)
	return 0, false
}

type histEntry struct {
	seq int64
	key string
}

func readHistory(path string) []histEntry {
	b, _ := os.ReadFile(path)
	var out []histEntry
	for _, l := range strings.Split(string(b), "\n") {
		if p := strings.SplitN(l, "\t", 2); len(p) == 2 {
			n, _ := strconv.ParseInt(p[0], 10, 64)
			out = append(out, histEntry{n, p[1]})
		}
	}
	return out
}

func writeHistory(path string, h []histEntry) {
	var b strings.Builder
	for _, e := range h {
		fmt.Fprintf(&b, "%d\t%s\n", e.seq, e.key)
	}
	if err := os.WriteFile(path, []byte(b.String()), 0o644); err != nil {
		fatalExit("%v", err)
	}
}

// runHistory runs the listed cases in order and returns 1 as soon as one fails.
func runHistory(id, tier, path string) int {
	limitProcess()
	h := readHistory(path)
	i, code := 0, 0
	seq := int64(-1)
	ctx := &Ctx{Tier: tier, Props: map[string]interface{}{}, stop: func() bool { return i >= len(h) || code != 0 }}
	ctx.emit = func(c Case) {
		seq++
		if i >= len(h) || code != 0 || seq != h[i].seq {
			return
		}
		i++
		if err := guarded(c, newRec()); err != nil {
			fmt.Printf("case %s (after %d others): %v\n", c.Key, i-1, err)
			code = 1
		}
	}
	mustCheck(id).Gen(ctx)
	return code
}

func writeReplay(verif, id, tier string, f failure, history []histEntry) string {
	dir := filepath.Join(verif, "out")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+".replay.json")
	m := map[string]interface{}{"property": id, "tier": tier, "key": f.Key, "error": f.Err,
		"rerun": "bash /verif/run.sh replay " + path}
	if len(f.Data) > 0 {
		m["input_hex"] = fmt.Sprintf("%x", f.Data)
	}
	if history != nil {
		hp := filepath.Join(dir, id+".history")
		writeHistory(hp, history)
		m["history"] = hp
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(verif string, chk *Check, tier string, tot total, start time.Time, exhaustive bool, violations int) {
	cov := map[string]interface{}{}
	for k, v := range tot.Props {
		cov[k] = v
	}
	for k, v := range tot.Counts {
		cov[k] = v
	}
	sort.Strings(tot.Samples)
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	if len(tot.Samples) == 0 {
		tot.Samples = []string{"(none recorded: run stopped early)"}
	}
	cov["samples"] = tot.Samples
	cov["exhaustive"] = exhaustive
	cov["cases"] = tot.Generated
	cov["rule"] = chk.Rule
	if chk.Level == "model_checking" {
		cov["states"] = tot.states
		cov["transitions"] = tot.Trans
		cov["traces_validated_against_impl"] = tot.Traces
		if tot.Evals > 0 {
			cov["evaluations"] = tot.Evals
		}
	} else {
		cov["evaluations"] = tot.Evals
		cov["distinct_nontrivial"] = tot.distinct
		if tot.states > 0 {
			cov["states"] = tot.states
		}
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	ev := map[string]interface{}{
		"property": chk.ID, "tier": tier, "seed": seed, "level": chk.Level, "coverage": cov,
		"assumptions": append([]string{"enumeration is seedless: VERIF_SEED is recorded but no choice is random"}, chk.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalExit("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", chk.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatalExit("evidence: %v", err)
	}
}

type tailBuf struct{ head []byte }

func (t *tailBuf) Write(b []byte) (int, error) {
	if n := 4000 - len(t.head); n > 0 {
		t.head = append(t.head, b[:min(n, len(b))]...)
	}
	return len(b), nil
}

// runOne runs one case up to n times and returns 1 as soon as it fails.
func runOne(id, tier, key string, n int) int {
	limitProcess()
	found, code := false, 0
	ctx := &Ctx{Tier: tier, Props: map[string]interface{}{}, stop: func() bool { return found }}
	ctx.emit = func(c Case) {
		if c.Key != key || found {
			return
		}
		found = true
		t0 := time.Now()
		for i := 0; i < n && code == 0 && (i < 2 || time.Since(t0) < 60*time.Second); i++ {
			if err := guarded(c, newRec()); err != nil {
				fmt.Printf("case %s: %v\n", key, err)
				code = 1
			}
		}
	}
	mustCheck(id).Gen(ctx)
	if !found {
		fmt.Fprintf(os.Stderr, "verifmc: no case %q in %s %s\n", key, id, tier)
		return 3
	}
	return code
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalExit("%v", err)
	}
	var m struct{ Property, Tier, Key, History string }
	if err := json.Unmarshal(b, &m); err != nil {
		fatalExit("%v", err)
	}
	if os.Getenv("VERIF_SCRATCH") == "" {
		dir, err := os.MkdirTemp("", "verifmc")
		if err != nil {
			fatalExit("%v", err)
		}
		defer os.RemoveAll(dir)
		os.Setenv("VERIF_SCRATCH", dir)
	}
	var c int
	if m.History != "" {
		c = runHistory(m.Property, m.Tier, m.History)
	} else {
		c = runOne(m.Property, m.Tier, m.Key, 30)
	}
	if c == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", m.Property, path)
	} else if c == 0 {
		fmt.Println("no violation on this tree")
	}
	return c
}
