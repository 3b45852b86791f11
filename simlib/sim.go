package sim

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr

// Violation is a broken property.
type Violation struct {
	Class  string
	Detail string
}

// Run is a single simulated execution.
type Run struct {
	d  *draws
	mu sync.Mutex

	byG    map[uintptr]*Task
	tasks  []*Task
	cur    *Task
	wake   chan struct{}
	asleep bool

	poison   chan struct{}
	poisoned bool

	Start    time.Time
	Steps    int
	MaxSteps int
	Switches int
	mode     int
	gapMax   int
	Stalls   bool // tasks may be stalled for virtual time at preemption points
	PreemptP int

	Violations []Violation
	halt       bool

	TraceOn bool
	Trace   []string
	h       uint64 // running hash of events
	ih      uint64 // running hash of scheduling decisions
	Faults  map[string]int
	Probes  map[string]int

	Net *Net
	FS  *FS

	Stuck   []string
	Crashed bool
	seq     int

	mapTask *Task // in the middle of writing to a map
	mapPtr  unsafe.Pointer
}

// Task is a goroutine under control of the scheduler.
type Task struct {
	ID      int
	Name    string
	run     *Run
	resume  chan struct{}
	parked  bool
	ready   func() bool
	next    func() time.Time
	why     string
	gap     int
	prio    int
	done    bool
	dying   bool
	started bool
	Daemon  bool // harness-owned: not a leak
	stallTo time.Time
	sysCall bool
	low     int  // how often others are preferred
	Whole   bool // not preempted between blocking operations
}

var (
	curMu  sync.Mutex
	curRun *Run
)

// Current returns the run in progress.
func Current() *Run {
	curMu.Lock()
	r := curRun
	curMu.Unlock()
	return r
}

// Options of a run.
type Options struct {
	Seed     uint64
	Replay   Choices
	Trace    bool
	MaxSteps int
}

// Result of a run.
type Result struct {
	Violations []Violation
	Choices    Choices
	Trace      []string
	Hash       uint64
	Inter      uint64
	Steps      int
	Switches   int
	Tasks      int
	SimTime    time.Duration
	Faults     map[string]int
	Probes     map[string]int
	Stuck      []string
}

// Exec runs main as the first task, inside a bubble which must be created by the caller
// (synctest.Test). check is called when nothing can happen anymore.
func Exec(o Options, main func(r *Run), check func(r *Run)) Result {
	if o.MaxSteps == 0 {
		o.MaxSteps = 400000
	}
	r := &Run{
		d: newDraws(o.Seed, o.Replay), byG: map[uintptr]*Task{}, wake: make(chan struct{}, 1),
		poison: make(chan struct{}), Start: time.Now(), MaxSteps: o.MaxSteps, TraceOn: o.Trace,
		Faults: map[string]int{}, Probes: map[string]int{}, h: 14695981039346656037, ih: 14695981039346656037,
	}
	r.Net = newNet(r)
	r.FS = newFS(r)
	// scheduling profile of the run
	switch m := r.Draw("sched", 10); {
	case m < 3:
		r.mode = 0 // switch only when blocked
	case m < 7:
		r.mode = 1 // preempt uniformly
		r.gapMax = []int{2, 6, 20, 80, 400, 2000}[r.Draw("sched", 6)]
	default:
		r.mode = 2 // priorities with few change points
		r.gapMax = []int{10, 50, 200, 1000, 5000}[r.Draw("sched", 5)]
	}
	curMu.Lock()
	curRun = r
	curMu.Unlock()
	defer func() {
		curMu.Lock()
		curRun = nil
		curMu.Unlock()
	}()
	resetState()
	r.spawn("main", true, func() { main(r) })
	r.loop()
	if !r.halt && check != nil {
		check(r)
	}
	end := time.Now()
	res := Result{
		Violations: r.Violations, Trace: r.Trace, Hash: r.h, Inter: r.ih, Steps: r.Steps, Switches: r.Switches,
		Tasks: len(r.tasks), SimTime: end.Sub(r.Start), Faults: r.Faults, Probes: r.Probes,
	}
	res.Stuck = r.kill()
	res.Choices = r.d.choices()
	return res
}

// Draw decides: 0 is the simplest outcome.
func (r *Run) Draw(stream string, n int) int {
	r.mu.Lock()
	v := r.d.draw(stream, n)
	r.mu.Unlock()
	return v
}

// Chance is true with probability num/den; the simplest outcome is false.
func (r *Run) Chance(stream string, num, den int) bool {
	return r.Draw(stream, den) >= den-num
}

// Pick returns an index by weights; the simplest outcome is index 0.
func (r *Run) Pick(stream string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := r.Draw(stream, sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Between returns lo..hi inclusive, lo being the simplest.
func (r *Run) Between(stream string, lo, hi int) int {
	return lo + r.Draw(stream, hi-lo+1)
}

// Fault counts a fault which has actually been injected.
func (r *Run) Fault(kind string) { r.mu.Lock(); r.Faults[kind]++; r.mu.Unlock() }

// Probe counts a rare condition reached.
func (r *Run) Probe(kind string) { r.mu.Lock(); r.Probes[kind]++; r.mu.Unlock() }

// Seq is a global event sequence number.
func (r *Run) Seq() int { r.mu.Lock(); r.seq++; s := r.seq; r.mu.Unlock(); return s }

// Now is the virtual time since the start of the run.
func (r *Run) Now() time.Duration { return time.Since(r.Start) }

// Event logs an event; the hash of all of them identifies the execution.
func (r *Run) Event(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(s))
	at := time.Since(r.Start)
	r.mu.Lock()
	r.h = (r.h^h.Sum64()^uint64(at))*1099511628211 + 1
	if r.TraceOn && len(r.Trace) < 4000 {
		name := "-"
		if t := r.byG[getg()]; t != nil {
			name = t.Name
		}
		r.Trace = append(r.Trace, fmt.Sprintf("%12s %-24s %s", at, name, s))
	}
	r.mu.Unlock()
}

// Violate records a violation. The run ends as soon as possible.
func (r *Run) Violate(class, format string, args ...interface{}) {
	detail := fmt.Sprintf(format, args...)
	r.Event("VIOLATION %s: %s", class, detail)
	r.mu.Lock()
	r.Violations = append(r.Violations, Violation{class, detail})
	r.halt = true
	r.mu.Unlock()
}

// Failed tells whether a violation is already recorded.
func (r *Run) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.halt }

func (r *Run) self() *Task {
	g := getg()
	r.mu.Lock()
	t := r.byG[g]
	r.mu.Unlock()
	return t
}

// Self returns the current task, if any.
func Self() *Task {
	if r := Current(); r != nil {
		return r.self()
	}
	return nil
}

// Go replaces the go statement.
func Go(name string, f func()) {
	r := Current()
	if r == nil || r.self() == nil {
		go f()
		return
	}
	r.spawn(name, false, f)
	Y()
}

// Spawn starts a task which belongs to the harness.
func (r *Run) Spawn(name string, f func()) *Task { return r.spawn(name, true, f) }

func (r *Run) spawn(name string, daemon bool, f func()) *Task {
	r.mu.Lock()
	if r.poisoned {
		r.mu.Unlock()
		return nil
	}
	t := &Task{ID: len(r.tasks), Name: fmt.Sprintf("%s#%d", name, len(r.tasks)), run: r, Daemon: daemon, resume: make(chan struct{}, 1)}
	t.prio = r.d.draw("sched", 1000)
	r.tasks = append(r.tasks, t)
	r.mu.Unlock()
	go func() {
		g := getg()
		r.mu.Lock()
		r.byG[g] = t
		r.mu.Unlock()
		defer func() {
			e := recover()
			if e != nil {
				r.Crashed = true
				r.Violate("crash", "panic in %s: %v\n%s", name, e, trimStack(debug.Stack()))
			}
			r.mu.Lock()
			delete(r.byG, g)
			t.done = true
			r.mu.Unlock()
			r.poke()
		}()
		t.park("start", nil, nil)
		f()
	}()
	return t
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if !strings.HasPrefix(l, "\t") {
			// addresses must not get into the history
			continue
		}
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/verif") {
			if i := strings.LastIndex(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *Run) poke() {
	select {
	case r.wake <- struct{}{}:
	default:
	}
}

func (t *Task) park(why string, ready func() bool, next func() time.Time) {
	r := t.run
	r.mu.Lock()
	if r.poisoned {
		dying := t.dying
		t.dying = true
		r.mu.Unlock()
		if !dying {
			runtime.Goexit()
		}
		return
	}
	t.ready, t.next, t.why = ready, next, why
	t.parked = true
	asleep := r.asleep
	r.mu.Unlock()
	if asleep {
		r.poke()
	}
	<-t.resume
	r.mu.Lock()
	p := r.poisoned && !t.dying
	if p {
		t.dying = true
	}
	r.mu.Unlock()
	if p {
		runtime.Goexit()
	}
}

// Y is a possible preemption point, put before every statement of the code under test.
func Y() {
	r := Current()
	if r == nil {
		return
	}
	g := getg()
	r.mu.Lock()
	t := r.byG[g]
	if t == nil {
		r.mu.Unlock()
		return
	}
	r.Steps++
	if r.poisoned {
		dying := t.dying
		t.dying = true
		r.mu.Unlock()
		if !dying {
			runtime.Goexit()
		}
		return
	}
	if r.Steps > r.MaxSteps {
		if !r.halt {
			r.mu.Unlock()
			r.Violate("livelock", "no end after %d steps; running %s\n%s", r.MaxSteps, t.Name, trimStack(debug.Stack()))
			t.park("livelock", func() bool { return false }, nil)
			return
		}
		r.mu.Unlock()
		t.park("livelock", func() bool { return false }, nil)
		return
	}
	if t.gap == 0 || r.mode == 0 || t.Whole {
		r.mu.Unlock()
		return
	}
	t.gap--
	if t.gap > 0 {
		r.mu.Unlock()
		return
	}
	if r.mode == 2 {
		t.prio = -r.Switches
	}
	stall := r.Stalls && r.d.draw("stall", 40) == 39
	var until time.Time
	if stall {
		until = time.Now().Add(time.Duration(1+r.d.draw("stall", 2000)) * time.Millisecond)
		r.Faults["task-stall"]++
	}
	r.mu.Unlock()
	if stall {
		t.park("stalled", func() bool { return !time.Now().Before(until) }, func() time.Time { return until })
		return
	}
	t.park("preempted", nil, nil)
}

// YB is the scheduling point after an operation which may have blocked on a real primitive.
func YB() {
	r := Current()
	if r == nil {
		return
	}
	if t := r.self(); t != nil {
		t.park("unblocked", nil, nil)
	}
}

// Park blocks the current task until ready. next gives the earliest virtual time at which
// ready may change by itself.
func (r *Run) Park(why string, ready func() bool, next func() time.Time) {
	t := r.self()
	if t == nil {
		panic("sim: Park outside of a task (" + why + ")")
	}
	t.park(why, ready, next)
}

// Sleep in virtual time.
func (r *Run) Sleep(d time.Duration) {
	if d <= 0 {
		return
	}
	at := time.Now().Add(d)
	r.Park("sleep", func() bool { return !time.Now().Before(at) }, func() time.Time { return at })
}

// PoisonC is closed when the run is over.
func PoisonC() <-chan struct{} {
	if r := Current(); r != nil {
		return r.poison
	}
	return nil
}

// Die ends the current goroutine.
func Die() {
	if r := Current(); r != nil {
		if t := r.self(); t != nil {
			r.mu.Lock()
			t.dying = true
			r.mu.Unlock()
		}
	}
	runtime.Goexit()
}

// Dying tells whether the current task is being killed.
func Dying() bool {
	t := Self()
	if t == nil {
		return false
	}
	t.run.mu.Lock()
	defer t.run.mu.Unlock()
	return t.dying || t.run.poisoned
}

// Recv replaces a channel receive.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 replaces a channel receive with the ok flag.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	select {
	case v, ok = <-ch:
	case <-PoisonC():
		Die()
	}
	YB()
	return v, ok
}

const forever = 1000 * time.Hour

func (r *Run) loop() {
	for {
		synctest.Wait()
		r.mu.Lock()
		if r.halt {
			r.mu.Unlock()
			return
		}
		parked := make([]*Task, 0, 8)
		alive := false
		for _, t := range r.tasks {
			if t.done {
				continue
			}
			alive = true
			if t.parked {
				parked = append(parked, t)
			}
		}
		r.mu.Unlock()
		if !alive {
			return
		}
		var cands []*Task
		var next time.Time
		for _, t := range parked {
			if t.ready == nil || t.ready() {
				cands = append(cands, t)
			} else if t.next != nil {
				if n := t.next(); !n.IsZero() && (next.IsZero() || n.Before(next)) {
					next = n
				}
			}
		}
		if len(cands) == 0 {
			// let virtual time pass
			now := time.Now()
			d := forever
			if !next.IsZero() {
				d = next.Sub(now)
				if d <= 0 {
					d = 1
				}
			}
			r.mu.Lock()
			r.asleep = true
			r.mu.Unlock()
			timer := time.NewTimer(d)
			timedOut := false
			select {
			case <-r.wake:
			case <-timer.C:
				timedOut = true
			}
			timer.Stop()
			r.mu.Lock()
			r.asleep = false
			r.mu.Unlock()
			if timedOut && next.IsZero() {
				// give tasks which woke up exactly now a chance; otherwise it is the end
				synctest.Wait()
				if !r.anyReady() {
					return
				}
			}
			continue
		}
		t := r.choose(cands)
		r.mu.Lock()
		t.parked = false
		r.Switches++
		r.ih = (r.ih ^ uint64(t.ID+1)) * 1099511628211
		t.gap = r.gap()
		r.cur = t
		r.mu.Unlock()
		t.resume <- struct{}{}
	}
}

func (r *Run) anyReady() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, t := range r.tasks {
		if !t.done && t.parked && (t.ready == nil || t.ready()) {
			return true
		}
	}
	return false
}

func (r *Run) gap() int {
	switch r.mode {
	case 1, 2:
		// 0 stands for "run until blocked"
		return r.d.draw("sched", r.gapMax)
	}
	return 0
}

func (r *Run) choose(cands []*Task) *Task {
	sort.Slice(cands, func(i, j int) bool { return cands[i].ID < cands[j].ID })
	var rest []*Task
	for _, t := range cands {
		if t.low == 0 {
			rest = append(rest, t)
		}
	}
	if len(rest) > 0 && len(rest) < len(cands) {
		for _, t := range cands {
			if t.low > 0 {
				t.low--
			}
		}
		cands = rest
	}
	if len(cands) == 1 {
		cands[0].low = 0
		return cands[0]
	}
	if r.mode == 2 {
		best := cands[0]
		for _, t := range cands[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	// the simplest outcome: the task which ran last goes on
	for i, t := range cands {
		if t == r.cur {
			copy(cands[1:i+1], cands[:i])
			cands[0] = t
			break
		}
	}
	return cands[r.Draw("sched", len(cands))]
}

// Alive lists tasks which are not finished, excluding harness ones.
func (r *Run) Alive() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out []string
	for _, t := range r.tasks {
		if !t.done && !t.Daemon {
			why := t.why
			if !t.parked {
				why = "blocked on a channel"
			}
			out = append(out, t.Name+" ("+why+")")
		}
	}
	return out
}

// AliveAll lists all the tasks which are not finished.
func (r *Run) AliveAll() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out []string
	for _, t := range r.tasks {
		if !t.done {
			why := t.why
			if !t.parked {
				why = "blocked on a channel"
			}
			out = append(out, t.Name+" ("+why+")")
		}
	}
	return out
}

// kill ends all the tasks.
func (r *Run) kill() []string {
	r.mu.Lock()
	r.poisoned = true
	close(r.poison)
	r.mu.Unlock()
	for i := 0; i < 1000; i++ {
		synctest.Wait()
		alive := false
		r.mu.Lock()
		for _, t := range r.tasks {
			if t.done {
				continue
			}
			alive = true
			if t.parked {
				t.parked = false
				t.resume <- struct{}{}
			}
		}
		r.mu.Unlock()
		if !alive {
			return nil
		}
		if i > 10 {
			time.Sleep(time.Duration(i) * time.Minute)
		}
	}
	return r.AliveAll()
}
