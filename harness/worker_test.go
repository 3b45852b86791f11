// Package verifsim drives the real server inside the simulator. It is laid over the
// repository's tree (internal/verifsim) at build time.
package verifsim

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync/atomic"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	sim "verif.local/sim"
	"verif.local/sim/simtls"
)

// Scenario is the workload and the oracle of one property.
type Scenario func(w *World)

var scenarios = map[string]Scenario{}

type replayFile struct {
	Property  string      `json:"property"`
	Class     string      `json:"class"`
	Detail    string      `json:"detail"`
	Seed      uint64      `json:"seed"`
	Index     int         `json:"index"`
	Hash      string      `json:"hash"`
	Steps     int         `json:"steps"`
	SimTime   string      `json:"sim_time"`
	Choices   sim.Choices `json:"choices"`
	Decisions int         `json:"decisions"`
	Original  int         `json:"original_decisions,omitempty"`
	Attempts  int         `json:"shrink_attempts,omitempty"`
	Faults    interface{} `json:"faults"`
	Trace     []string    `json:"trace,omitempty"`
}

type batchOut struct {
	Runs     int            `json:"runs"`
	SimNs    float64        `json:"sim_ns"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	Tasks    int64          `json:"tasks"`
	Faults   map[string]int `json:"faults"`
	FaultRun map[string]int `json:"fault_runs"`
	Probes   map[string]int `json:"probes"`
	Wall     float64        `json:"wall"`
	Next     int            `json:"next"`
	Fail     *replayFile    `json:"fail,omitempty"`
	Stuck    []string       `json:"stuck,omitempty"`
	MaxSteps int            `json:"max_steps"`
	Hashes   []string       `json:"hashes,omitempty"`
	Samples  []interface{}  `json:"samples,omitempty"`
}

var (
	runStarted int64
	curIndex   int64
)

func watchdog(limit time.Duration) {
	for {
		time.Sleep(time.Second)
		s := atomic.LoadInt64(&runStarted)
		if s != 0 && time.Now().UnixNano()-s > int64(limit) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "WATCHDOG: run %d takes too long\n%s\n", atomic.LoadInt64(&curIndex), buf)
			os.Exit(3)
		}
	}
}

func one(t *testing.T, prop string, o sim.Options) (res sim.Result) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000000
	}
	atomic.StoreInt64(&runStarted, time.Now().UnixNano())
	defer atomic.StoreInt64(&runStarted, 0)
	sc := scenarios[prop]
	var w *World
	simtls.Listeners = nil
	simtls.Reset()
	synctest.Test(t, func(t *testing.T) {
		if prop == "C26" {
			cryptotest.SetGlobalRandom(t, 1)
		}
		res = sim.Exec(o, func(r *sim.Run) {
			w = newWorld(r, prop)
			sc(w)
			w.finished = true
		}, func(r *sim.Run) { w.atEnd() })
		if len(res.Stuck) > 0 {
			// the bubble cannot be left anymore
			onStuck(res)
		}
	})
	return res
}

var onStuck func(sim.Result)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

func readReplay(path string) (f replayFile) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot read", path, err)
		os.Exit(2)
	}
	return f
}

func describe(prop string, seed uint64, index int, res sim.Result) *replayFile {
	f := &replayFile{
		Property: prop, Seed: seed, Index: index, Hash: fmt.Sprintf("%016x", res.Hash), Steps: res.Steps,
		SimTime: res.SimTime.String(), Choices: res.Choices, Decisions: res.Choices.Size(), Faults: res.Faults, Trace: res.Trace,
	}
	if len(res.Violations) > 0 {
		f.Class, f.Detail = res.Violations[0].Class, res.Violations[0].Detail
	}
	return f
}

func TestWorker(t *testing.T) {
	mode := os.Getenv("VW_MODE")
	if mode == "" {
		t.Skip("driven by the check script")
	}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	prop, out := os.Getenv("VW_PROP"), os.Getenv("VW_OUT")
	if scenarios[prop] == nil {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		os.Exit(2)
	}
	go watchdog(time.Duration(envInt("VW_WATCHDOG", 120)) * time.Second)
	initKeys()
	switch mode {
	case "batch":
		batch(t, prop, out)
	case "shrink":
		f := readReplay(os.Getenv("VW_IN"))
		shrink(t, prop, f, out)
	case "replay":
		f := readReplay(os.Getenv("VW_IN"))
		onStuck = func(res sim.Result) {
			writeJSON(out, describe(prop, f.Seed, f.Index, res))
			os.Exit(0)
		}
		res := one(t, prop, sim.Options{Seed: f.Seed, Replay: f.Choices, Trace: true})
		writeJSON(out, describe(prop, f.Seed, f.Index, res))
	default:
		fmt.Fprintln(os.Stderr, "bad mode")
		os.Exit(2)
	}
	os.Exit(0)
}

func batch(t *testing.T, prop, out string) {
	seed := uint64(envInt("VW_SEED", 1))
	from, stride, max := envInt("VW_FROM", 0), envInt("VW_STRIDE", 1), envInt("VW_MAX", 1<<30)
	secs := envInt("VW_SECS", 5)
	wantHashes := os.Getenv("VW_HASHES") != ""
	start := time.Now()
	b := batchOut{Faults: map[string]int{}, FaultRun: map[string]int{}, Probes: map[string]int{}}
	inter := map[uint64]bool{}
	curFile, _ := os.Create(out + ".cur")
	i := from
	cur := uint64(0)
	finish := func() {
		b.Wall = time.Since(start).Seconds()
		b.Next = i
		var hs []uint64
		for h := range inter {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(x, y int) bool { return hs[x] < hs[y] })
		raw := make([]byte, 0, 8*len(hs))
		for _, h := range hs {
			for k := 0; k < 8; k++ {
				raw = append(raw, byte(h>>(8*k)))
			}
		}
		if err := os.WriteFile(out+".inter", raw, 0o644); err != nil {
			panic(err)
		}
		writeJSON(out, b)
	}
	add := func(res sim.Result) {
		b.Runs++
		b.SimNs += float64(res.SimTime)
		b.Steps += int64(res.Steps)
		b.Switches += int64(res.Switches)
		b.Tasks += int64(res.Tasks)
		if res.Steps > b.MaxSteps {
			b.MaxSteps = res.Steps
		}
		for k, v := range res.Faults {
			b.Faults[k] += v
			b.FaultRun[k]++
		}
		for k, v := range res.Probes {
			b.Probes[k] += v
		}
		inter[res.Inter^res.Hash*31] = true
		if wantHashes {
			b.Hashes = append(b.Hashes, fmt.Sprintf("%d:%016x:%016x:%d:%d", i, res.Hash, res.Inter, res.Steps, len(res.Violations)))
		}
		if len(res.Violations) > 0 && b.Fail == nil {
			b.Fail = describe(prop, cur, i, res)
		}
	}
	onStuck = func(res sim.Result) {
		add(res)
		b.Stuck = res.Stuck
		i += stride
		finish()
		os.Exit(0)
	}
	for n := 0; n < max && time.Since(start) < time.Duration(secs)*time.Second; n++ {
		cur = sim.Hash(seed, prop+":"+strconv.Itoa(i))
		atomic.StoreInt64(&curIndex, int64(i))
		if curFile != nil {
			_, _ = curFile.WriteAt([]byte(fmt.Sprintf("%-12d %-24d", i, cur)), 0)
		}
		trace := n == 0 && from == 0 || os.Getenv("VW_TRACE") != ""
		res := one(t, prop, sim.Options{Seed: cur, Trace: trace})
		if trace && len(b.Samples) == 0 {
			tr := res.Trace
			if len(tr) > 60 {
				tr = tr[:60]
			}
			b.Samples = append(b.Samples, map[string]interface{}{"index": i, "seed": cur, "steps": res.Steps, "sim_time": res.SimTime.String(), "trace_head": tr})
		}
		add(res)
		i += stride
		if b.Fail != nil && os.Getenv("VW_KEEPGOING") == "" {
			break
		}
		if b.Fail != nil {
			fmt.Fprintf(os.Stderr, "index %d: %s: %.600s\n", b.Fail.Index, b.Fail.Class, b.Fail.Detail)
			b.Fail = nil
		}
	}
	finish()
}

// shrink minimises a failing run, keeping the class of the violation.
func shrink(t *testing.T, prop string, f replayFile, out string) {
	deadline := time.Now().Add(time.Duration(envInt("VW_SECS", 10)) * time.Second)
	best := f.Choices.Clone()
	orig := best.Size()
	attempts := 0
	save := func(res sim.Result) {
		r := describe(prop, f.Seed, f.Index, res)
		r.Original, r.Attempts = orig, attempts
		writeJSON(out, r)
	}
	onStuck = func(res sim.Result) {
		// the attempt cannot be left; keep what has been reached
		os.Exit(0)
	}
	try := func(c sim.Choices) bool {
		attempts++
		res := one(t, prop, sim.Options{Seed: f.Seed, Replay: c})
		if len(res.Violations) > 0 && res.Violations[0].Class == f.Class {
			if n := res.Choices; less(n, best) {
				best = n
				save(res)
			}
			return true
		}
		return false
	}
	// establish the starting point
	res := one(t, prop, sim.Options{Seed: f.Seed, Replay: best})
	if len(res.Violations) == 0 || res.Violations[0].Class != f.Class {
		fmt.Fprintln(os.Stderr, "the failure does not repeat")
		os.Exit(4)
	}
	best = res.Choices
	save(res)
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		before := best.Clone()
		for _, name := range best.Streams() {
			// drop everything of the stream
			if c := best.Clone(); len(c[name]) > 0 {
				delete(c, name)
				try(c)
			}
			// zero, then delete, blocks of decreasing size
			for size := len(best[name]); size >= 1; size /= 2 {
				for at := 0; at < len(best[name]) && time.Now().Before(deadline); {
					cur := best[name]
					end := at + size
					if end > len(cur) {
						end = len(cur)
					}
					c := best.Clone()
					c[name] = append(append([]uint32(nil), cur[:at]...), cur[end:]...)
					n := len(cur)
					if try(c) && len(best[name]) < n {
						continue
					}
					cur = best[name]
					if end > len(cur) {
						end = len(cur)
					}
					zero := true
					for k := at; k < end; k++ {
						zero = zero && cur[k] == 0
					}
					if !zero {
						c = best.Clone()
						for k := at; k < end; k++ {
							c[name][k] = 0
						}
						try(c)
					}
					at += size
				}
			}
			// lower single values
			for at := 0; at < len(best[name]) && time.Now().Before(deadline); at++ {
				for tries := 0; tries < 8 && at < len(best[name]) && best[name][at] > 0; tries++ {
					v := best[name][at]
					c := best.Clone()
					if tries%2 == 0 {
						c[name][at] = v / 2
					} else {
						c[name][at] = v - 1
					}
					try(c)
					if at < len(best[name]) && best[name][at] == v && tries%2 == 1 {
						break
					}
				}
			}
		}
		progress = less(best, before)
	}
}

func less(a, b sim.Choices) bool {
	if x, y := a.Size(), b.Size(); x != y {
		return x < y
	}
	sum := func(c sim.Choices) (s uint64) {
		for _, v := range c {
			for _, x := range v {
				s += uint64(x)
			}
		}
		return s
	}
	return sum(a) < sum(b)
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", b[:200], len(b))
	}
	_ = hex.EncodeToString
	return fmt.Sprintf("%q", b)
}
