// Package sym is the harness interface of symx. Under the symbolic engine the
// functions below are intercepted; compiled natively they read the values of
// one solver model from a file and replay it against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
)

// InVal is one recorded input.
type InVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

// ObsVal is one observation.
type ObsVal struct {
	Tag string `json:"tag"`
	Val int64  `json:"val"`
}

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

// Skipped is the panic value of a violated assumption during replay.
type Skipped struct{ Msg string }

// Result is what one native replay produced.
type Result struct {
	Outcome string   `json:"outcome"` // ok, assert, panic, skip
	Msg     string   `json:"msg"`
	Obs     []ObsVal `json:"obs"`
	Reached []string `json:"reached"`
}

var (
	queues  map[string][]int64
	obs     []ObsVal
	reached []string
)

func next(name string, lo int64) int64 {
	q := queues[name]
	if len(q) == 0 {
		return lo
	}
	queues[name] = q[1:]
	return q[0]
}

// Int returns an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(next(name, int64(lo))) }

// Int64 returns an arbitrary 64-bit integer in [lo,hi].
func Int64(name string, lo, hi int64) int64 { return next(name, lo) }

// Uint64 returns any 64-bit word.
func Uint64(name string) uint64 { return uint64(next(name, 0)) }

// Rune returns an arbitrary rune in [lo,hi].
func Rune(name string, lo, hi rune) rune { return rune(next(name, int64(lo))) }

// Byte returns an arbitrary byte in [lo,hi].
func Byte(name string, lo, hi byte) byte { return byte(next(name, int64(lo))) }

// Bool returns an arbitrary boolean.
func Bool(name string) bool { return next(name, 0) != 0 }

// Choice returns an arbitrary integer in [0,n); the engine explores every value
// on its own path.
func Choice(name string, n int) int { return int(next(name, 0)) }

// Fork makes the engine explore both values of b on separate paths.
func Fork(b bool) bool { return b }

// Assume restricts the exploration to inputs satisfying b.
func Assume(b bool) {
	if !b {
		panic(Skipped{"assumption violated"})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(Failure{msg})
	}
}

// Reach marks a point that some input must reach (vacuity witness).
func Reach(tag string) { reached = append(reached, tag) }

// Observe records a value; native replays must observe what the engine computed.
func Observe(tag string, v int) { obs = append(obs, ObsVal{tag, int64(v)}) }

// ObserveBool records a boolean.
func ObserveBool(tag string, b bool) {
	if b {
		Observe(tag, 1)
	} else {
		Observe(tag, 0)
	}
}

// ObserveRunes records a rune slice.
func ObserveRunes(tag string, r []rune) {
	Observe(tag+".len", len(r))
	for _, c := range r {
		Observe(tag, int(c))
	}
}

// ObserveString records a string.
func ObserveString(tag string, s string) {
	Observe(tag+".len", len(s))
	for i := 0; i < len(s); i++ {
		Observe(tag, int(s[i]))
	}
}

// And, Or, Not, Implies and Iff build conditions without branching.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IteInt chooses without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteRune chooses without branching.
func IteRune(c bool, a, b rune) rune {
	if c {
		return a
	}
	return b
}

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { return false }

// Bound records an exploration bound in the evidence.
func Bound(name string, text string) {}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// thread is a goroutine that runs only while it is scheduled.
type thread struct {
	resume  chan bool
	blocked *bool
	done    bool
	failure any
}

var (
	current *thread
	event   chan bool
)

// Threads runs the functions concurrently until all are done. One runs at a
// time; the others go on where it yields, blocks or ends. Which one is the input
// "sched", drawn where several could. At most switches times one that could have
// gone on is made to wait.
func Threads(switches int, fs ...func()) {
	ts := make([]*thread, len(fs))
	event = make(chan bool)
	for i := range fs {
		t, f := &thread{resume: make(chan bool)}, fs[i]
		ts[i] = t
		go func() {
			<-t.resume
			defer func() {
				t.failure, t.done = recover(), true
				event <- true
			}()
			f()
		}()
	}
	last := -1
	defer func() { current = nil }()
	for {
		i, left := pick(ts, last, &switches)
		if i < 0 {
			if left {
				panic(Failure{"deadlock"})
			}
			return
		}
		last, current = i, ts[i]
		ts[i].resume <- true
		<-event
		if ts[i].failure != nil {
			panic(ts[i].failure)
		}
	}
}

func pick(ts []*thread, last int, switches *int) (int, bool) {
	var can []int
	left, stay := false, false
	for i, t := range ts {
		left = left || !t.done
		if !t.done && (t.blocked == nil || !*t.blocked) {
			can = append(can, i)
			stay = stay || i == last
		}
	}
	switch {
	case len(can) == 0:
		return -1, left
	case len(can) == 1:
		return can[0], true
	case stay && *switches == 0:
		return last, true
	}
	i := can[next("sched", 0)]
	if stay && i != last {
		*switches--
	}
	return i, true
}

// Yield lets another thread run.
func Yield() { Block(nil) }

// Block lets another thread run, and this one go on only when *p is false.
func Block(p *bool) {
	t := current
	if t == nil {
		if p != nil && *p {
			panic(Failure{"deadlock"})
		}
		return
	}
	t.blocked = p
	event <- true
	<-t.resume
}

// Replay runs harness h on the given inputs.
func Replay(h func(), ins []InVal) (res Result) {
	queues = map[string][]int64{}
	for _, v := range ins {
		queues[v.Name] = append(queues[v.Name], v.Val)
	}
	obs, reached = nil, nil
	defer func() {
		res.Obs, res.Reached = obs, reached
		switch e := recover().(type) {
		case nil:
			res.Outcome = "ok"
		case Failure:
			res.Outcome, res.Msg = "assert", e.Msg
		case Skipped:
			res.Outcome, res.Msg = "skip", e.Msg
		default:
			res.Outcome, res.Msg = "panic", fmt.Sprint(e)
		}
	}()
	h()
	return
}

// Job is one replay request.
type Job struct {
	Harness string  `json:"harness"`
	Inputs  []InVal `json:"inputs"`
}

// Main runs the replay jobs of the file named by the first argument (or read
// from VERIF_REPLAY) and prints one JSON result per line.
func Main(hs map[string]func()) {
	file := os.Getenv("VERIF_REPLAY")
	if len(os.Args) > 1 {
		file = os.Args[1]
	}
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var jobs []Job
	if err := json.Unmarshal(data, &jobs); err != nil {
		var one Job
		if err := json.Unmarshal(data, &one); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		jobs = []Job{one}
	}
	outp := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	bad := 0
	for _, j := range jobs {
		h := hs[j.Harness]
		if h == nil {
			fmt.Fprintf(os.Stderr, "no harness %s\n", j.Harness)
			os.Exit(3)
		}
		r := Replay(h, j.Inputs)
		if r.Outcome == "assert" || r.Outcome == "panic" {
			bad++
		}
		b, _ := json.Marshal(r)
		fmt.Fprintf(outp, "RESULT %s\n", b)
	}
	if bad > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
