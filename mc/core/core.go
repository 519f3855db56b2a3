// Package core is the explorer: it enumerates exhaustively the tree of nondeterministic choices of a harness.
package core

import (
	"crypto/rand"
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// X is one execution of a harness under the control of the explorer.
type X struct {
	tier    string
	backend string

	prefix  []int
	choices []int
	arity   []int
	names   []string

	shard, shards int
	shardIdx      int
	shardDone     bool

	st *Stats
}

// Stats accumulates the coverage of a task.
type Stats struct {
	Executions int64            `json:"executions"`
	Steps      int64            `json:"steps"`
	Outcomes   map[string]int64 `json:"outcomes"`
	Samples    []string         `json:"samples"`
	MaxDepth   int              `json:"max_depth"`
	states     map[uint64]struct{}
	capped     bool
}

const stateCap = 1 << 20

type failure struct{ msg string }
type skipExec struct{}

// Tier returns "quick" or "thorough".
func (x *X) Tier() string { return x.tier }

// Thorough tells whether the thorough tier is running.
func (x *X) Thorough() bool { return x.tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (x *X) Pick(q, t int) int {
	if x.Thorough() {
		return t
	}
	return q
}

// Backend returns "avx2", "cpuoff" or "purego".
func (x *X) Backend() string { return x.backend }

// Choose is a branching point with n alternatives.
func (x *X) Choose(n int, name string) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness error: Choose(%d, %s)", n, name))
	}
	pos := len(x.choices)
	c := 0
	if pos < len(x.prefix) {
		c = x.prefix[pos]
		if c >= n {
			panic(fmt.Sprintf("harness error: replay divergence at %s: choice %d of %d", name, c, n))
		}
	}
	x.choices = append(x.choices, c)
	x.arity = append(x.arity, n)
	x.names = append(x.names, name)
	if x.shards > 1 && !x.shardDone {
		x.shardIdx = x.shardIdx*n + c
		prod := 1
		for _, a := range x.arity {
			prod *= a
		}
		if prod >= 6*x.shards || len(x.choices) >= 8 {
			x.shardDone = true
			if mix(uint64(x.shardIdx))%uint64(x.shards) != uint64(x.shard) {
				panic(skipExec{})
			}
		}
	}
	cursorSet(x.choices)
	return c
}

func mix(v uint64) uint64 {
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	return v
}

// Choices returns the choices made so far.
func (x *X) Choices() []int { return append([]int{}, x.choices...) }

// Bool is Choose(2).
func (x *X) Bool(name string) bool { return x.Choose(2, name) == 1 }

// OneOf chooses an element of a slice.
func OneOf[E any](x *X, name string, s []E) E { return s[x.Choose(len(s), name)] }

// Fail reports a violation and ends the execution.
func (x *X) Fail(format string, a ...any) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Assert fails if the condition does not hold.
func (x *X) Assert(ok bool, format string, a ...any) {
	if !ok {
		x.Fail(format, a...)
	}
}

// Step counts n transitions executed on the implementation.
func (x *X) Step(n int) { x.st.Steps += int64(n) }

var hseed = maphash.MakeSeed()

func init() { _ = hseed }

// State records a model-visible state.
func (x *X) State(v ...any) {
	h := uint64(1469598103934665603)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	for _, a := range v {
		switch t := a.(type) {
		case string:
			add(t)
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(t))
			add(string(b[:]))
		default:
			add(fmt.Sprint(t))
		}
	}
	x.StateHash(h)
}

// StateHash records a state given by its hash.
func (x *X) StateHash(h uint64) {
	if len(x.st.states) >= stateCap {
		x.st.capped = true
		return
	}
	x.st.states[mix(h)] = struct{}{}
}

// Observe counts a distinct outcome class.
func (x *X) Observe(s string) {
	if len(x.st.Outcomes) < 4096 || x.st.Outcomes[s] > 0 {
		x.st.Outcomes[s]++
	}
}

// Panics runs f and tells whether it panicked.
func (x *X) Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skipExec:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Trace renders the choices made so far.
func (x *X) Trace() string {
	var sb strings.Builder
	for i, c := range x.choices {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%s=%d/%d", x.names[i], c, x.arity[i])
	}
	return sb.String()
}

// --- owned randomness ---

type detReader struct {
	mu  sync.Mutex
	key uint64
	ctr uint64
}

// ThreadRand, if set, answers requests of threads of a controlled run.
var ThreadRand func(p []byte) bool

func (d *detReader) Read(p []byte) (int, error) {
	if ThreadRand != nil && ThreadRand(p) {
		return len(p), nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := 0; i < len(p); i += 8 {
		d.ctr++
		v := mix(mix(d.key+d.ctr*0x9e3779b97f4a7c15) ^ 0x5851f42d4c957f2d)
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		copy(p[i:], b[:])
	}
	return len(p), nil
}

var theRand = &detReader{}

// BaseSeed is VERIF_SEED.
var BaseSeed uint64 = 1

func strHash(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

// Reseed restarts the randomness handed to the implementation from a label.
func Reseed(label string) {
	theRand.mu.Lock()
	theRand.key = strHash(label) ^ mix(BaseSeed)
	theRand.ctr = 0
	theRand.mu.Unlock()
}

// RandCalls returns how much randomness was drawn since the last Reseed.
func RandCalls() uint64 {
	theRand.mu.Lock()
	defer theRand.mu.Unlock()
	return theRand.ctr
}

// OwnRandom installs the deterministic source.
func OwnRandom() { rand.Reader = theRand }

// WithReader runs f with another system randomness source.
func WithReader(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

var memo = map[string]any{}

// Memo builds an immutable shared environment once per process, with its own randomness.
func Memo[V any](key string, f func() V) V {
	if v, ok := memo[key]; ok {
		return v.(V)
	}
	theRand.mu.Lock()
	k, c := theRand.key, theRand.ctr
	theRand.mu.Unlock()
	Reseed("memo:" + key)
	v := f()
	memo[key] = v
	theRand.mu.Lock()
	theRand.key, theRand.ctr = k, c
	theRand.mu.Unlock()
	return v
}

// --- harnesses ---

// Harness is a closed nondeterministic driver of the implementation.
type Harness struct {
	Prop, Name string
	// Backends defaults to all three.
	Backends []string
	// Shards is the number of processes the tree is split into per backend (default 8).
	Shards int
	// ThoroughOnly harnesses are skipped in the quick tier.
	ThoroughOnly bool
	// Bound says what is enumerated.
	Bound string
	Run   func(x *X)
}

// Key returns the unique name.
func (h *Harness) Key() string { return h.Prop + "/" + h.Name }

// Registry holds all harnesses.
var Registry []*Harness

// Register adds a harness.
func Register(h Harness) {
	if h.Shards == 0 {
		h.Shards = 8
	}
	if h.Backends == nil {
		h.Backends = []string{"avx2", "cpuoff", "purego"}
	}
	hh := h
	Registry = append(Registry, &hh)
}

// Find looks a harness up by key.
func Find(key string) *Harness {
	for _, h := range Registry {
		if h.Key() == key {
			return h
		}
	}
	return nil
}

// TaskResult is what a shard process reports.
type TaskResult struct {
	Harness    string           `json:"harness"`
	Backend    string           `json:"backend"`
	Shard      int              `json:"shard"`
	Shards     int              `json:"shards"`
	Complete   bool             `json:"complete"`
	Executions int64            `json:"executions"`
	Steps      int64            `json:"steps"`
	MaxDepth   int              `json:"max_depth"`
	Outcomes   map[string]int64 `json:"outcomes"`
	Samples    []string         `json:"samples"`
	Failed     bool             `json:"failed"`
	Message    string           `json:"message,omitempty"`
	Choices    []int            `json:"choices,omitempty"`
	Trace      string           `json:"trace,omitempty"`
	Stack      string           `json:"stack,omitempty"`
	HarnessErr bool             `json:"harness_err,omitempty"`
	Seconds    float64          `json:"seconds"`
	Capped     bool             `json:"states_capped"`
}

type execResult struct {
	skipped bool
	failed  bool
	herr    bool
	msg     string
	stack   string
}

func runOne(h *Harness, x *X) (res execResult) {
	Reseed("exec:" + h.Key())
	defer func() {
		if r := recover(); r != nil {
			switch t := r.(type) {
			case skipExec:
				res.skipped = true
			case failure:
				res.failed = true
				res.msg = t.msg
			default:
				res.failed = true
				res.msg = fmt.Sprintf("panic: %v", r)
				res.stack = string(debug.Stack())
				if strings.HasPrefix(fmt.Sprint(r), "harness error") {
					res.herr = true
				}
			}
		}
	}()
	h.Run(x)
	return
}

// RunTask explores one shard of a harness.
func RunTask(h *Harness, tier, backend string, shard, shards int, deadline time.Time) (*TaskResult, []uint64) {
	start := time.Now()
	st := &Stats{Outcomes: map[string]int64{}, states: map[uint64]struct{}{}}
	tr := &TaskResult{Harness: h.Key(), Backend: backend, Shard: shard, Shards: shards}
	var prefix []int
	for {
		x := &X{tier: tier, backend: backend, prefix: prefix, shard: shard, shards: shards, st: st,
			choices: make([]int, 0, 16), arity: make([]int, 0, 16), names: make([]string, 0, 16)}
		res := runOne(h, x)
		if !res.skipped && shards > 1 && !x.shardDone && shard != 0 {
			// execution ended before the shard decision: it belongs to shard 0 only; count it once.
			res.skipped = true
		}
		if res.failed {
			tr.Failed = true
			tr.Message = res.msg
			tr.Stack = res.stack
			tr.HarnessErr = res.herr
			tr.Choices = append([]int{}, x.choices...)
			tr.Trace = x.Trace()
			break
		}
		if !res.skipped {
			st.Executions++
			if len(x.choices) > st.MaxDepth {
				st.MaxDepth = len(x.choices)
			}
			if len(st.Samples) < 2 || (st.Executions&(st.Executions-1) == 0 && len(st.Samples) < 12) {
				st.Samples = append(st.Samples, x.Trace())
			}
		}
		// odometer
		i := len(x.choices) - 1
		for i >= 0 && x.choices[i]+1 >= x.arity[i] {
			i--
		}
		if i < 0 {
			tr.Complete = true
			break
		}
		prefix = append(append([]int{}, x.choices[:i]...), x.choices[i]+1)
		if time.Now().After(deadline) {
			break
		}
	}
	tr.Executions, tr.Steps, tr.MaxDepth = st.Executions, st.Steps, st.MaxDepth
	tr.Outcomes, tr.Samples, tr.Capped = st.Outcomes, st.Samples, st.capped
	tr.Seconds = time.Since(start).Seconds()
	hs := make([]uint64, 0, len(st.states))
	for k := range st.states {
		hs = append(hs, k)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	return tr, hs
}

// RunChoices executes a single choice vector.
func RunChoices(h *Harness, tier, backend string, choices []int) *TaskResult {
	st := &Stats{Outcomes: map[string]int64{}, states: map[uint64]struct{}{}}
	x := &X{tier: tier, backend: backend, prefix: choices, st: st, shards: 1}
	res := runOne(h, x)
	return &TaskResult{Harness: h.Key(), Backend: backend, Complete: true, Executions: 1, Steps: st.Steps, Failed: res.failed,
		Message: res.msg, Stack: res.stack, HarnessErr: res.herr, Choices: x.choices, Trace: x.Trace(), Outcomes: st.Outcomes}
}

// Logf prints to stderr when MC_DEBUG is set.
func Logf(format string, a ...any) {
	if os.Getenv("MC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}
