package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// X is one execution of an exploration: every nondeterministic decision goes through Choose, and the
// explorer runs the body once per leaf of the resulting choice tree (depth first, nothing sampled).
type X struct {
	Tier   string
	trail  []int
	arity  []int
	pos    int
	prod   float64
	owned  bool
	shard  int
	shards int
	ready  bool
	manual bool
	huge   []int
	// observations of this run
	obs     uint64
	nontriv bool
	evals   int64
	note    func() string
	extra   map[string]int64
	obsMore []uint64
}

type skipRun struct{}
type failRun struct{ msg string }
type divergence struct{ msg string }

const shardProduct = 2000

// Choose returns 0..n-1; each value is explored.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("Choose(%d)", n))
	}
	if n == 1 {
		return 0
	}
	if x.pos < len(x.trail) {
		if x.arity[x.pos] != n && x.arity[x.pos] != 0 {
			panic(divergence{fmt.Sprintf("choice %d had %d alternatives, now %d", x.pos, x.arity[x.pos], n)})
		}
		x.arity[x.pos] = n
		if x.trail[x.pos] >= n {
			panic(divergence{fmt.Sprintf("choice %d is %d of %d", x.pos, x.trail[x.pos], n)})
		}
	} else {
		x.trail = append(x.trail, 0)
		x.arity = append(x.arity, n)
	}
	v := x.trail[x.pos]
	x.pos++
	if !x.owned && !x.manual {
		if x.prod *= float64(n); x.prod >= shardProduct {
			x.decide()
		}
	}
	return v
}

// Manual leaves it to the caller to say (with Ready) when the run is decided to belong to a shard
func (x *X) Manual() { x.manual = true }

func (x *X) decide() {
	x.owned = true
	if x.shards > 1 {
		h := fnv.New32a()
		for _, v := range x.trail[:x.pos] {
			_, _ = h.Write([]byte{byte(v), byte(v >> 8)})
		}
		if int(h.Sum32()>>3)%x.shards != x.shard {
			panic(skipRun{})
		}
	}
}

// Bool explores false then true
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Ready ends the generation of a case: from here on the run belongs to this shard.
func (x *X) Ready() {
	if !x.owned {
		x.decide()
	}
	x.ready = true
}

// Failf reports that the property does not hold on this execution
func (x *X) Failf(format string, args ...any) {
	panic(failRun{fmt.Sprintf(format, args...)})
}

// Observe records what was observed (for counting distinct outcomes); a non-empty observation is non-trivial
func (x *X) Observe(b []byte) {
	x.evals++
	h := fnv.New64a()
	_, _ = h.Write(b)
	x.obsMore = append(x.obsMore, h.Sum64())
	if len(b) > 0 {
		x.nontriv = true
	}
}

// Note sets how to describe the case
func (x *X) Note(fn func() string) { x.note = fn }

// Count adds to a named counter in the evidence
func (x *X) Count(name string, n int64) {
	if x.extra == nil {
		x.extra = map[string]int64{}
	}
	x.extra[name] += n
}

func (x *X) Thorough() bool { return x.Tier == "thorough" }

// Q picks the bound for the tier
func (x *X) Q(quick, thorough int) int {
	if x.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Suite is one exploration of a property
type Suite struct {
	Name string
	Body func(x *X)
	// bounds, for the evidence
	Bounds string
	// Only: "" for every tier, or the tier in which it runs
	Only string
	// Build that it runs in: "" is the plain one
	Build string
	// Once per process setup
	Setup func()
	// Single: not sharded (runs in shard 0 only)
	Single bool
	// MaxCase: longest time one case may take before it is thought to hang
	MaxCase time.Duration
}

// Prop is a property with its suites
type Prop struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	Suites []*Suite
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation found by a worker
type Violation struct {
	Property string `json:"property"`
	Suite    string `json:"suite"`
	Tier     string `json:"tier"`
	Trail    []int  `json:"trail"`
	Message  string `json:"message"`
	Case     string `json:"case"`
	// Shard/Shards/Index identify the run within its worker's history, when the case alone does not fail
	Shard   int    `json:"shard"`
	Shards  int    `json:"shards"`
	Index   int64  `json:"index"`
	History bool   `json:"needs_history"`
	Build   string `json:"build"`
	Repeats string `json:"repeats,omitempty"`
}

// SuiteResult is what a worker reports for one suite
type SuiteResult struct {
	Suite       string           `json:"suite"`
	Runs        int64            `json:"runs"`
	Evals       int64            `json:"evals"`
	Transitions int64            `json:"transitions"`
	Nontrivial  int64            `json:"nontrivial"`
	Exhaustive  bool             `json:"exhaustive"`
	Samples     []string         `json:"samples"`
	Extra       map[string]int64 `json:"extra"`
	Violations  []Violation      `json:"violations"`
	Diverged    string           `json:"diverged,omitempty"`
	MaxDepth    int              `json:"max_depth"`
	Wall        float64          `json:"wall"`
}

var (
	curTrail atomic.Value // string description of the running case, for the watchdog
	runStart atomic.Int64
	runLimit atomic.Int64
	curX     atomic.Pointer[X]
)

type explorer struct {
	prop     *Prop
	suite    *Suite
	tier     string
	shard    int
	shards   int
	deadline time.Time
	journal  *os.File
	seen     map[uint64]struct{}
	maxSeen  int
	stopAt   int64 // stop after this run index (replay of a history), 0 = never
}

// one executes the body for the given trail
func (e *explorer) one(trail, arity []int) (x *X, outcome string, msg string) {
	x = &X{Tier: tierOf(e.prop.ID, e.suite.Name, e.tier), trail: trail, prod: 1, shard: e.shard, shards: e.shards}
	x.arity = make([]int, len(trail))
	copy(x.arity, arity)
	curX.Store(x)
	runStart.Store(time.Now().UnixNano())
	defer runStart.Store(0)
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case skipRun:
				outcome = "skip"
			case failRun:
				outcome, msg = "fail", v.msg
			case divergence:
				outcome, msg = "diverged", v.msg
			default:
				outcome, msg = "fail", fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}
	}()
	e.suite.Body(x)
	if !x.owned {
		x.decide()
	}
	return x, "ok", ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "go-andiamo/aitch") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		_ = i
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (e *explorer) run() *SuiteResult {
	res := &SuiteResult{Suite: e.suite.Name, Exhaustive: true, Extra: map[string]int64{}}
	start := time.Now()
	defer func() { res.Wall = time.Since(start).Seconds() }()
	if e.suite.Single {
		if e.shard != 0 {
			return res
		}
		e.shards = 1
	}
	if e.suite.Setup != nil {
		e.suite.Setup()
	}
	var trail, arity []int
	sampleAt := int64(1)
	for iter := int64(0); ; iter++ {
		if iter&63 == 0 && time.Now().After(e.deadline) {
			res.Exhaustive = false
			return res
		}
		if e.journal != nil {
			b, _ := json.Marshal(map[string]any{"suite": e.suite.Name, "trail": trail})
			_ = e.journal.Truncate(0)
			_, _ = e.journal.WriteAt(b, 0)
		}
		x, outcome, msg := e.one(trail, arity)
		if outcome == "diverged" {
			// a choice tree that changes between runs: the exploration below is lost, not the verdict so far
			res.Diverged = msg
			res.Exhaustive = false
			if len(trail) == 0 {
				return res
			}
		}
		if outcome == "ok" || outcome == "fail" {
			res.Runs++
			res.Evals += x.evals
			res.Transitions += int64(x.pos)
			if x.pos > res.MaxDepth {
				res.MaxDepth = x.pos
			}
			if x.nontriv {
				res.Nontrivial++
			}
			for k, v := range x.extra {
				res.Extra[k] += v
			}
			for _, o := range x.obsMore {
				if len(e.seen) < e.maxSeen {
					e.seen[o] = struct{}{}
				}
			}
			if x.note != nil && res.Runs >= sampleAt && len(res.Samples) < 6 {
				res.Samples = append(res.Samples, clip(safeNote(x), 400))
				sampleAt = res.Runs * 7
			}
		}
		if outcome == "fail" {
			t := append([]int(nil), x.trail[:x.pos]...)
			v := Violation{Property: e.prop.ID, Suite: e.suite.Name, Tier: e.tier, Trail: t, Message: msg, Shard: e.shard, Shards: e.shards, Index: res.Runs}
			if x.note != nil {
				v.Case = safeNote(x)
			}
			fails := 0
			for i := 0; i < 5; i++ {
				if _, o, _ := e.again(t); o == "fail" {
					fails++
				}
			}
			v.Repeats = fmt.Sprintf("%d/5", fails)
			res.Violations = append(res.Violations, v)
			if len(res.Violations) >= 3 {
				res.Exhaustive = false
				return res
			}
		}
		if e.stopAt > 0 && res.Runs >= e.stopAt {
			return res
		}
		// backtrack
		trail = append([]int(nil), x.trail[:min(x.pos, len(x.trail))]...)
		ar := append([]int(nil), x.arity...)
		i := len(trail) - 1
		for i >= 0 && trail[i]+1 >= ar[i] {
			i--
		}
		if i < 0 {
			return res
		}
		trail = trail[:i+1]
		trail[i]++
		arity = ar[:i+1]
	}
}

// again re-executes one trail, whatever shard it belongs to
func (e *explorer) again(trail []int) (x *X, outcome, msg string) {
	e2 := *e
	e2.shards = 1
	e2.shard = 0
	return e2.one(append([]int(nil), trail...), nil)
}

func safeNote(x *X) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("(no description: %v)", r)
		}
	}()
	return x.note()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
