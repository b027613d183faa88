package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|run1|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	var (
		prop     = fs.String("prop", "", "property id")
		tier     = fs.String("tier", "quick", "quick or thorough")
		shard    = fs.Int("shard", 0, "")
		shards   = fs.Int("shards", 1, "")
		deadline = fs.Float64("deadline", 200, "seconds")
		out      = fs.String("out", "", "result file")
		journal  = fs.String("journal", "", "journal file")
		suite    = fs.String("suite", "", "only this suite")
		stop     = fs.Int64("stop", 0, "stop after this many runs of the suite")
		trail    = fs.String("trail", "", "json trail")
		verif    = fs.String("verif", "/verif", "the /verif directory")
		instr    = fs.String("instr", "", "instrumented binary")
		race     = fs.String("race", "", "race detector binary")
		seed     = fs.Int("seed", 1, "recorded in the evidence (no random choice is made)")
		file     = fs.String("file", "", "replay file")
		note     = fs.String("note", "", "build note for the evidence")
	)
	_ = fs.Parse(os.Args[2:])
	debug.SetMaxStack(128 << 20)
	switch os.Args[1] {
	case "list":
		var ids []string
		for id, p := range props {
			for _, s := range p.Suites {
				ids = append(ids, fmt.Sprintf("%s/%s\t%s\t%s", id, s.Name, s.Only, boundsOf(p, s)))
			}
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "worker":
		debug.SetMemoryLimit(3 << 30)
		worker(*prop, *tier, *shard, *shards, *deadline, *out, *journal, *suite, *stop)
	case "run1":
		os.Exit(run1(*prop, *tier, *suite, *trail))
	case "check":
		os.Exit(check(&checkArgs{prop: *prop, tier: *tier, deadline: *deadline, verif: *verif, instr: *instr, race: *race, seed: *seed, note: *note, suite: *suite}))
	case "replay":
		os.Exit(replay(*file, *instr, *race))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func suitesFor(p *Prop, tier, only string) (result []*Suite) {
	for _, s := range p.Suites {
		if (s.Only == "" || s.Only == tier) && (only == "" || only == s.Name) && s.Build == thisBuild() {
			result = append(result, s)
		}
	}
	return
}

type workerOut struct {
	Results []*SuiteResult `json:"results"`
	Hang    *Violation     `json:"hang,omitempty"`
	Done    bool           `json:"done"`
}

const hangLimit = 60 * time.Second

func worker(id, tier string, shard, shards int, deadline float64, out, journal, only string, stop int64) {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	end := time.Now().Add(time.Duration(deadline * float64(time.Second)))
	var jf *os.File
	if journal != "" {
		var err error
		if jf, err = os.Create(journal); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	wo := &workerOut{}
	seen := map[uint64]struct{}{}
	var cur *Suite
	go func() {
		for {
			time.Sleep(time.Second)
			st := runStart.Load()
			limit := hangLimit
			if cur != nil && cur.MaxCase > 0 {
				limit = cur.MaxCase
			}
			if st != 0 && time.Since(time.Unix(0, st)) > limit {
				if x := curX.Load(); x != nil && cur != nil {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					v := &Violation{Property: id, Suite: cur.Name, Tier: tier, Trail: append([]int(nil), x.trail[:min(x.pos, len(x.trail))]...),
						Message: "the case does not terminate\n" + trimStack(string(buf)), Shard: shard, Shards: shards}
					if x.note != nil {
						v.Case = safeNote(x)
					}
					wo.Hang = v
					writeWorker(wo, out, nil)
				}
				os.Exit(97)
			}
		}
	}()
	suites := suitesFor(p, tier, only)
	for i, s := range suites {
		cur = s
		// a suite that does not finish leaves time for those after it
		until := time.Now().Add(time.Until(end) / time.Duration(len(suites)-i))
		if len(suites)-i > 1 && tier == "quick" {
			until = time.Now().Add(time.Until(end) * 3 / 4)
		}
		e := &explorer{prop: p, suite: s, tier: tier, shard: shard, shards: shards, deadline: until, journal: jf, seen: seen, maxSeen: 1500000, stopAt: stop}
		r := e.run()
		wo.Results = append(wo.Results, r)
	}
	wo.Done = true
	writeWorker(wo, out, seen)
}

func writeWorker(wo *workerOut, out string, seen map[uint64]struct{}) {
	b, err := json.Marshal(wo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if out == "" {
		fmt.Println(string(b))
		return
	}
	if seen != nil {
		buf := make([]byte, 0, len(seen)*8)
		for h := range seen {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		_ = os.WriteFile(out+".seen", buf, 0o644)
	}
	_ = os.WriteFile(out, b, 0o644)
}

// run1 executes one trail: exit 0 ok, 1 property fails, other: crash
func run1(id, tier, suite, trail string) int {
	p := props[id]
	var t []int
	if p == nil || json.Unmarshal([]byte(trail), &t) != nil {
		return 2
	}
	for _, s := range p.Suites {
		if s.Name == suite {
			if s.Setup != nil {
				s.Setup()
			}
			go func() {
				limit := hangLimit
				if s.MaxCase > 0 {
					limit = s.MaxCase
				}
				time.Sleep(limit + 30*time.Second)
				fmt.Println("the case does not terminate")
				os.Exit(97)
			}()
			e := &explorer{prop: p, suite: s, tier: tier, shards: 1}
			x, o, msg := e.again(t)
			if x.note != nil {
				fmt.Println("case:", safeNote(x))
			}
			fmt.Println(o, msg)
			if o == "fail" {
				return 1
			}
			return 0
		}
	}
	return 2
}

type checkArgs struct {
	prop, tier, verif, instr, race, note, suite string
	deadline                                    float64
	seed                                        int
}

type workerRun struct {
	wo     *workerOut
	exit   int
	stderr string
}

func runWorker(bin string, tmp string, args ...string) *workerRun {
	f, err := os.CreateTemp(tmp, "w")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	name := f.Name()
	_ = f.Close()
	_ = os.Remove(name)
	cmd := exec.Command(bin, append([]string{"worker", "-out", name}, args...)...)
	var stderr bytes.Buffer
	cmd.Stderr = &limitedBuffer{b: &stderr, max: 1 << 20}
	cmd.Stdout = cmd.Stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=halt_on_error=1")
	err = cmd.Run()
	wr := &workerRun{stderr: stderr.String()}
	if err != nil {
		wr.exit = 2
		if ee, ok := err.(*exec.ExitError); ok {
			wr.exit = ee.ExitCode()
		}
	}
	if b, err := os.ReadFile(name); err == nil {
		wo := &workerOut{}
		if json.Unmarshal(b, wo) == nil {
			wr.wo = wo
		}
	}
	if b, err := os.ReadFile(name + ".seen"); err == nil {
		seenMu.Lock()
		for i := 0; i+8 <= len(b); i += 8 {
			if len(seenAll) < 8000000 {
				seenAll[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
		seenMu.Unlock()
	}
	return wr
}

type limitedBuffer struct {
	b   *bytes.Buffer
	max int
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room > 0 {
		if len(p) > room {
			l.b.Write(p[:room])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}

var (
	seenMu  sync.Mutex
	seenAll = map[uint64]struct{}{}
)

func check(a *checkArgs) int {
	start := time.Now()
	p := props[a.prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", a.prop)
		return 2
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer func() { _ = os.RemoveAll(tmp) }()
	shards := runtime.NumCPU()
	if shards > 16 {
		shards = 16
	}
	merged := map[string]*SuiteResult{}
	var order []string
	var violations []Violation
	var notes []string
	exhaustive := true
	merge := func(r *SuiteResult) {
		m := merged[r.Suite]
		if m == nil {
			m = &SuiteResult{Suite: r.Suite, Exhaustive: true, Extra: map[string]int64{}}
			merged[r.Suite] = m
			order = append(order, r.Suite)
		}
		m.Runs += r.Runs
		m.Evals += r.Evals
		m.Transitions += r.Transitions
		m.Nontrivial += r.Nontrivial
		m.Exhaustive = m.Exhaustive && r.Exhaustive
		m.MaxDepth = max(m.MaxDepth, r.MaxDepth)
		m.Wall = max(m.Wall, r.Wall)
		if r.Diverged != "" {
			m.Diverged = r.Diverged
		}
		for k, v := range r.Extra {
			m.Extra[k] += v
		}
		if len(m.Samples) < 4 {
			m.Samples = append(m.Samples, r.Samples...)
		}
		violations = append(violations, r.Violations...)
	}
	bins := []struct {
		name, path string
		wanted     bool
	}{{buildPlain, self, len(suitesOf(p, a.tier, buildPlain, a.suite)) > 0}, {buildRace, a.race, len(suitesOf(p, a.tier, buildRace, a.suite)) > 0},
		{buildInstr, a.instr, len(suitesOf(p, a.tier, buildInstr, a.suite)) > 0}}
	wanted := 0
	for _, b := range bins {
		if b.wanted && b.path != "" {
			wanted++
		}
	}
	for _, b := range bins {
		if !b.wanted {
			continue
		}
		if b.path == "" {
			exhaustive = false
			notes = append(notes, "no "+b.name+" build: its suites did not run")
			continue
		}
		left := a.deadline - time.Since(start).Seconds()
		if a.tier != "quick" && wanted > 1 {
			left *= 0.4
		}
		wanted--
		left = max(left, 5)
		args := []string{"-prop", a.prop, "-tier", a.tier, "-deadline", fmt.Sprint(left)}
		if a.suite != "" {
			args = append(args, "-suite", a.suite)
		}
		results := make([]*workerRun, shards)
		var wg sync.WaitGroup
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sa := append(append([]string{}, args...), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards))
				wr := runWorker(b.path, tmp, sa...)
				if wr.wo == nil || !wr.wo.Done {
					// crashed or hung: find the case
					jf := filepath.Join(tmp, fmt.Sprintf("journal%s%d", b.name, i))
					wr2 := wr
					if wr.wo == nil {
						wr2 = runWorker(b.path, tmp, append(sa, "-journal", jf)...)
					}
					if v := diagnose(b.path, a, p, wr, wr2, jf, i, shards); v != nil {
						wr.wo = &workerOut{Results: []*SuiteResult{{Suite: v.Suite, Violations: []Violation{*v}}}}
					} else if wr2.wo != nil && wr2.wo.Done {
						wr = wr2
					}
				}
				results[i] = wr
			}(i)
		}
		wg.Wait()
		for i, wr := range results {
			if wr.wo == nil || (!wr.wo.Done && len(wr.wo.Results) == 0) {
				exhaustive = false
				notes = append(notes, fmt.Sprintf("%s worker %d gave no result (exit %d): %s", b.name, i, wr.exit, clip(wr.stderr, 300)))
				fmt.Fprintf(os.Stderr, "worker %d: exit %d %s\n", i, wr.exit, clip(wr.stderr, 2000))
				continue
			}
			for _, r := range wr.wo.Results {
				for k := range r.Violations {
					r.Violations[k].Build = b.name
				}
				merge(r)
			}
		}
	}
	// confirm
	var confirmed []Violation
	for i := range violations {
		v := violations[i]
		if len(confirmed) >= 3 {
			break
		}
		bin := self
		if v.Build == buildInstr {
			bin = a.instr
		} else if v.Build == buildRace {
			bin = a.race
		}
		if confirm(bin, a, &v, tmp) {
			confirmed = append(confirmed, v)
		} else {
			exhaustive = false
			notes = append(notes, "an alarm that could not be repeated was dropped: "+clip(v.Message, 300))
			fmt.Fprintf(os.Stderr, "dropped (not repeatable): %s/%s %v: %s\n", v.Property, v.Suite, v.Trail, clip(v.Message, 500))
		}
	}
	// known findings
	findings := loadFindings(filepath.Join(a.verif, "known_findings.txt"))
	var reported []Violation
	printed := map[string]bool{}
	for _, v := range confirmed {
		if f := findings.match(&v); f != "" {
			if !printed[f] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", a.prop, f)
				printed[f] = true
			}
			continue
		}
		reported = append(reported, v)
	}
	code := 0
	for i, v := range reported {
		dir := filepath.Join(a.verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", a.prop, a.tier, i))
		b, _ := json.MarshalIndent(&v, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			path = "none"
		}
		fmt.Printf("suite %s\ncase %s\n%s\n", v.Suite, clip(v.Case, 2000), clip(v.Message, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.prop, path)
		code = 1
	}
	writeEvidence(a, p, merged, order, exhaustive, notes, len(reported), time.Since(start).Seconds())
	return code
}

func suitesOf(p *Prop, tier string, build string, only string) (result []*Suite) {
	for _, s := range p.Suites {
		if (s.Only == "" || s.Only == tier) && s.Build == build && (only == "" || only == s.Name) {
			result = append(result, s)
		}
	}
	return
}

// diagnose turns a crashed or hung worker into a violation, when it can be repeated
func diagnose(bin string, a *checkArgs, p *Prop, first, second *workerRun, journal string, shard, shards int) *Violation {
	var v *Violation
	if first.wo != nil && first.wo.Hang != nil {
		v = first.wo.Hang
	} else if second.wo != nil && second.wo.Hang != nil {
		v = second.wo.Hang
	} else if b, err := os.ReadFile(journal); err == nil && (second.wo == nil || !second.wo.Done) {
		var j struct {
			Suite string `json:"suite"`
			Trail []int  `json:"trail"`
		}
		if json.Unmarshal(bytes.TrimRight(b, "\x00"), &j) != nil {
			return nil
		}
		v = &Violation{Property: p.ID, Suite: j.Suite, Tier: a.tier, Trail: j.Trail, Shard: shard, Shards: shards,
			Message: "the process died: " + clip(firstLines(second.stderr, 12), 1500)}
	}
	return v
}

func firstLines(s string, n int) string {
	lines := strings.SplitN(s, "\n", n+1)
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}

// confirm repeats a violation in fresh processes
func confirm(bin string, a *checkArgs, v *Violation, tmp string) bool {
	t, _ := json.Marshal(v.Trail)
	fails := 0
	tries := 5
	for i := 0; i < tries; i++ {
		cmd := exec.Command(bin, "run1", "-prop", v.Property, "-tier", v.Tier, "-suite", v.Suite, "-trail", string(t))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1")
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &limitedBuffer{b: &b, max: 1 << 16}, &limitedBuffer{b: &b, max: 1 << 16}
		if err := cmd.Run(); err != nil {
			fails++
			if v.Case == "" {
				if s := b.String(); strings.HasPrefix(s, "case: ") {
					v.Case = firstLines(s, 1)
				}
			}
		}
		if strings.Contains(v.Message, "does not terminate") && i == 1 {
			break
		}
	}
	if fails > 0 {
		v.Repeats = fmt.Sprintf("%d/%d in fresh processes", fails, tries)
		return true
	}
	if v.Index > 0 {
		// needs the history of its worker
		wr := runWorker(bin, tmp, "-prop", v.Property, "-tier", v.Tier, "-deadline", "300", "-suite", v.Suite, "-stop", fmt.Sprint(v.Index),
			"-shard", fmt.Sprint(v.Shard), "-shards", fmt.Sprint(v.Shards))
		if wr.wo != nil {
			for _, r := range wr.wo.Results {
				for _, w := range r.Violations {
					if w.Index == v.Index {
						v.History = true
						v.Repeats = "with the history of its worker"
						return true
					}
				}
			}
		}
	}
	return false
}

func replay(file, instr, race string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := &Violation{}
	if err = json.Unmarshal(b, v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	if v.Build == buildInstr && instr != "" {
		self = instr
	} else if v.Build == buildRace && race != "" {
		self = race
	}
	if v.History {
		tmp, _ := os.MkdirTemp("", "mcreplay")
		defer func() { _ = os.RemoveAll(tmp) }()
		if confirm(self, nil, v, tmp) {
			fmt.Println(v.Case + "\n" + v.Message)
			return 1
		}
		return 0
	}
	t, _ := json.Marshal(v.Trail)
	cmd := exec.Command(self, "run1", "-prop", v.Property, "-tier", v.Tier, "-suite", v.Suite, "-trail", string(t))
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1")
	if err = cmd.Run(); err != nil {
		return 1
	}
	return 0
}

type finding struct{ property, suite, match, text string }
type findingList []finding

// loadFindings reads lines "finding: property=<id> suite=<suite> match=<substring> | description"
// ("fixed:" lines suppress nothing)
func loadFindings(path string) (result findingList) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " | ")
		f := finding{text: text}
		head, f.match, _ = strings.Cut(head, " match=")
		for _, part := range strings.Fields(head) {
			if k, v, ok := strings.Cut(part, "="); ok {
				switch k {
				case "property":
					f.property = v
				case "suite":
					f.suite = v
				}
			}
		}
		if f.match != "" {
			result = append(result, f)
		}
	}
	return
}

func (l findingList) match(v *Violation) string {
	for _, f := range l {
		if f.property == v.Property && (f.suite == "" || f.suite == v.Suite) && strings.Contains(v.Case+"\n"+v.Message, f.match) {
			return f.text
		}
	}
	return ""
}

func writeEvidence(a *checkArgs, p *Prop, merged map[string]*SuiteResult, order []string, exhaustive bool, notes []string, violations int, wall float64) {
	var runs, evals, trans, nontriv int64
	var samples []any
	var suites []any
	for _, n := range order {
		r := merged[n]
		runs += r.Runs
		evals += r.Evals
		trans += r.Transitions
		nontriv += r.Nontrivial
		exhaustive = exhaustive && r.Exhaustive
		bounds := ""
		for _, s := range p.Suites {
			if s.Name == n {
				bounds = boundsOf(p, s)
			}
		}
		suites = append(suites, map[string]any{"suite": n, "bounds": bounds, "executions": r.Runs, "evaluations": r.Evals, "choices": r.Transitions,
			"max_choice_depth": r.MaxDepth, "exhaustive": r.Exhaustive, "counters": r.Extra, "diverged": r.Diverged, "wall_s": r.Wall})
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, n+": "+s)
			}
		}
	}
	if samples == nil {
		samples = []any{"(none)"}
	}
	distinct := int64(len(seenAll))
	cov := map[string]any{
		"evaluations":                   evals,
		"distinct_nontrivial":           distinct,
		"rule":                          p.Rule + " Every case of the bounded space is generated by depth-first search over all choices; a case is non-trivial if it rendered something, and distinct if what was observed differs (64-bit hash; counting stops at 8 million).",
		"samples":                       samples,
		"states":                        distinct,
		"transitions":                   trans,
		"traces_validated_against_impl": runs,
		"nontrivial_executions":         nontriv,
		"exhaustive":                    exhaustive,
		"suites":                        suites,
	}
	if p.Level != "model_checking" {
		delete(cov, "states")
		delete(cov, "transitions")
		delete(cov, "traces_validated_against_impl")
		cov["choices"] = trans
		cov["executions"] = runs
	} else {
		delete(cov, "evaluations")
		delete(cov, "distinct_nontrivial")
		cov["comparisons"] = evals
		cov["rule"] = p.Rule + " Stateless exploration of the real code: depth-first over all choices, each complete execution compared with the reference model. states = distinct observations (64-bit hash, counting stops at 8 million), transitions = choices taken, traces = executions compared with the implementation."
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if a.note != "" {
		cov["build"] = a.note
	}
	ev := map[string]any{
		"property": p.ID, "tier": a.tier, "seed": a.seed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{"behaviour outside the stated bounds is not covered", "the Go toolchain and standard library work as documented"}, p.Assume...),
		"wall_s":      wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(a.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d executions, %d comparisons, %d choices, %d distinct observations, exhaustive=%v, %d violations, %.1fs\n", p.ID, a.tier, runs, evals, trans, distinct, exhaustive, violations, wall)
	for _, n := range notes {
		fmt.Println("note:", n)
	}
}
