// Package mc is a stateless model checker: it executes a driver once for every vector of
// answers the driver's Choose calls can receive, in parallel, and records violations.
package mc

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// T is one execution of a driver.
type T struct {
	sp      *run
	prefix  []int
	choices []int
	sizes   []int
	trans   int64
	nontriv int64
	attach  map[string][]byte
	notes   []string
	key     string
	verbose bool
	out     uint64
	hasOut  bool
	skip    bool
}

type failure struct{ msg string }
type skipped struct{}

// Skip ends an execution that lies outside the space; it is not counted.
func (t *T) Skip() { panic(skipped{}) }

type diverged struct{ msg string }

// Choose returns one of 0..n-1. The explorer enumerates all of them.
func (t *T) Choose(n int) int {
	if n <= 0 {
		panic(diverged{fmt.Sprintf("Choose(%d)", n)})
	}
	c := 0
	if i := len(t.choices); i < len(t.prefix) {
		c = t.prefix[i]
	}
	if c >= n {
		panic(diverged{fmt.Sprintf("replayed choice %d of %d at depth %d", c, n, len(t.choices))})
	}
	t.choices = append(t.choices, c)
	t.sizes = append(t.sizes, n)
	return c
}

// Range returns one of lo..hi (inclusive).
func (t *T) Range(lo, hi int) int { return lo + t.Choose(hi-lo+1) }

// Pick returns one of the listed values.
func Pick[V any](t *T, vs ...V) V { return vs[t.Choose(len(vs))] }

// Bool chooses false, then true.
func (t *T) Bool() bool { return t.Choose(2) == 1 }

// Perm chooses a permutation of 0..n-1, the identity first.
func (t *T) Perm(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var p []int
	for len(rest) > 0 {
		i := t.Choose(len(rest))
		p = append(p, rest[i])
		rest = append(append([]int{}, rest[:i]...), rest[i+1:]...)
	}
	return p
}

// Steps counts n comparisons of an implementation step with the model.
func (t *T) Steps(n int) { t.trans += int64(n) }

// NonTrivial marks this execution as non-trivial.
func (t *T) NonTrivial() { t.nontriv = 1 }

// State records a model state that was reached (deduplicated per space).
func (t *T) State(h uint64) { t.sp.states.add(h) }

// Outcome records what the implementation answered (deduplicated per space).
func (t *T) Outcome(parts ...interface{}) {
	h := Hash(fmt.Sprint(parts...))
	t.out, t.hasOut = h, true
}

// OutcomeHash is Outcome for an already hashed value.
func (t *T) OutcomeHash(h uint64) { t.out, t.hasOut = h, true }

// Attach keeps data for the replay file.
func (t *T) Attach(name string, b []byte) {
	if t.attach == nil {
		t.attach = map[string][]byte{}
	}
	t.attach[name] = b
}

// Note describes the execution in replay files and samples.
func (t *T) Note(format string, a ...interface{}) {
	if t.verbose {
		t.notes = append(t.notes, fmt.Sprintf(format, a...))
	}
}

// Key names the failing input for the known-findings file.
func (t *T) Key(k string) { t.key = k }

// Fail ends the execution with a violation.
func (t *T) Fail(format string, a ...interface{}) { panic(failure{fmt.Sprintf(format, a...)}) }

// Must fails unless ok.
func (t *T) Must(ok bool, format string, a ...interface{}) {
	if !ok {
		t.Fail(format, a...)
	}
}

// Hash is FNV-1a.
func Hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

type set struct {
	sh [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
}

func (s *set) add(h uint64) {
	x := &s.sh[(h^h>>17)%64]
	x.Lock()
	if x.m == nil {
		x.m = map[uint64]struct{}{}
	}
	if len(x.m) < 200000 {
		x.m[h] = struct{}{}
	}
	x.Unlock()
}

func (s *set) len() (n int) {
	for i := range s.sh {
		n += len(s.sh[i].m)
	}
	return
}

// Space is a driver together with its name.
type Space struct {
	Name    string
	Fn      func(*T)
	Workers int // 0: all cores
	Rule    string
}

// Violation is a failing execution.
type Violation struct {
	Property string            `json:"property"`
	Space    string            `json:"space"`
	Choices  []int             `json:"choices"`
	Sizes    []int             `json:"sizes"`
	Message  string            `json:"message"`
	Key      string            `json:"key,omitempty"`
	Notes    []string          `json:"notes,omitempty"`
	Attach   map[string]string `json:"attachments_base64,omitempty"`
	Repro    string            `json:"reproduced"`
	Replay   string            `json:"replay_cmd"`
}

type job struct {
	prefix []int
	lo, hi int // alternatives for the last position of prefix; lo<0: run prefix as is
}

type run struct {
	space  *Space
	mu     sync.Mutex
	cond   *sync.Cond
	stack  []job
	busy   int
	stop   bool
	viol   []*Violation
	states set
	outs   set

	execs, nodes, trans, nontriv int64
	samples                      []string
	complete                     bool
	maxDepth                     int64
}

// Stats are the counts of one space.
type Stats struct {
	Name        string   `json:"name"`
	Executions  int64    `json:"executions"`
	Nodes       int64    `json:"choice_states"`
	ModelStates int      `json:"model_states"`
	Transitions int64    `json:"transitions"`
	NonTrivial  int64    `json:"nontrivial_executions"`
	Outcomes    int      `json:"distinct_outcomes"`
	MaxDepth    int64    `json:"max_choices"`
	Complete    bool     `json:"complete"`
	WallS       float64  `json:"wall_s"`
	Rule        string   `json:"rule,omitempty"`
	Samples     []string `json:"samples,omitempty"`
}

var (
	hangLimit = 200 * time.Second
	current   [256]int64 // start time of the execution in each worker
	currentT  [256]atomic.Pointer[T]
)

func exec1(sp *run, t *T) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			var msg string
			switch x := r.(type) {
			case skipped:
				t.skip = true
				return
			case failure:
				msg = x.msg
			case diverged:
				fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s: %s\n", sp.space.Name, x.msg)
				os.Exit(3)
			default:
				// a panic of the code under test, or of a comparison that met an impossible result
				msg = fmt.Sprintf("panic: %v", r)
				if t.verbose {
					t.notes = append(t.notes, string(debug.Stack()))
				}
			}
			v = &Violation{Space: sp.space.Name, Choices: append([]int{}, t.choices...), Sizes: append([]int{}, t.sizes...), Message: msg, Key: t.key}
		}
	}()
	sp.space.Fn(t)
	return nil
}

func (r *run) one(worker int, prefix []int) *T {
	t := &T{sp: r, prefix: prefix}
	currentT[worker].Store(t)
	atomic.StoreInt64(&current[worker], time.Now().UnixNano())
	v := exec1(r, t)
	atomic.StoreInt64(&current[worker], 0)
	if v == nil && len(t.choices) < len(prefix) {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s: execution shorter than its prefix\n", r.space.Name)
		os.Exit(3)
	}
	if t.skip {
		return t
	}
	atomic.AddInt64(&r.execs, 1)
	atomic.AddInt64(&r.nodes, int64(len(t.choices)-len(prefix)+1))
	tr := t.trans
	if tr == 0 {
		tr = 1
	}
	atomic.AddInt64(&r.trans, tr)
	atomic.AddInt64(&r.nontriv, t.nontriv)
	if t.hasOut {
		r.outs.add(t.out)
	}
	for {
		d := atomic.LoadInt64(&r.maxDepth)
		if int64(len(t.choices)) <= d || atomic.CompareAndSwapInt64(&r.maxDepth, d, int64(len(t.choices))) {
			break
		}
	}
	if v != nil {
		r.mu.Lock()
		r.viol = append(r.viol, v)
		r.stop = true
		r.cond.Broadcast()
		r.mu.Unlock()
	}
	return t
}

func (r *run) worker(id int, deadline time.Time) {
	for {
		r.mu.Lock()
		for len(r.stack) == 0 && r.busy > 0 && !r.stop {
			r.cond.Wait()
		}
		if r.stop || len(r.stack) == 0 {
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		if time.Now().After(deadline) {
			r.stop = true
			r.complete = false
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		j := r.stack[len(r.stack)-1]
		r.stack = r.stack[:len(r.stack)-1]
		var batch [][]int
		if j.lo < 0 {
			batch = append(batch, j.prefix)
		} else {
			n := (j.hi - j.lo) / 64 // take a slice of the alternatives
			if n < 1 {
				n = 1
			}
			if n > 256 {
				n = 256
			}
			for k := 0; k < n; k++ {
				batch = append(batch, append(append([]int{}, j.prefix...), j.lo+k))
			}
			if j.lo+n < j.hi {
				r.stack = append(r.stack, job{j.prefix, j.lo + n, j.hi})
			}
		}
		r.busy++
		r.mu.Unlock()

		var add []job
		for _, p := range batch {
			if r.stop {
				break
			}
			if time.Now().After(deadline) {
				r.mu.Lock()
				r.stop, r.complete = true, false
				r.mu.Unlock()
				break
			}
			t := r.one(id, p)
			for i := len(p); i < len(t.choices); i++ {
				if t.sizes[i] > 1 {
					add = append(add, job{append([]int{}, t.choices[:i]...), 1, t.sizes[i]})
				}
			}
		}
		r.mu.Lock()
		r.stack = append(r.stack, add...)
		r.busy--
		r.cond.Broadcast()
		r.mu.Unlock()
	}
}

// Explore runs all executions of the space.
func Explore(sp Space, deadline time.Time) (*Stats, []*Violation) {
	start := time.Now()
	r := &run{space: &sp, complete: true}
	r.cond = sync.NewCond(&r.mu)
	r.stack = []job{{nil, -1, -1}}
	n := sp.Workers
	if n == 0 {
		n = runtime.GOMAXPROCS(0)
	}
	// samples: the first execution and its neighbours, written out
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); r.worker(i, deadline) }(i)
	}
	wg.Wait()
	sort.Slice(r.viol, func(i, j int) bool { return less(r.viol[i].Choices, r.viol[j].Choices) })
	complete := r.complete && len(r.viol) == 0
	return &Stats{Name: sp.Name, Executions: r.execs, Nodes: r.nodes, ModelStates: r.states.len(), Transitions: r.trans,
		NonTrivial: r.nontriv, Outcomes: r.outs.len(), MaxDepth: r.maxDepth, Complete: complete,
		WallS: time.Since(start).Seconds(), Rule: sp.Rule}, r.viol
}

func less(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// Replay executes exactly one choice vector.
func Replay(sp Space, choices []int) (*T, *Violation) {
	r := &run{space: &sp}
	r.cond = sync.NewCond(&r.mu)
	t := &T{sp: r, prefix: choices, verbose: true}
	v := exec1(r, t)
	if v != nil {
		v.Notes = t.notes
		v.Attach = map[string]string{}
		for k, b := range t.attach {
			v.Attach[k] = base64.StdEncoding.EncodeToString(b)
		}
	}
	return t, v
}

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Spaces func(thorough bool) []Space
	Assume []string
	// Extra runs after the spaces and may add coverage and violations.
	Extra func(thorough bool, cov map[string]interface{}) []*Violation
}

var root = os.Getenv("VERIF_ROOT")

type known struct{ prop, key, text string }

func loadKnown() (ks []known) {
	b, _ := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <text>
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) >= 3 && f[0] == "finding:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			k := known{prop: f[1][9:], key: f[2][4:]}
			if len(f) == 4 {
				k.text = f[3]
			}
			ks = append(ks, k)
		}
	}
	return
}

// WriteReplay stores the violation and returns its path.
func WriteReplay(v *Violation) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0755)
	name := fmt.Sprintf("%s-%s-%08x.json", v.Property, v.Space, uint32(Hash(fmt.Sprint(v.Choices, v.Message))))
	path := filepath.Join(dir, name)
	v.Replay = "bash run.sh " + v.Property + " replay replays/" + name
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0644)
	return path
}

// Main runs a check and exits.
func Main(c Check, tier string, args []string) {
	start := time.Now()
	thorough := tier == "thorough"
	if tier == "replay" {
		replayMain(c, args)
		return
	}
	budget := 300 * time.Second
	if thorough {
		budget = 800 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		if n > 0 {
			budget = time.Duration(n) * time.Second
		}
	}
	deadline := start.Add(budget)
	go func() { // an execution that does not end at all is a violation too
		for range time.Tick(time.Second) {
			for i := range current {
				if s := atomic.LoadInt64(&current[i]); s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
					t := currentT[i].Load()
					v := &Violation{Property: c.ID, Space: t.sp.space.Name, Choices: append([]int{}, t.choices...), Message: "execution does not terminate"}
					fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, WriteReplay(v))
					os.Exit(1)
				}
			}
		}
	}()

	var stats []*Stats
	var viol []*Violation
	only := os.Getenv("VERIF_SPACE")
	spaces := c.Spaces(thorough)
	for _, sp := range spaces {
		if only != "" && sp.Name != only {
			continue
		}
		st, vs := Explore(sp, deadline)
		// samples: re-execute a few vectors verbosely
		if len(vs) == 0 {
			t, v := Replay(sp, nil)
			if v == nil {
				st.Samples = append(st.Samples, fmt.Sprintf("%s%v %s", sp.Name, t.choices, strings.Join(t.notes, "; ")))
			}
		}
		stats = append(stats, st)
		fmt.Printf("%-4s %-28s executions=%d states=%d transitions=%d outcomes=%d complete=%v %.1fs\n", c.ID, sp.Name,
			st.Executions, st.Nodes+int64(st.ModelStates), st.Transitions, st.Outcomes, st.Complete, st.WallS)
		for _, v := range vs {
			v.Property = c.ID
			ok, n := 0, 5
			for i := 0; i < n; i++ {
				began := time.Now()
				if _, w := Replay(sp, v.Choices); w != nil {
					ok++
					v.Notes, v.Attach = w.Notes, w.Attach
				}
				if time.Since(began) > 20*time.Second { // it does not end: once is enough
					n = i + 1
				}
			}
			v.Repro = fmt.Sprintf("%d of %d re-executions", ok, n)
			viol = append(viol, v)
		}
		if len(viol) > 0 {
			break
		}
	}
	cov := map[string]interface{}{}
	if c.Extra != nil && len(viol) == 0 && only == "" {
		for _, v := range c.Extra(thorough, cov) {
			v.Property = c.ID
			viol = append(viol, v)
		}
	}

	ks := loadKnown()
	var real []*Violation
	for _, v := range viol {
		hit := false
		for _, k := range ks {
			if k.prop == c.ID && v.Key != "" && k.key == v.Key {
				hit = true
			}
		}
		if !hit {
			real = append(real, v)
		}
	}
	for _, k := range ks {
		if k.prop == c.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.text)
		}
	}

	// evidence
	var execs, nodes, trans, nontriv int64
	var mstates, outs int
	complete := true
	var samples []string
	for _, s := range stats {
		execs += s.Executions
		nodes += s.Nodes
		trans += s.Transitions
		nontriv += s.NonTrivial
		mstates += s.ModelStates
		outs += s.Outcomes
		complete = complete && s.Complete
		samples = append(samples, s.Samples...)
	}
	cov["spaces"] = stats
	cov["exhaustive"] = complete
	cov["samples"] = samples
	cov["distinct_outcomes"] = outs
	switch c.Level {
	case "fault_enumeration", "exploration":
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = nontriv
		var rules []string
		for _, s := range stats {
			if s.Rule != "" {
				rules = append(rules, s.Name+": "+s.Rule)
			}
		}
		cov["rule"] = "Every choice vector of each space is executed exactly once (so cases are distinct by construction); non-trivial: " + strings.Join(rules, "; ")
		cov["states"] = nodes + int64(mstates)
		cov["transitions"] = trans
	default:
		cov["states"] = nodes + int64(mstates)
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = execs
		cov["explanation"] = "states: nodes of the choice tree plus distinct model states; transitions: implementation steps (cells, pixels, coordinates, fields, schedule points) compared with the model; traces: complete executions of the real code, each compared with the model"
	}
	ev := map[string]interface{}{"property": c.ID, "tier": tierName(thorough), "seed": seed(), "level": c.Level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(real)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if len(real) > 0 {
		v := real[0]
		path := WriteReplay(v)
		fmt.Printf("%s in %s %v: %s (%s)\n", c.ID, v.Space, v.Choices, v.Message, v.Repro)
		for _, n := range v.Notes {
			fmt.Println("   ", n)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		os.Exit(1)
	}
	fmt.Printf("%s ok: executions=%d states=%d transitions=%d exhaustive=%v %.1fs\n", c.ID, execs, nodes+int64(mstates), trans, complete, time.Since(start).Seconds())
	os.Exit(0)
}

func tierName(th bool) string {
	if th {
		return "thorough"
	}
	return "quick"
}

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func replayMain(c Check, args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, th := range []bool{false, true} {
		for _, sp := range c.Spaces(th) {
			if sp.Name != v.Space {
				continue
			}
			t, w := Replay(sp, v.Choices)
			for _, n := range t.notes {
				fmt.Println("   ", n)
			}
			if w == nil {
				fmt.Println("replay: the property holds on this execution")
				os.Exit(0)
			}
			fmt.Printf("replay: %s\nVIOLATION property=%s replay=%s\n", w.Message, c.ID, args[0])
			os.Exit(1)
		}
	}
	fmt.Fprintln(os.Stderr, "no such space:", v.Space, v.Message)
	os.Exit(3)
}
