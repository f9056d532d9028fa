package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Opt is the configuration of the instance under test.
type Opt struct {
	Best      bool   `json:"best,omitempty"`
	Compliant bool   `json:"compliant,omitempty"`
	Parser    bool   `json:"parser,omitempty"` // mutex protected flavour
	RFC3339   bool   `json:"rfc3339,omitempty"`
	HasYear   bool   `json:"hasyear,omitempty"`
	Year      int    `json:"year,omitempty"`
	TZ        string `json:"tz,omitempty"`     // WithTimezone
	Locale    string `json:"locale,omitempty"` // WithLocaleTimezone
	NUL       bool   `json:"nul,omitempty"`    // trailer of non-transparent framing
	Max       *int   `json:"max,omitempty"`    // maximum message length
	Order     []int  `json:"order,omitempty"`  // order of the options
}

// BOp is an operation on a builder.
type BOp struct {
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
	A  []byte `json:"a,omitempty"`
	B  []byte `json:"b,omitempty"`
	C  []byte `json:"c,omitempty"`
}

// Case is one execution to judge. It is what a replay file holds.
type Case struct {
	M    string       `json:"monitor"`
	K    string       `json:"kind,omitempty"` // free sub-kind
	In   []byte       `json:"in,omitempty"`
	Seq  [][]byte     `json:"seq,omitempty"`
	O    Opt          `json:"opt"`
	Os   []Opt        `json:"opts,omitempty"`
	Ops  []BOp        `json:"ops,omitempty"`
	R    *ReaderSpec  `json:"reader,omitempty"`
	Rs   []ReaderSpec `json:"readers,omitempty"`
	Seed int64        `json:"seed,omitempty"`
	N    int          `json:"n,omitempty"`
}

func (c *Case) hash() uint64 {
	h := fnv.New64a()
	h.Write([]byte(c.M))
	h.Write([]byte(c.K))
	h.Write([]byte{0xff})
	h.Write(c.In)
	for _, s := range c.Seq {
		h.Write([]byte{0xfe})
		h.Write(s)
	}
	if c.Ops != nil || c.Os != nil || c.R != nil || c.Rs != nil {
		b, _ := json.Marshal(struct {
			A interface{}
			B interface{}
			C interface{}
			D interface{}
		}{c.Ops, c.Os, c.R, c.Rs})
		h.Write(b)
	}
	var f byte
	for i, b := range []bool{c.O.Best, c.O.Compliant, c.O.Parser, c.O.RFC3339, c.O.HasYear, c.O.NUL} {
		if b {
			f |= 1 << uint(i)
		}
	}
	h.Write([]byte{f, byte(c.O.Year), byte(c.O.Year >> 8)})
	h.Write([]byte(c.O.TZ + "/" + c.O.Locale))
	if c.O.Max != nil {
		fmt.Fprint(h, *c.O.Max)
	}
	for _, o := range c.O.Order {
		h.Write([]byte{byte(o)})
	}
	fmt.Fprint(h, c.Seed, c.N)
	return h.Sum64()
}

// Rec collects what a monitor observed on one execution.
type Rec struct {
	classes    []string
	events     int64
	nontrivial bool
}

func (r *Rec) class(s string) { r.classes = append(r.classes, s) }

// Monitor runs a case and returns the description of the violation ("" if none).
type Monitor func(c *Case, r *Rec) string

var monitors = map[string]Monitor{}

// Shard evaluates cases on one goroutine.
type Shard struct {
	x        *Ctx
	idx      int
	rng      *rand.Rand
	evals    int64
	events   int64
	distinct map[uint64]struct{}
	classes  map[string]int64
	samples  map[string]*Case
	viol     []viol
	progress int32
	current  atomic.Value // *Case
	done     int32
}

type viol struct {
	c   *Case
	msg string
}

// Ctx is a run of a check.
type Ctx struct {
	ID      string
	Tier    string
	Seed    int64
	shards  []*Shard
	stop    int32
	rule    string
	extra   map[string]interface{}
	require []string // classes which must have been observed
	// A process guided by the instrumentation runs the generators for its first cases
	guide            offerer
	guideAt, guideOf int
}

type offerer interface{ offer(c *Case) bool }

// guidedCommand runs the commands of the harness built with the instrumentation (see guided.go); -1: it is none of them.
var guidedCommand = func(args []string) int { return -1 }

func (x *Ctx) thorough() bool { return x.Tier == "thorough" }

// scale picks a case count by tier.
func (x *Ctx) scale(quick, thorough int) int {
	if x.thorough() {
		return thorough
	}
	return quick
}

func safely(m Monitor, c *Case, r *Rec) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	return m(c, r)
}

const maxViolPerShard = 1

// Eval judges one case; it tells whether the shard should go on.
func (s *Shard) Eval(c *Case) bool {
	if s.x.guide != nil {
		return s.x.guide.offer(c)
	}
	return s.eval(c)
}

func (s *Shard) eval(c *Case) bool {
	if atomic.LoadInt32(&s.x.stop) != 0 || len(s.viol) >= maxViolPerShard {
		return false
	}
	m, ok := monitors[c.M]
	if !ok {
		panic("unknown monitor " + c.M)
	}
	s.current.Store(c)
	r := Rec{}
	msg := safely(m, c, &r)
	atomic.AddInt32(&s.progress, 1)
	s.evals++
	s.events += r.events
	for _, k := range r.classes {
		s.classes[k]++
		if s.classes[k] == 1 && len(s.samples) < 12 {
			s.samples[k] = c
		}
	}
	if r.nontrivial && len(s.distinct) < 4000000 {
		s.distinct[c.hash()] = struct{}{}
	}
	if msg != "" {
		s.viol = append(s.viol, viol{c, msg})
		return false
	}
	return true
}

func (s *Shard) ok() bool {
	return atomic.LoadInt32(&s.x.stop) == 0 && len(s.viol) < maxViolPerShard
}

// Run splits work on shards: f is called once per shard with its index and the number of shards.
func (x *Ctx) Run(n int, f func(s *Shard, i, n int)) {
	if x.guide != nil {
		for i := x.guideAt; i < n; i += x.guideOf {
			f(&Shard{x: x, rng: rand.New(rand.NewSource(x.Seed*1000003 + int64(i)))}, i, n)
		}
		return
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	base := len(x.shards)
	local := []*Shard{}
	for i := 0; i < n; i++ {
		s := &Shard{x: x, idx: base + i, rng: rand.New(rand.NewSource(x.Seed*1000003 + int64(base+i)*7919 + 17)),
			distinct: map[uint64]struct{}{}, classes: map[string]int64{}, samples: map[string]*Case{}}
		local = append(local, s)
	}
	mu.Lock()
	x.shards = append(x.shards, local...)
	mu.Unlock()
	for i, s := range local {
		wg.Add(1)
		go func(i int, s *Shard) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			defer atomic.StoreInt32(&s.done, 1)
			debug.SetPanicOnFault(true)
			if s.ok() {
				f(s, i, n)
			}
			if len(s.viol) > 0 {
				atomic.StoreInt32(&x.stop, 1)
			}
		}(i, s)
	}
	wg.Wait()
}

var mu sync.Mutex

// watchdog: a case taking more than this is a hang (usual cases take micro or milliseconds).
const hangAfter = 150 * time.Second

func (x *Ctx) watchdog() {
	type st struct {
		p  int32
		at time.Time
	}
	seen := map[*Shard]st{}
	var ms runtime.MemStats
	for tick := 0; ; tick++ {
		time.Sleep(time.Second)
		if tick%2 == 0 {
			if runtime.ReadMemStats(&ms); ms.HeapAlloc > heapLimit {
				x.runaway(ms.HeapAlloc)
			}
		}
		mu.Lock()
		shards := append([]*Shard(nil), x.shards...)
		mu.Unlock()
		for _, s := range shards {
			if atomic.LoadInt32(&s.done) != 0 {
				continue
			}
			c, _ := s.current.Load().(*Case)
			if c == nil {
				continue
			}
			p := atomic.LoadInt32(&s.progress)
			o, ok := seen[s]
			if !ok || o.p != p {
				seen[s] = st{p, time.Now()}
				continue
			}
			if time.Since(o.at) > hangAfter {
				path := writeReplay(x.ID, c, "the execution did not end")
				fmt.Printf("the following execution did not end within %v: %s\n", hangAfter, describe(c))
				fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, path)
				os.Exit(1)
			}
		}
	}
}

// heapLimit: the workloads need some hundreds of megabytes.
const heapLimit = 14 << 30

// runaway reports the case running for the longest time when the memory in use grows without bound.
func (x *Ctx) runaway(used uint64) {
	mu.Lock()
	defer mu.Unlock()
	var c *Case
	for _, s := range x.shards {
		if atomic.LoadInt32(&s.done) == 0 {
			if n, _ := s.current.Load().(*Case); n != nil && (c == nil || len(n.In) > len(c.In)) {
				c = n
			}
		}
	}
	if c == nil {
		return
	}
	path := writeReplay(x.ID, c, "the memory in use grows without bound")
	fmt.Printf("%d MB of memory in use, during executions like %s\n", used>>20, describe(c))
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, path)
	os.Exit(1)
}

func evidenceDir() string {
	d := os.Getenv("VERIF_EVIDENCE")
	if d == "" {
		d = "/verif/evidence"
	}
	return d
}

func writeReplay(id string, c *Case, msg string) string {
	dir := filepath.Join(evidenceDir(), "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, id+".json")
	b, _ := json.MarshalIndent(struct {
		Property string `json:"property"`
		What     string `json:"what"`
		Readable string `json:"readable"`
		Case     *Case  `json:"case"`
	}{id, msg, describe(c), c}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d more)", len(s)-n)
}

func describe(c *Case) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", c.M)
	if c.K != "" {
		fmt.Fprintf(&b, "/%s", c.K)
	}
	o, _ := json.Marshal(c.O)
	fmt.Fprintf(&b, " opt=%s", o)
	if c.In != nil {
		fmt.Fprintf(&b, " in=%s", clip(fmt.Sprintf("%q", c.In), 600))
	}
	for i, s := range c.Seq {
		if i == 12 {
			fmt.Fprintf(&b, " ...(%d inputs)", len(c.Seq))
			break
		}
		fmt.Fprintf(&b, " [%d]=%s", i, clip(fmt.Sprintf("%q", s), 300))
	}
	for i, s := range c.Os {
		o, _ := json.Marshal(s)
		fmt.Fprintf(&b, " opt[%d]=%s", i, o)
	}
	for i, op := range c.Ops {
		if i == 40 {
			fmt.Fprintf(&b, " ...(%d ops)", len(c.Ops))
			break
		}
		fmt.Fprintf(&b, " %s(%d,%s,%s,%s)", op.Op, op.N, clip(fmt.Sprintf("%q", op.A), 80), clip(fmt.Sprintf("%q", op.B), 80), clip(fmt.Sprintf("%q", op.C), 80))
	}
	if c.R != nil {
		r, _ := json.Marshal(c.R)
		fmt.Fprintf(&b, " reader=%s", clip(string(r), 200))
	}
	if c.Seed != 0 || c.N != 0 {
		fmt.Fprintf(&b, " seed=%d n=%d", c.Seed, c.N)
	}
	return b.String()
}

// guarded evaluates a case, giving up when it takes too long (nothing stops it then, but the process is about to end).
func guarded(c Case, limit time.Duration) (string, bool) {
	out := make(chan string, 1)
	go func() {
		debug.SetPanicOnFault(true)
		r := Rec{}
		out <- safely(monitors[c.M], &c, &r)
	}()
	select {
	case m := <-out:
		return m, true
	case <-time.After(limit):
		return "", false
	}
}

// shrink removes bytes from a failing case while it keeps on failing.
func shrink(c *Case, msg string) (*Case, string) {
	best, bmsg := *c, msg
	budget := 4000
	deadline := time.Now().Add(10 * time.Second)
	try := func(n Case) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		m, ended := guarded(n, 5*time.Second)
		if !ended {
			budget = 0
		}
		if m != "" {
			best, bmsg = n, m
			return true
		}
		return false
	}
	over := func() bool { return budget <= 0 || time.Now().After(deadline) }
	bytesShrink := func(get func() []byte, put func(*Case, []byte)) {
		for size := len(get()) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(get()) && !over(); {
				cur := get()
				n := best
				nb := append(append([]byte{}, cur[:i]...), cur[i+size:]...)
				put(&n, nb)
				if !try(n) {
					i += size
				}
			}
		}
	}
	for i := 0; i < len(best.Seq) && !over(); {
		n := best
		n.Seq = append(append([][]byte{}, best.Seq[:i]...), best.Seq[i+1:]...)
		if len(best.Rs) == len(best.Seq) {
			n.Rs = append(append([]ReaderSpec{}, best.Rs[:i]...), best.Rs[i+1:]...)
		}
		if !try(n) {
			i++
		}
	}
	for i := 0; i < len(best.Ops) && !over(); {
		n := best
		n.Ops = append(append([]BOp{}, best.Ops[:i]...), best.Ops[i+1:]...)
		if !try(n) {
			i++
		}
	}
	if best.In != nil {
		bytesShrink(func() []byte { return best.In }, func(n *Case, b []byte) { n.In = b })
	}
	for i := range best.Seq {
		i := i
		bytesShrink(func() []byte { return best.Seq[i] }, func(n *Case, b []byte) {
			n.Seq = append([][]byte{}, n.Seq...)
			n.Seq[i] = b
		})
	}
	return &best, bmsg
}

// Finish reports and returns the exit code.
func (x *Ctx) Finish(start time.Time) int {
	var evals, events int64
	distinct := map[uint64]struct{}{}
	classes := map[string]int64{}
	samples := []string{}
	seenSample := map[string]bool{}
	var vs []viol
	for _, s := range x.shards {
		evals += s.evals
		events += s.events
		for h := range s.distinct {
			distinct[h] = struct{}{}
		}
		for k, n := range s.classes {
			classes[k] += n
		}
		keys := []string{}
		for k := range s.samples {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if !seenSample[k] && len(samples) < 12 {
				seenSample[k] = true
				samples = append(samples, k+": "+clip(describe(s.samples[k]), 400))
			}
		}
		vs = append(vs, s.viol...)
	}
	code := 0
	if len(vs) > 0 {
		v := vs[0]
		c, msg := v.c, v.msg
		if !strings.HasPrefix(c.M, "conc") {
			c, msg = shrink(c, msg)
		}
		path := writeReplay(x.ID, c, msg)
		fmt.Printf("%s\n%s\n", describe(c), clip(msg, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, path)
		code = 1
	}
	missing := []string{}
	for _, k := range x.require {
		if classes[k] == 0 {
			missing = append(missing, k)
		}
	}
	if code == 0 && (len(missing) > 0 || evals == 0) {
		fmt.Printf("INCONCLUSIVE property=%s: never observed %v (%d executions)\n", x.ID, missing, evals)
		code = 3
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                x.rule,
		"samples":             samples,
		"events_observed":     events,
		"behaviour_classes":   classes,
		"distinct_classes":    len(classes),
		"shards":              len(x.shards),
	}
	for k, v := range x.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": x.ID, "tier": x.Tier, "seed": x.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(vs),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(evidenceDir(), 0o755)
	if err := os.WriteFile(filepath.Join(evidenceDir(), x.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 4
	}
	if code == 0 {
		fmt.Printf("held: property=%s executions=%d distinct=%d events=%d classes=%d wall=%.1fs\n",
			x.ID, evals, len(distinct), events, len(classes), time.Since(start).Seconds())
	}
	return code
}

var assumptions = []string{
	"the reference models in /verif/harness state the intended behaviour",
	"the Go toolchain, its race detector and the kernel's memory protection work",
	"nothing is claimed about executions that were not generated",
}
