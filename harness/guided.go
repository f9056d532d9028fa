//go:build guided

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Workloads guided by what the code under test does. Its packages are built with the compiler's instrumentation for fuzzing
// (-d=libfuzzer): counters on every branch, and the operands of every comparison. The generators of a check give the first
// cases; those which take new branches, or bring a comparison nearer to an outcome never seen, are kept and mutated, also
// after the operands seen. The monitors judge every execution, as ever.

// ---------------------------------------------------------------- what the instrumentation calls

//go:linkname libfuzzerTraceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname libfuzzerTraceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname libfuzzerTraceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname libfuzzerTraceCmp8 runtime.libfuzzerTraceCmp8
//go:linkname libfuzzerTraceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname libfuzzerTraceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname libfuzzerTraceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname libfuzzerTraceConstCmp8 runtime.libfuzzerTraceConstCmp8
//go:linkname libfuzzerHookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname libfuzzerHookEqualFold runtime.libfuzzerHookEqualFold

func libfuzzerTraceCmp1(a, b uint8, pc uint)       { compared(1, uint64(a), uint64(b), pc) }
func libfuzzerTraceCmp2(a, b uint16, pc uint)      { compared(2, uint64(a), uint64(b), pc) }
func libfuzzerTraceCmp4(a, b uint32, pc uint)      { compared(4, uint64(a), uint64(b), pc) }
func libfuzzerTraceCmp8(a, b uint64, pc uint)      { compared(8, a, b, pc) }
func libfuzzerTraceConstCmp1(a, b uint8, pc uint)  { compared(1, uint64(a), uint64(b), pc) }
func libfuzzerTraceConstCmp2(a, b uint16, pc uint) { compared(2, uint64(a), uint64(b), pc) }
func libfuzzerTraceConstCmp4(a, b uint32, pc uint) { compared(4, uint64(a), uint64(b), pc) }
func libfuzzerTraceConstCmp8(a, b uint64, pc uint) { compared(8, a, b, pc) }
func libfuzzerHookStrCmp(a, b string, pc uint)     { comparedText(a, b, pc) }
func libfuzzerHookEqualFold(a, b string, pc uint)  { comparedText(a, b, pc) }

//go:linkname fuzzCounters internal/fuzz._counters
var fuzzCounters byte

//go:linkname fuzzEcounters internal/fuzz._ecounters
var fuzzEcounters byte

func counters() []byte {
	at := unsafe.Pointer(&fuzzCounters)
	n := uintptr(unsafe.Pointer(&fuzzEcounters)) - uintptr(at)
	if n > 1<<24 {
		return nil
	}
	return unsafe.Slice((*byte)(at), int(n))
}

const (
	cmpBits = 16 // of the table from places in the code to comparisons
	maxCmp  = 1 << 15
)

// cmpSite is a comparison of the code under test.
type cmpSite struct {
	epoch  uint32
	mask   uint8 // outcomes ever seen: less, equal, greater
	size   uint8
	best   int8      // bits of the least distance ever seen
	now    int8      // and of that seen by the current execution
	a, b   uint64    // the operands nearest to each other, of the current execution
	la, lb uint64    // the last ones
	text   [2]string // texts
}

var (
	sites   [maxCmp]cmpSite
	settled [maxCmp]bool // seen with every outcome
	touched [maxCmp]uint16
	nsites  uint16 = 1 // the first one is not used
	places  [1 << cmpBits]struct {
		pc uint32
		at uint16
	}
	ntouch  uint32
	epoch   uint32 = 1
	tracing bool
)

// siteAt gives the number of the comparison at a place of the code.
func siteAt(pc uint) uint16 {
	for h := uint32(pc) * 2654435761 >> (32 - cmpBits); ; h = (h + 1) & (1<<cmpBits - 1) {
		p := &places[h]
		if p.pc == uint32(pc) {
			return p.at
		}
		if p.pc == 0 {
			if nsites < maxCmp-1 {
				nsites++
			}
			p.pc, p.at = uint32(pc), nsites-1
			return p.at
		}
	}
}

func site(h uint16) (*cmpSite, bool) {
	s := &sites[h]
	fresh := s.epoch != epoch
	if fresh {
		s.epoch = epoch
		touched[ntouch&(maxCmp-1)] = h
		ntouch++
	}
	return s, fresh
}

func compared(size uint8, a, b uint64, pc uint) {
	if !tracing {
		return
	}
	h := siteAt(pc)
	if settled[h] {
		return
	}
	s, fresh := site(h)
	if size == 8 && a+1<<40 > 1<<41 && b+1<<40 > 1<<41 {
		// Neither is a small number: pointers, probably
		s.mask |= 7
		settled[h] = true
		return
	}
	s.size = size
	d := int64(a - b)
	switch {
	case d < 0:
		s.mask |= 1
		d = -d
	case d == 0:
		s.mask |= 2
	default:
		s.mask |= 4
	}
	settled[h] = s.mask == 7
	n := int8(bits.Len64(uint64(d)))
	if fresh || n < s.now {
		s.now, s.a, s.b = n, a, b
	}
	s.la, s.lb = a, b
}

func comparedText(a, b string, pc uint) {
	if !tracing {
		return
	}
	h := siteAt(pc)
	if settled[h] {
		return
	}
	s, fresh := site(h)
	s.size = 0
	if a == b {
		s.mask |= 7
		settled[h] = true
		return
	}
	if len(a) > 200 {
		a = a[:200]
	}
	if len(b) > 200 {
		b = b[:200]
	}
	// How much they share
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	n := int8(64 - minInt(k, 60))
	if len(a) == len(b) {
		n--
	}
	if fresh || n < s.now {
		s.now = n
		s.text = [2]string{strings.Clone(a), strings.Clone(b)}
	}
}

// ---------------------------------------------------------------- the corpus

type hint struct {
	site uint16
	size uint8
	a, b uint64
	text [2]string
}

type entry struct {
	c     *Case
	cost  time.Duration
	hints []hint
	used  int
	depth int
}

type guide struct {
	s        *Shard
	rng      *rand.Rand
	target   *hint
	seen     []byte         // buckets seen, by counter
	nearest  [maxCmp]*entry // which brought the operands of a comparison nearest, while it never found them equal
	open     []uint16       // those comparisons
	openAt   int64
	corpus   []*entry
	recent   []*entry
	deadline time.Duration // of the processor
	genEnd   time.Duration
	clock    int
	clocked  time.Duration
	cpu      time.Duration // in cases
	begun    time.Time
	every    int
	evals    int64
	skipped  int64
	edges    int
	solved   int
	seeds    int
}

func bucket(b byte) byte {
	switch {
	case b < 3:
		return b
	case b == 3:
		return 4
	case b < 8:
		return 8
	case b < 16:
		return 16
	case b < 32:
		return 32
	case b < 128:
		return 64
	}
	return 128
}

// guidable tells the cases whose monitors judge whatever their texts are.
func guidable(c *Case) bool {
	switch c.M {
	case "accept5424", "extract5424", "best5424", "error5424", "accept3164", "extract3164", "time3164", "error3164",
		"setters", "serialize", "reparse", "hand", "total", "history", "own", "fence", "ownstream",
		"stream", "reuse", "chunks", "prompt", "texts", "streamtotal", "options", "streamoptions", "traileropt":
		return true
	case "scanner":
		return c.K == ""
	case "trailertext":
		return true
	case "helpers":
		return c.K != "ranges"
	case "nest":
		return true
	}
	return false
}

func caseSize(c *Case) int {
	n := len(c.In)
	for _, s := range c.Seq {
		n += len(s) + 4
	}
	for i := range c.Ops {
		n += len(c.Ops[i].A) + len(c.Ops[i].B) + len(c.Ops[i].C) + 8
	}
	return n * (1 + len(c.Rs)/4)
}

// observe runs a case and tells whether it did something new.
func (g *guide) observe(c *Case, depth int) (bool, *entry) {
	cov := counters()
	clear(cov)
	epoch++
	ntouch = 0
	start := time.Now()
	tracing = true
	go_ := g.s.eval(c)
	tracing = false
	cost := time.Since(start)
	g.evals++
	g.cpu += cost
	if !go_ {
		return false, nil
	}
	news := false
	words := unsafe.Slice((*uint64)(unsafe.Pointer(unsafe.SliceData(cov))), len(cov)/8)
	for w, v := range words {
		if v == 0 {
			continue
		}
		for k := w * 8; k < w*8+8; k++ {
			if b := bucket(cov[k]); b&^g.seen[k] != 0 {
				if g.seen[k] == 0 {
					g.edges++
				}
				g.seen[k] |= b
				news = true
			}
		}
	}
	n := int(minInt(int(ntouch), len(touched)))
	var better []uint16
	for _, h := range touched[:n] {
		s := &sites[h]
		if s.never() && (g.nearest[h] == nil || s.now+1 < s.best) {
			better = append(better, h)
		} else if s.never() && s.now+1 == s.best && cost < g.nearest[h].cost/2 {
			// As near, in less time
			better = append(better, h)
			news = true
		}
		if s.mask == 7 {
			continue
		}
		if s.best == 0 || s.now+1 < s.best {
			s.best = s.now + 1
			news = true
		}
	}
	if !news {
		return true, nil
	}
	e := &entry{c: c, cost: cost, depth: depth}
	hint1 := func(h uint16) {
		s := &sites[h]
		e.hints = append(e.hints, hint{h, s.size, s.a, s.b, s.text})
		if s.size > 1 && (s.la != s.a || s.lb != s.b) {
			e.hints = append(e.hints, hint{h, s.size, s.la, s.lb, s.text})
		}
	}
	for _, h := range better {
		hint1(h)
		g.nearest[h] = e
	}
	others := 0
	for _, k := range g.rng.Perm(n) {
		h := touched[k]
		s := &sites[h]
		if s.mask == 7 || !s.never() && g.rng.Intn(8) > 0 || s.size == 1 && g.rng.Intn(4) > 0 {
			continue
		}
		hint1(h)
		if others++; others > 40 {
			break
		}
	}
	return true, e
}

// never tells that the operands of a comparison were never equal (or always).
func (s *cmpSite) never() bool { return s.mask&2 == 0 || s.mask == 2 }

func (g *guide) keep(e *entry) {
	if e == nil || caseSize(e.c) > 40000 || e.cost > 200*time.Millisecond {
		return
	}
	if len(g.corpus) < 20000 {
		g.corpus = append(g.corpus, e)
	} else {
		g.corpus[g.rng.Intn(len(g.corpus))] = e
	}
	g.recent = append(g.recent, e)
	if len(g.recent) > 64 {
		g.recent = g.recent[1:]
	}
}

// offer is what the generators call in place of judging a case.
func (g *guide) offer(c *Case) bool {
	if !guidable(c) || caseSize(c) > 20000 {
		return true
	}
	if g.elapsed() > g.genEnd {
		return false
	}
	if g.rng.Intn(g.every) > 0 {
		g.skipped++
		return true
	}
	// No time is to be spent waiting
	if c.R != nil {
		c.R.Pauses, c.R.Linger = nil, nil
	}
	for i := range c.Rs {
		c.Rs[i].Pauses, c.Rs[i].Linger = nil, nil
	}
	ok, e := g.observe(c, 0)
	g.seeds++
	if ok && e == nil && g.seeds < 200 {
		e = &entry{c: c, cost: time.Millisecond}
	}
	g.keep(e)
	return ok
}

// elapsed is the processor time used, or a third of the time since the beginning when that is more.
func (g *guide) elapsed() time.Duration {
	if g.clock++; g.clock&15 == 1 {
		var u syscall.Rusage
		g.clocked = time.Since(g.begun)
		if syscall.Getrusage(syscall.RUSAGE_SELF, &u) == nil {
			g.clocked = maxDur(g.clocked/3, time.Duration(u.Utime.Nano()+u.Stime.Nano()))
		}
	}
	return g.clocked
}

func maxDur(a, b time.Duration) time.Duration {
	if a > b {
		return a
	}
	return b
}

func (g *guide) pick() *entry {
	if len(g.recent) > 0 && g.rng.Intn(2) == 0 {
		return g.recent[g.rng.Intn(len(g.recent))]
	}
	a := g.corpus[g.rng.Intn(len(g.corpus))]
	for k := 0; k < 2; k++ {
		if b := g.corpus[g.rng.Intn(len(g.corpus))]; b.cost < a.cost {
			a = b
		}
	}
	return a
}

// aim gives a hint about a comparison never equal, with the case which comes nearest.
func (g *guide) aim() (*entry, *hint) {
	if g.evals >= g.openAt {
		g.openAt = g.evals + 2000
		g.open = g.open[:0]
		for h, e := range g.nearest[:nsites] {
			if e != nil && sites[h].never() {
				g.open = append(g.open, uint16(h))
			}
		}
	}
	for k := 0; k < 8 && len(g.open) > 0; k++ {
		h := g.open[g.rng.Intn(len(g.open))]
		e := g.nearest[h]
		if !sites[h].never() {
			continue
		}
		var hs []*hint
		for i := range e.hints {
			if e.hints[i].site == h {
				hs = append(hs, &e.hints[i])
			}
		}
		if len(hs) > 0 {
			return e, hs[g.rng.Intn(len(hs))]
		}
	}
	return nil, nil
}

func (g *guide) run() {
	for g.s.ok() && g.elapsed() < g.deadline && len(g.corpus) > 0 {
		e := g.pick()
		g.target = nil
		if g.rng.Intn(3) > 0 {
			if a, h := g.aim(); a != nil {
				e, g.target = a, h
			}
		}
		e.used++
		until := g.cpu + 2*time.Millisecond
		if g.rng.Intn(8) == 0 {
			until = g.cpu + 50*time.Millisecond
		}
		for k := 0; k < 16 && g.cpu < until; k++ {
			c := g.mutant(e)
			if c == nil {
				continue
			}
			ok, n := g.observe(c, e.depth+1)
			if !ok {
				return
			}
			g.keep(n)
		}
	}
}

// ---------------------------------------------------------------- mutation

func cloneCase(c *Case) *Case {
	n := *c
	n.Seq = append([][]byte(nil), c.Seq...)
	n.Ops = append([]BOp(nil), c.Ops...)
	n.Rs = append([]ReaderSpec(nil), c.Rs...)
	n.Os = append([]Opt(nil), c.Os...)
	if c.Seq == nil {
		n.Seq = nil
	}
	return &n
}

// mate gives another case for the same monitor.
func (g *guide) mate(c *Case) *Case {
	for k := 0; k < 8; k++ {
		if o := g.corpus[g.rng.Intn(len(g.corpus))].c; o.M == c.M && o.K == c.K {
			return o
		}
	}
	return c
}

func (g *guide) mutant(e *entry) (m *Case) {
	defer func() {
		// The making of cases has nothing to do with the code under test
		if recover() != nil {
			m = nil
		}
	}()
	r := g.rng
	c := cloneCase(e.c)
	if c.M == "nest" {
		c.Seed = r.Int63()
		return c
	}
	k := 1 + r.Intn(3)
	if g.target != nil && r.Intn(2) == 0 {
		k = 1
	}
	for ; k > 0; k-- {
		switch p := r.Intn(24); {
		case p == 0:
			g.otherOptions(c, e)
		case p == 1:
			g.otherReader(c)
		case p < 5 && len(c.Seq) > 0:
			g.otherHistory(c)
		case p < 8 && len(c.Ops) > 0:
			g.otherOps(c)
		default:
			g.otherText(c, e)
		}
	}
	if !g.fits(c) {
		return nil
	}
	return c
}

// fits looks after what the monitors take for granted.
func (g *guide) fits(c *Case) bool {
	if caseSize(c) > 300000 {
		return false
	}
	fix := func(s *ReaderSpec) {
		s.Pauses, s.Linger = nil, nil
		if s.Panic || s.Burst > 0 {
			s.Std = ""
		}
		if s.Std == "pipe" && c.M == "scanner" {
			s.Std = "tee"
		}
	}
	if c.R != nil {
		n := *c.R
		fix(&n)
		c.R = &n
	}
	for i := range c.Rs {
		fix(&c.Rs[i])
	}
	switch c.M {
	case "setters", "serialize", "hand":
		if c.In != nil && len(c.In) == 0 {
			return false
		}
	}
	if c.M == "hand" {
		for i := range c.Ops {
			if !handOK(&c.Ops[i]) {
				return false
			}
		}
	}
	if c.M == "helpers" && !helperOK(c) || c.M == "helpers" && c.N < 0 {
		return false
	}
	if c.M == "setters" && c.N > len(c.Ops) {
		c.N = len(c.Ops)
	}
	return true
}

// helperOK tells whether a text is made of what the helper takes.
func helperOK(c *Case) bool {
	switch c.K {
	case "digits":
		_, err := strconv.Atoi("0" + string(c.In))
		return err == nil && len(c.In) > 0 && c.In[0] != '_'
	case "between":
		_, _, _, ok := threeNumbers(c.In)
		return ok
	}
	return true
}

// handOK tells whether what is assigned is valid for its field.
func handOK(op *BOp) bool {
	if !strings.HasPrefix(op.Op, "=") {
		return true
	}
	field := func(max int) bool {
		if op.A == nil {
			return true
		}
		for _, b := range op.A {
			if !graph(b) {
				return false
			}
		}
		return len(op.A) > 0 && len(op.A) <= max
	}
	as := func(kind string) bool {
		o := *op
		o.Op = kind
		return byHand(&o)
	}
	switch op.Op {
	case "=host":
		return field(255)
	case "=app":
		return field(48)
	case "=proc":
		return field(128)
	case "=mid":
		return field(32)
	case "=msg":
		return op.A == nil || len(op.A) > 0
	case "=elem", "=del":
		return as("sdid")
	case "=param", "=delparam":
		return as("param")
	case "=ts":
		return op.A == nil || validStamp(string(op.A))
	}
	return true
}

func (g *guide) otherOptions(c *Case, e *entry) {
	r := g.rng
	if len(c.Os) > 0 {
		m := g.mate(c)
		if len(m.Os) > 0 {
			c.Os[r.Intn(len(c.Os))] = m.Os[r.Intn(len(m.Os))]
		}
		return
	}
	switch r.Intn(5) {
	case 0, 1:
		c.O = g.mate(c).O
	case 2:
		c.O.Best = !c.O.Best
	case 3:
		if c.O.Max != nil {
			n := *c.O.Max
			if h := g.number(e); h != nil && int64(h.b) < 1<<20 && int64(h.b) > -100 {
				n = int(int64(h.b))
			} else {
				n += r.Intn(5) - 2
			}
			c.O.Max = &n
		}
	case 4:
		if c.O.HasYear && c.O.Year != currentYear {
			if h := g.number(e); h != nil && int64(h.a) < 10000 && int64(h.a) > 0 {
				c.O.Year = int(h.a)
			} else {
				c.O.Year += r.Intn(5) - 2
			}
		}
	}
}

func (g *guide) number(e *entry) *hint {
	r := g.rng
	if h := g.target; h != nil && h.size > 1 && r.Intn(2) == 0 {
		if r.Intn(2) == 0 {
			return &hint{h.site, h.size, h.b, h.a, h.text}
		}
		return h
	}
	for k := 0; k < 4 && len(e.hints) > 0; k++ {
		h := &e.hints[r.Intn(len(e.hints))]
		if h.size > 1 && sites[h.site].mask != 7 {
			if r.Intn(2) == 0 {
				return &hint{h.site, h.size, h.b, h.a, h.text}
			}
			return h
		}
	}
	return nil
}

func (g *guide) otherReader(c *Case) {
	r := g.rng
	change := func(s *ReaderSpec, n int) {
		if s.Std != "" || s.FailErr == "stalled" {
			return
		}
		switch r.Intn(5) {
		case 0:
			s.Chunks = nil
		case 1:
			s.Chunks = []int{1 + r.Intn(40)}
		case 2:
			s.Chunks = []int{1 + r.Intn(n+1), 1 + r.Intn(n+1)}
		case 3:
			s.WithEOF = !s.WithEOF
		case 4:
			if s.FailAt > 0 {
				s.FailAt = 1 + r.Intn(n+1)
			}
		}
	}
	if c.R != nil {
		n := *c.R
		change(&n, len(c.In))
		c.R = &n
	}
	if len(c.Rs) > 0 && len(c.Rs) == len(c.Seq) {
		k := r.Intn(len(c.Rs))
		change(&c.Rs[k], len(c.Seq[k]))
	}
}

func (g *guide) otherHistory(c *Case) {
	r := g.rng
	par := len(c.Rs) == len(c.Seq)
	del := func(i int) {
		c.Seq = append(append([][]byte{}, c.Seq[:i]...), c.Seq[i+1:]...)
		if par {
			c.Rs = append(append([]ReaderSpec{}, c.Rs[:i]...), c.Rs[i+1:]...)
		}
	}
	ins := func(at int, b []byte, s ReaderSpec) {
		c.Seq = append(append(append([][]byte{}, c.Seq[:at]...), b), c.Seq[at:]...)
		if par {
			c.Rs = append(append(append([]ReaderSpec{}, c.Rs[:at]...), s), c.Rs[at:]...)
		}
	}
	spec := func(c *Case, i int) ReaderSpec {
		if i < len(c.Rs) && len(c.Rs) == len(c.Seq) {
			return c.Rs[i]
		}
		return ReaderSpec{}
	}
	i := r.Intn(len(c.Seq))
	switch r.Intn(5) {
	case 0:
		if len(c.Seq) > 1 {
			del(i)
		}
	case 1:
		ins(r.Intn(len(c.Seq)+1), c.Seq[i], spec(c, i))
	case 2:
		j := r.Intn(len(c.Seq))
		c.Seq[i], c.Seq[j] = c.Seq[j], c.Seq[i]
		if par {
			c.Rs[i], c.Rs[j] = c.Rs[j], c.Rs[i]
		}
	case 3:
		m := g.mate(c)
		if len(m.Seq) > 0 {
			j := r.Intn(len(m.Seq))
			if r.Intn(2) == 0 {
				ins(r.Intn(len(c.Seq)+1), m.Seq[j], spec(m, j))
			} else {
				c.Seq[i] = m.Seq[j]
			}
		}
	case 4:
		if k := len(c.Seq); k < 200 {
			for j := 0; j < k && len(c.Seq) < 300; j++ {
				ins(len(c.Seq), c.Seq[j], spec(c, j))
			}
		}
	}
}

func (g *guide) otherOps(c *Case) {
	r := g.rng
	i := r.Intn(len(c.Ops))
	switch r.Intn(6) {
	case 0:
		if len(c.Ops) > 1 {
			c.Ops = append(append([]BOp{}, c.Ops[:i]...), c.Ops[i+1:]...)
		}
	case 1:
		at := r.Intn(len(c.Ops) + 1)
		c.Ops = append(append(append([]BOp{}, c.Ops[:at]...), c.Ops[i]), c.Ops[at:]...)
	case 2:
		j := r.Intn(len(c.Ops))
		c.Ops[i], c.Ops[j] = c.Ops[j], c.Ops[i]
	case 3, 4:
		m := g.mate(c)
		if len(m.Ops) > 0 {
			at := r.Intn(len(c.Ops) + 1)
			c.Ops = append(append(append([]BOp{}, c.Ops[:at]...), m.Ops[r.Intn(len(m.Ops))]), c.Ops[at:]...)
		}
	case 5:
		switch op := &c.Ops[i]; op.Op {
		case "pri", "=pri", "=cfp", "=fac":
			op.N = r.Intn(256)
		case "ver", "=ver":
			op.N = r.Intn(1100)
		}
	}
}

// otherText changes one of the texts of a case.
func (g *guide) otherText(c *Case, e *entry) {
	r := g.rng
	var slots []*[]byte
	if len(c.In) > 0 || len(c.Seq) == 0 && len(c.Ops) == 0 {
		slots = append(slots, &c.In)
	}
	for i := range c.Seq {
		slots = append(slots, &c.Seq[i])
	}
	for i := range c.Ops {
		for k, p := range []*[]byte{&c.Ops[i].A, &c.Ops[i].B, &c.Ops[i].C} {
			if *p != nil && !(k > 0 && c.Ops[i].Op == "=ts") { // (the name of a zone)
				slots = append(slots, p)
			}
		}
	}
	if len(slots) == 0 {
		return
	}
	p := slots[r.Intn(len(slots))]
	var other []byte
	m := g.mate(c)
	switch {
	case len(c.Ops) > 0 && len(m.Ops) > 0 && p != &c.In:
		other = m.Ops[r.Intn(len(m.Ops))].A
	case len(c.Seq) > 0 && len(m.Seq) > 0 && p != &c.In:
		other = m.Seq[r.Intn(len(m.Seq))]
	default:
		other = m.In
	}
	octets := false
	switch c.M {
	case "stream", "reuse", "chunks", "prompt", "texts", "streamtotal", "streamoptions", "ownstream", "scanner":
		octets = c.M == "scanner" || streamKind(c.K) == "oct"
	}
	if octets && r.Intn(4) > 0 {
		*p = g.reframed(*p, other, e)
		return
	}
	*p = g.bytes(*p, other, e)
}

// frames splits a stream of octet counting as far as it is well framed.
func frames(in []byte) (fs [][]byte, rest []byte) {
	for len(in) > 0 {
		k := 0
		for k < len(in) && digit(in[k]) {
			k++
		}
		n, err := strconv.Atoi(string(in[:k]))
		if err != nil || k >= len(in) || in[k] != ' ' || n <= 0 || n > len(in)-k-1 || in[0] == '0' {
			return fs, in
		}
		fs = append(fs, in[k+1:k+1+n])
		in = in[k+1+n:]
	}
	return fs, nil
}

func (g *guide) reframed(in, other []byte, e *entry) []byte {
	r := g.rng
	fs, rest := frames(in)
	of, _ := frames(other)
	if len(fs) == 0 {
		return g.bytes(in, other, e)
	}
	i := r.Intn(len(fs))
	switch p := r.Intn(10); {
	case p < 6:
		var o []byte
		if len(of) > 0 {
			o = of[r.Intn(len(of))]
		}
		fs[i] = g.bytes(fs[i], o, e)
	case p == 6:
		fs = append(fs[:i:i], fs[i+1:]...)
	case p == 7:
		n := 1
		if h := g.number(e); h != nil {
			if d := int64(h.b - h.a); d > 0 && d < 300 {
				n = int(d)
			}
		}
		f := fs[i]
		for ; n > 0; n-- {
			fs = append(fs, f)
		}
	case p == 8 && len(of) > 0:
		fs = append(fs, of[r.Intn(len(of))])
	default:
		rest = g.bytes(rest, other, e)
	}
	var out []byte
	for _, f := range fs {
		if len(f) > 0 {
			out = append(out, octetFrame(f)...)
		}
	}
	return append(out, rest...)
}

func splitTokens(b []byte) [][2]int {
	var out [][2]int
	sep := func(c byte) bool {
		switch c {
		case ' ', '[', ']', '=', '"', '<', '>', ':', '\n', 0, 'T', '-', '.', '+', 'Z', '\\':
			return true
		}
		return false
	}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && !sep(b[j]) {
			j++
		}
		if j > i {
			out = append(out, [2]int{i, j})
		}
		i = j + 1
	}
	return out
}

func (g *guide) token() []byte {
	r := g.rng
	switch r.Intn(4) {
	case 0:
		return []byte(word(r))
	case 1:
		return []byte(tokensStream[r.Intn(len(tokensStream))])
	case 2:
		return []byte(pick(r, "\n", "\x00", " ", "[", "]", "\"", "\\", "=", "<", ">", ":", "-", "\ufeff", "é", "\xff", "T", "Z", ".", "+", "<1>1 ", "[a b=\"c\"]", "] ", "\" ", "\\\"", "0", "9"))
	}
	return []byte{someByte(r)}
}

// bytes changes a text.
func (g *guide) bytes(in, other []byte, e *entry) []byte {
	r := g.rng
	at := func() int { return r.Intn(len(in) + 1) }
	span := func() (int, int) {
		a := at()
		b := minInt(len(in), a+1+r.Intn(1+r.Intn(24)))
		return a, b
	}
	if g.target != nil && r.Intn(3) > 0 {
		if out := g.solve(in, g.target); out != nil {
			return out
		}
	}
	if h := r.Intn(5); h < 2 && len(e.hints) > 0 {
		if out := g.solve(in, &e.hints[r.Intn(len(e.hints))]); out != nil {
			return out
		}
	}
	switch r.Intn(12) {
	case 0:
		if len(in) > 0 {
			k := r.Intn(len(in))
			return cat(in[:k], someByte(r), in[k+1:])
		}
		return g.token()
	case 1:
		k := at()
		return cat(in[:k], someByte(r), in[k:])
	case 2:
		a, b := span()
		return cat(in[:a], in[b:])
	case 3: // again
		a, b := span()
		out := append([]byte{}, in[:b]...)
		for n := 1 + r.Intn(1+r.Intn(8)); n > 0 && len(out) < 100000; n-- {
			out = append(out, in[a:b]...)
		}
		return append(out, in[b:]...)
	case 4:
		k := at()
		return cat(in[:k], g.token(), in[k:])
	case 5:
		a, b := span()
		return cat(in[:a], g.token(), in[b:])
	case 6: // from another
		if len(other) > 0 {
			a := r.Intn(len(other))
			b := minInt(len(other), a+1+r.Intn(40))
			x, y := span()
			if r.Intn(2) == 0 {
				y = x
			}
			return cat(in[:x], other[a:b], in[y:])
		}
		return in
	case 7: // the beginning of one, the end of the other
		if len(other) > 0 {
			return cat(in[:at()], other[r.Intn(len(other)):])
		}
		return in
	case 8, 9: // a token for a token
		ts := splitTokens(in)
		if len(ts) == 0 {
			return cat(in, g.token())
		}
		t := ts[r.Intn(len(ts))]
		src := in
		if len(other) > 0 && r.Intn(2) == 0 {
			src = other
		}
		var with []byte
		if os := splitTokens(src); len(os) > 0 && r.Intn(3) > 0 {
			q := os[r.Intn(len(os))]
			with = src[q[0]:q[1]]
		} else {
			with = g.token()
		}
		return cat(in[:t[0]], with, in[t[1]:])
	case 10: // a number nearby
		ts := splitTokens(in)
		for k := 0; k < 4 && len(ts) > 0; k++ {
			t := ts[r.Intn(len(ts))]
			if n, err := strconv.Atoi(string(in[t[0]:t[1]])); err == nil && n < 1<<40 {
				v := n + r.Intn(7) - 3
				if r.Intn(3) == 0 {
					v = r.Intn(1000)
				}
				return cat(in[:t[0]], fmt.Sprintf("%0*d", t[1]-t[0], maxInt(v, 0)), in[t[1]:])
			}
		}
		return in
	}
	// Two swapped
	ts := splitTokens(in)
	if len(ts) > 1 {
		a := r.Intn(len(ts) - 1)
		x, y := ts[a], ts[a+1]
		return cat(in[:x[0]], in[y[0]:y[1]], in[x[1]:y[0]], in[x[0]:x[1]], in[y[1]:])
	}
	return in
}

// solve changes a text so that the operands of a comparison might become equal, or just so.
func (g *guide) solve(in []byte, h *hint) []byte {
	r := g.rng
	if sites[h.site].mask == 7 {
		return nil
	}
	if h.size == 0 {
		a, b := []byte(h.text[0]), []byte(h.text[1])
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		var spots []int
		if len(a) > 0 {
			for i := 0; i+len(a) <= len(in); i++ {
				if bytes.Equal(in[i:i+len(a)], a) {
					spots = append(spots, i)
				}
			}
		}
		if len(spots) > 0 {
			k := spots[r.Intn(len(spots))]
			return cat(in[:k], b, in[k+len(a):])
		}
		if ts := splitTokens(in); len(ts) > 0 && r.Intn(2) == 0 {
			t := ts[r.Intn(len(ts))]
			return cat(in[:t[0]], b, in[t[1]:])
		}
		k := r.Intn(len(in) + 1)
		return cat(in[:k], b, in[k:])
	}
	a, b := h.a, h.b
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	want := int64(b) + int64(r.Intn(5)/2-r.Intn(5)/2*r.Intn(2))
	if r.Intn(3) > 0 {
		want = int64(b)
	}
	d := want - int64(a)
	how := r.Intn(4)
	if h.size == 1 {
		how = 3
	}
	switch how {
	case 0, 1: // a length, or a count
		if d > 0 && d <= 70000 && len(in) > 0 {
			p := r.Intn(len(in))
			q := p + 1
			if how == 1 {
				q = minInt(len(in), p+1+r.Intn(20))
				if r.Intn(2) == 0 {
					if d > 2000 {
						return nil
					}
					// that many times
					out := append([]byte{}, in[:q]...)
					for k := int64(0); k < d; k++ {
						out = append(out, in[p:q]...)
					}
					return append(out, in[q:]...)
				}
			}
			out := append([]byte{}, in[:q]...)
			for k := 0; k < int(d); k++ {
				out = append(out, in[p+k%(q-p)])
			}
			return append(out, in[q:]...)
		}
		if d < 0 && d > -int64(len(in)) {
			p := r.Intn(len(in) + int(d) + 1)
			return cat(in[:p], in[p+int(-d):])
		}
	case 2: // a number in the text
		ts := splitTokens(in)
		for _, k := range r.Perm(len(ts)) {
			t := ts[k]
			if n, err := strconv.ParseInt(string(in[t[0]:t[1]]), 10, 64); err == nil && (n == int64(a) || r.Intn(4) == 0) && want >= 0 {
				return cat(in[:t[0]], fmt.Sprintf("%0*d", t[1]-t[0], want), in[t[1]:])
			}
		}
	case 3: // a byte of the text
		if want < 0 || want > 255 || len(in) == 0 {
			return nil
		}
		if a < 256 {
			var spots []int
			for i, c := range in {
				if c == byte(a) {
					spots = append(spots, i)
				}
			}
			if len(spots) > 0 {
				k := spots[r.Intn(len(spots))]
				return cat(in[:k], byte(want), in[k+1:])
			}
		}
		k := r.Intn(len(in))
		return cat(in[:k], byte(want), in[k+1:])
	}
	return nil
}

// ---------------------------------------------------------------- the processes

type guideReport struct {
	Executions int64  `json:"executions"`
	Distinct   int    `json:"distinct_nontrivial"`
	Events     int64  `json:"events"`
	Seeds      int    `json:"generated"`
	Corpus     int    `json:"corpus"`
	Depth      int    `json:"longest_chain_of_mutations"`
	Branches   int    `json:"branches_taken"`
	Of         int    `json:"branches"`
	Sites      int    `json:"comparisons_seen"`
	Open       int    `json:"comparisons_with_unseen_outcomes"`
	Violation  string `json:"violation,omitempty"`
	seen       []byte
}

func guidedChild(id string, j, n int, seconds float64) {
	ck := checks[id]
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	// The generators of the quick tier, whatever the tier
	x := &Ctx{ID: id, Tier: "quick", Seed: seed + int64(j)*1000}
	s := &Shard{x: x, rng: rand.New(rand.NewSource(seed*31 + int64(j))), distinct: map[uint64]struct{}{}, classes: map[string]int64{}, samples: map[string]*Case{}}
	total := time.Duration(seconds * float64(time.Second))
	g := &guide{s: s, rng: rand.New(rand.NewSource(seed*77 + int64(j))), seen: make([]byte, len(counters())+8), every: 12,
		genEnd: total * 3 / 10, deadline: total, begun: time.Now()}
	x.shards = append(x.shards, s)
	x.guide, x.guideAt, x.guideOf = g, j, n
	debug.SetPanicOnFault(true)
	go x.watchdog()
	ck.run(x)
	g.run()
	rep := guideReport{Executions: s.evals, Distinct: len(s.distinct), Events: s.events, Seeds: g.seeds, Corpus: len(g.corpus), Branches: g.edges, Of: len(counters())}
	for i := range sites[:nsites] {
		if sites[i].epoch > 0 {
			rep.Sites++
			if sites[i].mask != 7 {
				rep.Open++
			}
		}
	}
	for _, e := range g.corpus {
		rep.Depth = maxInt(rep.Depth, e.depth)
	}
	code := 0
	if len(s.viol) > 0 {
		c, msg := s.viol[0].c, s.viol[0].msg
		if b, err := json.Marshal(c); err == nil {
			// What a replay would see
			n := &Case{}
			if json.Unmarshal(b, n) == nil {
				if m, ended := guarded(*n, 100*time.Second); ended && m != "" {
					c, msg = n, m
				}
			}
		}
		c, msg = shrink(c, msg)
		rep.Violation = writeReplay(id, c, msg)
		fmt.Printf("%s\n%s\n", describe(c), clip(msg, 6000))
		code = 1
	}
	b, _ := json.Marshal(rep)
	fmt.Printf("REPORT %s\n", b)
	cov := make([]byte, len(g.seen))
	copy(cov, g.seen)
	os.WriteFile(filepath.Join(evidenceDir(), "branches"), cov, 0o644)
	os.Exit(code)
}

// guidedMain runs the children, and merges their reports.
func guidedMain(id string, seconds float64) int {
	n := runtime.NumCPU()
	if _, ok := checks[id]; !ok {
		return 4
	}
	var wg sync.WaitGroup
	var lock sync.Mutex
	type res struct {
		out, err bytes.Buffer
		code     int
		dir      string
		cmd      *exec.Cmd
	}
	rs := make([]*res, n)
	bad := -1
	for j := range rs {
		r := &res{dir: filepath.Join(evidenceDir(), fmt.Sprintf("child%d", j))}
		rs[j] = r
		os.MkdirAll(r.dir, 0o755)
		r.cmd = exec.Command(os.Args[0], "guided-child", id, fmt.Sprint(j), fmt.Sprint(n), fmt.Sprint(seconds))
		r.cmd.Env = append(os.Environ(), "VERIF_EVIDENCE="+r.dir)
		r.cmd.Stdout, r.cmd.Stderr = &r.out, &r.err
		if err := r.cmd.Start(); err != nil {
			fmt.Println("guided: not run:", err)
			return 0
		}
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			r.cmd.Wait()
			r.code = r.cmd.ProcessState.ExitCode()
			lock.Lock()
			defer lock.Unlock()
			if r.code > 0 && bad < 0 {
				bad = j
				for _, o := range rs {
					if o != nil && o != r && o.cmd.Process != nil {
						o.cmd.Process.Kill()
					}
				}
			}
		}(j)
	}
	wg.Wait()
	if bad >= 0 {
		r := rs[bad]
		for _, l := range strings.SplitAfter(r.out.String(), "\n") {
			if !strings.HasPrefix(l, "VIOLATION") && !strings.HasPrefix(l, "REPORT") {
				fmt.Print(l)
			}
		}
		os.Stderr.Write(r.err.Bytes())
		if r.code != 1 {
			return r.code
		}
		os.MkdirAll(filepath.Join(evidenceDir(), "replay"), 0o755)
		b, _ := os.ReadFile(filepath.Join(r.dir, "replay", id+".json"))
		to := filepath.Join(evidenceDir(), "replay", id+".json")
		os.WriteFile(to, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, to)
		return 1
	}
	sum := guideReport{}
	var all []byte
	for _, r := range rs {
		for _, l := range strings.Split(r.out.String(), "\n") {
			if !strings.HasPrefix(l, "REPORT ") {
				continue
			}
			var one guideReport
			if json.Unmarshal([]byte(l[7:]), &one) != nil {
				continue
			}
			sum.Executions += one.Executions
			sum.Distinct += one.Distinct
			sum.Events += one.Events
			sum.Seeds += one.Seeds
			sum.Corpus += one.Corpus
			sum.Depth = maxInt(sum.Depth, one.Depth)
			sum.Of = one.Of
			sum.Sites = maxInt(sum.Sites, one.Sites)
			sum.Open = maxInt(sum.Open, one.Open)
		}
		cov, _ := os.ReadFile(filepath.Join(r.dir, "branches"))
		if all == nil {
			all = cov
		}
		for i := range cov {
			if i < len(all) {
				all[i] |= cov[i]
			}
		}
	}
	for _, b := range all {
		if b != 0 {
			sum.Branches++
		}
	}
	b, _ := json.MarshalIndent(sum, "", " ")
	os.WriteFile(filepath.Join(evidenceDir(), id+".json"), b, 0o644)
	fmt.Printf("guided: held: property=%s executions=%d distinct=%d corpus=%d branches=%d/%d comparisons=%d (%d open) chain=%d\n", id, sum.Executions, sum.Distinct, sum.Corpus, sum.Branches, sum.Of, sum.Sites, sum.Open, sum.Depth)
	return 0
}

func init() {
	guidedCommand = func(args []string) int {
		if len(args) == 3 && args[0] == "guided" {
			sec, _ := strconv.ParseFloat(args[2], 64)
			return guidedMain(args[1], sec)
		}
		if len(args) == 5 && args[0] == "guided-child" {
			j, _ := strconv.Atoi(args[2])
			n, _ := strconv.Atoi(args[3])
			sec, _ := strconv.ParseFloat(args[4], 64)
			guidedChild(args[1], j, n, sec)
		}
		return -1
	}
}
