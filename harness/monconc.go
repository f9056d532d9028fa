package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------------- C08: one parser shared

// monShared has many goroutines use one parser at once. N: goroutines; the bits of Seed pick the style.
func monShared(c *Case, r *Rec) string {
	o := c.O
	o.Parser = true
	// What each input gives when parsed alone, by a machine of its own
	want := make([]string, len(c.Seq))
	partial := false
	for i, in := range c.Seq {
		m, err := newMachine(c.K, Opt{Best: o.Best, Compliant: o.Compliant, RFC3339: o.RFC3339, HasYear: o.HasYear, Year: o.Year, TZ: o.TZ, Locale: o.Locale}).Parse(append([]byte(nil), in...))
		want[i] = dumpRes(m, err)
		partial = partial || m != nil && err != nil
	}
	p := newMachine(c.K, o)
	// Messages returned before, which all the goroutines read meanwhile
	var posted []syslog.Message
	texts := make([]string, len(c.Seq))
	for i, in := range c.Seq {
		m, err := p.Parse(append([]byte(nil), in...))
		if got := dumpRes(m, err); got != want[i] {
			return fmt.Sprintf("input %d gives\n   %s\nwith the shared parser, and with another one\n   %s", i, got, want[i])
		}
		posted = append(posted, m)
		if m != nil {
			texts[i] = readAll(m)
			r.class(c.K + ":messages read by several")
		}
	}
	style := uint64(c.Seed)
	sharedInputs := style&1 == 1
	yields := style&2 == 2
	count := style&4 == 4 // atomic counters order the goroutines: they are not always there
	if style&8 == 8 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(2 + int(style>>8%14)))
	}
	var inflight, maxInflight, overlaps int64
	var bad atomic.Value
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < c.N; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad.Store(fmt.Sprintf("panic: %v", e))
				}
			}()
			rng := rand.New(rand.NewSource(c.Seed + int64(g)))
			var own []byte
			type old struct {
				m syslog.Message
				e error
				i int
			}
			var keep []old
			<-start
			for k := 0; k < 60; k++ {
				i := rng.Intn(len(c.Seq))
				in := c.Seq[i]
				if !sharedInputs {
					own = append(own[:0], in...)
					in = own
				}
				if count {
					n := atomic.AddInt64(&inflight, 1)
					if n > 1 {
						atomic.AddInt64(&overlaps, 1)
					}
					for {
						q := atomic.LoadInt64(&maxInflight)
						if n <= q || atomic.CompareAndSwapInt64(&maxInflight, q, n) {
							break
						}
					}
				}
				m, err := p.Parse(in)
				if count {
					atomic.AddInt64(&inflight, -1)
				}
				if yields && rng.Intn(3) == 0 {
					runtime.Gosched()
				}
				if p.HasBestEffort() != o.Best {
					bad.Store(fmt.Sprintf("best effort is told to be %v", !o.Best))
					return
				}
				if got := dumpRes(m, err); got != want[i] {
					bad.Store(fmt.Sprintf("input %d gives\n   %s\namong concurrent calls, and alone\n   %s", i, got, want[i]))
					return
				}
				keep = append(keep, old{m, err, i})
				if q := rng.Intn(4 * len(c.Seq)); q < len(c.Seq) && posted[q] != nil {
					if got := readAll(posted[q]); got != texts[q] {
						bad.Store(fmt.Sprintf("the message of input %d, read by several goroutines, gives\n   %s\nit gave\n   %s", q, got, texts[q]))
						return
					}
				}
				if k%8 == 7 {
					for _, q := range keep {
						if now := dumpRes(q.m, q.e); now != want[q.i] {
							bad.Store(fmt.Sprintf("the result of input %d became\n   %s\nit was\n   %s", q.i, now, want[q.i]))
							return
						}
						if q.m != nil {
							q.m.Valid()
							q.m.FacilityLevel()
							q.m.SeverityShortLevel()
						}
					}
					if len(keep) > 24 {
						keep = keep[16:]
					}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	r.events += int64(c.N) * 60
	r.nontrivial = c.N > 1
	r.class(c.K + ":shared")
	if partial {
		r.class(c.K + ":shared with partial messages")
	}
	if maxInflight > 1 {
		r.class(c.K + ":overlapping calls")
		atomic.AddInt64(&sharedOverlaps, overlaps)
	}
	if s, _ := bad.Load().(string); s != "" {
		return s
	}
	return ""
}

// readAll reads all that a message can tell.
func readAll(m syslog.Message) string {
	text := dump(m) + fmt.Sprint(m.Valid())
	for _, f := range []func() *string{m.FacilityMessage, m.FacilityLevel, m.SeverityMessage, m.SeverityLevel, m.SeverityShortLevel} {
		text += " " + strp(f())
	}
	if t, ok := m.(interface{ String() (string, error) }); ok {
		line, err := t.String()
		text += fmt.Sprint(" ", line, err)
	}
	return text
}

var sharedOverlaps int64

// ---------------------------------------------------------------- C09: scripts

var scriptKinds = []string{"parse5", "parse3", "oct", "nt", "build", "rebuild", "names", "trailer", "mixed", "parser5", "parser3", "bigparse", "bigstream", "bigbuild"}

// bigThing gives a message with much of something: elements, parameters, escapes, octets.
func bigThing(r *rand.Rand, n int) []byte {
	b := []byte("<13>1 2003-10-11T22:14:15.003Z h a p m ")
	many := func(m int) {
		b = append(b, fmt.Sprintf("[e%d", r.Intn(1000))...)
		for k := 0; k < m; k++ {
			b = append(b, fmt.Sprintf(" p%d=\"%s\"", k*7%m, pick(r, "", "v", "\\]", "\\\"x", "é"))...)
		}
		b = append(b, ']')
	}
	switch r.Intn(6) {
	case 0:
		many(n)
	case 1:
		for k := 0; k < n; k++ {
			b = append(b, fmt.Sprintf("[i%d a=\"%d\"]", k*11%n, k)...)
		}
	case 2:
		b = append(append(append(b, "[a b=\""...), bytes.Repeat([]byte(pick(r, "x", "\\\"", "é", "a\\\\")), n*20)...), "\"][c]"...)
	case 3:
		for k := 0; k < 5; k++ {
			many(n / 5)
		}
	default:
		b = append(b, '-')
	}
	b = append(append(b, ' '), bytes.Repeat([]byte(pick(r, "m", "é", "ab ", "\n", "7")), n*(1+r.Intn(30)))...)
	if r.Intn(4) == 0 {
		b = append(b, pick(r, "\xff", "\x80", "\xe2\x82")...)
	}
	if r.Intn(6) == 0 {
		b = b[:r.Intn(len(b))]
	}
	return b
}

// bigCount gives a number of things, rarely of those which pass the sizes of buffers.
func bigCount(r *rand.Rand) int {
	return []int{20, 31, 33, 40, 65, 100, 129, 200, 260, 600}[r.Intn(10)]
}

// hop runs a step on this goroutine or, from time to time, on a new one, waiting for it.
func hop(r *rand.Rand, f func()) {
	if r.Intn(6) > 0 {
		f()
		return
	}
	done := make(chan struct{})
	go func() { f(); close(done) }()
	<-done
}

// script does some deterministic work on instances of its own and returns what it observed.
// Nothing of the harness is shared: only what the library itself shares can make it differ.
func script(kind string, seed int64) string {
	r := rand.New(rand.NewSource(seed))
	s := &Shard{rng: r}
	var log bytes.Buffer
	switch kind {
	case "parse5", "parse3", "parser5", "parser3":
		k := "5424"
		if strings.HasSuffix(kind, "3") {
			k = "3164"
		}
		o := randOptOf(s, k)
		o.Parser = strings.HasPrefix(kind, "parser")
		p := newMachine(k, o)
		var keep []kept
		for n := 12; n > 0; n-- {
			in := anyInput(s, k)
			hop(r, func() {
				m, err := p.Parse(in)
				keep = append(keep, kept{m, err, ""})
				log.WriteString(dumpRes(m, err))
			})
		}
		for _, q := range keep {
			log.WriteString(dumpRes(q.m, q.e))
		}
	case "oct", "nt":
		o := randStreamOpt(s)
		o.NUL = kind == "nt" && r.Intn(2) == 0
		snk := &sink{}
		p := newStream(kind, o, snk.listen)
		for n := 4; n > 0; n-- {
			in, spec := reuseStream(s, kind, o)
			if len(in) > 1500 {
				in = in[:1500]
			}
			snk.g = &got{}
			hop(r, func() { p.Parse(newReader(in, &spec)) })
			log.WriteString(snk.g.String())
			for _, res := range snk.g.results {
				if res != nil {
					log.WriteString(dumpRes(res.Message, res.Error))
				}
			}
		}
	case "build", "rebuild":
		var m *rfc5424.SyslogMessage
		if kind == "rebuild" {
			x, _ := new5424(Opt{Best: true}).Parse(anyInput(s, "5424"))
			m, _ = as5(x)
		}
		if m == nil {
			m = &rfc5424.SyslogMessage{}
		}
		for n := 25; n > 0; n-- {
			op := randBOps(r, 1)[0]
			hop(r, func() { perform(m, &op) })
			if n%4 == 0 {
				hop(r, func() {
					t, err := m.String()
					fmt.Fprint(&log, t, err, "|")
				})
			}
		}
		log.WriteString(dump(m))
		t, err := m.String()
		fmt.Fprint(&log, t, err)
		x, err := new5424(Opt{}).Parse([]byte(t))
		log.WriteString(dumpRes(x, err))
	case "bigparse":
		p := new5424(Opt{Best: r.Intn(2) == 0, Parser: r.Intn(2) == 0})
		q := newMachine("3164", Opt{Best: r.Intn(2) == 0, Parser: r.Intn(2) == 0})
		var keep []kept
		for n := 4; n > 0; n-- {
			in := bigThing(r, bigCount(r))
			hop(r, func() {
				m, err := p.Parse(in)
				keep = append(keep, kept{m, err, ""})
				m, err = q.Parse(cat("<13>Oct 11 22:14:15 h a: ", in))
				keep = append(keep, kept{m, err, ""})
			})
			for i := range in {
				in[i] = 'X'
			}
		}
		for _, q := range keep {
			log.WriteString(dumpRes(q.m, q.e))
		}
	case "bigstream":
		for n := 2; n > 0; n-- {
			o := randStreamOpt(s)
			o.NUL = r.Intn(2) == 0
			max := []int{0, 9000, 70000, 200000, 200000}[r.Intn(5)]
			if max > 0 {
				o.Max = &max
			}
			k, end := "oct", ""
			if r.Intn(3) == 0 {
				k, end = "nt", "\n"
				if o.NUL {
					end = "\x00"
				}
			}
			var in []byte
			for q := 3; q > 0; q-- {
				f := bigThing(r, bigCount(r))
				if q == 2 && r.Intn(3) > 0 {
					// Beyond the buffers of the standard library and of the scanner
					f = append(f, bytes.Repeat([]byte(pick(r, "x", "yz", "é ")), []int{3000, 5000, 8200, 33000, 66000}[r.Intn(5)])...)
				}
				if k == "oct" {
					in = append(in, octetFrame(f)...)
				} else {
					in = cat(in, bytes.ReplaceAll(f, []byte(end), []byte("!")), end)
				}
			}
			if r.Intn(5) == 0 {
				in = in[:r.Intn(len(in))]
			}
			snk := &sink{g: &got{}}
			p := newStream(k, o, snk.listen)
			hop(r, func() { p.Parse(newReader(in, bigSpec(r, len(in)))) })
			for i := range in {
				in[i] = 'X'
			}
			for _, res := range snk.g.results {
				if res != nil {
					log.WriteString(dumpRes(res.Message, res.Error))
				}
			}
		}
	case "bigbuild":
		for n := 3; n > 0; n-- {
			m := &rfc5424.SyslogMessage{}
			m.SetVersion(1).SetPriority(uint8(r.Intn(192)))
			count := bigCount(r)
			elements := 1 + r.Intn(3)
			if r.Intn(3) == 0 {
				elements = count
			}
			hop(r, func() {
				for k := 0; k < count; k++ {
					m.SetParameter(fmt.Sprintf("e%d", k*13%elements), fmt.Sprintf("p%d", k*7%count), pick(r, "v", "]", "\"", "\\", strings.Repeat("é]", r.Intn(40))))
					if k%50 == 49 {
						t, err := m.String()
						fmt.Fprint(&log, t, err, "|")
					}
				}
				m.SetMessage(strings.Repeat(pick(r, "m", "é"), count*10))
			})
			t, err := m.String()
			fmt.Fprint(&log, t, err, "|")
			hop(r, func() {
				x, err := new5424(Opt{}).Parse([]byte(t))
				log.WriteString(dumpRes(x, err))
				if y, _ := as5(x); y != nil {
					t, err = y.String()
					fmt.Fprint(&log, t, err)
				}
			})
		}
	case "names":
		for n := 12; n > 0; n-- {
			m, err := obtain(priSources[r.Intn(len(priSources))], r.Intn(192))
			if err != nil || m == nil {
				fmt.Fprint(&log, err)
				continue
			}
			for _, f := range []func() *string{m.FacilityMessage, m.FacilityLevel, m.SeverityMessage, m.SeverityLevel, m.SeverityShortLevel} {
				q := f()
				log.WriteString(strp(q))
				if q != nil {
					*q = "spoiled"
				}
			}
			fmt.Fprint(&log, m.Valid(), dump(m))
			vandalize(m)
		}
	case "trailer":
		for n := 20; n > 0; n-- {
			var t nontransparent.TrailerType
			e := t.UnmarshalText([]byte(pick(r, "LF", "nul", "'lf'", "x", "\"NUL\"", "")))
			b, e2 := t.MarshalText()
			v, e3 := t.Value()
			fmt.Fprint(&log, t, e, string(b), e2, v, e3, t.String())
			for i := range b {
				b[i] = '?'
			}
		}
	case "mixed":
		// Instances of all kinds, made with the very same option values, in turn
		b5, b3, bs := rfc5424.WithBestEffort(), rfc3164.WithBestEffort(), syslog.WithBestEffort()
		ms := []syslog.Machine{rfc5424.NewMachine(b5), rfc5424.NewParser(b5), rfc5424.NewMachine(), rfc3164.NewMachine(b3), rfc3164.NewParser(b3), rfc3164.NewParser()}
		snk := &sink{g: &got{}}
		l := syslog.WithListener(snk.listen)
		ps := []syslog.Parser{octetcounting.NewParser(bs, l), octetcounting.NewParser(l), nontransparent.NewParser(l, bs), nontransparent.NewParser(l)}
		for n := 8; n > 0; n-- {
			in5, in3 := anyInput(s, "5424"), anyInput(s, "3164")
			for i, m := range ms {
				in := in5
				if i > 2 {
					in = in3
				}
				hop(r, func() { log.WriteString(dumpRes(m.Parse(in))) })
				fmt.Fprint(&log, m.HasBestEffort())
			}
			for i, p := range ps {
				f := octetFrame(in5)
				if i > 1 {
					f = cat(in5, "\n")
				}
				hop(r, func() { p.Parse(newReader(f, &ReaderSpec{Chunks: []int{7}})) })
				fmt.Fprint(&log, p.HasBestEffort())
			}
		}
		log.WriteString(snk.g.String())
	}
	return log.String()
}

// scriptsAtOnce runs one script per goroutine at once.
func scriptsAtOnce(kinds []string, seed int64) []string {
	out := make([]string, len(kinds))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, k := range kinds {
		wg.Add(1)
		go func(i int, k string) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					out[i] = fmt.Sprintf("panic: %v", e)
				}
			}()
			<-start
			out[i] = script(k, seed+int64(i))
		}(i, k)
	}
	close(start)
	wg.Wait()
	return out
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := maxInt(0, i-120)
	return fmt.Sprintf("at offset %d: ...%s\nalone: ...%s", i, clip(a[minInt(from, len(a)):], 400), clip(b[minInt(from, len(b)):], 400))
}

// monScripts: N scripts at once, of the kind K or of all kinds.
func monScripts(c *Case, r *Rec) string {
	rng := rand.New(rand.NewSource(c.Seed))
	var kinds []string
	for i := 0; i < c.N; i++ {
		k := c.K
		if k == "all" {
			k = scriptKinds[rng.Intn(len(scriptKinds))]
		}
		kinds = append(kinds, k)
	}
	at := scriptsAtOnce(kinds, c.Seed)
	for i, k := range kinds {
		alone := script(k, c.Seed+int64(i))
		r.events++
		r.class("script " + k)
		if strings.HasPrefix(alone, "panic") || at[i] != alone {
			return fmt.Sprintf("script %d (%s) observes something else among concurrent ones, %s", i, k, firstDiff(at[i], alone))
		}
	}
	r.nontrivial = true
	return ""
}

// cold is what a child process does: the very first use of the library happens in concurrent goroutines.
func cold(kind string, seed int64) string {
	kinds := make([]string, 16)
	rng := rand.New(rand.NewSource(seed))
	for i := range kinds {
		kinds[i] = kind
		if kind == "all" {
			kinds[i] = scriptKinds[rng.Intn(len(scriptKinds))]
		}
	}
	at := scriptsAtOnce(kinds, seed)
	for i, k := range kinds {
		if alone := script(k, seed+int64(i)); alone != at[i] {
			return fmt.Sprintf("script %d (%s) observes something else when it is among the first ones, %s", i, k, firstDiff(at[i], alone))
		}
	}
	return ""
}

// monCold starts a process of its own.
func monCold(c *Case, r *Rec) string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "cold", c.K, fmt.Sprint(c.Seed))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err = cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	r.events++
	r.nontrivial = true
	r.class("cold " + c.K)
	if err != nil {
		return fmt.Sprintf("the first use of the library by concurrent goroutines ended with %v\n%s\n%s", err, clip(out.String(), 3000), clip(errb.String(), 6000))
	}
	return ""
}

func init() {
	monitors["conc-shared"] = monShared
	monitors["conc-scripts"] = monScripts
	monitors["conc-cold"] = monCold
	checks["C08"] = check{
		rule: "2 to 32 goroutines call Parse (and HasBestEffort) of one shared parser 60 times each, on valid, broken and partially parsable inputs, shared among them or private and recycled, with and without yields, GOMAXPROCS changes and counters; every result is compared with a machine of its own, kept, and compared again meanwhile; messages returned before are read (fields, names, serialization) by all the goroutines; scripts on shared parsers run in several orders by new processes, which must all observe the same; built with the race detector; distinct = distinct (inputs, options, style), non-trivial = more than one goroutine",
		run: func(x *Ctx) {
			x.require = []string{"5424:shared", "3164:shared", "5424:overlapping calls", "3164:overlapping calls", "5424:shared with partial messages", "3164:shared with partial messages", "5424:messages read by several", "3164:messages read by several"}
			x.Run(2, func(s *Shard, i, n int) {
				r := s.rng
				for c := 0; c < x.scale(400, 6000); c++ {
					kind := []string{"5424", "3164"}[(c+i)%2]
					cs := &Case{M: "conc-shared", K: kind, O: randOptOf(s, kind), N: []int{2, 3, 4, 8, 16, 32}[r.Intn(6)], Seed: r.Int63()}
					if i == 1 {
						cs.Seed &^= 8
					}
					cs.O.HasYear, cs.O.Year = true, 2000
					corpus := historyCorpus(kind, false)
					for q := 1 + r.Intn(12); q > 0; q-- {
						if r.Intn(2) == 0 {
							cs.Seq = append(cs.Seq, corpus[r.Intn(len(corpus))])
						} else {
							cs.Seq = append(cs.Seq, anyInput(s, kind))
						}
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
			ordersOf(x, x.scale(1000, 5000), "shared5", "shared3")
			x.extra["overlapping_calls_seen"] = atomic.LoadInt64(&sharedOverlaps)
		},
	}
	checks["C09"] = check{
		rule: "deterministic scripts (machines, parsers, both stream parsers, builders, names, trailers, instances made with the same option values, big messages, frames and structures; steps migrate between goroutines) run by up to 24 goroutines at once and then alone: each one must observe the same; also in new processes whose first use of the library is concurrent; thousands of scripts, many on inputs and values which resemble those of others, run in four different orders (one of them concurrent) by new processes, which must all observe the same; built with the race detector; distinct = distinct (kinds, seed)",
		run: func(x *Ctx) {
			for _, k := range scriptKinds {
				x.require = append(x.require, "script "+k, "cold "+k)
			}
			x.require = append(x.require, "cold all")
			// New processes first
			x.Run(8, func(s *Shard, i, n int) {
				k := 0
				for v := 0; v < x.scale(3, 30); v++ {
					for _, kind := range append([]string{"all", "all"}, scriptKinds...) {
						if k++; k%n != i {
							continue
						}
						if !s.Eval(&Case{M: "conc-cold", K: kind, Seed: s.rng.Int63n(1 << 40)}) {
							return
						}
					}
				}
			})
			ordersOf(x, x.scale(1500, 5000), append([]string{"kin5", "kin3", "kinoct", "kinnt", "kinbuild"}, scriptKinds...)...)
			x.Run(2, func(s *Shard, i, n int) {
				for c := 0; c < x.scale(350, 6000); c++ {
					cs := &Case{M: "conc-scripts", K: "all", N: []int{2, 4, 8, 16, 24}[s.rng.Intn(5)], Seed: s.rng.Int63n(1 << 40)}
					if c%3 == 0 {
						cs.K = scriptKinds[s.rng.Intn(len(scriptKinds))]
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
}
