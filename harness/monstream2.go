package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
)

func streamKind(k string) string {
	if strings.HasPrefix(k, "nt") {
		return "nt"
	}
	return "oct"
}

// ---------------------------------------------------------------- C20: reuse

func monReuse(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	s := &sink{}
	p := newStream(kind, c.O, s.listen)
	prev := "first"
	for i, in := range c.Seq {
		spec := &ReaderSpec{}
		if i < len(c.Rs) {
			spec = &c.Rs[i]
		}
		s.g = &got{}
		if s.r == nil || c.N&1 == 0 {
			s.r = newReader(in, spec)
		} else {
			// The very same reader, which got something else to read
			*s.r = *newReader(in, spec)
			r.class(kind + ":same reader")
		}
		panicked := parseThrough(p, s.r)
		fresh := runStream(kind, c.O, in, spec)
		r.events += int64(len(fresh.results)) + 1
		x := expected(kind, in, c.O, spec)
		k := x.kind
		if spec.fails(len(in)) {
			k += "!"
		}
		r.class(kind + ":" + prev + " > " + k)
		prev = k
		if a, b := s.g.String(), fresh.String(); a != b {
			return fmt.Sprintf("stream %d delivers, on the reused parser:%s\nand on a new one:%s", i, a, b)
		}
		if panicked {
			// Up to then
			r.class(kind + ":interrupted by a panic")
			prev = "panic"
			if n := len(s.g.results); n < len(x.results) {
				x.results = x.results[:n]
			}
		}
		if d := compareStream(s.g, &x); d != "" {
			return fmt.Sprintf("stream %d: %s\ndelivered:%s", i, d, s.g)
		}
	}
	r.nontrivial = len(c.Seq) > 1
	return ""
}

// reuseStream picks a stream, whole or broken in some way.
func reuseStream(s *Shard, kind string, o Opt) ([]byte, ReaderSpec) {
	r := s.rng
	var in []byte
	t := byte('\n')
	if o.NUL {
		t = 0
	}
	if kind == "nt" {
		in = ntStream(r, 3, r.Intn(2) == 0, t)
	} else {
		in = octetStream(r, 3, r.Intn(2) == 0)
	}
	if len(in) > 3000 && r.Intn(10) > 0 {
		in = in[:1+r.Intn(200)]
	}
	spec := *randReader(r, len(in))
	switch r.Intn(9) {
	case 0:
		in = in[:r.Intn(len(in)+1)]
	case 1, 2:
		spec = *fault(r, &spec, r.Intn(len(in)+1))
	case 3:
		in = nil
	case 4:
		in = mutate(r, in, tokensStream)
	case 5:
		in = cat(pick(r, "x", "0", " ", "\n", "1", "<", "9999999 ", "5 x", "1 <"), in)
	case 6:
		in = bytes.TrimRight(in, "\n\x00")
	}
	return in, spec
}

// ---------------------------------------------------------------- C28: chunking

func monChunks(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	var base *got
	x := expected(kind, c.In, c.O, c.R)
	cl := kind + ":" + x.kind
	if c.R.fails(len(c.In)) {
		cl += "!"
	}
	if c.O.Best {
		cl += " (best effort)"
	}
	r.class(cl)
	r.nontrivial = len(x.results) > 0
	plain := ReaderSpec{}
	if c.R != nil {
		plain = *c.R
		plain.Chunks = nil
	}
	base = runStream(kind, c.O, c.In, &plain)
	if d := compareStream(base, &x); d != "" {
		return d + "\ndelivered:" + base.String()
	}
	for i := range c.Rs {
		spec := c.Rs[i]
		if spec.Std != "" {
			r.class(kind + " through " + spec.Std)
		}
		if len(spec.Pauses) > 0 {
			r.class(kind + " with pauses")
		}
		if len(spec.Linger) > 0 {
			r.class(kind + " with a slow listener")
		}
		if c.R != nil {
			spec.FailAt, spec.Fail0, spec.FailErr, spec.Resume = c.R.FailAt, c.R.Fail0, c.R.FailErr, c.R.Resume
		}
		g := runStream(kind, c.O, c.In, &spec)
		r.events += int64(len(g.results)) + 1
		if a, b := base.String(), g.String(); a != b {
			return fmt.Sprintf("handed out at once the stream gives:%s\nand as %+v it gives:%s", a, spec, b)
		}
	}
	return ""
}

// ---------------------------------------------------------------- C27: promptness and synchrony

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return "?"
}

var lateResults int64

func monPrompt(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	x := expected(kind, c.In, c.O, c.R)
	r.class(kind + ":" + x.kind)
	r.nontrivial = len(x.results) > 0
	bad := ""
	note := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	emitted := 0
	var inside, returned int32
	me := goid()
	g := &got{}
	listener := func(res *syslog.Result) {
		if atomic.LoadInt32(&returned) != 0 {
			atomic.AddInt64(&lateResults, 1)
			return
		}
		if atomic.AddInt32(&inside, 1) != 1 {
			note("the listener is called while it is running")
		}
		if emitted > 4 && emitted%16 != 0 {
			// asking for the goroutine is slow
		} else if id := goid(); id != me {
			note("the listener is called on goroutine %s, Parse was on %s", id, me)
		}
		emitted++
		g.add(res, 0)
		atomic.AddInt32(&inside, -1)
	}
	var p syslog.Parser
	if c.N == 1 {
		// Without a listener it must consume and return
		p = newStream(kind, c.O, nil)
	} else {
		p = newStream(kind, c.O, listener)
	}
	rd := newReader(c.In, c.R)
	reads := 0
	due := 0
	rd.hook = func(rd *monReader) {
		reads++
		if c.N == 1 {
			return
		}
		for due < len(x.results) && x.results[due].due >= 0 && x.results[due].due <= rd.off {
			due++
		}
		if emitted < due {
			note("%d results delivered when more octets are asked for, although %d octets (out of %d), which complete %d results, were read", emitted, rd.off, len(rd.data), due)
		}
		if inside != 0 {
			note("the reader is read while the listener is running")
		}
	}
	p.Parse(rd)
	atomic.StoreInt32(&returned, 1)
	r.events += int64(reads + emitted)
	if reads > 3 {
		r.class(kind + ":several reads")
	}
	if bad != "" {
		return bad
	}
	if c.N == 1 {
		r.class(kind + ":no listener")
		if n := len(c.R.delivered(c.In)); (x.kind == "clean" || x.kind == "complete") && rd.off != n {
			return fmt.Sprintf("without a listener %d octets were consumed, out of %d", rd.off, n)
		}
		return ""
	}
	if d := compareStream(g, &x); d != "" {
		return d + "\ndelivered:" + g.String()
	}
	return ""
}

// monLeftover looks at what is running once everything has returned.
func monLeftover(c *Case, r *Rec) string {
	r.class("quiescence")
	r.nontrivial = true
	r.events++
	time.Sleep(400 * time.Millisecond)
	if n := atomic.LoadInt64(&lateResults); n > 0 {
		return fmt.Sprintf("%d results were delivered after Parse had returned", n)
	}
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "influxdata/go-syslog") || strings.Contains(g, "ragel-machinery") {
			return "still running after Parse has returned:\n" + g
		}
	}
	return ""
}

func init() {
	monitors["reuse"] = monReuse
	monitors["chunks"] = monChunks
	monitors["prompt"] = monPrompt
	monitors["conc-leftover"] = monLeftover
	checks["C20"] = check{
		rule: "histories of 2 to 8 streams on one stream parser: all ordered pairs of a corpus of complete, truncated, malformed, empty streams, failing readers, and readers and listeners that panic, plus random histories and long ones (of up to 66000 streams, of similar streams), from new readers or from the very same reader object; both framings, strict and best effort; each stream is compared with a new parser and with the reference deframer; thousands of histories run in four different orders by new processes, which must all observe the same; distinct = distinct (history, options)",
		run: func(x *Ctx) {
			x.require = []string{"oct:first > clean", "oct:truncated! > clean", "nt:parsable tail > complete", "nt:first > empty", "nt:illegal start > complete", "oct:too long > clean", "nt:partial tail! > complete", "oct:panic > clean", "nt:panic > complete", "oct:interrupted by a panic", "nt:interrupted by a panic", "oct:same reader", "nt:same reader"}
			ordersOf(x, x.scale(3000, 20000), "kinoct", "kinnt", "oct", "nt", "bigstream")
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				g := "<1>1 - - - - - -"
				for _, kind := range []string{"oct", "nt"} {
					for _, best := range []bool{false, true} {
						for _, nul := range []bool{false, true} {
							if nul && kind == "oct" {
								continue
							}
							t := "\n"
							if nul {
								t = "\x00"
							}
							type st struct {
								in   string
								spec ReaderSpec
							}
							var ins []string
							if kind == "oct" {
								ins = []string{"", "16 " + g, "16 " + g + "16 " + g, "18 " + g + " x16 " + g, "16", "16 ", "16 <1>1", "20 " + g, "16 " + g + "1", "16 " + g + "20 " + g, "9000 " + g, "16 " + g + "9999999999999999999999 ", "x", "0", " ", "<", "16 " + g + "<", "16 " + g + " ", "3 <1>16 " + g, "5 <1>1x16 " + g, "3 <1>", "16 " + g + "16" + g, "17 " + g + "\x00", "1 <", "16 x" + g}
							} else {
								ins = []string{"", g + t, g + " a" + t + g + " b" + t, g, g + t + g + " tail", g + t + "tail", "x" + t, "x" + t + g + t, "x", t, g + t + t, g + t + "y" + t, "<", "<" + t, "<1>1" + t, "<1>1 ", g + t + "<", g + t + "<1>1 ", "x" + t + g, t + t + "z", g + " 1" + t + "m" + t + g + " 2"}
							}
							var corpus []st
							for _, in := range ins {
								corpus = append(corpus, st{in, ReaderSpec{}})
								corpus = append(corpus, st{in, ReaderSpec{Chunks: []int{1}, FailAt: len(in), Fail0: in == "", With: len(in)%2 == 0}})
								corpus = append(corpus, st{in, ReaderSpec{FailAt: len(in), Fail0: in == "", Panic: true}}, st{in, ReaderSpec{Burst: 1}})
								if len(in) > 3 {
									corpus = append(corpus, st{in, ReaderSpec{FailAt: len(in) - 2}})
								}
							}
							for _, a := range corpus {
								for _, b := range corpus {
									if !mine() {
										continue
									}
									cs := &Case{M: "reuse", K: kind, N: r.Intn(2), O: Opt{Best: best, NUL: nul}, Seq: [][]byte{[]byte(a.in), []byte(b.in)}, Rs: []ReaderSpec{a.spec, b.spec}}
									if r.Intn(3) == 0 {
										q := corpus[r.Intn(len(corpus))]
										cs.Seq = append(cs.Seq, []byte(q.in))
										cs.Rs = append(cs.Rs, q.spec)
									}
									if !s.Eval(cs) {
										return
									}
								}
							}
						}
					}
				}
				for c := 0; c < x.scale(5000, 100000); c++ {
					o := randStreamOpt(s)
					kind := "oct"
					if r.Intn(2) == 0 {
						kind = "nt"
						o.NUL = r.Intn(2) == 0
					} else if r.Intn(3) == 0 {
						o.Max = intp(r.Intn(200))
					}
					cs := &Case{M: "reuse", K: kind, O: o, N: r.Intn(2)}
					for q := 2 + r.Intn(7); q > 0; q-- {
						in, spec := reuseStream(s, kind, o)
						switch r.Intn(8) {
						case 0:
							spec.Panic = true
							if !spec.fails(len(in)) {
								spec.FailAt = r.Intn(len(in) + 1)
							}
						case 1:
							spec.Burst = 1 + r.Intn(3)
						}
						cs.Seq = append(cs.Seq, in)
						cs.Rs = append(cs.Rs, spec)
					}
					if !s.Eval(cs) {
						return
					}
				}
				// Words
				for c := 0; c < x.scale(40, 800); c++ {
					cs := &Case{M: "reuse", K: "oct", O: Opt{Best: r.Intn(2) == 0}, N: r.Intn(2)}
					t := byte('\n')
					if c%2 == 0 {
						cs.K = "nt"
					}
					for k := 2 + r.Intn(3); k > 0; k-- {
						for _, in := range wordStream(word(r), cs.K, t) {
							cs.Seq, cs.Rs = append(cs.Seq, in), append(cs.Rs, *randReader(r, len(in)))
						}
					}
					if !s.Eval(cs) {
						return
					}
				}
				// More streams than 16 bits can count
				if i < 4 {
					cs := &Case{M: "reuse", K: "oct", O: Opt{Best: i%2 == 0}, N: i / 2 % 2}
					if i > 1 {
						cs.K = "nt"
					}
					var ins [][]byte
					var specs []ReaderSpec
					for len(ins) < 100 {
						in, spec := reuseStream(s, cs.K, cs.O)
						if len(in) > 80 {
							in = in[:r.Intn(80)]
						}
						spec.Std = ""
						ins, specs = append(ins, in), append(specs, spec)
					}
					for k := x.scale(66000, 200000); k > 0; k-- {
						q := r.Intn(len(ins))
						cs.Seq, cs.Rs = append(cs.Seq, ins[q]), append(cs.Rs, specs[q])
					}
					if !s.Eval(cs) {
						return
					}
				}
				// Long lives, and streams which look like the previous ones
				for q := 0; q < x.scale(4, 30); q++ {
					cs := &Case{M: "reuse", K: "oct", O: Opt{Best: r.Intn(2) == 0}, N: r.Intn(2)}
					t := byte('\n')
					if q%2 == 0 {
						cs.K = "nt"
						if cs.O.NUL = r.Intn(2) == 0; cs.O.NUL {
							t = 0
						}
					}
					for k := x.scale(60, 400); k > 0; k-- {
						if r.Intn(3) == 0 {
							in, spec := reuseStream(s, cs.K, cs.O)
							cs.Seq, cs.Rs = append(cs.Seq, in), append(cs.Rs, spec)
						} else {
							in := kinStream(r, cs.K, t, 12)
							cs.Seq, cs.Rs = append(cs.Seq, in), append(cs.Rs, *randReader(r, len(in)))
						}
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
	checks["C28"] = check{
		rule: "streams of both framings (whole, truncated, malformed, failing) handed out at once and in other ways: every two-way split and one byte at a time for short ones, random chunk sizes with empty reads, end and errors along with or after the last octets, frames beyond the buffer sizes, up to 70000 frames, readers of the standard library (buffers, buffered readers of several sizes, pipes fed by another goroutine...) in front or instead; distinct = distinct (stream, options, ways)",
		run: func(x *Ctx) {
			x.require = []string{"oct:clean", "oct:clean (best effort)", "nt:complete", "nt:parsable tail", "oct:truncated with message! (best effort)", "nt:partial tail! (best effort)", "oct:framing", "nt:illegal start"}
			for _, q := range stdReaders {
				x.require = append(x.require, "oct through "+q, "nt through "+q)
			}
			// Readers and listeners which take their time
			x.require = append(x.require, "oct with pauses", "nt with pauses", "oct with a slow listener", "nt with a slow listener")
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				waits := []int{1 + r.Intn(30), 110, 260, 510, 1010 + r.Intn(200)}
				if i/2 == 1 {
					waits = append(waits, 2010, 3010)
				}
				if i/2 == 2 {
					waits = append(waits, 5010)
				}
				if x.thorough() && i/2 > 2 {
					waits = append(waits, []int{10010, 15010, 20010, 30010, 60010}[i/2-3])
				}
				for q, wait := range waits {
					o := Opt{Best: (q+i/2)%2 == 0}
					kind := []string{"oct", "nt"}[i%2]
					var in []byte
					for k := 0; k < 6; k++ {
						f := cat(fmt.Sprintf("<%d>1 - - - - - - ", r.Intn(192)), graphs(r, r.Intn(60)))
						if k == 2 && (o.Best || kind == "nt") {
							f = f[:4]
						}
						if kind == "oct" {
							in = append(in, octetFrame(f)...)
						} else {
							in = cat(in, f, "\n")
						}
					}
					if r.Intn(3) == 0 {
						in = in[:len(in)-1-r.Intn(6)]
					}
					slow := ReaderSpec{Chunks: []int{1 + r.Intn(5), 1 + r.Intn(70), 1 + r.Intn(90)}, Pauses: make([]int, 8)}
					slow.Pauses[[]int{1, 1, 2, 3, 5, 7}[r.Intn(6)]] = wait
					linger := ReaderSpec{Chunks: []int{1 + r.Intn(70)}, Linger: make([]int, 4)}
					linger.Linger[r.Intn(4)] = wait
					if !s.Eval(&Case{M: "chunks", K: kind, In: in, O: o, Rs: []ReaderSpec{slow}}) || !s.Eval(&Case{M: "chunks", K: kind, In: in, O: o, Rs: []ReaderSpec{linger}}) {
						return
					}
				}
			})
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				for c := 0; c < x.scale(2500, 50000); c++ {
					o := randStreamOpt(s)
					kind := "oct"
					if c%2 == 0 {
						kind = "nt"
						o.NUL = r.Intn(2) == 0
					}
					var in []byte
					var spec ReaderSpec
					for {
						in, spec = reuseStream(s, kind, o)
						if len(in) > 0 {
							break
						}
					}
					if c%30 == 0 {
						if kind == "nt" {
							t := byte('\n')
							if o.NUL {
								t = 0
							}
							in = cat(in, largeFrame(r, 4000+r.Intn(9000)), t, largeFrame(r, 4000+r.Intn(200)), t)
						} else {
							o.Max = intp(100000 + r.Intn(100000))
							in = cat(in, octetFrame(largeFrame(r, 5000+r.Intn(90000))), octetFrame(largeFrame(r, 8000+r.Intn(300))))
						}
					}
					cs := &Case{M: "chunks", K: kind, In: in, O: o}
					if spec.fails(len(in)) {
						spec.Chunks = nil
						cs.R = &spec
					}
					cs.Rs = append(cs.Rs, ReaderSpec{Chunks: []int{1}}, ReaderSpec{Chunks: []int{1}, WithEOF: true, With: true}, ReaderSpec{Chunks: []int{0, 1, 0, 0, 2}}, ReaderSpec{WithEOF: true, With: true}, ReaderSpec{Chunks: []int{1 + r.Intn(16)}})
					if len(in) < 120 && c%4 == 0 {
						for k := 1; k < len(in); k++ {
							cs.Rs = append(cs.Rs, ReaderSpec{Chunks: []int{k, len(in)}, WithEOF: k%2 == 0})
						}
					}
					for k := 0; k < 4; k++ {
						cs.Rs = append(cs.Rs, *randReader(r, len(in)))
					}
					std := *randReader(r, len(in))
					std.Std = stdReaders[c/2%len(stdReaders)]
					cs.Rs = append(cs.Rs, std)
					if !s.Eval(cs) {
						return
					}
				}
				for _, kind := range []string{"oct", "nt"} {
					if !wordOnes(x, s, i, kind, func(in []byte, o Opt) *Case {
						return &Case{M: "chunks", In: in, O: o, Rs: []ReaderSpec{{Chunks: []int{1}}, *randReader(r, len(in))}}
					}) {
						return
					}
					if !longOnes(x, s, i, kind, func(in []byte, o Opt) *Case {
						return &Case{M: "chunks", In: in, O: o, Rs: []ReaderSpec{{Chunks: []int{1}}, {Chunks: []int{0, 3, 1 + r.Intn(5000)}, WithEOF: true}, *randReader(r, 50)}}
					}) {
						return
					}
				}
				for _, kind := range []string{"oct", "nt"} {
					if !bigOnes(x, s, i, kind, func(in []byte, o Opt, size int) *Case {
						return &Case{M: "chunks", In: in, O: o, Rs: []ReaderSpec{{Chunks: []int{1 + r.Intn(200)}}, *bigSpec(r, len(in))}}
					}) {
						return
					}
				}
				for l := 4080 + i; l <= 4112; l += n {
					for _, kind := range []string{"oct", "nt"} {
						f := largeFrame(r, l)
						var in []byte
						if kind == "nt" {
							in = cat(f, "\n", f, "x\n", "<1>1 - - - - - -\n")
						} else {
							in = cat(octetFrame(f), octetFrame(cat(f, "x")), octetFrame(f))
						}
						cs := &Case{M: "chunks", K: kind, In: in}
						for k := 4080; k < 4112; k++ {
							cs.Rs = append(cs.Rs, ReaderSpec{Chunks: []int{k}})
						}
						if !s.Eval(cs) {
							return
						}
					}
				}
			})
		},
	}
	checks["C27"] = check{
		rule: "streams of both framings handed out by chunks (one octet at a time included); the monitor checks, at every read, that the results due for the octets read so far were delivered, and, at every delivery, the goroutine and that calls do not overlap; streams are run without a listener too, or have up to 70000 frames; when all is over the goroutines left are looked at; built with the race detector; distinct = distinct (stream, options, reader behaviour)",
		run: func(x *Ctx) {
			x.require = []string{"oct:clean", "nt:complete", "oct:no listener", "nt:no listener", "oct:several reads", "nt:several reads", "quiescence", "nt:parsable tail"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				for c := 0; c < x.scale(2500, 40000); c++ {
					o := randStreamOpt(s)
					kind := "oct"
					if c%2 == 0 {
						kind = "nt"
						o.NUL = r.Intn(2) == 0
					}
					in, spec := reuseStream(s, kind, o)
					if r.Intn(3) == 0 {
						spec.Chunks = []int{1}
					}
					if len(in) > 400 {
						spec.Chunks = []int{1 + r.Intn(300), 5, 1 + r.Intn(300)}
					}
					if c%40 == 1 {
						o.Max = intp(math.MaxInt32)
						in = cat(in, octetFrame(largeFrame(r, 60000+r.Intn(20000))), octetFrame(largeFrame(r, 60)))
					}
					cs := &Case{M: "prompt", K: kind, In: in, O: o, R: &spec}
					if c%9 == 0 {
						cs.N = 1
					}
					if !s.Eval(cs) {
						return
					}
				}
				for _, kind := range []string{"oct", "nt"} {
					if !wordOnes(x, s, i, kind, func(in []byte, o Opt) *Case {
						return &Case{M: "prompt", In: in, O: o, R: randReader(r, len(in))}
					}) {
						return
					}
					if !longOnes(x, s, i, kind, func(in []byte, o Opt) *Case {
						return &Case{M: "prompt", In: in, O: o, R: &ReaderSpec{Chunks: []int{40, 1 + r.Intn(200)}}}
					}) {
						return
					}
					if !bigOnes(x, s, i, kind, func(in []byte, o Opt, size int) *Case {
						if size > 600000 && !x.thorough() {
							in = in[:minInt(len(in), 600000)]
						}
						return &Case{M: "prompt", In: in, O: o, R: bigSpec(r, len(in))}
					}) {
						return
					}
				}
			})
			x.Run(1, func(s *Shard, i, n int) { s.Eval(&Case{M: "conc-leftover"}) })
		},
	}
}
