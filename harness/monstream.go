package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// monStream runs a stream parser over a stream and compares all it delivers with the reference deframer.
func monStream(c *Case, r *Rec) string {
	kind := "oct"
	if strings.HasPrefix(c.K, "nt") {
		kind = "nt"
	}
	x := expected(kind, c.In, c.O, c.R)
	g := runStream(kind, c.O, c.In, c.R)
	r.events += int64(len(g.results)) + 1
	cl := kind + ":" + x.kind
	if c.O.Best {
		cl += " (best effort)"
	}
	if c.R.fails(len(c.In)) {
		cl += " (failing reader)"
	}
	r.class(cl)
	if len(x.results) > 2 {
		r.class(kind + ":many results")
	}
	r.nontrivial = len(x.results) > 1 || x.kind != "framing" && x.kind != "empty"
	if d := compareStream(g, &x); d != "" {
		return d + "\ndelivered:" + g.String()
	}
	return ""
}

func intp(i int) *int { return &i }

func randStreamOpt(s *Shard) Opt {
	r := s.rng
	o := Opt{Best: r.Intn(2) == 0}
	for k := r.Intn(4); k > 0; k-- {
		o.Order = append(o.Order, r.Intn(4))
	}
	return o
}

// cuts evaluates a stream ending, or failing, at every offset.
func cuts(s *Shard, k string, in []byte, o Opt, step int) bool {
	r := s.rng
	for at := 0; at <= len(in); at += step {
		if !s.Eval(&Case{M: "stream", K: k, In: in[:at], O: o, R: randReader(r, at)}) {
			return false
		}
		if !s.Eval(&Case{M: "stream", K: k, In: in, O: o, R: fault(r, randReader(r, at), at)}) {
			return false
		}
	}
	return true
}

func init() {
	monitors["stream"] = monStream
	octRule := "distinct = distinct (stream, options, reader behaviour); non-trivial = at least one frame was reached"
	checks["C14"] = check{
		rule: "well framed octet counting streams of up to 40 frames (contents: valid, invalid, truncated messages, line feeds, NULs, text looking like frames, up to and beyond the buffer sizes), strict and best effort, under random reader chunkings, and streams of up to 70000 short frames (all the powers of two and what is next to them), frames of up to 4 MiB; " + octRule,
		run: func(x *Ctx) {
			x.require = []string{"oct:clean", "oct:clean (best effort)", "oct:unparsable", "oct:many results"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				for c := 0; c < x.scale(6000, 100000); c++ {
					o := randStreamOpt(s)
					mf := 5
					if c%50 == 0 {
						mf = 40
					}
					in := octetStream(r, mf, c%3 > 0)
					if r.Intn(4) == 0 {
						o.Max = intp(9000 + r.Intn(100000))
					}
					if c%97 == 0 {
						o.Max = intp([]int{65536 + 20, 100000, 200000, 1 << 20, math.MaxInt32}[r.Intn(5)])
						for q := 1 + r.Intn(3); q > 0; q-- {
							in = append(in, octetFrame(largeFrame(r, 100+r.Intn([]int{9000, 70000, 140000}[r.Intn(3)])))...)
						}
						if *o.Max < 140100 {
							o.Max = intp(150000)
						}
					}
					if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: o, R: randReader(r, len(in))}) {
						return
					}
				}
				// Frames of every single length up to a bound, one after the other
				for l := 16 + i; l <= 8192; l += n * x.scale(5, 1) {
					var in []byte
					for q := 0; q < 3; q++ {
						in = append(in, octetFrame(largeFrame(r, maxInt(19, minInt(8192, l+q))))...)
					}
					if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: Opt{Best: l%2 == 0}, R: randReader(r, len(in))}) {
						return
					}
				}
				// Every byte as content
				for b := i; b < 256; b += n {
					for _, best := range []bool{false, true} {
						f := cat("<1>1 - - - - - - ", byte(b), byte(b), "x", byte(b))
						f2 := cat("<1>1 - - - - - ", byte(b))
						in := cat(octetFrame(f), octetFrame(f2), octetFrame(f))
						if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: Opt{Best: best}, R: randReader(r, len(in))}) {
							return
						}
					}
				}
				// Frames which look like the previous ones
				for c := 0; c < x.scale(60, 1500); c++ {
					in := kinStream(r, "oct", 0, x.scale(40, 200))
					if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: Opt{Best: c%4 > 0}, R: randReader(r, len(in))}) {
						return
					}
				}
				if !wordOnes(x, s, i, "oct", func(in []byte, o Opt) *Case { return &Case{In: in, O: o} }) {
					return
				}
				// Many frames
				if !longOnes(x, s, i, "oct", func(in []byte, o Opt) *Case { return &Case{In: in, O: o} }) {
					return
				}
				// Big frames
				if !edgeOnes(x, s, i, n, "oct", false) || !bigOnes(x, s, i, "oct", func(in []byte, o Opt, size int) *Case { return &Case{In: in, O: o} }) {
					return
				}
				if i < 4 {
					in := bytes.Repeat(octetStream(r, 4, false), x.scale(500, 5000))
					if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: Opt{Best: i%2 == 0}, R: randReader(r, 1000)}) {
						return
					}
				}
			})
		},
	}
	checks["C15"] = check{
		rule: "streams whose framing is broken: every byte put in place of, before, and after every octet of the counts and separators of well framed streams, all the short strings over an alphabet of framing tokens, random mutations, after up to 70000 frames too; strict and best effort; " + octRule,
		run: func(x *Ctx) {
			x.require = []string{"oct:framing", "oct:framing (best effort)", "oct:empty", "oct:cut in count", "oct:cut before message (best effort)", "oct:clean"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				for base := 0; base < x.scale(12, 60); base++ {
					br := newRand(x.Seed + int64(base))
					var in []byte
					var spots []int
					for q := 0; q < 3; q++ {
						f := frame5(br, base%4 == 3)
						if len(f) > 300 {
							f = []byte("<1>1 - - - - - - x")
						}
						h := len(strconv.Itoa(len(f))) + 1
						for p := -1; p <= h+1; p++ {
							if at := len(in) + p; at >= 0 {
								spots = append(spots, at)
							}
						}
						in = append(in, octetFrame(f)...)
					}
					spots = append(spots, len(in))
					for _, at := range spots {
						if !mine() {
							continue
						}
						for b := 0; b < 256; b++ {
							o := Opt{Best: b%2 == base%2}
							ins := cat(in[:at], byte(b), in[at:])
							if !s.Eval(&Case{M: "stream", K: "oct", In: ins, O: o, R: randReader(r, len(ins))}) || !s.Eval(&Case{M: "stream", K: "oct", In: cat(in[:at], byte(b)), O: o, R: randReader(r, len(ins))}) {
								return
							}
							if at < len(in) {
								sub := cat(in[:at], byte(b), in[at+1:])
								if !s.Eval(&Case{M: "stream", K: "oct", In: sub, O: o, R: randReader(r, len(sub))}) {
									return
								}
							}
						}
						if at < len(in) && !s.Eval(&Case{M: "stream", K: "oct", In: cat(in[:at], in[at+1:]), O: Opt{Best: r.Intn(2) == 0}}) {
							return
						}
					}
				}
				enumerate([]string{"0", "1", "6", " ", "<", "<1>1 - - - - - -", "\n", "\x00", "x", "16 <1>1 - - - - - -", "-"}, x.scale(4, 6), func(w []byte) bool {
					if !mine() {
						return s.ok()
					}
					return s.Eval(&Case{M: "stream", K: "oct", In: w}) && s.Eval(&Case{M: "stream", K: "oct", In: cat("16 <1>1 - - - - - -", w), O: Opt{Best: true}, R: &ReaderSpec{Chunks: []int{1 + r.Intn(9)}}})
				})
				for c := 0; c < x.scale(5000, 100000); c++ {
					in := octetStream(r, 3, r.Intn(2) == 0)
					if len(in) > 2000 {
						continue
					}
					in = mutate(r, in, tokensStream)
					if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: randStreamOpt(s), R: randReader(r, len(in))}) {
						return
					}
				}
				if !wordOnes(x, s, i, "oct", func(in []byte, o Opt) *Case { return &Case{In: in, O: o} }) {
					return
				}
				longOnes(x, s, i, "oct", func(in []byte, o Opt) *Case {
					return &Case{In: cat(in, pick(r, "x", "\n", " ", "016 <1>1 - - - - - -", "\x00", "16  <", "16 x", "16", "16 "), pick(r, "", "16 <1>1 - - - - - -")), O: o}
				})
			})
		},
	}
	checks["C16"] = check{
		rule: "octet counting streams ending, and readers failing (with or along the last octets), at every offset; strict and best effort, frames from tens of octets to beyond the buffer sizes, up to 70000 frames before, frames of up to 4 MiB; " + octRule,
		run: func(x *Ctx) {
			x.require = []string{"oct:truncated", "oct:truncated with message (best effort)", "oct:truncated (failing reader)", "oct:truncated with message (best effort) (failing reader)", "oct:cut in count", "oct:clean"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				for c := 0; c < x.scale(40, 900); c++ {
					in := octetStream(r, 3, c%3 == 0)
					if len(in) > 700 {
						if len(in) < 20000 {
							if !cuts(s, "oct", in, Opt{Best: c%2 == 0}, 97) {
								return
							}
						}
						continue
					}
					for _, best := range []bool{false, true} {
						if !cuts(s, "oct", in, Opt{Best: best}, 1) {
							return
						}
					}
				}
				if !wordOnes(x, s, i, "oct", func(in []byte, o Opt) *Case {
					at := r.Intn(len(in))
					if r.Intn(2) == 0 {
						return &Case{In: in[:at], O: o}
					}
					return &Case{In: in, O: o, R: fault(r, randReader(r, at), at)}
				}) {
					return
				}
				if !longOnes(x, s, i, "oct", func(in []byte, o Opt) *Case {
					all := cat(in, octetFrame([]byte("<1>1 - - - - - - cut here")))
					at := len(all) - 1 - r.Intn(14)
					if r.Intn(2) == 0 {
						return &Case{In: all[:at], O: o}
					}
					return &Case{In: all, O: o, R: fault(r, randReader(r, len(all)), at)}
				}) {
					return
				}
				if !edgeOnes(x, s, i, n, "oct", true) || !bigOnes(x, s, i, "oct", func(in []byte, o Opt, size int) *Case {
					at := []int{len(in) - 1, len(in) - r.Intn(30), size, size / 2, 65536 + r.Intn(30), 1<<20 + r.Intn(60), r.Intn(len(in)), r.Intn(len(in))}[r.Intn(8)]
					if at > len(in) {
						at = len(in) - 1
					}
					if r.Intn(2) == 0 {
						return &Case{In: in[:at], O: o}
					}
					return &Case{In: in, O: o, R: fault(r, bigSpec(r, at+1), at)}
				}) {
					return
				}
				// Large frames, cut around the sizes of the buffers
				for c := 0; c < x.scale(6, 60); c++ {
					f := largeFrame(r, 80000+r.Intn(100000))
					in := cat(octetFrame(frame5(r, false)), octetFrame(f), octetFrame(frame5(r, false)))
					for _, at := range []int{8192, 8212, 65535, 65536, 65537, 65556, len(in) - 200, len(in) - 60, 131072, 131112} {
						at += r.Intn(40) - 20
						if at > len(in) {
							at = len(in)
						}
						for _, best := range []bool{false, true} {
							o := Opt{Best: best, Max: intp(200000)}
							if !s.Eval(&Case{M: "stream", K: "oct", In: in[:at], O: o, R: randReader(r, at)}) || !s.Eval(&Case{M: "stream", K: "oct", In: in, O: o, R: fault(r, randReader(r, at), at)}) {
								return
							}
						}
					}
				}
			})
		},
	}
	checks["C17"] = check{
		rule: "maxima from negative to the greatest int against counts below, at, and above them, counts which wrap around on 16, 31, 32, 63 and 64 bits included, with streams where the wrapped count would make a good frame, up to 70000 frames before, frames of up to 4 MiB; " + octRule,
		run: func(x *Ctx) {
			x.require = []string{"oct:too long", "oct:too long (best effort)", "oct:clean", "oct:truncated"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				maxima := []*int{nil}
				for _, m := range []int{-math.MaxInt - 1, math.MinInt32, -100, -21, -20, -19, -17, -16, -1, 0, 1, 9, 10, 15, 16, 17, 18, 19, 20, 25, 99, 100, 101, 255, 256, 999, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 65535, 65536, 65537, 65556, 70000, 100000, math.MaxInt32 - 19, math.MaxInt32, wrap(math.MaxInt32 + 1), wrap(1 << 40), math.MaxInt - 21, math.MaxInt - 20, math.MaxInt - 19, math.MaxInt - 1, math.MaxInt} {
					maxima = append(maxima, intp(m))
				}
				big := []string{"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551632", "36893488147419103232", "340282366920938463463374607431768211456", "340282366920938463463374607431768211472", "99999999999999999999", "1" + strings.Repeat("0", 400)}
				good := "<1>1 - - - - - -"
				for _, mx := range maxima {
					m := 8192
					if mx != nil {
						m = *mx
					}
					for _, best := range []bool{false, true} {
						o := Opt{Best: best, Max: mx}
						// Frames of lengths around the maximum
						for d := -2; d <= 2; d++ {
							l := 16 + d
							if m > -1000 {
								l = m + d
							}
							if m > 1<<30 {
								l = 16 + d*3
								if d == 2 {
									l = 150000
								}
							}
							if !mine() {
								continue
							}
							if l < 16 {
								if l < 1 {
									l = 16 + d + 2
								} else {
									in := cat(octetFrame([]byte(good[:l])), octetFrame([]byte(good)))
									if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: o}) {
										return
									}
									continue
								}
							}
							f := largeFrame(r, maxInt(l, 16))
							if l == 17 {
								f = []byte(good + " ")
							} else if l == 16 {
								f = []byte(good)
							}
							for _, in := range [][]byte{octetFrame(f), cat(octetFrame([]byte(good)), octetFrame(f)), cat(octetFrame(f), octetFrame([]byte(good))), octetFrame(f)[:len(f)/2+2], cat(octetFrame(f), fmt.Sprintf("%d ", len(f)))} {
								if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: o, R: randReader(r, len(in))}) {
									return
								}
							}
						}
						// Counts which wrap around
						for _, b := range big {
							if !mine() {
								continue
							}
							for _, in := range []string{b + " " + good, "16 " + good + b + " " + good, b, b + " ", b + "x"} {
								if !s.Eval(&Case{M: "stream", K: "oct", In: []byte(in), O: o, R: randReader(r, len(in))}) {
									return
								}
							}
						}
						for _, base := range []uint64{1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 53, 1 << 62, 1 << 63} {
							for _, d := range []uint64{0, 1, 10, 16, 17, 100} {
								if !mine() {
									continue
								}
								in := cat(fmt.Sprintf("%d %s", base+d, good), octetFrame([]byte(good)))
								if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: o, R: randReader(r, len(in))}) {
									return
								}
							}
						}
					}
				}
				for c := 0; c < x.scale(4000, 60000); c++ {
					in := octetStream(r, 4, r.Intn(3) == 0)
					o := randStreamOpt(s)
					o.Max = intp(r.Intn(400))
					if r.Intn(2) == 0 {
						o.Max = intp(15 + r.Intn(30))
					}
					if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: o, R: randReader(r, len(in))}) {
						return
					}
				}
				if !wordOnes(x, s, i, "oct", func(in []byte, o Opt) *Case {
					o.Max = intp(r.Intn(60))
					return &Case{In: in, O: o}
				}) {
					return
				}
				if !longOnes(x, s, i, "oct", func(in []byte, o Opt) *Case {
					l := 100 + r.Intn(1000)
					o.Max = intp(l - i%2)
					return &Case{In: cat(in, octetFrame(largeFrame(r, l)), "16 <1>1 - - - - - -"), O: o}
				}) {
					return
				}
				if !bigOnes(x, s, i, "oct", func(in []byte, o Opt, size int) *Case {
					o.Max = intp([]int{size - 1, size - 1, size, size + 1, size / 2, size - r.Intn(100)}[r.Intn(6)])
					return &Case{In: in, O: o}
				}) {
					return
				}
				// Every maximum from 0 to a bound with every length around it
				long := largeFrame(r, 13000)
				for m := 19 + i; m < x.scale(10400, 12000); m += n {
					in := cat(octetFrame(long[:m]), octetFrame(long[:m+1]), octetFrame([]byte(good)))
					if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: Opt{Best: m/n%2 == 0, Max: intp(m)}, R: randReader(r, len(in))}) {
						return
					}
				}
				for m := i; m < x.scale(400, 9000); m += n {
					for l := maxInt(19, m-1); l <= m+1; l++ {
						in := cat(octetFrame(largeFrame(r, l)), octetFrame([]byte(good)))
						if !s.Eval(&Case{M: "stream", K: "oct", In: in, O: Opt{Best: l%2 == 0, Max: intp(m)}, R: randReader(r, len(in))}) {
							return
						}
					}
				}
			})
		},
	}
	ntRule := "distinct = distinct (stream, options, reader behaviour); non-trivial = more than an empty or a broken start"
	checks["C18"] = check{
		rule: "non-transparent streams of complete lines (contents: valid, invalid, truncated messages, both trailers doubled, followed by anything, lines around and beyond the buffer sizes), both trailers, strict and best effort, random reader chunkings, up to 70000 short ones, some of up to 4 MiB; all the short strings over an alphabet of trailers, starts and messages; " + ntRule,
		run: func(x *Ctx) {
			x.require = []string{"nt:complete", "nt:complete (best effort)", "nt:many results"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				enumerate([]string{"\n", "\x00", "<", "<1>1 - - - - - -", "<1>1 - - - - - - x", " ", "1", "\n<"}, x.scale(5, 6), func(w []byte) bool {
					if !mine() {
						return s.ok()
					}
					nul := len(w)%2 == 0
					t := "\n"
					if nul {
						t = "\x00"
					}
					return s.Eval(&Case{M: "stream", K: "nt", In: cat("<1>1 - - - - - - m", w, t), O: Opt{Best: r.Intn(2) == 0, NUL: nul}, R: randReader(r, 10)})
				})
				for c := 0; c < x.scale(7000, 120000); c++ {
					o := randStreamOpt(s)
					o.NUL = r.Intn(2) == 0
					t := byte('\n')
					if o.NUL {
						t = 0
					}
					if r.Intn(8) == 0 {
						o.Max = intp(r.Intn(100) - 10) // it does nothing here
					}
					mf := 5
					if c%50 == 0 {
						mf = 40
					}
					in := ntStream(r, mf, c%3 > 0, t)
					if c%61 == 0 {
						for q := 1 + r.Intn(3); q > 0; q-- {
							in = append(in, largeFrame(r, 4050+r.Intn(100)+4096*r.Intn(4)+r.Intn(2)*100000)...)
							in = append(in, t)
						}
					}
					if !s.Eval(&Case{M: "stream", K: "nt", In: in, O: o, R: randReader(r, len(in))}) {
						return
					}
				}
				// Frames which look like the previous ones
				for c := 0; c < x.scale(60, 1500); c++ {
					o := Opt{Best: c%4 > 1, NUL: c%2 == 0}
					in := kinStream(r, "nt", map[bool]byte{false: '\n', true: 0}[o.NUL], x.scale(40, 200))
					if !s.Eval(&Case{M: "stream", K: "nt", In: in, O: o, R: randReader(r, len(in))}) {
						return
					}
				}
				// Lines of every length around the buffer size
				for l := 19 + i; l <= x.scale(4400, 9000); l += n * x.scale(4, 1) {
					in := cat(largeFrame(r, l), "\n", largeFrame(r, l+1), "\n\n", largeFrame(r, 8215-l%4096), "\n")
					if !s.Eval(&Case{M: "stream", K: "nt", In: in, O: Opt{Best: l%2 == 0}, R: randReader(r, len(in))}) {
						return
					}
				}
				for b := i; b < 256; b += n {
					for v := 0; v < 4; v++ {
						t := "\n"
						if v%2 == 1 {
							t = "\x00"
						}
						in := cat("<1>1 - - - - - - x", t, byte(b), "y", t, "<1>1 - - - - - - ", byte(b), t, byte(b), t, "<1>1 - - - - - -", byte(b), t)
						if !s.Eval(&Case{M: "stream", K: "nt", In: in, O: Opt{Best: v > 1, NUL: v%2 == 1}, R: randReader(r, len(in))}) {
							return
						}
					}
				}
				if !wordOnes(x, s, i, "nt", func(in []byte, o Opt) *Case { return &Case{In: in, O: o} }) {
					return
				}
				if !longOnes(x, s, i, "nt", func(in []byte, o Opt) *Case { return &Case{In: in, O: o} }) {
					return
				}
				if !edgeOnes(x, s, i, n, "nt", false) || !bigOnes(x, s, i, "nt", func(in []byte, o Opt, size int) *Case { return &Case{In: in, O: o} }) {
					return
				}
				if i < 4 {
					in := bytes.Repeat(ntStream(r, 4, false, '\n'), x.scale(500, 5000))
					if !s.Eval(&Case{M: "stream", K: "nt", In: in, O: Opt{Best: i%2 == 0}, R: randReader(r, 1000)}) {
						return
					}
				}
			})
		},
	}
	checks["C19"] = check{
		rule: "non-transparent streams ending, and readers failing (with or along the last octets), at every offset, streams with every possible first byte, all the short strings over an alphabet of trailers, starts and messages; both trailers, strict and best effort, up to 70000 lines before, some of up to 4 MiB; " + ntRule,
		run: func(x *Ctx) {
			x.require = []string{"nt:parsable tail", "nt:parsable tail (best effort) (failing reader)", "nt:partial tail (best effort)", "nt:unparsable tail (failing reader)", "nt:illegal start", "nt:illegal start and tail", "nt:empty", "nt:complete"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				enumerate([]string{"\n", "\x00", "<", "<1>1 - - - - - -", "<1>1 - - - - - - x", " ", "16 ", "\n<"}, x.scale(5, 6), func(w []byte) bool {
					if !mine() {
						return s.ok()
					}
					return s.Eval(&Case{M: "stream", K: "nt", In: w, O: Opt{Best: r.Intn(2) == 0, NUL: r.Intn(2) == 0}, R: randReader(r, 10)})
				})
				for b := i; b < 256; b += n {
					for v := 0; v < 4; v++ {
						t := "\n"
						if v%2 == 1 {
							t = "\x00"
						}
						for _, rest := range []string{"", t, "1>1 - - - - - -", "1>1 - - - - - -" + t, t + "<1>1 - - - - - - x" + t, "z" + t + "<1>1 - - - - - - x" + t + "<1>1 - - - - - - y", t + t + "a", "x" + t + "<1>1 - - - - - - x" + t + "b"} {
							if !s.Eval(&Case{M: "stream", K: "nt", In: cat(byte(b), rest), O: Opt{Best: v > 1, NUL: v%2 == 1}, R: randReader(r, 20)}) {
								return
							}
						}
					}
				}
				for c := 0; c < x.scale(40, 900); c++ {
					nul := r.Intn(2) == 0
					t := byte('\n')
					if nul {
						t = 0
					}
					in := ntStream(r, 3, c%3 == 0, t)
					if r.Intn(2) == 0 {
						in = append(in, frame5(r, r.Intn(3) == 0)...)
					}
					step := 1
					if len(in) > 700 {
						if len(in) > 20000 {
							continue
						}
						step = 97
					}
					for _, best := range []bool{false, true} {
						if !cuts(s, "nt", in, Opt{Best: best, NUL: nul}, step) {
							return
						}
					}
				}
				for c := 0; c < x.scale(3000, 60000); c++ {
					in := ntStream(r, 3, r.Intn(2) == 0, '\n')
					if len(in) > 2000 {
						continue
					}
					in = mutate(r, in, tokensStream)
					if !s.Eval(&Case{M: "stream", K: "nt", In: in, O: randStreamOpt(s), R: randReader(r, len(in))}) {
						return
					}
				}
				if !wordOnes(x, s, i, "nt", func(in []byte, o Opt) *Case {
					at := len(in) - r.Intn(2)*r.Intn(len(in))
					if r.Intn(2) == 0 {
						return &Case{In: in[:at], O: o}
					}
					return &Case{In: in, O: o, R: fault(r, randReader(r, at), at)}
				}) {
					return
				}
				if !longOnes(x, s, i, "nt", func(in []byte, o Opt) *Case {
					in = cat(in, pick(r, "<1>1 - - - - - - tail", "<1>1 - - - - - -", "<", "<1>1 - - ", "tail", "\r"))
					if i%4 == 3 {
						in = cat("x", in)
					}
					if r.Intn(2) == 0 {
						return &Case{In: in, O: o}
					}
					return &Case{In: cat(in, "more"), O: o, R: fault(r, randReader(r, len(in)), len(in))}
				}) {
					return
				}
				if !edgeOnes(x, s, i, n, "nt", true) || !bigOnes(x, s, i, "nt", func(in []byte, o Opt, size int) *Case {
					if r.Intn(4) == 0 {
						in = cat("x", in)
					}
					at := []int{len(in) - 1, len(in) - 1, len(in) - 1 - r.Intn(30), r.Intn(len(in)), r.Intn(len(in))}[r.Intn(5)]
					if r.Intn(2) == 0 {
						return &Case{In: in[:at], O: o}
					}
					return &Case{In: in, O: o, R: fault(r, bigSpec(r, at+1), at)}
				}) {
					return
				}
				for c := 0; c < x.scale(10, 200); c++ {
					in := cat(largeFrame(r, 4000+r.Intn(200)), "\n", largeFrame(r, 4000+r.Intn(9000)))
					for q := 0; q < 6; q++ {
						at := r.Intn(len(in))
						if !s.Eval(&Case{M: "stream", K: "nt", In: in[:at], O: Opt{Best: q%2 == 0}, R: randReader(r, at)}) || !s.Eval(&Case{M: "stream", K: "nt", In: in, O: Opt{Best: q%2 == 0}, R: fault(r, randReader(r, at), at)}) {
							return
						}
					}
				}
			})
		},
	}
}

// wrap makes an int of a number, whatever remains of it where int is narrower.
func wrap(n int64) int { return int(n) }
