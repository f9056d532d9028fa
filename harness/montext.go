package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// C32: the texts of framing errors

var (
	reLiteral = regexp.MustCompile(`(?s)\(.[^)]*\)|".*"|'.[^']*'`)
	reNumber  = regexp.MustCompile(`-?[0-9]+`)
)

// textClass masks what varies in the text of an error.
func textClass(text string) string {
	if i := strings.Index(text, " [col "); i >= 0 {
		return "parsing error"
	}
	return reNumber.ReplaceAllString(reLiteral.ReplaceAllString(text, "~"), "N")
}

// monTexts compares the texts of the errors which end streams, or replace what can not be deframed.
func monTexts(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	x := expected(kind, c.In, c.O, c.R)
	g := runStream(kind, c.O, c.In, c.R)
	r.events += int64(len(g.results)) + 1
	for i := range x.results {
		w := x.results[i].text
		if w == "" {
			continue
		}
		cl := kind + ":" + textClass(w)
		if c.O.Best {
			cl += " (best effort)"
		}
		if c.R.fails(len(c.In)) && kind == "nt" && x.results[i].msg != "nil" {
			cl = kind + ":the reader's error"
		}
		r.class(cl)
		r.nontrivial = true
		switch {
		case i >= len(g.results) || g.results[i] == nil:
			return fmt.Sprintf("result %d is missing, expected the error %q\ndelivered:%s", i, w, g)
		case g.results[i].Error == nil:
			return fmt.Sprintf("result %d has no error, expected %q\ndelivered:%s", i, w, g)
		}
		if t := g.results[i].Error.Error(); t != w {
			return fmt.Sprintf("result %d has error %q, expected %q\ndelivered:%s", i, t, w, g)
		}
	}
	return ""
}

func init() {
	monitors["texts"] = monTexts
	checks["C32"] = check{
		rule: "octet counting streams with every octet put in place of, before and after those of counts and separators (going on, and ending there), all the short strings over an alphabet of framing tokens, streams cut and readers failing at every offset, counts against maxima; non-transparent streams with every first octet and every kind of tail, readers failing with texts of their own; both modes; distinct = distinct (stream, options, reader behaviour), non-trivial = an error of the framing is due",
		run: func(x *Ctx) {
			x.require = []string{
				"oct:found ILLEGAL~, expecting a MSGLEN", "oct:found EOF, expecting a MSGLEN", "oct:found WS, expecting a MSGLEN (best effort)",
				"oct:found ILLEGAL~, expecting a WS", "oct:found EOF, expecting a WS (best effort)", "oct:found WS after ~, expecting a SYSLOGMSG containing N octets",
				"oct:found ILLEGAL~ after ~, expecting a SYSLOGMSG containing N octets (best effort)", "oct:found MSGLEN~ after ~, expecting a SYSLOGMSG containing N octets (best effort)",
				"oct:found EOF after ~, expecting a SYSLOGMSG containing N octets", "oct:found EOF after ~, expecting a SYSLOGMSG containing N octets (best effort)", "oct:parsing error (best effort)",
				"oct:message too long to parse. was size N, max length N", "nt:found ~, expecting a syslog message starting with ~", "nt:unexpected EOF", "nt:the reader's error"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				for base := 0; base < x.scale(6, 40); base++ {
					br := newRand(x.Seed + int64(base))
					var in []byte
					var spots []int
					for q := 0; q < 2; q++ {
						f := frame5(br, false)
						if len(f) > 200 || q == 0 {
							f = []byte("<1>1 - - - - - - x")
						}
						for p, h := 0, len(strconv.Itoa(len(f)))+1; p <= h; p++ {
							spots = append(spots, len(in)+p)
						}
						in = append(in, octetFrame(f)...)
					}
					spots = append(spots, len(in))
					for _, at := range spots {
						if !mine() {
							continue
						}
						for b := 0; b < 256; b++ {
							o := Opt{Best: b%2 == base%2}
							forms := [][]byte{cat(in[:at], byte(b), in[at:]), cat(in[:at], byte(b)), cat(in[:at], byte(b), "7 <")}
							if at < len(in) {
								forms = append(forms, cat(in[:at], byte(b), in[at+1:]))
							}
							for _, f := range forms {
								if !s.Eval(&Case{M: "texts", K: "oct", In: f, O: o, R: randReader(r, len(f))}) {
									return
								}
							}
						}
					}
				}
				enumerate([]string{"0", "1", "6", " ", "<", "<1>1 - - - - - -", "\n", "x", "16 <1>1 - - - - - -", "20", "\""}, x.scale(4, 5), func(w []byte) bool {
					if !mine() {
						return s.ok()
					}
					best := r.Intn(2) == 0
					return s.Eval(&Case{M: "texts", K: "oct", In: w, O: Opt{Best: best}}) && s.Eval(&Case{M: "texts", K: "oct", In: cat("17 <1>1 - - - - - - ", w), O: Opt{Best: !best}, R: &ReaderSpec{Chunks: []int{1 + r.Intn(9)}}}) &&
						s.Eval(&Case{M: "texts", K: "nt", In: w, O: Opt{Best: best, NUL: r.Intn(4) == 0}, R: randReader(r, len(w))})
				})
				for b := i; b < 256; b += n {
					for v := 0; v < 4; v++ {
						t := "\n"
						if v%2 == 1 {
							t = "\x00"
						}
						for _, rest := range []string{t, "1>1 - - - - - -" + t, t + "<1>1 - - - - - - x" + t, "z" + t + "<1>1 - - - - - - y", t + t + "<1>1 - - - - - -"} {
							in := cat(byte(b), rest)
							c := &Case{M: "texts", K: "nt", In: in, O: Opt{Best: v > 1, NUL: v%2 == 1}, R: randReader(r, 20)}
							if v == 2 || r.Intn(4) == 0 {
								fault(r, c.R, len(in))
							}
							if !s.Eval(c) {
								return
							}
						}
					}
				}
				// Cut, and failing, everywhere
				for c := 0; c < x.scale(40, 600); c++ {
					kind, o := "oct", randStreamOpt(s)
					var in []byte
					if c%2 == 0 {
						kind, o.NUL = "nt", c%4 == 0
						in = ntStream(r, 2, c%6 == 0, map[bool]byte{true: 0, false: '\n'}[o.NUL])
						in = append(in, frame5(r, false)...)
					} else {
						in = octetStream(r, 2, c%6 == 1 && o.Best)
					}
					if len(in) > 1500 {
						in = in[len(in)-1500:]
					}
					for at := 0; at <= len(in); at++ {
						if !s.Eval(&Case{M: "texts", K: kind, In: in[:at], O: o, R: randReader(r, at)}) || !s.Eval(&Case{M: "texts", K: kind, In: in, O: o, R: fault(r, randReader(r, at), at)}) {
							return
						}
					}
				}
				for c := 0; c < x.scale(1500, 20000); c++ {
					o := randStreamOpt(s)
					in := octetStream(r, 3, o.Best)
					if r.Intn(2) == 0 {
						in = cat(in, fmt.Sprintf("%d%s", []int{16, 8192, 8193, 9999, r.Intn(70000), 1 << uint(r.Intn(31))}[r.Intn(6)], pick(r, " ", "", "x", " <1>1 - - - - - -", "  <", " 16 <1>1 - - - - - -")))
					}
					if r.Intn(2) == 0 {
						o.Max = intp(r.Intn(300) - 3)
					}
					if !s.Eval(&Case{M: "texts", K: "oct", In: in, O: o, R: randReader(r, len(in))}) {
						return
					}
				}
				for _, kind := range []string{"oct", "nt"} {
					if !wordOnes(x, s, i, kind, func(in []byte, o Opt) *Case {
						at := len(in) - r.Intn(2)*r.Intn(len(in))
						c := &Case{M: "texts", In: in[:at], O: o, R: randReader(r, at)}
						if r.Intn(2) == 0 {
							c.In = in
							fault(r, c.R, at)
						}
						return c
					}) {
						return
					}
					if !bigOnes(x, s, i, kind, func(in []byte, o Opt, size int) *Case {
						at := []int{len(in) - 2, len(in) - 2 - r.Intn(40), r.Intn(len(in)), r.Intn(len(in))}[r.Intn(4)]
						c := &Case{M: "texts", In: in[:at], O: o, R: bigSpec(r, at+1)}
						if r.Intn(2) == 0 {
							c.In = in
							fault(r, c.R, at)
						} else if r.Intn(3) == 0 && kind == "oct" {
							c.O.Max = intp(size - 1)
						}
						return c
					}) {
						return
					}
					if !longOnes(x, s, i, kind, func(in []byte, o Opt) *Case {
						in = cat(in, pick(r, "x", " ", "016", "16  <", "16 17 <", "16x", "16 ", "<1>1 - - - - - -", "16 <1>1 - - -"))
						return &Case{M: "texts", In: in, O: o, R: &ReaderSpec{Chunks: []int{4096}}}
					}) {
						return
					}
				}
			})
		},
	}
}
