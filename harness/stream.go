package main

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// xres is an expected result.
type xres struct {
	err   bool   // an error is expected
	exact string // the exact text of the error, when it comes from parsing a message
	text  string // the exact text of the error, when it comes from the framing
	has   []string
	msg   string // dump of the message
	end   int    // offset of the octet which completes the frame
	due   int    // offset by which the result must have been delivered (-1: at the end)
}

func (x *xres) String() string {
	e := "ok"
	if x.err {
		e = "some error"
		if x.exact != "" {
			e = "error(" + x.exact + ")"
		} else if len(x.has) > 0 {
			e = fmt.Sprintf("error telling %q", x.has)
		}
	}
	return x.msg + " " + e
}

// expectation of a whole stream.
type xstream struct {
	results []xres
	stopped bool // nothing may be delivered after the last result, whatever follows
	kind    string
}

func parse5(frame []byte, best bool) (string, error) {
	// The given frame with no spare room, so that nothing beyond it can be seen
	m, err := new5424(Opt{Best: best}).Parse(append(make([]byte, 0, len(frame)), frame...))
	return dump(m), err
}

// refOctet deframes a stream: delivered are the octets, failed tells whether the reader ended with an error.
func refOctet(in []byte, o Opt) xstream {
	max := 8192
	if o.Max != nil {
		max = *o.Max
	}
	var x xstream
	bad := func(kind, text string, has ...string) xstream {
		x.results = append(x.results, xres{err: true, msg: "nil", has: has, due: -1, text: text})
		x.stopped = true
		x.kind = kind
		return x
	}
	// what tells the octet, or the end, at i
	what := func(i int) string {
		if i == len(in) {
			return "EOF"
		} else if in[i] == ' ' {
			return "WS"
		}
		return "ILLEGAL(" + string(in[i:i+1]) + ")"
	}
	i := 0
	for {
		if i == len(in) {
			if len(x.results) == 0 {
				return bad("empty", "found EOF, expecting a MSGLEN")
			}
			x.kind = "clean"
			return x
		}
		start := i
		if in[i] < '1' || in[i] > '9' {
			return bad("framing", "found "+what(i)+", expecting a MSGLEN")
		}
		for i < len(in) && digit(in[i]) {
			i++
		}
		txt := string(in[start:i])
		count, e := strconv.ParseUint(txt, 10, 64)
		long := e != nil || max < 0 || count > uint64(max)
		text := "found " + what(i) + ", expecting a WS"
		if long {
			text = fmt.Sprintf("message too long to parse. was size %s, max length %d", txt, max)
		}
		if e != nil {
			text = "" // the size can not be told exactly
		}
		if i == len(in) {
			return bad("cut in count", text)
		}
		if in[i] != ' ' {
			return bad("framing", text)
		}
		if e != nil {
			return bad("too long", text, strconv.Itoa(max))
		}
		if long {
			return bad("too long", text, txt, strconv.Itoa(max))
		}
		i++
		if i == len(in) {
			c := bad("cut before message", fmt.Sprintf("found EOF after \"\", expecting a SYSLOGMSG containing %s octets", txt))
			if o.Best {
				_, err := parse5(nil, true)
				c.results[len(c.results)-1].text = err.Error()
			}
			return c
		}
		if in[i] != '<' {
			found, lit := what(i), in[i:i+1]
			if in[i] >= '1' && in[i] <= '9' {
				j := i
				for j < len(in) && digit(in[j]) {
					j++
				}
				lit = in[i:j]
				found = "MSGLEN(" + string(lit) + ")"
			}
			return bad("framing", fmt.Sprintf("found %s after \"%s\", expecting a SYSLOGMSG containing %s octets", found, lit, txt))
		}
		n := int(count)
		if len(in)-i < n {
			text := fmt.Sprintf("found EOF after \"%s\", expecting a SYSLOGMSG containing %s octets", in[i:], txt)
			if !o.Best {
				return bad("truncated", text)
			}
			m, err := parse5(in[i:], true)
			if err != nil {
				text = err.Error()
			}
			x.results = append(x.results, xres{err: true, msg: m, due: -1, text: text})
			x.stopped = true
			x.kind = "truncated"
			if m != "nil" {
				x.kind = "truncated with message"
			}
			return x
		}
		m, err := parse5(in[i:i+n], o.Best)
		i += n
		r := xres{msg: m, end: i, due: i}
		if err != nil {
			r.err, r.exact = true, err.Error()
		}
		x.results = append(x.results, r)
		if err != nil && !o.Best {
			x.stopped = true
			x.kind = "unparsable"
			return x
		}
	}
}

// refNT splits a non-transparent stream; failure is the text of what ended it.
func refNT(in []byte, o Opt, failure string) xstream {
	trailer := byte('\n')
	if o.NUL {
		trailer = 0
	}
	var x xstream
	var cand []byte
	illegal := false
	started := false
	lineEnd := 0
	emit := func(due int) {
		m, err := parse5(cand[:len(cand)-1], o.Best)
		r := xres{msg: m, due: due, end: lineEnd}
		if err != nil {
			r.err, r.exact = true, err.Error()
		}
		x.results = append(x.results, r)
	}
	i := 0
	for i < len(in) {
		j := i
		for j < len(in) && in[j] != trailer {
			j++
		}
		if j == len(in) {
			break
		}
		line := in[i : j+1]
		i = j + 1
		switch {
		case illegal:
		case line[0] == '<':
			if started {
				emit(i)
			}
			cand = append([]byte(nil), line...)
			started = true
			lineEnd = i
		case !started:
			illegal = true
			x.results = append(x.results, xres{err: true, msg: "nil", due: -1, text: fmt.Sprintf("found %q, expecting a syslog message starting with '<'", line[0])})
		default:
			cand = append(cand, line...)
			lineEnd = i
		}
	}
	if started {
		emit(-1)
	}
	x.kind = "complete"
	if len(in) == 0 {
		x.kind = "empty"
	}
	if illegal {
		x.kind = "illegal start"
	}
	if tail := in[i:]; len(tail) > 0 {
		m, err := parse5(tail, o.Best)
		r := xres{err: true, msg: m, due: -1}
		if err != nil {
			r.exact = err.Error()
		} else {
			r.text = failure
		}
		x.results = append(x.results, r)
		switch {
		case illegal:
			x.kind = "illegal start and tail"
		case err == nil:
			x.kind = "parsable tail"
		case m != "nil":
			x.kind = "partial tail"
		default:
			x.kind = "unparsable tail"
		}
	}
	return x
}

// got is what was delivered for a stream.
type got struct {
	results []*syslog.Result
	texts   []string // dump of each one at the time of its delivery
	errs    []error
	offs    []int // bytes the reader had handed out by then
}

func (g *got) String() string {
	var b strings.Builder
	for i, t := range g.texts {
		fmt.Fprintf(&b, "\n   %d: %s", i, t)
	}
	return b.String()
}

func (g *got) add(r *syslog.Result, off int) {
	g.results = append(g.results, r)
	if r == nil {
		g.texts = append(g.texts, "nil result")
		g.errs = append(g.errs, nil)
	} else {
		g.texts = append(g.texts, dumpRes(r.Message, r.Error))
		g.errs = append(g.errs, r.Error)
	}
	g.offs = append(g.offs, off)
}

// sink routes the results of a stream parser that is reused to where they belong.
type sink struct {
	g   *got
	r   *monReader
	f   func(*syslog.Result)
	max int
}

var errSpoiled = errors.New("spoiled by the listener")

func (s *sink) listen(r *syslog.Result) {
	if s.f != nil {
		s.f(r)
	}
	if s.g == nil {
		return
	}
	off := 0
	if s.r != nil {
		off = s.r.off
	}
	if s.r != nil && s.r.spec != nil && len(s.g.results) < len(s.r.spec.Linger) {
		time.Sleep(time.Duration(s.r.spec.Linger[len(s.g.results)]) * time.Millisecond)
	}
	if r != nil && s.r != nil && s.r.spec != nil && s.r.spec.Spoil {
		seen := *r
		s.g.add(&seen, off)
		if r.Message = nil; r.Error == nil {
			r.Error = errSpoiled
		} else {
			r.Error = nil
		}
	} else {
		s.g.add(r, off)
	}
	if s.r != nil && s.r.spec != nil && s.r.spec.Burst == len(s.g.results) {
		panic(injected{})
	}
}

func optsStream(kind string, o Opt, l syslog.ParserListener) []syslog.ParserOption {
	var opts []syslog.ParserOption
	if l != nil {
		opts = append(opts, syslog.WithListener(l))
	}
	if o.Best {
		opts = append(opts, syslog.WithBestEffort())
	}
	if o.Max != nil {
		opts = append(opts, syslog.WithMaxMessageLength(*o.Max))
	}
	if kind == "nt" && o.NUL {
		opts = append(opts, nontransparent.WithTrailer(nontransparent.NUL))
	}
	if len(o.Order) == 0 || len(opts) == 0 {
		return opts
	}
	var out []syslog.ParserOption
	used := map[int]bool{}
	for _, i := range o.Order {
		i %= len(opts)
		out = append(out, opts[i])
		used[i] = true
	}
	for i, f := range opts {
		if !used[i] {
			out = append(out, f)
		}
	}
	return out
}

func newStream(kind string, o Opt, l syslog.ParserListener) syslog.Parser {
	if kind == "nt" {
		return nontransparent.NewParser(optsStream(kind, o, l)...)
	}
	return octetcounting.NewParser(optsStream(kind, o, l)...)
}

// runStream parses a stream with a new parser.
func runStream(kind string, o Opt, in []byte, spec *ReaderSpec) *got {
	s := &sink{g: &got{}}
	p := newStream(kind, o, s.listen)
	s.r = newReader(in, spec)
	parseThrough(p, s.r)
	return s.g
}

func expected(kind string, in []byte, o Opt, spec *ReaderSpec) xstream {
	if kind == "nt" {
		failure := "unexpected EOF"
		if e := newReader(in, spec).failed; e != io.EOF {
			failure = e.Error()
		}
		return refNT(spec.delivered(in), o, failure)
	}
	return refOctet(spec.delivered(in), o)
}

// compareStream tells how what was delivered differs from the expected results.
func compareStream(g *got, x *xstream) string {
	for i, r := range g.results {
		if r == nil {
			return fmt.Sprintf("result %d is nil", i)
		}
		if i >= len(x.results) {
			return fmt.Sprintf("unexpected result %d after the %d expected ones (%s): %s", i, len(x.results), x.kind, g.texts[i])
		}
		w := &x.results[i]
		if d := dump(r.Message); d != w.msg {
			return fmt.Sprintf("result %d (%s) has message %s, expected %s", i, x.kind, d, w.msg)
		}
		if (r.Error != nil) != w.err {
			return fmt.Sprintf("result %d (%s): %s, expected %s", i, x.kind, g.texts[i], w)
		}
		if r.Error != nil && w.exact != "" && r.Error.Error() != w.exact {
			return fmt.Sprintf("result %d (%s): %s, expected %s", i, x.kind, g.texts[i], w)
		}
		for _, h := range w.has {
			if !hasNumber(r.Error.Error(), h) {
				return fmt.Sprintf("result %d (%s): the error %q does not tell %s", i, x.kind, r.Error, h)
			}
		}
	}
	if len(g.results) < len(x.results) {
		i := len(g.results)
		return fmt.Sprintf("%d results instead of %d (%s): missing %s", i, len(x.results), x.kind, &x.results[i])
	}
	return ""
}

// hasNumber looks for a number that is not part of a longer one.
func hasNumber(text, num string) bool {
	for i := 0; i+len(num) <= len(text); i++ {
		if text[i:i+len(num)] != num {
			continue
		}
		if i > 0 && (digit(text[i-1]) || text[i-1] == '-') {
			continue
		}
		if e := i + len(num); e < len(text) && digit(text[e]) {
			continue
		}
		return true
	}
	return false
}

var _ = rfc5424.ErrParse
