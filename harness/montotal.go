package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"syscall"
	"time"
	"unsafe"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// newMachine creates the instance of a case by its kind.
func newMachine(kind string, o Opt) syslog.Machine {
	if strings.HasPrefix(kind, "3") {
		return new3164(o)
	}
	return new5424(o)
}

func randOpt5(s *Shard) Opt {
	r := s.rng
	return Opt{Best: r.Intn(2) == 0, Compliant: r.Intn(2) == 0, Parser: r.Intn(3) == 0}
}

func randOptOf(s *Shard, kind string) Opt {
	if kind == "3164" {
		o := randOpt3(s)
		o.Best = s.rng.Intn(2) == 0
		return o
	}
	return randOpt5(s)
}

// ---------------------------------------------------------------- C05: totality

// soundResult judges a result by itself.
func soundResult(m syslog.Message, err error, best bool) string {
	switch v := m.(type) {
	case *rfc5424.SyslogMessage:
		if v == nil {
			return "the message is a typed nil"
		}
	case *rfc3164.SyslogMessage:
		if v == nil {
			return "the message is a typed nil"
		}
	case nil:
	default:
		return fmt.Sprintf("the message is a %T", m)
	}
	if m == nil && err == nil {
		return "neither a message nor an error"
	}
	if !best && m != nil && err != nil {
		return fmt.Sprintf("both a message and an error (%v) without best effort", err)
	}
	if m != nil && !m.Valid() {
		return "the message is not valid: " + dump(m)
	}
	if err != nil && err.Error() == "" {
		return "an error without text"
	}
	return ""
}

func monTotal(c *Case, r *Rec) string {
	p := newMachine(c.K, c.O)
	for _, h := range c.Seq {
		m, err := p.Parse(h)
		r.events++
		if d := soundResult(m, err, c.O.Best); d != "" {
			return fmt.Sprintf("on %s: %s", clip(fmt.Sprintf("%q", h), 300), d)
		}
	}
	m, err := p.Parse(c.In)
	r.events++
	cl := c.K + ":"
	if c.O.Best {
		cl += "best:"
	}
	if m != nil {
		cl += "message"
		r.nontrivial = true
	}
	if err != nil {
		cl += "+error"
		r.nontrivial = true
	}
	if len(c.Seq) > 0 {
		cl += " after others"
	}
	r.class(cl)
	if d := soundResult(m, err, c.O.Best); d != "" {
		return d
	}
	if m != nil {
		// Everything in it can be used
		dump(m)
		for _, f := range []func() *string{m.FacilityMessage, m.FacilityLevel, m.SeverityMessage, m.SeverityLevel, m.SeverityShortLevel} {
			if f() == nil {
				return "a valid message without facility or severity names: " + dump(m)
			}
		}
	}
	return ""
}

// hostile gives big and repetitive inputs.
func hostile(s *Shard, size int) [][]byte {
	r := s.rng
	rep := func(t string) []byte { return bytes.Repeat([]byte(t), size/len(t)+1) }
	var ins [][]byte
	for _, pre := range []string{"", "<", "<1>", "<1>1 ", "<1>1 - ", "<1>1 - - - - - ", "<1>1 - - - - - [", "<1>1 - - - - - [a k=\"", "<1>1 - - - - - [a k=\"x\"", "<1>1 - - - - - - ", "<1>1 - - - - - - \xef\xbb\xbf", "<13>Oct 11 22:14:15 ", "<13>Oct 11 22:14:15 h ", "<13>Oct 11 22:14:15 h a[", "<13>2003-10-11T22:14:15Z h "} {
		for _, t := range []string{"\x00", "1", " ", "a", "\\", "\\\"", "[", "]", "<", "é", "\xff", "[a]", "] ", "[a k=\"v\"]", " k=\"v\"", "]: "} {
			if r.Intn(3) == 0 {
				ins = append(ins, cat(pre, rep(t)))
			}
		}
	}
	var many []byte
	for k := 0; len(many) < size; k++ {
		many = append(many, fmt.Sprintf("[e%d p%d=\"\\\"%d\" q=\"\"]", k, k, k)...)
	}
	ins = append(ins, cat("<1>1 - - - - - ", many), cat("<1>1 - - - - - ", many, " m"), cat("<1>1 - - - - - ", many[:len(many)-3]))
	many = nil
	for k := 0; len(many) < size; k++ {
		many = append(many, fmt.Sprintf(" p%d=\"\\]%d\"", k, k)...)
	}
	return append(ins, cat("<1>1 - - - - - [a", many, "] m"), cat("<1>1 - - - - - [a", many))
}

// ---------------------------------------------------------------- C06: histories

func monHistory(c *Case, r *Rec) string {
	p := newMachine(c.K, c.O)
	reused := make([]byte, 0, 64)
	prev := ""
	for i, in := range c.Seq {
		fresh := newMachine(c.K, c.O)
		fm, fe := fresh.Parse(append([]byte(nil), in...))
		want := dumpRes(fm, fe)
		given := in
		if c.N&1 == 1 {
			reused = append(reused[:0], in...)
			given = reused
		}
		m, err := p.Parse(given)
		r.events += 2
		kind := "ok"
		if err != nil {
			kind = "error"
			if m != nil {
				kind = "partial"
			}
		}
		if prev != "" {
			r.class(c.K + ":" + prev + " > " + kind)
			r.nontrivial = true
		}
		prev = kind
		if ef, ok := p.(interface{ Err() error }); ok {
			r.class(c.K + ":Err consulted")
			if last := ef.Err(); (last == nil) != (err == nil) || last != nil && last.Error() != err.Error() {
				return fmt.Sprintf("Err tells %v after input %d gave %v", last, i, err)
			}
		}
		if got := dumpRes(m, err); got != want {
			return fmt.Sprintf("input %d of the history gives\n   %s\nwhile a new instance gives\n   %s", i, got, want)
		}
		if c.N&2 == 2 {
			m, err := p.Parse(given)
			if got := dumpRes(m, err); got != want {
				return fmt.Sprintf("input %d gives, parsed again,\n   %s\nwhile it gave\n   %s", i, got, want)
			}
		}
		if p.HasBestEffort() != c.O.Best {
			return fmt.Sprintf("best effort mode is %v after input %d", p.HasBestEffort(), i)
		}
	}
	return ""
}

// historyCorpus gives inputs leaving the machines in as many states as possible.
func historyCorpus(kind string, dense bool) [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	step := 4
	if dense {
		step = 1
	}
	var bases []string
	if kind == "5424" {
		bases = []string{
			`<191>100 2000-02-29T23:59:59.999999+23:59 h a p m [a b="\"\\\]" c="d"][x] msg`,
			"<7>10 - host app proc mid [b x=\"y\"] \xef\xbb\xbf\xf0\x9f\x98\x80\xe2\x82\xac",
			`<0>1 - - - - - - `,
		}
		for _, t := range []string{"<1>1 - - - - - -", "<1>1 - - - - - [a]", "<1>1 - - - - - [a][a]", "<1>1 - - - - - [b k=\"\\x\"]", "<1>1 - - - - - [b k=\"v\\", "<1>1 - - - - - [b k=\"v\\\"", "<1>1 2003-02-30T00:00:00Z - - - - -", "<1>1 2003-02-30T00:00:00Z h a p m [q r=\"s\"] t", "<1>999 - h", "<1>9999", "<999>", "<1>0", "<1>1 - - - - - [a k=\"v\"", "<1>1 - - - - - [a k=\"v\" k2=\"\xff\"]", "<2>2 - h2 a2 p2 m2 [z z=\"z\"] z", "<3>3 - h3 - p3 - - m3", "<4>4 - - a4 - m4 - ", "<1>1 - - - - - - \xef\xbb\xbf\xff", "<5>5 2001-01-01T01:01:01Z - - - - -", "<5>5 2001-01-01T01:01:01.123456+11:00 - - - - - m", "x", "", " ", "\x00", "<1>1 - - - - - -\n", "<1>1 - \x01", "<1>1 - - \x01", "<1>1 - - - \x01", "<1>1 - - - - \x01", "<1>1 - - - - - \x01", "<1>1 - - - - - [a \x01", "<1>1 - - - - - [\x01", "<1>1 - - - - - [a k=\"v\"][b \x01"} {
			add([]byte(t))
		}
	} else {
		bases = []string{
			`<191>Feb 29 23:59:59 hh sshd[123]: a [b]: c]`,
			`<34>Oct 11 22:14:15 mymachine su: 'su root'`,
			`<28>2019-12-02T16:49:23+02:00 host app[23410]: T`,
		}
		for _, t := range []string{"<0>Jan  1 00:00:00 h x", "<0>Jan  1 00:00:00 h a[b]c", "<0>Jan  1 00:00:00 h a[b", "<0>Jan  1 00:00:00 h a[b]:", "<0>Jan  1 00:00:00 h a:", "<0>Jan  1 00:00:00 h a: ", "<0>Jan  1 00:00:00 h a[b]: ", "<0>Jan  1 00:00:00 h a[b]: \x01", "<0>Jan  1 00:00:00 h a: \x01", "<0>Jan  1 00:00:00 h a\x01", "<0>Jan  1 00:00:00 h \x01", "<0>Feb 30 00:00:00 h x", "<0>Feb 30 00:00:00 h x: y", "<0>2019-02-30T00:00:00Z h x: y", "<0>Jan  1 00:00:00 ", "<0>Jan  1 00:00:00", "<0>", "<999>", "x", "", "\x00", "<7>Mar  3 03:03:03 h3 t3[p3]: m3", "<7>Mar  3 03:03:03 h3 m3", "<7>Mar  3 03:03:03 - t3: m3", "<7>Mar  3 03:03:03 - [t3]: m3"} {
			add([]byte(t))
		}
	}
	for bi, b := range bases {
		for i := bi % step; i <= len(b); i += step {
			add([]byte(b[:i]))
			add(cat(b[:i], "\x02"))
		}
		add([]byte(b))
	}
	return out
}

// ---------------------------------------------------------------- C07: ownership

const pageSize = 4096

// fence holds bytes next to memory that can not be accessed, in read only pages.
type fence struct {
	mem  []byte
	low  bool // flush to the beginning, otherwise to the end
	data []byte
}

func newFence(in []byte, low bool) *fence {
	n := (len(in) + pageSize - 1) / pageSize * pageSize
	if n == 0 {
		n = pageSize
	}
	mem, err := syscall.Mmap(-1, 0, n+2*pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("mmap: " + err.Error())
	}
	f := &fence{mem: mem, low: low}
	at := pageSize
	if !low {
		at = pageSize + n - len(in)
	}
	copy(mem[at:], in)
	f.data = mem[at : at+len(in) : at+len(in)]
	protect(mem[:pageSize], syscall.PROT_NONE)
	protect(mem[pageSize+n:], syscall.PROT_NONE)
	protect(mem[pageSize:pageSize+n], syscall.PROT_READ)
	return f
}

func protect(b []byte, prot int) {
	if err := syscall.Mprotect(b, prot); err != nil {
		panic("mprotect: " + err.Error())
	}
}

func (f *fence) lock() { protect(f.mem, syscall.PROT_NONE) }
func (f *fence) free() { syscall.Munmap(f.mem) }

type kept struct {
	m   syslog.Message
	e   error
	was string
}

func (k *kept) changed() string {
	if now := dumpRes(k.m, k.e); now != k.was {
		return fmt.Sprintf("changed from\n   %s\nto\n   %s", k.was, now)
	}
	return ""
}

// vandalize changes all it can reach of a message.
func vandalize(m syslog.Message) {
	base := func(b *syslog.Base) {
		for _, s := range []*string{b.Hostname, b.Appname, b.ProcID, b.MsgID, b.Message} {
			if s != nil {
				*s = "VANDALIZED"
			}
		}
		for _, u := range []*uint8{b.Priority, b.Facility, b.Severity} {
			if u != nil {
				*u = 77
			}
		}
		if b.Timestamp != nil {
			*b.Timestamp = time.Unix(12345, 0)
		}
	}
	switch v := m.(type) {
	case *rfc5424.SyslogMessage:
		base(&v.Base)
		if v.StructuredData != nil {
			for id, ps := range *v.StructuredData {
				for k := range ps {
					ps[k] = "VANDALIZED"
				}
				if ps != nil {
					ps["vandal"] = "x"
				}
				_ = id
			}
			(*v.StructuredData)["vandal"] = map[string]string{"x": "y"}
		}
		v.Version = 998
		v.Message, v.Hostname, v.StructuredData = nil, nil, nil
	case *rfc3164.SyslogMessage:
		base(&v.Base)
		v.Message, v.Hostname = nil, nil
	}
}

// monOwn parses c.Seq with one machine from one recycled buffer, keeping all the results.
func monOwn(c *Case, r *Rec) string {
	p := newMachine(c.K, c.O)
	size := 0
	for _, in := range c.Seq {
		size = maxInt(size, len(in))
	}
	const pad = 48
	buf := make([]byte, size+2*pad)
	shadow := make([]byte, len(buf))
	var keep []kept
	for i, in := range c.Seq {
		fm, fe := newMachine(c.K, c.O).Parse(append(make([]byte, 0, len(in)), in...))
		want := dumpRes(fm, fe)
		// What lies around the input would go on with it, or precede it
		for k := range buf {
			buf[k] = `x"]: <1>1 - [a b="c"] \é`[(k+i)%24]
		}
		copy(buf[pad:], in)
		copy(shadow, buf)
		given := buf[pad : pad+len(in)]
		if c.N%2 == 1 {
			given = buf[pad : pad+len(in) : pad+len(in)]
		}
		m, err := p.Parse(given)
		r.events++
		k := kept{m, err, dumpRes(m, err)}
		if k.was != want {
			return fmt.Sprintf("input %d gives, between other bytes,\n   %s\nand alone\n   %s", i, k.was, want)
		}
		if !bytes.Equal(buf, shadow) {
			return fmt.Sprintf("parsing input %d modified the bytes given (or around them): %q, it was %q", i, buf, shadow)
		}
		for q := range buf {
			buf[q] = 'Z'
		}
		if d := k.changed(); d != "" {
			return fmt.Sprintf("result %d %s\nafter overwriting the input", i, d)
		}
		for j := range keep {
			if d := keep[j].changed(); d != "" {
				return fmt.Sprintf("result %d %s\nafter parsing input %d", j, d, i)
			}
		}
		keep = append(keep, k)
		if m != nil {
			r.nontrivial = true
			r.class(c.K + ":retained")
			if err != nil {
				r.class(c.K + ":retained partial")
			}
			if g, _ := m.(*rfc5424.SyslogMessage); g != nil && g.StructuredData != nil {
				r.class(c.K + ":retained structured data")
			}
		}
	}
	for i := range keep {
		if keep[i].m == nil {
			continue
		}
		vandalize(keep[i].m)
		for j := i + 1; j < len(keep); j++ {
			if d := keep[j].changed(); d != "" {
				return fmt.Sprintf("result %d %s\nafter changing message %d", j, d, i)
			}
		}
		if i < 2 {
			for j, in := range c.Seq {
				m, err := p.Parse(append([]byte(nil), in...))
				want := keep[j].was
				if got := dumpRes(m, err); got != want {
					return fmt.Sprintf("input %d gives\n   %s\nafter changing message %d, before\n   %s", j, got, i, want)
				}
			}
		}
	}
	return ""
}

// monOwnLong keeps the results of a long history, and looks at all of them when it is over, and at some as it goes.
func monOwnLong(c *Case, r *Rec) string {
	p := newMachine(c.K, c.O)
	rr := rand.New(rand.NewSource(c.Seed))
	keep := make([]kept, 0, c.N)
	var buf []byte
	for i := 0; i < c.N; i++ {
		buf = append(buf[:0], c.Seq[rr.Intn(len(c.Seq))]...)
		m, err := p.Parse(buf)
		keep = append(keep, kept{m, err, dumpRes(m, err)})
		for q := range buf {
			buf[q] = 'Z'
		}
		r.events++
		for back := 1; back <= i; back *= 2 {
			for _, j := range []int{i - back, i - back + 1, i + 1 - back - back/2} {
				if j < 0 || i%back > 2 {
					continue
				}
				if d := keep[j].changed(); d != "" {
					return fmt.Sprintf("result %d %s\nafter parsing input %d", j, d, i)
				}
			}
		}
	}
	for j := range keep {
		if d := keep[j].changed(); d != "" {
			return fmt.Sprintf("result %d %s\nafter parsing input %d", j, d, c.N-1)
		}
	}
	for j := range keep {
		if rr.Intn(2) == 0 {
			if keep[j].m != nil {
				vandalize(keep[j].m)
				r.nontrivial = true
			}
			keep[j].was = ""
		}
	}
	for j := range keep {
		if keep[j].was != "" {
			if d := keep[j].changed(); d != "" {
				return fmt.Sprintf("result %d %s\nafter changing other ones", j, d)
			}
		}
	}
	r.class(c.K + ":long history retained")
	return ""
}

// monFence parses an input in read only memory fenced by pages that can not be accessed, then takes the input away.
func monFence(c *Case, r *Rec) string {
	fm, fe := newMachine(c.K, c.O).Parse(append([]byte(nil), c.In...))
	want := dumpRes(fm, fe)
	for _, low := range []bool{false, true} {
		f := newFence(c.In, low)
		given := f.data
		if len(given) == 0 {
			given = unsafe.Slice((*byte)(unsafe.Pointer(&f.mem[pageSize])), 0)
		}
		p := newMachine(c.K, c.O)
		m, err := p.Parse(given)
		m2, err2 := p.Parse(given)
		f.lock()
		r.events += 2
		got, got2 := dumpRes(m, err), dumpRes(m2, err2)
		f.free()
		if got != want || got2 != want {
			return fmt.Sprintf("gives\n   %s\nthen\n   %s\nin fenced memory, and normally\n   %s", got, got2, want)
		}
	}
	r.class(c.K + ":fenced")
	if fm != nil {
		r.class(c.K + ":fenced message")
		r.nontrivial = true
	}
	return ""
}

// monOwnStream keeps the results of several streams on one parser.
func monOwnStream(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	var results []*syslog.Result
	var keep []kept
	when := ""
	bad := ""
	all := false
	check := func() {
		look := func(j int) {
			if bad != "" || j < 0 {
				return
			}
			if d := keep[j].changed(); d != "" {
				bad = fmt.Sprintf("result %d %s\n%s", j, d, when)
			} else if results[j].Message != keep[j].m || results[j].Error != keep[j].e {
				bad = fmt.Sprintf("result %d was turned into %s\n%s", j, dumpRes(results[j].Message, results[j].Error), when)
			}
		}
		if n := len(keep); n < 200 || n%16384 == 0 || all {
			for j := range keep {
				look(j)
			}
		} else {
			// The last ones, and some at the distances at which something might be used again
			look(n - 1)
			look(n - 2)
			for back := 4; back <= n; back *= 2 {
				if n%back < 3 {
					look(n - back)
					look(n - back - 1)
				}
			}
		}
	}
	p := newStream(kind, c.O, func(res *syslog.Result) {
		check()
		results = append(results, res)
		keep = append(keep, kept{res.Message, res.Error, dumpRes(res.Message, res.Error)})
		when = fmt.Sprintf("after result %d", len(keep)-1)
		if res.Message != nil {
			r.class(kind + ":retained")
			r.nontrivial = true
		}
	})
	for i, in := range c.Seq {
		var spec *ReaderSpec
		if i < len(c.Rs) {
			spec = &c.Rs[i]
		}
		own := append([]byte(nil), in...)
		p.Parse(newReader(own, spec))
		for q := range own {
			own[q] = 'Z'
		}
		when = fmt.Sprintf("after stream %d", i)
		all = true
		check()
		all = false
	}
	r.events += int64(len(keep))
	if bad != "" {
		return bad
	}
	for i := range keep {
		if keep[i].m == nil {
			continue
		}
		vandalize(keep[i].m)
		for j := i + 1; j < len(keep) && (len(keep) < 200 || j < i+4 || i%16384 == 0); j++ {
			if d := keep[j].changed(); d != "" {
				return fmt.Sprintf("result %d %s\nafter changing the message of result %d", j, d, i)
			}
		}
	}
	// The parser must still be good
	if len(c.Seq) > 0 {
		in := c.Seq[0]
		n := len(results)
		keep, results = nil, nil
		p.Parse(newReader(in, nil))
		x := expected(kind, in, c.O, nil)
		g := &got{}
		for _, res := range results {
			g.add(res, 0)
		}
		if d := compareStream(g, &x); d != "" {
			return fmt.Sprintf("after changing the %d messages: %s", n, d)
		}
	}
	return ""
}

func init() {
	monitors["total"] = monTotal
	monitors["history"] = monHistory
	monitors["own"] = monOwn
	monitors["ownlong"] = monOwnLong
	monitors["fence"] = monFence
	monitors["ownstream"] = monOwnStream
	checks["C05"] = check{
		rule: "the inputs of C01 and C10 (each also given to the other format), random bytes and big repetitive inputs, on new machines and on machines that parsed other inputs, under random option combinations; a case which panics or does not end is a violation; distinct = distinct (input, history, options), non-trivial = a message or an error came back",
		run: func(x *Ctx) {
			x.require = []string{"5424:message", "5424:+error", "5424:best:message", "5424:best:message+error", "5424:best:+error", "3164:message", "3164:best:message+error", "3164:+error after others", "5424:best:message+error after others"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				var ring [8][]byte
				k := 0
				feed := func(kind string) func(section string, in []byte) bool {
					return func(section string, in []byte) bool {
						k++
						c := &Case{M: "total", K: kind, In: in, O: randOptOf(s, kind)}
						if k%3 == 0 {
							for q := 1 + r.Intn(2); q > 0; q-- {
								c.Seq = append(c.Seq, ring[r.Intn(8)])
							}
						}
						ring[r.Intn(8)] = in
						if !s.Eval(c) {
							return false
						}
						if k%8 == 0 {
							other := map[string]string{"5424": "3164", "3164": "5424"}[kind]
							return s.Eval(&Case{M: "total", K: other, In: in, O: randOptOf(s, other)})
						}
						return true
					}
				}
				work5424(s, i, n, feed("5424"))
				work3164(s, i, n, feed("3164"))
				for _, kind := range []string{"5424", "3164"} {
					for c := 0; c < x.scale(3000, 100000); c++ {
						g := make([]byte, r.Intn(300))
						r.Read(g)
						if c%2 == 0 {
							copy(g, "<1>1 - ")
						}
						if !s.Eval(&Case{M: "total", K: kind, In: g, O: randOptOf(s, kind)}) {
							return
						}
					}
					for _, in := range hostile(s, x.scale(2000, 30000)*(1+i%3*4)) {
						if !s.Eval(&Case{M: "total", K: kind, In: in, O: randOptOf(s, kind)}) {
							return
						}
					}
				}
			})
		},
	}
	checks["C06"] = check{
		rule: "all the ordered pairs of a corpus of inputs (truncations and corruptions at every part of rich messages, each kind of error), and random histories of up to 40 inputs, histories of inputs which resemble one another, long ones of thousands of inputs (up to 70000), on one instance, from one recycled buffer or not; every result is compared with that of a new instance; thousands of histories run in four different orders by new processes, which must all observe the same; distinct = distinct (history, options)",
		run: func(x *Ctx) {
			for _, k := range []string{"5424", "3164"} {
				for _, a := range []string{"ok", "error", "partial"} {
					for _, b := range []string{"ok", "error", "partial"} {
						if (a == "partial") == (b == "partial") || a != "partial" && b != "partial" {
							x.require = append(x.require, k+":"+a+" > "+b)
						}
					}
				}
			}
			ordersOf(x, x.scale(6000, 30000), "kin5", "kin3", "parse5", "parse3", "parser5", "parser3", "bigparse")
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				for _, kind := range []string{"5424", "3164"} {
					corpus := historyCorpus(kind, x.thorough())
					for _, best := range []bool{false, true} {
						for _, a := range corpus {
							for _, b := range corpus {
								k++
								if k%n != i {
									continue
								}
								o := randOptOf(s, kind)
								o.Best = best
								seq := [][]byte{a, b}
								if k%5 == 0 {
									seq = append(seq, corpus[r.Intn(len(corpus))], corpus[r.Intn(len(corpus))])
								}
								if !s.Eval(&Case{M: "history", K: kind, Seq: seq, O: o, N: r.Intn(4)}) {
									return
								}
							}
						}
					}
					// Inputs which look like the previous ones
					for bi, base := range kinBases(kind) {
						for at := range base {
							if (at+bi)%n != i {
								continue
							}
							for v := 0; v < x.scale(4, 40); v++ {
								o := randOptOf(s, kind)
								o.Best = v%2 == 0
								a := kinAt(r, []byte(base), at)
								b := kinAt(r, a, at)
								if !s.Eval(&Case{M: "history", K: kind, Seq: [][]byte{[]byte(base), a, b, []byte(base), kinAt(r, a, r.Intn(len(a))), a}, O: o, N: r.Intn(4)}) {
									return
								}
							}
						}
					}
					// Long histories of different but similar inputs
					for q := 0; q < x.scale(2, 10); q++ {
						bases := kinBases(kind)
						in := []byte(bases[r.Intn(len(bases))])
						var seq [][]byte
						m := x.scale(4000, 40000)
						if i < 2 && q == 0 {
							m = 70000 // more than 16 bits can count
						}
						for ; m > 0; m-- {
							switch r.Intn(12) {
							case 0:
								in = []byte(bases[r.Intn(len(bases))])
							case 1:
								if len(seq) > 0 {
									in = seq[r.Intn(len(seq))]
								}
							default:
								in = kin(r, in)
							}
							if len(in) > 300 {
								in = []byte(bases[0])
							}
							seq = append(seq, in)
						}
						if !s.Eval(&Case{M: "history", K: kind, Seq: seq, O: randOptOf(s, kind), N: r.Intn(2)}) {
							return
						}
					}
					for c := 0; c < x.scale(2500, 50000); c++ {
						var seq [][]byte
						m := 2 + r.Intn(6)
						if c%20 == 0 {
							m = 40
						}
						for ; m > 0; m-- {
							switch r.Intn(4) {
							case 0:
								seq = append(seq, corpus[r.Intn(len(corpus))])
							case 1:
								if len(seq) > 0 {
									seq = append(seq, seq[r.Intn(len(seq))])
								}
							default:
								seq = append(seq, anyInput(s, kind))
							}
						}
						if !s.Eval(&Case{M: "history", K: kind, Seq: seq, O: randOptOf(s, kind), N: r.Intn(4)}) {
							return
						}
					}
				}
			})
		},
	}
	checks["C07"] = check{
		rule: "histories of inputs parsed from one recycled buffer amid hostile bytes (with and without spare capacity), every result kept and compared with its first dump after each step, messages vandalized one after the other, histories of up to 70000 results kept; inputs in read-only pages fenced by inaccessible ones, made inaccessible before the results are read; the same for the results of stream parsers, and for inputs beyond the sizes of buffers; distinct = distinct (history, options), non-trivial = at least a message was retained",
		run: func(x *Ctx) {
			x.require = []string{"5424:retained", "5424:retained partial", "5424:retained structured data", "3164:retained", "3164:retained partial", "5424:fenced message", "3164:fenced message", "oct:retained", "nt:retained"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				for _, kind := range []string{"5424", "3164"} {
					corpus := historyCorpus(kind, true)
					for c := 0; c < x.scale(6000, 100000); c++ {
						var seq [][]byte
						for m := 1 + r.Intn(6); m > 0; m-- {
							switch r.Intn(4) {
							case 0:
								seq = append(seq, corpus[r.Intn(len(corpus))])
							default:
								seq = append(seq, anyInput(s, kind))
							}
						}
						if !s.Eval(&Case{M: "own", K: kind, Seq: seq, O: randOptOf(s, kind), N: r.Intn(2)}) {
							return
						}
					}
					for v := 0; v < x.scale(1, 8); v++ {
						cs := &Case{M: "ownlong", K: kind, O: randOptOf(s, kind), N: x.scale(3000, 10000), Seed: r.Int63()}
						if i == 0 && v == 0 {
							cs.N = 70000
						}
						for len(cs.Seq) < 30 {
							if in := anyInput(s, kind); len(in) < 300 {
								cs.Seq = append(cs.Seq, in)
							}
						}
						if !s.Eval(cs) {
							return
						}
					}
					k := 0
					for _, in := range corpus {
						for v := 0; v < 4; v++ {
							if k++; k%n != i {
								continue
							}
							o := randOptOf(s, kind)
							o.Best = v%2 == 0
							if !s.Eval(&Case{M: "fence", K: kind, In: in, O: o}) {
								return
							}
						}
					}
					for c := 0; c < x.scale(2500, 30000); c++ {
						if !s.Eval(&Case{M: "fence", K: kind, In: anyInput(s, kind), O: randOptOf(s, kind)}) {
							return
						}
					}
					// Big inputs: what is captured may be handled otherwise from some size on
					for q, size := range bigSizes {
						if q%n != i && (!x.thorough() || size > 70000) {
							continue
						}
						for v, in := range bigOf(r, kind, size) {
							o := randOptOf(s, kind)
							o.Best = v%3 > 0
							if !s.Eval(&Case{M: "own", K: kind, Seq: [][]byte{in, anyInput(s, kind)}, O: o, N: r.Intn(2)}) || !s.Eval(&Case{M: "fence", K: kind, In: in, O: o}) {
								return
							}
						}
					}
				}
				for _, kind := range []string{"oct", "nt"} {
					o := Opt{Best: i%2 == 0, NUL: kind == "nt" && i%4 > 1}
					frames := x.scale(1000, 3000)
					if i == 1 {
						frames = 70000
					}
					if !s.Eval(&Case{M: "ownstream", K: kind, O: o, N: 1, Seq: [][]byte{longStream(r, kind, o, frames), longStream(r, kind, o, 50)}}) {
						return
					}
				}
				for c := 0; c < x.scale(2500, 40000); c++ {
					o := randStreamOpt(s)
					kind := "oct"
					if c%2 == 0 {
						kind = "nt"
						o.NUL = r.Intn(2) == 0
					}
					cs := &Case{M: "ownstream", K: kind, O: o}
					for q := 1 + r.Intn(4); q > 0; q-- {
						in, spec := reuseStream(s, kind, o)
						if c%50 == 0 {
							t := byte('\n')
							if o.NUL {
								t = 0
							}
							if kind == "nt" {
								in = cat(largeFrame(r, 4000+r.Intn(9000)), t, largeFrame(r, 4000+r.Intn(200)), t, in)
							} else {
								cs.O.Max = intp(100000 + r.Intn(100000))
								in = cat(octetFrame(largeFrame(r, 5000+r.Intn(90000))), octetFrame(largeFrame(r, 8000+r.Intn(300))), in)
							}
						} else if c%200 == 1 {
							// As many frames as it takes to reuse every internal buffer
							size := bigSizes[r.Intn(len(bigSizes))]
							cs.O.Max = intp(300000)
							for k := 0; k < 3; k++ {
								f := largeFrame(r, size+r.Intn(3)-1)
								if kind == "oct" {
									in = cat(octetFrame(f), octetFrame(largeFrame(r, 50+r.Intn(9000))), in)
								} else if o.NUL {
									in = cat(f, byte(0), in)
								} else {
									in = cat(f, byte('\n'), in)
								}
							}
						}
						cs.Seq = append(cs.Seq, in)
						cs.Rs = append(cs.Rs, spec)
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
}

// bigOf gives big inputs of a format.
func bigOf(r *rand.Rand, kind string, size int) [][]byte {
	if kind == "5424" {
		return big5424(r, size)
	}
	return big3164(r, size)
}

// anyInput is a random input of a format, whole or broken.
func anyInput(s *Shard, kind string) []byte {
	r := s.rng
	var v []byte
	if kind == "5424" {
		v = valid5424(r)
	} else {
		v = valid3164(r, r.Intn(3) == 0)
	}
	if len(v) > 600 && r.Intn(5) > 0 {
		v = v[:r.Intn(600)]
	}
	switch r.Intn(4) {
	case 0:
		if kind == "5424" {
			return mutate(r, v, tokens5424)
		}
		return mutate(r, v, tokens3164)
	case 1:
		return v[:r.Intn(len(v)+1)]
	}
	return v
}
