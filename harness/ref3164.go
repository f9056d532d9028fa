package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/influxdata/go-syslog/v3/rfc3164"
)

// Reference model of RFC 3164 parsing, in the same style as that of RFC 5424.

// stamp3 is a timestamp by its digits.
type stamp3 struct {
	rfc3339 bool
	t       ts // the year is meaningful for RFC 3339 only
}

type out3 struct {
	pri                   int
	st                    *stamp3
	host, tag, proc, text *string
}

type res3 struct {
	good  bool
	col   int
	stage string // where it failed
	date  bool   // failed because of an impossible date
	pri   bool   // the whole PRI was read
	// Where the failure lies
	stamped bool // past a whole timestamp
	bracket bool // within the bracket after a tag
	msgat   int  // the offset of MSG
	out     out3
}

var months3 = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

func visible3(b byte) bool { return b >= 0x20 && b != 0x7f }

func tagchar3(b byte) bool { return graph(b) && b != ':' && b != '[' }

func ref3164(in []byte, with3339 bool) res3 {
	p := &p5{in: in}
	r := res3{}
	fail := func(stage string) res3 {
		r.stage = stage
		r.col = p.i
		return r
	}
	if !p.pri() {
		return fail("pri")
	}
	r.pri = true
	r.out.pri = p.res.out.pri
	st := stamp3{}
	if with3339 && p.is(digit) {
		t, ok := p.rfc3339(0)
		if !ok {
			return fail("timestamp")
		}
		st.rfc3339 = true
		st.t = t
		if !p.at(' ') {
			r.stamped = true
			return fail("timestamp")
		}
		if t.d > daysIn(t.y, t.mo) {
			r.date = true
			return fail("date")
		}
	} else {
		t, ok := p.stamp()
		if !ok {
			return fail("timestamp")
		}
		st.t = t
		if !p.at(' ') {
			r.stamped = true
			return fail("timestamp")
		}
		if t.d > daysIn(0, t.mo) {
			r.date = true
			return fail("date")
		}
	}
	r.out.st = &st
	p.i++
	start := p.i
	for p.i-start < 255 && p.is(graph) {
		p.i++
	}
	if p.i == start || !p.at(' ') {
		return fail("hostname")
	}
	opt := func(b []byte) *string {
		s := string(b)
		if s == "" || s == "-" {
			return nil
		}
		return &s
	}
	r.out.host = opt(in[start:p.i])
	p.i++

	// The whole of MSG must be visible
	r.msgat = p.i
	msg := in[p.i:]
	bad := -1
	for i, b := range msg {
		if !visible3(b) {
			bad = i
			break
		}
	}
	body := msg
	if bad >= 0 {
		body = msg[:bad]
	}
	n := 0
	for n < len(body) && n < 32 && tagchar3(body[n]) {
		n++
	}
	after := 0
	if n > 0 && n < len(body) && (body[n] == ':' || body[n] == '[') {
		r.out.tag = opt(body[:n])
		end := n
		if body[n] == '[' {
			end = -1
			r.bracket = true
			for k := n + 1; k < len(body); k++ {
				if body[k] == ']' {
					r.out.proc = opt(body[n+1 : k])
					end = k + 1
					r.bracket = false
					break
				}
			}
		}
		if end > 0 && end+2 < len(body) && body[end] == ':' && body[end+1] == ' ' {
			after = end + 2
		}
	}
	if bad >= 0 || len(msg) == 0 {
		p.i += len(body)
		return fail("msg")
	}
	s := string(msg[after:])
	r.out.text = &s
	r.good = true
	return r
}

func (p *p5) stamp() (t ts, good bool) {
	// Month
	start := p.i
	matches := func() (int, bool) {
		pre := string(p.in[start:p.i])
		for i, m := range months3 {
			if len(m) >= len(pre) && m[:len(pre)] == pre {
				return i + 1, true
			}
		}
		return 0, false
	}
	for k := 0; k < 3; k++ {
		if p.eof() {
			return t, false
		}
		p.i++
		m, ok := matches()
		if !ok {
			p.i--
			return t, false
		}
		t.mo = m
	}
	if !p.lit(' ') {
		return t, false
	}
	// Day, padded
	switch {
	case p.at(' '):
		p.i++
		if !p.is(func(b byte) bool { return b >= '1' && b <= '9' }) {
			return t, false
		}
		t.d = int(p.in[p.i] - '0')
		p.i++
	default:
		var ok bool
		if t.d, ok = p.num(2, upTo(10, 31)); !ok {
			return t, false
		}
	}
	var ok bool
	if !p.lit(' ') {
		return t, false
	}
	if t.h, ok = p.num(2, hour2); !ok || !p.lit(':') {
		return t, false
	}
	if t.mi, ok = p.num(2, sixty2); !ok || !p.lit(':') {
		return t, false
	}
	if t.s, ok = p.num(2, sixty2); !ok {
		return t, false
	}
	return t, true
}

const currentYear = -999999

// time gives the instant the options ask for.
func (s *stamp3) time(o Opt, year int) time.Time {
	if s.rfc3339 {
		return s.t.time()
	}
	loc := time.UTC
	if o.Locale != "" {
		loc = zone(o.Locale)
	}
	t := time.Date(year, time.Month(s.t.mo), s.t.d, s.t.h, s.t.mi, s.t.s, 0, loc)
	if o.TZ != "" {
		t = t.In(zone(o.TZ))
	}
	return t
}

var zoneCache sync.Map

func zone(name string) *time.Location {
	if l, ok := zoneCache.Load(name); ok {
		return l.(*time.Location)
	}
	var l *time.Location
	if strings.HasPrefix(name, "fixed") {
		s, err := strconv.Atoi(name[5:])
		if err != nil {
			panic(err)
		}
		l = time.FixedZone("X", s)
	} else if name == "Local" {
		l = time.Local
	} else {
		var err error
		if l, err = time.LoadLocation(name); err != nil {
			panic(err)
		}
	}
	zoneCache.Store(name, l)
	return l
}

// compare3 tells how a message differs from the expected one; timestamps are left to the caller.
func compare3(m *rfc3164.SyslogMessage, w *out3) string {
	switch {
	case m.Priority == nil || int(*m.Priority) != w.pri:
		return fmt.Sprintf("priority %v, expected %d", u8(m.Priority), w.pri)
	case m.Facility == nil || int(*m.Facility) != w.pri/8:
		return fmt.Sprintf("facility %v, expected %d", u8(m.Facility), w.pri/8)
	case m.Severity == nil || int(*m.Severity) != w.pri%8:
		return fmt.Sprintf("severity %v, expected %d", u8(m.Severity), w.pri%8)
	case (m.Timestamp == nil) != (w.st == nil):
		return fmt.Sprintf("timestamp %v, expected one: %v", m.Timestamp, w.st != nil)
	case !sameStr(m.Hostname, w.host):
		return fmt.Sprintf("hostname %s, expected %s", strp(m.Hostname), strp(w.host))
	case !sameStr(m.Appname, w.tag):
		return fmt.Sprintf("app-name %s, expected %s", strp(m.Appname), strp(w.tag))
	case !sameStr(m.ProcID, w.proc):
		return fmt.Sprintf("procid %s, expected %s", strp(m.ProcID), strp(w.proc))
	case m.MsgID != nil:
		return fmt.Sprintf("msgid %s", strp(m.MsgID))
	case !sameStr(m.Message, w.text):
		return fmt.Sprintf("message %s, expected %s", strp(m.Message), strp(w.text))
	}
	return ""
}
