package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Reference model of RFC 5424 parsing, written from the RFC and from the documentation of the
// library as a recursive descent recogniser with explicit positions.

// ts is a timestamp by its digits.
type ts struct {
	y, mo, d, h, mi, s, ns int
	off                    int // seconds east of UTC
}

func (t ts) time() time.Time {
	return time.Date(t.y, time.Month(t.mo), t.d, t.h, t.mi, t.s, t.ns, time.FixedZone("", t.off))
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	}
	return 31
}

// out5 is the expected content of a message.
type out5 struct {
	pri, ver             int
	ts                   *ts
	host, app, proc, mid *string
	sd                   map[string]map[string]string
	msg                  *string
}

// res5 is the expected outcome of parsing.
type res5 struct {
	kind    string // "" when accepted, otherwise the error description
	alt     string // other acceptable description (right after a complete part)
	date    bool   // the error is that of an impossible date
	col     int
	minimal bool // a partial message exists
	out     out5
}

func (r *res5) ok() bool { return r.kind == "" }

type p5 struct {
	in  []byte
	i   int
	res res5
}

func graph(b byte) bool { return b >= 33 && b <= 126 }

func digit(b byte) bool { return b >= '0' && b <= '9' }

func sdchar(b byte) bool { return graph(b) && b != '=' && b != ']' && b != '"' }

func (p *p5) eof() bool { return p.i >= len(p.in) }

// is tells whether there is a byte and it satisfies f.
func (p *p5) is(f func(byte) bool) bool { return !p.eof() && f(p.in[p.i]) }

func (p *p5) at(b byte) bool { return !p.eof() && p.in[p.i] == b }

func (p *p5) fail(kind string) bool {
	p.res.kind = kind
	p.res.col = p.i
	return false
}

func ref5424(in []byte, compliant bool) res5 {
	p := &p5{in: in}
	if p.message(compliant) {
		p.res.kind = ""
	}
	return p.res
}

func (p *p5) message(compliant bool) bool {
	if !p.pri() || !p.version() {
		return false
	}
	if !p.timestamp() {
		return false
	}
	for _, f := range []struct {
		max  int
		kind string
		to   **string
	}{
		{255, rfc5424.ErrHostname, &p.res.out.host},
		{48, rfc5424.ErrAppname, &p.res.out.app},
		{128, rfc5424.ErrProcID, &p.res.out.proc},
		{32, rfc5424.ErrMsgID, &p.res.out.mid},
	} {
		if !p.field(f.max, f.kind, f.to) {
			return false
		}
	}
	if !p.structured() {
		return false
	}
	if p.eof() {
		return true
	}
	if !p.at(' ') {
		return p.fail(rfc5424.ErrParse)
	}
	p.i++
	rest := p.in[p.i:]
	if compliant && strings.HasPrefix(string(rest), "\xef\xbb\xbf") {
		n := utf8Prefix(rest)
		if n < len(rest) || !utf8Complete(rest) {
			keep := string(rest[:n])
			p.res.out.msg = &keep
			p.i += n
			return p.fail(rfc5424.ErrMsgNotCompliant)
		}
	}
	if len(rest) > 0 {
		s := string(rest)
		p.res.out.msg = &s
	}
	return true
}

func (p *p5) pri() bool {
	if !p.at('<') {
		return p.fail(rfc5424.ErrPri)
	}
	p.i++
	v := 0
	if !p.is(digit) {
		return p.fail(rfc5424.ErrPrival)
	}
	if p.at('0') {
		p.i++
	} else {
		for n := 0; n < 3 && p.is(digit); n++ {
			nv := v*10 + int(p.in[p.i]-'0')
			if nv > 191 {
				break
			}
			v = nv
			p.i++
		}
	}
	if !p.at('>') {
		return p.fail(rfc5424.ErrPrival)
	}
	p.i++
	p.res.out.pri = v
	return true
}

func (p *p5) version() bool {
	if !p.is(func(b byte) bool { return b >= '1' && b <= '9' }) {
		return p.fail(rfc5424.ErrVersion)
	}
	v := 0
	for n := 0; n < 3 && p.is(digit); n++ {
		v = v*10 + int(p.in[p.i]-'0')
		p.i++
	}
	p.res.minimal = true
	p.res.out.ver = v
	if !p.at(' ') {
		p.res.alt = rfc5424.ErrVersion
		return p.fail(rfc5424.ErrParse)
	}
	p.i++
	return true
}

// digits reads exactly the digits of a number within bounds, byte by byte.
func (p *p5) num(n int, ok func(prefix string) bool) (int, bool) {
	v := 0
	start := p.i
	for k := 0; k < n; k++ {
		if !p.is(digit) || !ok(string(p.in[start:p.i+1])) {
			return 0, false
		}
		v = v*10 + int(p.in[p.i]-'0')
		p.i++
	}
	return v, true
}

// upTo accepts the prefixes of two digit numbers between lo and hi.
func upTo(lo, hi int) func(string) bool {
	return func(pre string) bool {
		for v := lo; v <= hi; v++ {
			if strings.HasPrefix(fmt.Sprintf("%02d", v), pre) {
				return true
			}
		}
		return false
	}
}

func anyNum(string) bool { return true }

var month2, day2, hour2, sixty2 = upTo(1, 12), upTo(1, 31), upTo(0, 23), upTo(0, 59)

func (p *p5) lit(b byte) bool {
	if !p.at(b) {
		return false
	}
	p.i++
	return true
}

// rfc3339 reads a timestamp with at most maxfrac fractional digits.
func (p *p5) rfc3339(maxfrac int) (t ts, good bool) {
	var ok bool
	if t.y, ok = p.num(4, anyNum); !ok || !p.lit('-') {
		return t, false
	}
	if t.mo, ok = p.num(2, month2); !ok || !p.lit('-') {
		return t, false
	}
	if t.d, ok = p.num(2, day2); !ok || !p.lit('T') {
		return t, false
	}
	if t.h, ok = p.num(2, hour2); !ok || !p.lit(':') {
		return t, false
	}
	if t.mi, ok = p.num(2, sixty2); !ok || !p.lit(':') {
		return t, false
	}
	if t.s, ok = p.num(2, sixty2); !ok {
		return t, false
	}
	if maxfrac > 0 && p.at('.') {
		p.i++
		n := 0
		unit := 100000000
		for ; n < maxfrac && p.is(digit); n++ {
			t.ns += int(p.in[p.i]-'0') * unit
			unit /= 10
			p.i++
		}
		if n == 0 {
			return t, false
		}
	}
	if p.at('Z') {
		p.i++
		return t, true
	}
	sign := 1
	if p.at('-') {
		sign = -1
	} else if !p.at('+') {
		return t, false
	}
	p.i++
	var oh, om int
	if oh, ok = p.num(2, hour2); !ok || !p.lit(':') {
		return t, false
	}
	if om, ok = p.num(2, sixty2); !ok {
		return t, false
	}
	t.off = sign * (oh*3600 + om*60)
	return t, true
}

func (p *p5) timestamp() bool {
	if p.at('-') {
		p.i++
	} else {
		t, ok := p.rfc3339(6)
		if !ok {
			return p.fail(rfc5424.ErrTimestamp)
		}
		if t.d > daysIn(t.y, t.mo) {
			p.res.date = true
			return p.fail("date")
		}
		// Complete, whatever follows
		p.res.out.ts = &t
	}
	if !p.at(' ') {
		return p.fail(rfc5424.ErrParse)
	}
	p.i++
	return true
}

func (p *p5) field(max int, kind string, to **string) bool {
	start := p.i
	for p.i-start < max && p.is(graph) {
		p.i++
	}
	if p.i == start || !p.at(' ') {
		return p.fail(kind)
	}
	if s := string(p.in[start:p.i]); s != "-" {
		*to = &s
	}
	p.i++
	return true
}

func (p *p5) name() string {
	start := p.i
	for p.i-start < 32 && p.is(sdchar) {
		p.i++
	}
	return string(p.in[start:p.i])
}

func (p *p5) structured() bool {
	if p.at('-') {
		p.i++
		if !p.eof() && !p.at(' ') {
			p.res.alt = rfc5424.ErrStructuredData
			return p.fail(rfc5424.ErrParse)
		}
		return true
	}
	if !p.at('[') {
		return p.fail(rfc5424.ErrStructuredData)
	}
	for p.at('[') {
		p.i++
		id := p.name()
		if id == "" {
			return p.fail(rfc5424.ErrSdID)
		}
		if _, dup := p.res.out.sd[id]; dup {
			return p.fail(rfc5424.ErrSdIDDuplicated)
		}
		if !p.at(' ') && !p.at(']') {
			return p.fail(rfc5424.ErrSdID)
		}
		if p.res.out.sd == nil {
			p.res.out.sd = map[string]map[string]string{}
		}
		params := map[string]string{}
		p.res.out.sd[id] = params
		for p.at(' ') {
			p.i++
			name := p.name()
			if name == "" || !p.lit('=') || !p.lit('"') {
				return p.fail(rfc5424.ErrSdParam)
			}
			val, ok := p.value()
			if !ok {
				return false
			}
			if !p.at(' ') && !p.at(']') {
				return p.fail(rfc5424.ErrSdParam)
			}
			params[name] = val
		}
		if !p.lit(']') {
			return p.fail(rfc5424.ErrSdParam)
		}
	}
	if !p.eof() && !p.at(' ') {
		p.res.alt = rfc5424.ErrParse
		return p.fail(rfc5424.ErrStructuredData)
	}
	return true
}

// value reads a parameter value up to the closing quote (included).
func (p *p5) value() (string, bool) {
	val := []byte{}
	for {
		if p.eof() {
			return "", p.fail(rfc5424.ErrEscape)
		}
		b := p.in[p.i]
		switch {
		case b == '"':
			p.i++
			return string(val), true
		case b == ']':
			return "", p.fail(rfc5424.ErrEscape)
		case b == '\\':
			p.i++
			if !p.at('"') && !p.at('\\') && !p.at(']') {
				return "", p.fail(rfc5424.ErrEscape)
			}
			val = append(val, p.in[p.i])
			p.i++
		default:
			n, state := utf8Char(p.in[p.i:])
			if state != uOK {
				if n == 0 {
					return "", p.fail(rfc5424.ErrEscape)
				}
				// Within a multi-byte character
				p.i += n
				return "", p.fail(rfc5424.ErrSdParam)
			}
			val = append(val, p.in[p.i:p.i+n]...)
			p.i += n
		}
	}
}

const (
	uOK = iota
	uBad
	uShort
)

// utf8Char reads one UTF-8 character as per RFC 3629 and returns how many of its bytes are good.
func utf8Char(b []byte) (int, int) {
	if len(b) == 0 {
		return 0, uShort
	}
	c := b[0]
	lo, hi := byte(0x80), byte(0xBF)
	n := 0
	switch {
	case c < 0x80:
		return 1, uOK
	case c >= 0xC2 && c <= 0xDF:
		n = 1
	case c >= 0xE0 && c <= 0xEF:
		n = 2
		if c == 0xE0 {
			lo = 0xA0
		}
		if c == 0xED {
			hi = 0x9F
		}
	case c >= 0xF0 && c <= 0xF4:
		n = 3
		if c == 0xF0 {
			lo = 0x90
		}
		if c == 0xF4 {
			hi = 0x8F
		}
	default:
		return 0, uBad
	}
	for k := 1; k <= n; k++ {
		if k >= len(b) {
			return k, uShort
		}
		if b[k] < lo || b[k] > hi {
			return k, uBad
		}
		lo, hi = 0x80, 0xBF
	}
	return n + 1, uOK
}

// utf8Prefix is the length of the longest prefix that can be continued into UTF-8.
func utf8Prefix(b []byte) int {
	i := 0
	for i < len(b) {
		n, st := utf8Char(b[i:])
		i += n
		if st != uOK {
			return i
		}
	}
	return i
}

func utf8Complete(b []byte) bool {
	for i := 0; i < len(b); {
		n, st := utf8Char(b[i:])
		if st != uOK {
			return false
		}
		i += n
	}
	return true
}

func strp(p *string) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("%q", *p)
}

func sameStr(a, b *string) bool {
	return (a == nil) == (b == nil) && (a == nil || *a == *b)
}

func sameSD(got *map[string]map[string]string, want map[string]map[string]string) bool {
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	if len(*got) != len(want) {
		return false
	}
	for id, ps := range want {
		g, ok := (*got)[id]
		if !ok || g == nil || len(g) != len(ps) {
			return false
		}
		for k, v := range ps {
			if gv, ok := g[k]; !ok || gv != v {
				return false
			}
		}
	}
	return true
}

func sameTS(got *time.Time, want *ts) bool {
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	_, off := got.Zone()
	return got.Equal(want.time()) && off == want.off
}

// compare5 tells how a message differs from the expected one ("" if it does not).
func compare5(m *rfc5424.SyslogMessage, w *out5) string {
	switch {
	case m.Priority == nil || int(*m.Priority) != w.pri:
		return fmt.Sprintf("priority %v, expected %d", u8(m.Priority), w.pri)
	case m.Facility == nil || int(*m.Facility) != w.pri/8:
		return fmt.Sprintf("facility %v, expected %d", u8(m.Facility), w.pri/8)
	case m.Severity == nil || int(*m.Severity) != w.pri%8:
		return fmt.Sprintf("severity %v, expected %d", u8(m.Severity), w.pri%8)
	case int(m.Version) != w.ver:
		return fmt.Sprintf("version %d, expected %d", m.Version, w.ver)
	case !sameTS(m.Timestamp, w.ts):
		e := "nil"
		if w.ts != nil {
			e = w.ts.time().String()
		}
		return fmt.Sprintf("timestamp %v, expected %s", m.Timestamp, e)
	case !sameStr(m.Hostname, w.host):
		return fmt.Sprintf("hostname %s, expected %s", strp(m.Hostname), strp(w.host))
	case !sameStr(m.Appname, w.app):
		return fmt.Sprintf("app-name %s, expected %s", strp(m.Appname), strp(w.app))
	case !sameStr(m.ProcID, w.proc):
		return fmt.Sprintf("procid %s, expected %s", strp(m.ProcID), strp(w.proc))
	case !sameStr(m.MsgID, w.mid):
		return fmt.Sprintf("msgid %s, expected %s", strp(m.MsgID), strp(w.mid))
	case !sameSD(m.StructuredData, w.sd):
		return fmt.Sprintf("structured data %s, expected %q", sdString(m.StructuredData), w.sd)
	case !sameStr(m.Message, w.msg):
		return fmt.Sprintf("message %s, expected %s", strp(m.Message), strp(w.msg))
	}
	return ""
}

func sdString(p *map[string]map[string]string) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("%q", *p)
}

func u8(p *uint8) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprint(*p)
}
