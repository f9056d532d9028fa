package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/common"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------------- C24: priorities and names

var facText = []string{"kernel messages", "user-level messages", "mail system messages", "system daemons messages", "authorization messages", "messages generated internally by syslogd", "line printer subsystem messages", "network news subsystem messages", "UUCP subsystem messages", "clock daemon messages", "security/authorization messages", "ftp daemon messages", "NTP subsystem messages", "audit messages", "console messages", "clock daemon messages", "local use 0 (local0)", "local use 1 (local1)", "local use 2 (local2)", "local use 3 (local3)", "local use 4 (local4)", "local use 5 (local5)", "local use 6 (local6)", "local use 7 (local7)"}
var facWord = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news", "uucp", "cron", "authpriv", "ftp", "ntp", "security", "console", "cron2", "local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
var sevText = []string{"system is unusable", "action must be taken immediately", "critical conditions", "error conditions", "warning conditions", "normal but significant condition", "informational messages", "debug-level messages"}
var sevWord = []string{"emergency", "alert", "critical", "error", "warning", "notice", "informational", "debug"}
var sevShort = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}

func baseOf(m syslog.Message) *syslog.Base {
	switch v := m.(type) {
	case *rfc5424.SyslogMessage:
		return &v.Base
	case *rfc3164.SyslogMessage:
		return &v.Base
	case *syslog.Base:
		return v
	}
	return nil
}

// named judges what a message tells of its priority (-1: not set).
func named(m syslog.Message, pri int, valid bool) string {
	b := baseOf(m)
	if b == nil {
		return fmt.Sprintf("the message is a %T", m)
	}
	if m.Valid() != valid {
		return fmt.Sprintf("valid: %v, expected %v", m.Valid(), valid)
	}
	fs := map[string]*string{"facility message": m.FacilityMessage(), "facility level": m.FacilityLevel(), "severity message": m.SeverityMessage(), "severity level": m.SeverityLevel(), "severity short level": m.SeverityShortLevel()}
	if pri < 0 {
		for k, s := range fs {
			if s != nil {
				return fmt.Sprintf("%s %q although the priority is not set", k, *s)
			}
		}
		if b.Priority != nil || b.Facility != nil || b.Severity != nil {
			return "a number although the priority is not set"
		}
		return ""
	}
	if b.Priority == nil || b.Facility == nil || b.Severity == nil || int(*b.Priority) != pri || int(*b.Facility) != pri/8 || int(*b.Severity) != pri%8 {
		return fmt.Sprintf("priority %s, facility %s, severity %s for priority %d", u8(b.Priority), u8(b.Facility), u8(b.Severity), pri)
	}
	want := map[string]string{"severity message": sevText[pri%8], "severity level": sevWord[pri%8], "severity short level": sevShort[pri%8]}
	if pri <= 191 {
		want["facility message"], want["facility level"] = facText[pri/8], facWord[pri/8]
	}
	for k, w := range want {
		if fs[k] == nil || *fs[k] != w {
			return fmt.Sprintf("%s %s for priority %d, expected %q", k, strp(fs[k]), pri, w)
		}
	}
	return ""
}

var priSources = []string{"parsed5", "parsed5best", "partial5", "parser5", "octet", "nt", "built5", "rebuilt5", "computed5", "parsed3", "parsed3best", "partial3", "parser3", "computed3", "base", "parsed3tag", "parsed5rebuilt"}

// obtain gets a message of a priority (at most 191 but for the computed ones).
func obtain(source string, pri int) (syslog.Message, error) {
	p5 := []byte(fmt.Sprintf("<%d>1 2003-10-11T22:14:15Z h a p m [e k=\"v\"] text", pri))
	p3 := []byte(fmt.Sprintf("<%d>Oct 11 22:14:15 h text", pri))
	stream := func(p syslog.Parser, in []byte) (m syslog.Message, err error) {
		p.WithListener(func(r *syslog.Result) { m, err = r.Message, r.Error })
		p.Parse(newReader(in, nil))
		return
	}
	switch source {
	case "parsed5":
		return new5424(Opt{}).Parse(p5)
	case "parsed5best":
		return new5424(Opt{Best: true}).Parse(p5)
	case "parser5":
		return new5424(Opt{Parser: true, Best: pri%2 == 0}).Parse(p5)
	case "partial5":
		m, _ := new5424(Opt{Best: true, Parser: pri%2 == 0}).Parse(p5[:9+pri%30])
		return m, nil
	case "octet":
		return stream(octetcounting.NewParser(), octetFrame(p5))
	case "nt":
		return stream(nontransparent.NewParser(), cat(p5, "\n"))
	case "built5":
		m := &rfc5424.SyslogMessage{}
		m.SetPriority(uint8(pri)).SetVersion(1)
		return m, nil
	case "rebuilt5":
		m := &rfc5424.SyslogMessage{}
		m.SetVersion(3).SetPriority(uint8(191 - pri%192)).SetPriority(uint8(pri)).SetPriority(200)
		return m, nil
	case "parsed5rebuilt":
		m, err := new5424(Opt{}).Parse([]byte("<13>1 - - - - - -"))
		if b, ok := m.(rfc5424.Builder); ok {
			b.SetPriority(uint8(pri))
		}
		return m, err
	case "computed5":
		m := &rfc5424.SyslogMessage{Version: 1}
		m.ComputeFromPriority(uint8(pri))
		return m, nil
	case "parsed3":
		return new3164(Opt{}).Parse(p3)
	case "parsed3tag":
		return new3164(Opt{RFC3339: true}).Parse([]byte(fmt.Sprintf("<%d>2003-10-11T22:14:15Z h su[1]: text", pri)))
	case "parsed3best":
		return new3164(Opt{Best: true}).Parse(p3)
	case "parser3":
		return new3164(Opt{Parser: true, Best: pri%2 == 0}).Parse(p3)
	case "partial3":
		m, _ := new3164(Opt{Best: true, Parser: pri%2 == 0}).Parse(p3[:5+pri%12])
		return m, nil
	case "computed3":
		m := &rfc3164.SyslogMessage{}
		m.ComputeFromPriority(uint8(pri))
		return m, nil
	case "base":
		m := &syslog.Base{}
		m.ComputeFromPriority(uint8(pri))
		return m, nil
	}
	panic(source)
}

// monPriority obtains messages of the priority N in all ways, spoiling each one before the next ones are looked at.
func monPriority(c *Case, r *Rec) string {
	pri := c.N & 255
	order := rand.New(rand.NewSource(c.Seed)).Perm(len(priSources))
	var held []syslog.Message
	var names []string
	for _, i := range order {
		src := priSources[i]
		if pri > 191 && !strings.HasPrefix(src, "computed") && src != "base" {
			continue
		}
		m, err := obtain(src, pri)
		if err != nil || m == nil {
			return fmt.Sprintf("%s: no message of priority %d: %v", src, pri, err)
		}
		r.events++
		r.class(src)
		held = append(held, m)
		names = append(names, src)
		if d := named(m, pri, pri <= 191); d != "" {
			return src + ": " + d
		}
	}
	r.nontrivial = true
	// Write through all that one of them gives, then look at the others
	for i, m := range held {
		for _, s := range []*string{m.FacilityMessage(), m.FacilityLevel(), m.SeverityMessage(), m.SeverityLevel(), m.SeverityShortLevel()} {
			if s != nil {
				*s = "SPOILED"
			}
		}
		b := baseOf(m)
		if d := named(m, pri, pri <= 191); d != "" {
			return fmt.Sprintf("%s: after writing through the names it gave: %s", names[i], d)
		}
		*b.Priority, *b.Facility, *b.Severity = 99, 98, 97
		for j := i + 1; j < len(held); j++ {
			if d := named(held[j], pri, pri <= 191); d != "" {
				return fmt.Sprintf("%s: %s\nafter writing through what %s gave", names[j], d, names[i])
			}
		}
	}
	for _, src := range priSources {
		if pri > 191 && !strings.HasPrefix(src, "computed") && src != "base" {
			continue
		}
		m, err := obtain(src, pri)
		if err != nil || m == nil {
			return fmt.Sprintf("%s: no message of priority %d: %v", src, pri, err)
		}
		if d := named(m, pri, pri <= 191); d != "" {
			return fmt.Sprintf("%s: %s\nafter writing through other messages", src, d)
		}
	}
	return ""
}

// monValid looks at the validity for a version (N) and many priorities.
func monValid(c *Case, r *Rec) string {
	v := uint16(c.N)
	ok := v >= 1 && v <= 999
	for _, p := range []int{-1, 0, 1, 13, 190, 191, 192, 255} {
		m := &rfc5424.SyslogMessage{Version: v}
		if p >= 0 {
			m.ComputeFromPriority(uint8(p))
		}
		r.events++
		if d := named(m, p, ok && p >= 0 && p <= 191); d != "" {
			return fmt.Sprintf("version %d, priority %d: %s", v, p, d)
		}
		// Nothing else matters
		s := "x"
		t := time.Unix(0, 0)
		m.Hostname, m.Appname, m.ProcID, m.MsgID, m.Message, m.Timestamp = &s, &s, &s, &s, &s, &t
		m.StructuredData = &map[string]map[string]string{}
		if d := named(m, p, ok && p >= 0 && p <= 191); d != "" {
			return fmt.Sprintf("version %d, priority %d, everything else set: %s", v, p, d)
		}
		if c.N < 256 {
			m3 := &rfc3164.SyslogMessage{}
			if p >= 0 {
				m3.ComputeFromPriority(uint8(c.N))
			}
			q := c.N
			if p < 0 {
				q = -1
			}
			if d := named(m3, q, q >= 0 && q <= 191); d != "" {
				return fmt.Sprintf("priority %d: %s", q, d)
			}
		}
	}
	r.class("version")
	if ok {
		r.class("valid version")
	}
	r.nontrivial = true
	return ""
}

// monPriPair sets priorities one after the other on one message.
func monPriPair(c *Case, r *Rec) string {
	a, b := c.N&255, int(c.Seed)&255
	built := &rfc5424.SyslogMessage{Version: 1}
	cur := -1
	for _, p := range []int{a, b, a} {
		built.SetPriority(uint8(p))
		if p <= 191 {
			cur = p
		}
		if d := named(built, cur, cur >= 0); d != "" {
			return fmt.Sprintf("after setting priorities up to %d: %s", p, d)
		}
	}
	for _, m := range []syslog.Message{&rfc5424.SyslogMessage{Version: 1}, &rfc3164.SyslogMessage{}, &syslog.Base{}} {
		for _, p := range []int{a, b} {
			m.ComputeFromPriority(uint8(p))
			r.events++
			if d := named(m, p, p <= 191); d != "" {
				return fmt.Sprintf("%T after computing from %d: %s", m, p, d)
			}
		}
	}
	r.class("pair")
	r.nontrivial = true
	return ""
}

// ---------------------------------------------------------------- C25: trailers

func trailerOf(s string) (nontransparent.TrailerType, bool) {
	if n := len(s); n >= 2 && (s[0] == '"' || s[0] == '\'') && s[n-1] == s[0] {
		s = s[1 : n-1]
	}
	up := []byte(s)
	for i, b := range up {
		if b >= 'a' && b <= 'z' {
			up[i] = b - 32
		}
	}
	switch string(up) {
	case "LF":
		return nontransparent.LF, true
	case "NUL":
		return nontransparent.NUL, true
	}
	return -1, false
}

func monTrailerText(c *Case, r *Rec) string {
	want, ok := trailerOf(string(c.In))
	judge := func(how string, t nontransparent.TrailerType, err error) string {
		r.events++
		if ok != (err == nil) {
			return fmt.Sprintf("%s: error %v, expected success: %v", how, err, ok)
		}
		if ok && t != want {
			return fmt.Sprintf("%s gives %d, expected %d", how, t, want)
		}
		return ""
	}
	t, err := nontransparent.TrailerTypeFromString(string(c.In))
	if d := judge("TrailerTypeFromString", t, err); d != "" {
		return d
	}
	for prev := nontransparent.TrailerType(-1); prev < 2; prev++ {
		data := append([]byte(nil), c.In...)
		t = prev
		err = t.UnmarshalText(data)
		if d := judge("UnmarshalText", t, err); d != "" {
			return d
		}
		t = prev
		err = t.UnmarshalTOML(data)
		if d := judge("UnmarshalTOML", t, err); d != "" {
			return d
		}
		if string(data) != string(c.In) {
			return fmt.Sprintf("decoding changed the text to %q", data)
		}
	}
	if utf8.Valid(c.In) {
		q, _ := json.Marshal(string(c.In))
		var v struct{ T nontransparent.TrailerType }
		err := json.Unmarshal(cat(`{"T":`, q, `}`), &v)
		if d := judge("JSON decoding", v.T, err); d != "" {
			return d
		}
	}
	if ok {
		r.class("text of a trailer")
		text, err := want.MarshalText()
		var back nontransparent.TrailerType = -5
		if err != nil || back.UnmarshalText(text) != nil || back != want {
			return fmt.Sprintf("%d encoded as %q (%v) and decoded as %d", want, text, err, back)
		}
		r.nontrivial = true
	} else {
		r.class("other text")
		r.nontrivial = len(c.In) > 0
	}
	return ""
}

// monTrailerNum looks at a number (N) as trailer type, and at a sequence of trailer options.
func monTrailerNum(c *Case, r *Rec) string {
	t := nontransparent.TrailerType(c.N)
	known := c.N == 0 || c.N == 1
	name := t.String()
	text, terr := t.MarshalText()
	val, verr := t.Value()
	r.events += 3
	r.nontrivial = true
	if known {
		r.class("known trailer")
		w := []string{"LF", "NUL"}[c.N]
		b := []int{10, 0}[c.N]
		if name != w || string(text) != w || terr != nil || val != b || verr != nil {
			return fmt.Sprintf("trailer %d: name %q, text %q (%v), value %d (%v)", c.N, name, text, terr, val, verr)
		}
		j, err := json.Marshal(t)
		if err != nil || string(j) != `"`+w+`"` {
			return fmt.Sprintf("trailer %d: JSON %s (%v)", c.N, j, err)
		}
		// The text belongs to the caller
		for i := range text {
			text[i] = 'x'
		}
		if again, _ := t.MarshalText(); string(again) != w || t.String() != w {
			return fmt.Sprintf("writing on the encoded text changes the trailer: %q", again)
		}
	} else {
		r.class("unknown trailer")
		if name != "" || terr == nil || verr == nil {
			return fmt.Sprintf("trailer %d: name %q, text %q (%v), value %d (%v)", c.N, name, text, terr, val, verr)
		}
		if _, err := json.Marshal(t); err == nil {
			return fmt.Sprintf("trailer %d is encoded in JSON", c.N)
		}
	}
	return ""
}

func monTrailerOpt(c *Case, r *Rec) string {
	o := Opt{}
	s := &sink{g: &got{}}
	opts := []syslog.ParserOption{syslog.WithListener(s.listen)}
	for _, op := range c.Ops {
		opts = append(opts, nontransparent.WithTrailer(nontransparent.TrailerType(op.N)))
		switch op.N {
		case 0:
			o.NUL = false
		case 1:
			o.NUL = true
		default:
			r.class("ignored option")
		}
	}
	p := nontransparent.NewParser(opts...)
	x := refNT(c.In, o, "unexpected EOF")
	p.Parse(newReader(c.In, nil))
	r.events += int64(len(s.g.results))
	r.class(fmt.Sprintf("stream with NUL trailer: %v", o.NUL))
	r.nontrivial = true
	if d := compareStream(s.g, &x); d != "" {
		return d + "\ndelivered:" + s.g.String()
	}
	return ""
}

// ---------------------------------------------------------------- C26: options

// judge5 compares a result with the reference model for the given options.
func judge5(m syslog.Message, err error, in []byte, o Opt) string {
	w := ref5424(in, o.Compliant)
	g, bad := as5(m)
	switch {
	case bad != "":
		return bad
	case w.ok() != (err == nil):
		return fmt.Sprintf("error %v, accepted by the grammar: %v", err, w.ok())
	case (g != nil) != (w.ok() || o.Best && w.minimal):
		return fmt.Sprintf("message: %v, error %v, best effort %v", g != nil, err, o.Best)
	case g != nil:
		return compare5(g, &w.out)
	}
	return ""
}

func judge3(m syslog.Message, err error, in []byte, o Opt, y0 int) string {
	w := ref3164(in, o.RFC3339)
	g, bad := as3(m)
	switch {
	case bad != "":
		return bad
	case w.good != (err == nil):
		return fmt.Sprintf("error %v, accepted by the grammar: %v", err, w.good)
	case (g != nil) != (w.good || o.Best && w.pri):
		return fmt.Sprintf("message: %v, error %v, best effort %v", g != nil, err, o.Best)
	case g != nil:
		if d := compare3(g, &w.out); d != "" {
			return d
		}
		return checkTime3(g.Timestamp, w.out.st, o, y0, time.Now().Year())
	}
	return ""
}

func judge(kind string, m syslog.Message, err error, in []byte, o Opt, y0 int) string {
	if kind == "3164" {
		return judge3(m, err, in, o, y0)
	}
	return judge5(m, err, in, o)
}

// newShuffled creates a machine with the options in the order of the case (repetitions included).
func newShuffled(kind string, o Opt) syslog.Machine {
	if kind == "3164" {
		return new3164(o)
	}
	var opts []syslog.MachineOption
	if o.Best {
		opts = append(opts, rfc5424.WithBestEffort())
	}
	if o.Compliant {
		opts = append(opts, rfc5424.WithCompliantMsg())
	}
	opts = reorder(opts, o.Order)
	if o.Parser {
		return rfc5424.NewParser(opts...)
	}
	return rfc5424.NewMachine(opts...)
}

// monOptions works on several instances (Os) in turn; the bits of N tell which ones have best effort enabled midway.
func monOptions(c *Case, r *Rec) string {
	y0 := time.Now().Year()
	var ps []syslog.Machine
	os := append([]Opt(nil), c.Os...)
	for i, o := range os {
		p := newShuffled(c.K, o)
		ps = append(ps, p)
		if p.HasBestEffort() != o.Best {
			return fmt.Sprintf("instance %d tells best effort %v at the beginning, it is %v", i, p.HasBestEffort(), o.Best)
		}
		if len(o.Order) > 1 {
			r.class(c.K + ":options in another order")
		}
	}
	half := len(c.Seq) / 2
	for k, in := range c.Seq {
		for i, p := range ps {
			if k == half && (c.N>>uint(i))&1 == 1 {
				p.WithBestEffort()
				r.class(c.K + ":best effort enabled midway")
				os[i].Best = true
			}
		}
		for i, p := range ps {
			m, err := p.Parse(in)
			r.events++
			if d := judge(c.K, m, err, in, os[i], y0); d != "" {
				return fmt.Sprintf("instance %d, input %d: %s", i, k, d)
			}
			if p.HasBestEffort() != os[i].Best {
				return fmt.Sprintf("instance %d tells best effort %v after input %d, it is %v", i, p.HasBestEffort(), k, os[i].Best)
			}
			if os[i].Best && err != nil && m != nil {
				r.class(c.K + ":partial")
			}
		}
	}
	r.nontrivial = len(c.Os) > 0 && len(c.Seq) > 1
	return ""
}

// monStreamOptions does the same with stream parsers, setting best effort, the maximum length and the listener midway.
func monStreamOptions(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	type inst struct {
		p    syslog.Parser
		o    Opt
		a, b *sink // listener at the beginning, and midway
		cur  *sink
	}
	var is []*inst
	for i, o := range c.Os {
		n := &inst{o: o, a: &sink{}, b: &sink{}}
		n.cur = n.a
		n.p = newStream(kind, o, n.a.listen)
		if n.p.HasBestEffort() != o.Best {
			return fmt.Sprintf("instance %d tells best effort %v at the beginning, it is %v", i, n.p.HasBestEffort(), o.Best)
		}
		is = append(is, n)
	}
	half := len(c.Seq) / 2
	for k, in := range c.Seq {
		for i, n := range is {
			bit := func(b int) bool { return k == half && (c.N>>uint(3*i+b))&1 == 1 }
			if bit(0) {
				n.p.WithBestEffort()
				n.o.Best = true
				r.class(kind + ":best effort enabled midway")
			}
			if bit(1) {
				max := int(c.Seed%200) + 10
				n.p.WithMaxMessageLength(max)
				n.o.Max = &max
				r.class(kind + ":maximum set midway")
			}
			if bit(2) {
				n.p.WithListener(n.b.listen)
				n.cur = n.b
				r.class(kind + ":listener set midway")
			}
		}
		for i, n := range is {
			n.a.g, n.b.g = &got{}, &got{}
			n.p.Parse(newReader(in, nil))
			x := expected(kind, in, n.o, nil)
			r.events += int64(len(n.cur.g.results)) + 1
			if d := compareStream(n.cur.g, &x); d != "" {
				return fmt.Sprintf("instance %d, stream %d: %s\ndelivered:%s", i, k, d, n.cur.g)
			}
			other := n.a
			if n.cur == n.a {
				other = n.b
			}
			if len(other.g.results) > 0 {
				return fmt.Sprintf("instance %d, stream %d: results went to the wrong listener", i, k)
			}
			if n.p.HasBestEffort() != n.o.Best {
				return fmt.Sprintf("instance %d tells best effort %v after stream %d, it is %v", i, n.p.HasBestEffort(), k, n.o.Best)
			}
			if x.kind == "too long" {
				r.class(kind + ":maximum applied")
			}
			if n.o.Best && strings.Contains(n.cur.g.String(), "error") {
				r.class(kind + ":best effort with errors")
			}
		}
	}
	r.nontrivial = true
	return ""
}

// hookReader calls f before it is read for the first time.
type hookReader struct {
	io.Reader
	f func()
}

func (h *hookReader) Read(p []byte) (int, error) {
	if h.f != nil {
		h.f()
		h.f = nil
	}
	return h.Reader.Read(p)
}

// monMidstream has best effort (1), the maximum length (2) or the listener (4) set, as the bits of Seed tell, through
// the methods while a stream is being parsed: by the listener with result N, or (-1) by the reader before its first octet.
// What was not parsed yet is to be treated as with the options.
func monMidstream(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	o, late := c.O, c.O
	max := int(c.Seed>>3) % 200
	if c.Seed&1 != 0 {
		late.Best = true
	}
	if c.Seed&2 != 0 {
		late.Max = &max
	}
	end := byte('\n')
	if o.NUL {
		end = 0
	}
	var in []byte
	rest := 0
	for i, f := range c.Seq {
		if len(f) == 0 || f[0] != '<' {
			return ""
		}
		if kind == "oct" {
			in = append(in, octetFrame(f)...)
		} else {
			in = append(append(in, bytes.ReplaceAll(f, []byte{end}, []byte{'.'})...), end)
		}
		if i == c.N {
			rest = len(in)
		}
	}
	in = append(in, c.In...)

	a, b := &sink{g: &got{}}, &sink{g: &got{}}
	p := newStream(kind, o, a.listen)
	set := func() {
		if c.Seed&1 != 0 {
			p.WithBestEffort()
			r.class(kind + ":best effort enabled midstream")
		}
		if c.Seed&2 != 0 {
			p.WithMaxMessageLength(max)
			r.class(kind + ":maximum set midstream")
		}
		if c.Seed&4 != 0 {
			p.WithListener(b.listen)
			r.class(kind + ":listener set midstream")
		}
	}
	n, at := 0, -1
	a.f = func(*syslog.Result) {
		if n == c.N {
			set()
			at = n
		}
		n++
	}
	reader := &hookReader{Reader: newReader(in, c.R)}
	if c.N < 0 {
		reader.f = set
	}
	p.Parse(reader)
	all := &got{}
	for _, g := range []*got{a.g, b.g} {
		all.results, all.texts = append(all.results, g.results...), append(all.texts, g.texts...)
	}
	r.events += int64(len(all.results)) + 1
	r.nontrivial = len(all.results) > 1

	var x xstream
	if c.N < 0 {
		x = expected(kind, in, late, nil)
	} else if x = expected(kind, in, o, nil); len(x.results) > c.N+1 {
		// It went on after the result
		before := expected(kind, in[:rest], o, nil)
		after := expected(kind, in[rest:], late, nil)
		if len(c.In) > 0 && kind == "nt" && c.In[0] != '<' {
			return ""
		}
		if len(before.results) != c.N+1 || rest == len(in) {
			return fmt.Sprintf("the model gives %d results for %d frames", len(before.results), c.N+1)
		}
		x.results, x.kind = append(before.results[:c.N+1:c.N+1], after.results...), "midstream: "+after.kind
	}
	if d := compareStream(all, &x); d != "" {
		return fmt.Sprintf("options set midstream (after result %d): %s\ndelivered:%s", c.N, d, all)
	}
	if c.Seed&4 != 0 && len(all.results) > 0 {
		mine := len(all.results)
		if at >= 0 {
			mine = at + 1
		} else if c.N < 0 {
			mine = 0
		}
		if len(a.g.results) != mine {
			return fmt.Sprintf("the listener set after result %d: the former one got %d of the %d results", c.N, len(a.g.results), len(all.results))
		}
	}
	return ""
}

// ---------------------------------------------------------------- C29: helpers

func monHelpers(c *Case, r *Rec) string {
	r.nontrivial = true
	switch c.K {
	case "escape":
		text := string(c.In)
		got := common.EscapeBytes(text)
		r.events++
		if want := string(escape(c.In)); got != want {
			return fmt.Sprintf("escaped as %q, expected %q", got, want)
		}
		// Find the backslashes back, and remove them, from a slice starting anywhere
		var at []int
		off := c.N
		for i := 0; i < len(got); i++ {
			if got[i] == '\\' {
				at = append(at, i+off)
				i++
			}
		}
		if len(at) > 0 {
			r.class("escapes")
		} else {
			r.class("no escapes")
		}
		data := []byte(got + "tail")
		shadow := string(data)
		ats := append([]int(nil), at...)
		out := common.RemoveBytes(data[:len(got)], at, off)
		if string(out) != text {
			return fmt.Sprintf("escaped as %q, unescaped as %q (offset %d)", got, out, off)
		}
		for i := range out {
			out[i] = '!'
		}
		_ = append(out, "........"...)
		if string(data) != shadow || fmt.Sprint(at) != fmt.Sprint(ats) {
			return fmt.Sprintf("removing bytes changed the data to %q (it was %q)", data, shadow)
		}
	case "digits":
		n := 0
		for _, d := range c.In {
			n = n*10 + int(d-'0')
		}
		r.class("digits")
		if got := common.UnsafeUTF8DecimalCodePointsToInt(c.In); got != n {
			return fmt.Sprintf("the number %q is %d", c.In, got)
		}
	case "between":
		a, b, v, ok := threeNumbers(c.In)
		if !ok {
			return fmt.Sprintf("not three numbers: %q", c.In)
		}
		r.class("between")
		if got := common.InBetween(v, a, b); got != (a <= v && v <= b) {
			return fmt.Sprintf("%d in [%d, %d]: %v", v, a, b, got)
		}
	case "ranges":
		v := c.N
		r.class("ranges")
		if common.ValidVersion(uint16(v)) != (uint16(v) >= 1 && uint16(v) <= 999) {
			return fmt.Sprintf("version %d valid: %v", uint16(v), common.ValidVersion(uint16(v)))
		}
		if common.ValidPriority(uint8(v)) != (uint8(v) <= 191) {
			return fmt.Sprintf("priority %d valid: %v", uint8(v), common.ValidPriority(uint8(v)))
		}
		rr := rand.New(rand.NewSource(int64(v)))
		for k := 0; k < 20; k++ {
			a, b := rr.Intn(11)-5, rr.Intn(11)-5
			x := rr.Intn(13) - 6
			if k > 15 {
				a, b, x = -math.MaxInt-1, math.MaxInt, int(rr.Uint64())
			}
			if common.InBetween(x, a, b) != (a <= x && x <= b) {
				return fmt.Sprintf("%d in [%d, %d]: %v", x, a, b, common.InBetween(x, a, b))
			}
		}
	}
	return ""
}

// threeNumbers reads a text made of three numbers.
func threeNumbers(in []byte) (a, b, v int, ok bool) {
	f := strings.Split(string(in), " ")
	if len(f) != 3 {
		return
	}
	var n [3]int
	for i := range f {
		var err error
		if n[i], err = strconv.Atoi(f[i]); err != nil {
			return
		}
	}
	return n[0], n[1], n[2], true
}

// pickTail gives the end of a stream which is not well framed.
func pickTail(r *rand.Rand, kind string) []byte {
	if kind == "oct" {
		return []byte(pick(r, "17", "17 ", "20 <1>1 - - - - - -", "0", "x", "16 x", "\n", "9999999 <1>1", "12 <1>1 - - - -"))
	}
	return []byte(pick(r, "<", "<1>1 - - - - - -", "<1>1 - - - - - - x", "<1>1 - -", "<x"))
}

func randOrder(r *rand.Rand, n int) []int {
	var o []int
	for k := r.Intn(2*n + 1); k > 0; k-- {
		o = append(o, r.Intn(n))
	}
	return o
}

func init() {
	monitors["priority"] = monPriority
	monitors["valid"] = monValid
	monitors["pripair"] = monPriPair
	monitors["trailertext"] = monTrailerText
	monitors["trailernum"] = monTrailerNum
	monitors["traileropt"] = monTrailerOpt
	monitors["options"] = monOptions
	monitors["midstream"] = monMidstream
	monitors["streamoptions"] = monStreamOptions
	monitors["helpers"] = monHelpers
	checks["C24"] = check{
		rule: "every priority on messages obtained in 17 ways (parsed, partial, from streams, built, computed), taken in random orders, each one spoiled in turn; every version with boundary priorities; every pair of priorities set one after the other; distinct = distinct (priority, order), versions and pairs",
		run: func(x *Ctx) {
			x.require = append([]string{"valid version", "version", "pair"}, priSources...)
			x.Run(8, func(s *Shard, i, n int) {
				for v := 0; v < x.scale(20, 200); v++ {
					for p := i; p < 256; p += n {
						if !s.Eval(&Case{M: "priority", N: p, Seed: s.rng.Int63()}) {
							return
						}
					}
				}
				for v := i; v < 65536; v += n {
					if !s.Eval(&Case{M: "valid", N: v}) {
						return
					}
				}
				for a := i; a < 256; a += n {
					for b := 0; b < 256; b++ {
						if !s.Eval(&Case{M: "pripair", N: a, Seed: int64(b)}) {
							return
						}
					}
				}
			})
		},
	}
	checks["C25"] = check{
		rule: "all the short texts over the letters and quotes involved, every letter case, single edits of all of them with every byte, random texts, through four decoding entry points; numbers around 0 and at the integer limits; sequences of trailer options on parsers reading streams with both trailers; distinct = distinct (text, number or options)",
		run: func(x *Ctx) {
			x.require = []string{"text of a trailer", "other text", "known trailer", "unknown trailer", "ignored option", "stream with NUL trailer: true", "stream with NUL trailer: false"}
			x.Run(8, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				text := func(b []byte) bool {
					if b == nil {
						b = []byte{}
					}
					return s.Eval(&Case{M: "trailertext", In: b})
				}
				if !enumerate([]string{"l", "L", "f", "F", "n", "N", "u", "U", "\"", "'", " "}, x.scale(4, 5), func(w []byte) bool {
					if !mine() {
						return s.ok()
					}
					return text(w)
				}) {
					return
				}
				for _, base := range []string{"lf", "nul"} {
					for bits := 0; bits < 1<<uint(len(base)); bits++ {
						v := []byte(base)
						for q := range v {
							if bits>>uint(q)&1 == 1 {
								v[q] -= 32
							}
						}
						for _, a := range []string{"", "\"", "'", "`", " ", "\"\"", "\\\"", "\n"} {
							for _, b := range []string{"", "\"", "'", "`", " ", "\"\"", "\\\"", "\n", "\x00"} {
								w := cat(a, v, b)
								if !mine() {
									continue
								}
								if !text(w) {
									return
								}
								for q := 0; q <= len(w); q++ {
									for c := 0; c < 256; c++ {
										if !text(cat(w[:q], byte(c), w[q:])) {
											return
										}
										if q < len(w) && !text(cat(w[:q], byte(c), w[q+1:])) {
											return
										}
									}
								}
							}
						}
					}
				}
				if !allWords(func(w string) bool { return !mine() || text([]byte(w)) }) {
					return
				}
				for _, w := range []string{"ſ", "ﬀ", "lſ", "ⅼf", "LF", "Ｌf", "N\u00dc L", "nuł", "ŁF", "L\u0046\u0301"} {
					if !text([]byte(w)) {
						return
					}
				}
				for c := 0; c < x.scale(4000, 100000); c++ {
					g := make([]byte, r.Intn(9))
					for q := range g {
						g[q] = "lfnulLFNUL\"' \x00\n"[r.Intn(15)]
						if r.Intn(8) == 0 {
							g[q] = byte(r.Intn(256))
						}
					}
					if !text(g) {
						return
					}
				}
				nums := []int{-math.MaxInt - 1, -math.MaxInt, math.MinInt32, math.MaxInt32, math.MaxInt, wrap(1 << 32), wrap(1<<32 + 1), wrap(-1 << 32), wrap(-1<<32 + 1), 256, 257, 1 << 16, 1<<16 + 1}
				for v := -300; v < 700; v++ {
					nums = append(nums, v)
				}
				for _, v := range nums {
					if !s.Eval(&Case{M: "trailernum", N: v}) {
						return
					}
				}
				for c := 0; c < x.scale(3000, 60000); c++ {
					cs := &Case{M: "traileropt", In: ntStream(r, 3, false, []byte{10, 0}[c%2])}
					for q := r.Intn(5); q > 0; q-- {
						v := r.Intn(2)
						if r.Intn(2) == 0 {
							v = nums[r.Intn(len(nums))]
						}
						cs.Ops = append(cs.Ops, BOp{Op: "trailer", N: v})
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
	checks["C26"] = check{
		rule: "one to four instances alive at once, with options passed in random orders and repeated, used in turn on sequences of inputs (or streams), some with best effort, maximum length or listener set midway through the methods, also while a stream is being parsed (by its listener, or by its reader); every result is judged by the reference models for the options in effect, and the mode is queried after each step; distinct = distinct (options, inputs, switches)",
		run: func(x *Ctx) {
			x.require = []string{"5424:options in another order", "3164:options in another order", "5424:best effort enabled midway", "3164:best effort enabled midway", "5424:partial", "3164:partial", "oct:best effort enabled midway", "nt:best effort enabled midway", "oct:maximum set midway", "oct:maximum applied", "nt:maximum set midway", "oct:listener set midway", "nt:listener set midway", "nt:best effort with errors", "oct:best effort with errors",
				"oct:best effort enabled midstream", "nt:best effort enabled midstream", "oct:maximum set midstream", "nt:maximum set midstream", "oct:listener set midstream", "nt:listener set midstream"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				for c := 0; c < x.scale(2500, 50000); c++ {
					kind := []string{"oct", "nt"}[c%2]
					cs := &Case{M: "midstream", K: kind, O: randStreamOpt(s), Seed: int64(1 + r.Intn(7) + 8*r.Intn(200))}
					cs.O.NUL = kind == "nt" && r.Intn(2) == 0
					if r.Intn(3) == 0 {
						cs.O.Max = intp(20 + r.Intn(200))
					}
					bad := r.Intn(3) > 0 && (cs.O.Best || kind == "nt")
					for q := 1 + r.Intn(5); q > 0; q-- {
						f := frame5(r, bad && r.Intn(2) == 0 || len(cs.Seq) > 1 && r.Intn(3) == 0)
						if r.Intn(2) == 0 {
							f = cat(fmt.Sprintf("<%d>1 - - - - - -", r.Intn(192)), pick(r, "", " x", " \xef\xbb\xbfé", "x", " \xef\xbb\xbf\xff"))
						}
						if len(f) == 0 {
							continue
						}
						f[0] = '<'
						cs.Seq = append(cs.Seq, f)
					}
					cs.N = r.Intn(len(cs.Seq)+1) - 1
					if r.Intn(4) == 0 {
						cs.In = pickTail(r, kind)
					}
					cs.R = randReader(r, 400)
					cs.R.FailAt, cs.R.Fail0, cs.R.Panic, cs.R.Burst = 0, false, false, 0
					if !s.Eval(cs) {
						return
					}
				}
				for c := 0; c < x.scale(6000, 100000); c++ {
					for _, kind := range []string{"5424", "3164"} {
						cs := &Case{M: "options", K: kind, N: r.Intn(16)}
						for q := 1 + r.Intn(4); q > 0; q-- {
							o := randOptOf(s, kind)
							o.Order = randOrder(r, 5)
							cs.Os = append(cs.Os, o)
						}
						for q := 2 + r.Intn(5); q > 0; q-- {
							cs.Seq = append(cs.Seq, anyInput(s, kind))
						}
						if r.Intn(3) == 0 {
							if kind == "5424" {
								cs.Seq = append(cs.Seq, []byte("<1>1 - - - - - - \xef\xbb\xbf\xff"))
							} else {
								cs.Seq = append(cs.Seq, []byte("<1>2003-10-11T22:14:15+02:00 h m"))
							}
						}
						if !s.Eval(cs) {
							return
						}
					}
				}
				for c := 0; c < x.scale(3000, 60000); c++ {
					kind := []string{"oct", "nt"}[c%2]
					cs := &Case{M: "streamoptions", K: kind, N: r.Intn(1 << 12), Seed: int64(r.Intn(1000))}
					for q := 1 + r.Intn(4); q > 0; q-- {
						o := randStreamOpt(s)
						o.Order = randOrder(r, 4)
						if kind == "nt" {
							o.NUL = r.Intn(2) == 0
						}
						if r.Intn(3) == 0 {
							o.Max = intp(r.Intn(120))
						}
						cs.Os = append(cs.Os, o)
					}
					for q := 2 + r.Intn(3); q > 0; q-- {
						in, _ := reuseStream(s, kind, cs.Os[0])
						cs.Seq = append(cs.Seq, in)
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
	// someNumber writes a number an int can hold, often close to the biggest one, often after zeros.
	someNumber := func(r *rand.Rand) []byte {
		v := r.Uint64() >> 1 >> uint(r.Intn(63))
		switch r.Intn(4) {
		case 0:
			v = uint64(math.MaxInt) - v>>uint(r.Intn(63))
		case 1:
			for v = 1; r.Intn(25) != 0 && v <= uint64(math.MaxInt)/10; {
				v *= 10
			}
			v -= uint64(r.Intn(2))
		}
		if v > uint64(math.MaxInt) {
			v %= uint64(math.MaxInt)
		}
		d := strconv.FormatUint(v, 10)
		if r.Intn(2) == 0 {
			d = strings.Repeat("0", r.Intn([]int{3, 12, 45, 300}[r.Intn(4)])) + d
		}
		if r.Intn(100) == 0 {
			d = ""
		}
		return []byte(d)
	}
	checks["C29"] = check{
		rule: "texts over the escaped characters and others (all the short ones, random ones) escaped, and unescaped from slices at random offsets; all the numbers of up to 4 digits and random longer ones, up to the biggest an int holds and after up to hundreds of zeros; all versions and priorities; intervals and numbers around their ends; distinct = distinct (text, offset), number, or interval",
		run: func(x *Ctx) {
			x.require = []string{"escapes", "no escapes", "digits", "ranges", "between"}
			x.Run(8, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				if !enumerate([]string{"a", "\\", "\"", "]", "é", "\xff", "[", " "}, x.scale(5, 7), func(w []byte) bool {
					if !mine() {
						return s.ok()
					}
					return s.Eval(&Case{M: "helpers", K: "escape", In: append([]byte{}, w...), N: r.Intn(50)})
				}) {
					return
				}
				for b := i; b < 256; b += n {
					for q := 0; q < 256; q++ {
						if !s.Eval(&Case{M: "helpers", K: "escape", In: []byte{byte(b), byte(q)}, N: r.Intn(3)}) {
							return
						}
					}
				}
				for c := 0; c < x.scale(5000, 100000); c++ {
					g := utf8Text(r, r.Intn(200))
					if c%2 == 0 {
						for q := 0; q < 4 && len(g) > 0; q++ {
							g[r.Intn(len(g))] = someByte(r)
						}
					}
					if !s.Eval(&Case{M: "helpers", K: "escape", In: g, N: r.Intn(5000)}) {
						return
					}
					if !s.Eval(&Case{M: "helpers", K: "digits", In: someNumber(r)}) {
						return
					}
					a := r.Intn(2000) - 1000
					if c%4 == 0 {
						a = int(r.Uint64())
					}
					b := a + r.Intn(1<<uint(r.Intn(20))) - 3
					v := []int{a, b}[r.Intn(2)] + r.Intn(5) - 2
					if !s.Eval(&Case{M: "helpers", K: "between", In: []byte(fmt.Sprint(a, " ", b, " ", v))}) {
						return
					}
				}
				for v := i; v < 65536; v += n {
					if !s.Eval(&Case{M: "helpers", K: "ranges", N: v}) {
						return
					}
					if v < 10000 && (!s.Eval(&Case{M: "helpers", K: "digits", In: []byte(fmt.Sprint(v))}) || !s.Eval(&Case{M: "helpers", K: "digits", In: []byte(fmt.Sprintf("%05d", v))})) {
						return
					}
				}
			})
		},
	}
}
