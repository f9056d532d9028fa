package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------------- C33: messages filled by hand

var handOps = []string{"=pri", "=cfp", "=ver", "=ts", "=host", "=app", "=proc", "=mid", "=msg", "=sd", "=elem", "=param", "=param", "=del", "=delparam", "=fac", "=copy"}

// handTime is the time a =ts operation assigns (nil for none).
func handTime(op *BOp) *time.Time {
	if op.A == nil {
		return nil
	}
	t, err := time.Parse(time.RFC3339Nano, string(op.A))
	if err != nil {
		panic(err)
	}
	if op.B != nil {
		u := t.In(zone(string(op.B)))
		if _, off := u.Zone(); off%60 == 0 && u.Year() >= 0 && u.Year() <= 9999 {
			t = u
		}
	}
	return &t
}

// assign performs an operation by hand, on the message and on the model; it gives the message to go on with.
func assign(m *rfc5424.SyslogMessage, w *built, op *BOp) *rfc5424.SyslogMessage {
	str := func(f, g **string) {
		*f, *g = nil, nil
		if op.A != nil {
			s, v := string(op.A), string(op.A)
			*f = &s
			if v != "-" || op.Op == "=msg" {
				*g = &v
			}
		}
	}
	drop := func() {
		m.StructuredData, w.sd = nil, nil
	}
	grow := func() {
		if m.StructuredData == nil {
			m.StructuredData = &map[string]map[string]string{}
		}
		if *m.StructuredData == nil {
			*m.StructuredData = map[string]map[string]string{}
		}
		if w.sd == nil {
			w.sd = map[string]map[string]string{}
		}
	}
	id, name, value := string(op.A), string(op.B), string(op.C)
	switch op.Op {
	case "=pri":
		v := uint8(op.N)
		m.Priority = &v
		w.pri = int(v)
	case "=cfp":
		m.ComputeFromPriority(uint8(op.N))
		w.pri = int(uint8(op.N))
	case "=fac":
		v := uint8(op.N)
		m.Facility, m.Severity = &v, nil
	case "=ver":
		m.Version = uint16(op.N)
		w.ver = int(uint16(op.N))
	case "=ts":
		m.Timestamp, w.ts = handTime(op), nil
		if t := m.Timestamp; t != nil {
			_, off := t.Zone()
			w.ts = &ts{t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond() / 1000 * 1000, off}
		}
	case "=host":
		str(&m.Hostname, &w.host)
	case "=app":
		str(&m.Appname, &w.app)
	case "=proc":
		str(&m.ProcID, &w.proc)
	case "=mid":
		str(&m.MsgID, &w.mid)
	case "=msg":
		str(&m.Message, &w.msg)
	case "=sd":
		drop()
		switch op.N {
		case 1: // an empty map
			m.StructuredData = &map[string]map[string]string{}
		case 2: // a nil one
			m.StructuredData = new(map[string]map[string]string)
		}
	case "=elem":
		grow()
		(*m.StructuredData)[id], w.sd[id] = map[string]string{}, map[string]string{}
		if op.N == 1 {
			(*m.StructuredData)[id] = nil
		}
	case "=param":
		grow()
		if (*m.StructuredData)[id] == nil {
			(*m.StructuredData)[id] = map[string]string{}
		}
		if w.sd[id] == nil {
			w.sd[id] = map[string]string{}
		}
		(*m.StructuredData)[id][name], w.sd[id][name] = value, value
	case "=del":
		if m.StructuredData != nil {
			delete(*m.StructuredData, id)
			delete(w.sd, id)
		}
	case "=delparam":
		if m.StructuredData != nil {
			delete((*m.StructuredData)[id], name)
			delete(w.sd[id], name)
		}
	case "=copy":
		c := *m
		return &c
	default:
		perform(m, op)
		w.apply(op)
	}
	return m
}

func monHand(c *Case, r *Rec) string {
	g, w, bad := startBuild(c)
	if g == nil {
		return bad
	}
	look := func(i int) string {
		valid := w.pri >= 0 && w.pri <= 191 && w.ver >= 1 && w.ver <= 999
		before := dump(g)
		if g.Valid() != valid {
			return fmt.Sprintf("after %d operations: %s is valid: %v", i, before, g.Valid())
		}
		text, err := g.String()
		r.events++
		if d := dump(g); d != before {
			return fmt.Sprintf("after %d operations: serializing %s changed it to %s", i, before, d)
		}
		if !valid {
			if err == nil {
				return fmt.Sprintf("after %d operations: %s was serialized to %q", i, before, text)
			}
			r.class("not serializable")
			return ""
		}
		r.nontrivial = true
		if len(w.sd) == 0 {
			w.sd = nil
		}
		switch {
		case g.StructuredData == nil:
			r.class("without structured data")
		case len(*g.StructuredData) == 0:
			r.class("with an empty map")
		default:
			r.class("with elements")
		}
		if d := judgeText(text, err, w); d != "" {
			return fmt.Sprintf("after %d operations: %s: %s", i, before, d)
		}
		return ""
	}
	for i := range c.Ops {
		if (uint64(c.Seed)>>uint(i%60))&1 == 1 {
			if d := look(i); d != "" {
				return d
			}
		}
		g = assign(g, w, &c.Ops[i])
		r.class(c.Ops[i].Op)
	}
	return look(len(c.Ops))
}

var handZones = []string{"Europe/Rome", "America/St_Johns", "Asia/Kathmandu", "Pacific/Kiritimati", "UTC", "Australia/Lord_Howe"}

// randHand gives an operation by hand, with values that are valid for their field.
func randHand(r *rand.Rand, name string) BOp {
	op := BOp{Op: name}
	id := func() []byte {
		switch r.Intn(6) {
		case 0:
			return sdName(r)
		case 1:
			return graphWord(word(r), 32, true)
		}
		return []byte(pick(r, "a", "b", "c", "-", "z@1", "A", "aa", "ab"))
	}
	switch name {
	case "=pri", "=cfp", "=fac":
		op.N = r.Intn(192)
		if n, ok := hot(r, 0, 255); ok {
			op.N = n
		}
		if r.Intn(8) == 0 {
			op.N = []int{0, 191, 192, 193, 255}[r.Intn(5)]
		}
	case "=ver":
		op.N = 1 + r.Intn(999)
		if n, ok := hot(r, 0, 65535); ok {
			op.N = n
		}
		if r.Intn(8) == 0 {
			op.N = []int{0, 1, 999, 1000, 65535}[r.Intn(5)]
		}
	case "=ts":
		if r.Intn(8) == 0 {
			break
		}
		t := rfc3339Text(r, true)
		for !validStamp(t) {
			t = rfc3339Text(r, true)
		}
		if r.Intn(2) == 0 {
			at := len("2006-01-02T15:04:05")
			end := at
			for end < len(t) && (t[end] == '.' || digit(t[end])) {
				end++
			}
			t = t[:at] + "." + fmt.Sprintf("%0*d", 1+r.Intn(9), r.Intn(10)) + t[end:]
			if r.Intn(3) == 0 {
				t = t[:at] + ".999999999" + t[strings.IndexAny(t[at:], "Z+-")+at:]
			}
		}
		op.A = []byte(t)
		if r.Intn(2) == 0 {
			op.B = []byte(handZones[r.Intn(len(handZones))])
		}
	case "=host", "=app", "=proc", "=mid":
		max := map[string]int{"=host": 255, "=app": 48, "=proc": 128, "=mid": 32}[name]
		switch r.Intn(8) {
		case 0:
		case 1:
			op.A = []byte("-")
		case 2:
			op.A = graphWord(word(r), max, false)
		default:
			op.A = graphs(r, length(r, max))
		}
		if len(op.A) == 0 {
			op.A = nil
		}
	case "=msg":
		if r.Intn(8) > 0 {
			op.A = msgText(r)
		}
		if len(op.A) == 0 {
			op.A = nil
		}
	case "=sd":
		op.N = r.Intn(3)
	case "=elem":
		op.A, op.N = id(), r.Intn(2)
	case "=del":
		op.A = id()
	case "=param", "=delparam":
		op.A, op.B = id(), id()
		switch r.Intn(5) {
		case 0:
			op.C = []byte(pick(r, "", `"`, `\`, `]`, `\"`, `\\`, `a\`, `"]`, "\\]\"", "é\"é", "[x]", " ", "\n", "\x00", "=", "a=\"b\""))
		case 1:
			op.C = []byte(strings.ToValidUTF8(word(r), "?"))
		default:
			op.C = utf8Text(r, r.Intn(20))
		}
	}
	return op
}

// byHand tells whether the names and the value of an element or a parameter may be assigned.
func byHand(op *BOp) bool {
	name := func(b []byte) bool {
		for _, c := range b {
			if !sdchar(c) {
				return false
			}
		}
		return len(b) > 0 && len(b) <= 32
	}
	return name(op.A) && (op.Op == "sdid" || name(op.B) && utf8.Valid(op.C))
}

func validStamp(t string) bool {
	_, ok := stampOK([]byte(t))
	return ok
}

// ---------------------------------------------------------------- C34: the scanner of octet counting

// refScan gives the texts of the tokens of a stream, up to its first EOF.
func refScan(in []byte) (toks []string, kinds map[string]bool) {
	kinds = map[string]bool{}
	i, ready := 0, false
	count, huge := uint64(0), false
	add := func(kind, text string) {
		kinds[kind] = true
		toks = append(toks, text)
	}
	for i < len(in) {
		switch b := in[i]; {
		case b >= '1' && b <= '9':
			j := i
			for j < len(in) && digit(in[j]) {
				j++
			}
			var e error
			count, e = strconv.ParseUint(string(in[i:j]), 10, 64)
			huge = e != nil
			ready = false
			add("count", "MSGLEN("+string(in[i:j])+")")
			i = j
		case b == ' ':
			ready = true
			add("space", "WS")
			i++
		case b == '<' && ready && count > 0:
			if huge || uint64(len(in)-i) < count {
				kinds["cut message"] = true
				return append(toks, "EOF"), kinds
			}
			n := int(count)
			add("message", "SYSLOGMSG("+string(in[i:i+n])+")")
			i += n
			ready, count = false, 0
		default:
			add("illegal", "ILLEGAL("+string(in[i:i+1])+")")
			i++
		}
	}
	return append(toks, "EOF"), kinds
}

func monScanner(c *Case, r *Rec) string {
	if c.K == "names" {
		want := "TokenType(" + strconv.Itoa(c.N) + ")"
		if c.N >= 0 && c.N < 5 {
			want = []string{"ILLEGAL", "EOF", "WS", "MSGLEN", "SYSLOGMSG"}[c.N]
		}
		r.events++
		r.nontrivial = true
		r.class("names")
		if got := octetcounting.TokenType(c.N).String(); got != want {
			return fmt.Sprintf("the token type %d is %q, expected %q", c.N, got, want)
		}
		return ""
	}
	max := 8192
	if c.O.Max != nil {
		max = *c.O.Max
	}
	want, kinds := refScan(c.R.delivered(c.In))
	for k := range kinds {
		r.class(k)
	}
	if c.R.fails(len(c.In)) {
		r.class("failing reader")
	}
	r.nontrivial = len(want) > 2
	rd := newReader(c.In, c.R)
	s := octetcounting.NewScanner(rd.reader(), max)
	for i := 0; i < len(want)+4; i++ {
		w := "EOF"
		if i < len(want) {
			w = want[i]
		}
		t := s.Scan()
		r.events++
		if got := t.String(); got != w {
			return fmt.Sprintf("token %d is %s, expected %s (out of %d)", i, clip(got, 300), clip(w, 300), len(want))
		}
	}
	return ""
}

// ---------------------------------------------------------------- C35: streams always end, with sound results

// soundStream judges a result of a stream by itself; tail tells whether it may be that of an unterminated tail.
func soundStream(res *syslog.Result, best, tail bool) string {
	if res == nil {
		return "a nil result"
	}
	if d := soundResult(res.Message, res.Error, best || tail); d != "" {
		return d
	}
	return ""
}

func monStreamTotal(c *Case, r *Rec) string {
	kind := streamKind(c.K)
	g := &got{}
	var p syslog.Parser
	rd := newReader(c.In, c.R)
	most := bytes.Count(rd.data, []byte("<")) + 2 // an error, or a bad start and a tail
	bad := ""
	p = newStream(kind, c.O, func(res *syslog.Result) {
		r.events++
		if len(g.results) > 0 && bad == "" {
			last := g.results[len(g.results)-1]
			if d := soundStream(last, c.O.Best, false); d != "" {
				bad = fmt.Sprintf("result %d: %s", len(g.results)-1, d)
			}
		}
		g.results = append(g.results, res)
		if len(g.results) > most {
			panic(fmt.Sprintf("%d results out of %d octets with %d '<'", len(g.results), len(rd.data), most-2))
		}
	})
	parseThrough(p, rd)
	if bad != "" {
		return bad
	}
	cl := kind
	if c.O.Best {
		cl += " (best effort)"
	}
	n := len(g.results)
	if n > 0 {
		if d := soundStream(g.results[n-1], c.O.Best, kind == "nt"); d != "" {
			return fmt.Sprintf("result %d, the last one: %s", n-1, d)
		}
		last := g.results[n-1]
		switch {
		case last.Message != nil && last.Error != nil:
			cl += ": ends with a message and an error"
		case last.Error != nil:
			cl += ": ends with an error"
		default:
			cl += ": ends with a message"
		}
		r.nontrivial = true
	} else {
		cl += ": no results"
		if kind == "oct" {
			return "no result at all"
		}
	}
	r.class(cl)
	if c.R != nil && c.R.FailErr == "stalled" {
		r.class(kind + ": stalled reader")
	} else if c.R.fails(len(c.In)) {
		r.class(kind + ": failing reader")
	}
	return ""
}

// streamSoup gives hostile streams.
func streamSoup(r *rand.Rand, kind string, t byte, size int) []byte {
	switch r.Intn(7) {
	case 0: // octets
		b := make([]byte, r.Intn(size+1))
		r.Read(b)
		return b
	case 1: // what streams are made of
		var b []byte
		for k := r.Intn(12); k > 0; k-- {
			b = append(b, tokensStream[r.Intn(len(tokensStream))]...)
		}
		return b
	case 2: // one thing over and over
		u := pick(r, "<", "\n", "\x00", " ", "0", "1", "9", "1 ", "1 <", "16 <1>1 - - - - - -", "<\n", "<\x00", "<1>1 - - - - - -\n", "\n<", "<1>1 - - - - - -\x00", "2 <1", "99 <", "\r\n", "é", "\xff")
		return bytes.Repeat([]byte(u), r.Intn(size/len(u)+2))
	case 3: // a wrong octet
		in := soupBase(r, kind, t)
		if len(in) > 0 {
			in[r.Intn(len(in))] = someByte(r)
		}
		return in
	case 4: // one octet less, or more
		in := soupBase(r, kind, t)
		if len(in) > 0 {
			k := r.Intn(len(in))
			if r.Intn(2) == 0 {
				return cat(in[:k], in[k+1:])
			}
			return cat(in[:k], someByte(r), in[k:])
		}
		return in
	case 5: // wild counts
		n := pick(r, "0", "00016", "4294967312", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775824", "99999999999999999999999", "-1", "+16", "16.0", "1e1", "2147483648", "8193", "65537")
		return cat(octetStream(r, 2, false), n, " <1>1 - - - - - -", soupBase(r, kind, t))
	}
	return soupBase(r, kind, t)
}

func soupBase(r *rand.Rand, kind string, t byte) []byte {
	if kind == "nt" {
		return ntStream(r, 4, true, t)
	}
	return octetStream(r, 4, true)
}

func init() {
	monitors["hand"] = monHand
	monitors["scanner"] = monScanner
	monitors["streamtotal"] = monStreamTotal
	checks["C33"] = check{
		rule: "histories of assignments to the fields of new, built and parsed messages (every field, whole maps, elements, parameters, deletions, copies of the message) mixed with setter calls, some making many elements or parameters as in C21, serialized midway and at the end; the text is compared with a model, with the reference grammar, and parsed back; distinct = distinct (start, history), non-trivial = serialized at least once",
		run: func(x *Ctx) {
			x.require = append([]string{"not serializable", "without structured data", "with an empty map", "with elements", "param", "sdid", "host"}, handOps...)
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				pv := func() []BOp { return []BOp{{Op: "=cfp", N: r.Intn(192)}, {Op: "=ver", N: 1 + r.Intn(999)}} }
				// Every byte and every length, in every place
				for b := i; b < 256; b += n {
					ops := pv()
					if graph(byte(b)) && b != '-' {
						for _, f := range []string{"=host", "=app", "=proc", "=mid"} {
							ops = append(ops, BOp{Op: f, A: []byte{byte(b)}})
						}
						if sdchar(byte(b)) {
							ops = append(ops, BOp{Op: "=elem", A: []byte{byte(b)}}, BOp{Op: "=param", A: []byte("a"), B: []byte{byte(b)}, C: []byte("v")})
						}
					}
					ops = append(ops, BOp{Op: "=msg", A: []byte{byte(b)}}, BOp{Op: "=param", A: []byte("a"), B: []byte("k"), C: []byte(string(rune(b)))})
					for _, f := range []string{"x%cx", "%c%c", "\\%c", "%c\\", "\"%c"} {
						ops = append(ops, BOp{Op: "=param", A: []byte("a"), B: []byte("k"), C: []byte(strings.ReplaceAll(f, "%c", string(rune(b))))})
					}
					if !s.Eval(&Case{M: "hand", Ops: ops, Seed: -1}) {
						return
					}
				}
				for l := 1 + i; l <= 255; l += n {
					ops := append(pv(), BOp{Op: "=host", A: graphs(r, l)})
					if l <= 128 {
						ops = append(ops, BOp{Op: "=proc", A: graphs(r, l)})
					}
					if l <= 48 {
						ops = append(ops, BOp{Op: "=app", A: graphs(r, l)})
					}
					if l <= 32 {
						ops = append(ops, BOp{Op: "=mid", A: graphs(r, l)}, BOp{Op: "=elem", A: bytes.Repeat([]byte("n"), l)}, BOp{Op: "=param", A: bytes.Repeat([]byte("n"), l), B: bytes.Repeat([]byte("m"), l)})
					}
					ops = append(ops, BOp{Op: "=param", A: []byte("v"), B: []byte("v"), C: utf8Text(r, l*3)}, BOp{Op: "=msg", A: bytes.Repeat([]byte("m"), l*9)})
					if !s.Eval(&Case{M: "hand", Ops: ops, Seed: -1}) {
						return
					}
				}
				// Many, all by hand or in turns with setters
				k := 0
				manyOps(x, r, i, n, func(ops []BOp) bool {
					k++
					all := pv()
					for q := range ops {
						if (k%3 == 0 || q%3 > 0) && byHand(&ops[q]) {
							switch ops[q].Op {
							case "sdid":
								ops[q].Op, ops[q].N = "=elem", q%2
							case "param":
								ops[q].Op = "=param"
							}
						}
						all = append(all, ops[q])
					}
					return s.Eval(&Case{M: "hand", Ops: append(all, BOp{Op: "=param", A: []byte("last"), B: []byte("k"), C: []byte(`"]\`)})})
				})
				for c := 0; c < x.scale(14000, 250000); c++ {
					cs := &Case{M: "hand", Seed: r.Int63()}
					if c%4 == 0 {
						cs.In = anyInput(s, "5424")
						if len(cs.In) == 0 {
							cs.In = []byte("<1>1 - h")
						}
					} else if c%4 < 3 {
						cs.Ops = pv()
					}
					m := 1 + r.Intn(12)
					if c%20 == 0 {
						m = 40
					}
					for ; m > 0; m-- {
						if r.Intn(3) > 0 {
							cs.Ops = append(cs.Ops, randHand(r, handOps[r.Intn(len(handOps))]))
						} else {
							cs.Ops = append(cs.Ops, randBOps(r, 1)...)
						}
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
	checks["C34"] = check{
		rule: "random, token-wise enumerated, cut, failing and large streams through octetcounting.NewScanner (with any maximum) under all reader behaviours: the text of each token against a reference scanner, and four more scans after the end; the names of token types; distinct = distinct (stream, maximum, reader behaviour), non-trivial = more than one token",
		run: func(x *Ctx) {
			x.require = []string{"count", "space", "message", "illegal", "cut message", "failing reader", "names"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				for k := -300 + i; k <= 70000; k += n {
					if !s.Eval(&Case{M: "scanner", K: "names", N: k}) {
						return
					}
				}
				for _, k := range []int{math.MinInt32, math.MaxInt32, wrap(math.MaxInt64), wrap(math.MinInt64)} {
					if !s.Eval(&Case{M: "scanner", K: "names", N: k}) {
						return
					}
				}
				eval := func(in []byte) bool {
					o := Opt{}
					if r.Intn(3) == 0 {
						o.Max = intp([]int{0, -1, -20, -1000, 1, 16, 100, 65516, 65536, 1 << 20, math.MaxInt32, math.MinInt32, r.Intn(200)}[r.Intn(13)])
					}
					rs := randReader(r, len(in))
					if r.Intn(4) == 0 {
						fault(r, rs, r.Intn(len(in)+1))
					} else if r.Intn(4) == 0 {
						rs.Std = stdReaders[r.Intn(len(stdReaders))]
						if rs.Std == "pipe" {
							rs.Std = "tee"
						}
					}
					return s.Eval(&Case{M: "scanner", In: in, O: o, R: rs})
				}
				// All the sequences of some tokens
				toks := []string{"<", " ", "0", "1", "5", "20", "x", "\n", "<12345", "\x00"}
				total := 1
				for q := 0; q < x.scale(5, 6); q++ {
					total *= len(toks)
				}
				for k := i; k < total; k += n {
					var in []byte
					for v := k; v > 0; v /= len(toks) {
						in = append(in, toks[v%len(toks)]...)
					}
					if !eval(in) {
						return
					}
				}
				for b := i; b < 256; b += n {
					for _, f := range []string{"#", "5#<abcd", "5 #bcde", "5 <bcd#", "#5 <bcde#", "5# <bcde", "5 <b#de6 <#cdef", "1# <bcdefghijklmnopqrstuvwxyz"} {
						if !eval([]byte(strings.ReplaceAll(f, "#", string([]byte{byte(b)})))) {
							return
						}
					}
				}
				for c := 0; c < x.scale(8000, 150000); c++ {
					in := streamSoup(r, "oct", 0, 2000)
					if c%3 == 0 {
						in = octetStream(r, 12, true)
					}
					if !eval(in) {
						return
					}
				}
				for c := 0; c < x.scale(25, 250); c++ {
					var in []byte
					for q := 1 + r.Intn(3); q > 0; q-- {
						in = append(in, octetFrame(largeFrame(r, []int{8192, 8212, 8213, 16384, 65535, 65536, 65556, 65557, 100000, 131072, 200000, 1 << 20}[r.Intn(12)]))...)
					}
					if r.Intn(2) == 0 {
						in = in[:r.Intn(len(in))]
					}
					if !eval(in) {
						return
					}
				}
			})
		},
	}
	checks["C35"] = check{
		rule: "hostile streams (random octets, tokens, repetitions up to megabytes, one octet wrong, missing or added, wild counts) into both stream parsers under all options, with readers that fail, return nothing for ever, or hand out anything; each result is judged by itself, their number bounded, panics and hangs detected; distinct = distinct (stream, options, reader behaviour), non-trivial = something was delivered",
		run: func(x *Ctx) {
			x.require = []string{"nt: no results", "nt: stalled reader", "oct: stalled reader", "nt: failing reader", "oct: failing reader",
				"nt: ends with a message", "nt: ends with an error", "nt: ends with a message and an error", "oct: ends with a message", "oct: ends with an error", "oct (best effort): ends with a message and an error", "nt (best effort): ends with a message and an error"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				eval := func(k string, in []byte) bool {
					o := randStreamOpt(s)
					if k == "nt" {
						o.NUL = r.Intn(2) == 0
					} else if r.Intn(3) == 0 {
						o.Max = intp([]int{0, -1, 1, 15, 16, 17, 100, 8191, 65536, 1 << 20, math.MaxInt32, math.MinInt32, r.Intn(300)}[r.Intn(13)])
					}
					rs := randReader(r, len(in))
					switch r.Intn(6) {
					case 0:
						fault(r, rs, r.Intn(len(in)+1))
					case 1:
						fault(r, rs, r.Intn(len(in)+1))
						rs.FailErr, rs.With, rs.Resume = "stalled", false, false
					case 2:
						rs.Std = stdReaders[r.Intn(len(stdReaders))]
					}
					return s.Eval(&Case{M: "streamtotal", K: k, In: in, O: o, R: rs})
				}
				for c := 0; c < x.scale(9000, 200000); c++ {
					k := []string{"oct", "nt"}[c%2]
					size := 300
					if c%50 < 2 {
						size = 100000
					}
					if c%2000 < 2 {
						size = 4 << 20
					}
					if !eval(k, streamSoup(r, k, byte('\n'*(c/2%2)), size)) {
						return
					}
				}
				// All the sequences of some tokens
				total := 1
				for q := 0; q < x.scale(3, 4); q++ {
					total *= len(tokensStream)
				}
				for k := i; k < total; k += n {
					var in []byte
					for v := k; v > 0; v /= len(tokensStream) {
						in = append(in, tokensStream[v%len(tokensStream)]...)
					}
					if !eval([]string{"oct", "nt"}[k/n%2], in) {
						return
					}
				}
				hot := allWords(func(w string) bool {
					if r.Intn(x.scale(4, 1)) > 0 {
						return true
					}
					for _, k := range []string{"oct", "nt"} {
						for _, in := range wordStream(w, k, '\n') {
							if !eval(k, in) {
								return false
							}
						}
					}
					return true
				})
				if !hot {
					return
				}
			})
		},
	}
}
