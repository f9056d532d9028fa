package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------------- model of the builder

type built struct {
	out5 // pri is -1 when it was never set
}

func newBuilt() *built { return &built{out5{pri: -1}} }

func fieldOK(b []byte, max int) bool {
	if len(b) < 1 || len(b) > max {
		return false
	}
	for _, c := range b {
		if !graph(c) {
			return false
		}
	}
	return string(b) != "-"
}

func nameOK(b []byte) bool {
	if len(b) < 1 || len(b) > 32 {
		return false
	}
	for _, c := range b {
		if !sdchar(c) {
			return false
		}
	}
	return true
}

func stampOK(b []byte) (*ts, bool) {
	p := &p5{in: b}
	t, ok := p.rfc3339(6)
	if !ok || !p.eof() || t.d > daysIn(t.y, t.mo) {
		return nil, false
	}
	return &t, true
}

func valueOK(b []byte) (string, bool) {
	p := &p5{in: cat(b, `"`)}
	v, ok := p.value()
	if !ok || !p.eof() {
		return "", false
	}
	return v, true
}

// apply performs an operation on the model; it tells whether something was stored.
func (m *built) apply(op *BOp) bool {
	str := func(to **string, max int) bool {
		if fieldOK(op.A, max) {
			s := string(op.A)
			*to = &s
			return true
		}
		return false
	}
	elem := func() bool {
		if !nameOK(op.A) {
			return false
		}
		if m.sd == nil {
			m.sd = map[string]map[string]string{}
		}
		if _, ok := m.sd[string(op.A)]; ok {
			return false
		}
		m.sd[string(op.A)] = map[string]string{}
		return true
	}
	switch op.Op {
	case "pri":
		if n := op.N & 255; n <= 191 {
			m.pri = n
			return true
		}
	case "ver":
		if n := op.N & 65535; n >= 1 && n <= 999 {
			m.ver = n
			return true
		}
	case "ts":
		if t, ok := stampOK(op.A); ok {
			m.ts = t
			return true
		}
	case "host":
		return str(&m.host, 255)
	case "app":
		return str(&m.app, 48)
	case "proc":
		return str(&m.proc, 128)
	case "mid":
		return str(&m.mid, 32)
	case "msg":
		if len(op.A) > 0 {
			s := string(op.A)
			m.msg = &s
			return true
		}
	case "sdid":
		return elem()
	case "param":
		created := elem()
		ps, ok := m.sd[string(op.A)]
		if !ok {
			return created
		}
		if _, dup := ps[string(op.B)]; dup || !nameOK(op.B) {
			return created
		}
		if v, ok := valueOK(op.C); ok {
			ps[string(op.B)] = v
			return true
		}
		return created
	default:
		panic("unknown operation " + op.Op)
	}
	return false
}

func perform(b rfc5424.Builder, op *BOp) rfc5424.Builder {
	switch op.Op {
	case "pri":
		return b.SetPriority(uint8(op.N))
	case "ver":
		return b.SetVersion(uint16(op.N))
	case "ts":
		return b.SetTimestamp(string(op.A))
	case "host":
		return b.SetHostname(string(op.A))
	case "app":
		return b.SetAppname(string(op.A))
	case "proc":
		return b.SetProcID(string(op.A))
	case "mid":
		return b.SetMsgID(string(op.A))
	case "msg":
		return b.SetMessage(string(op.A))
	case "sdid":
		return b.SetElementID(string(op.A))
	case "param":
		return b.SetParameter(string(op.A), string(op.B), string(op.C))
	}
	panic("unknown operation " + op.Op)
}

// compareBuilt tells how a message differs from the model.
func compareBuilt(m *rfc5424.SyslogMessage, w *built) string {
	if w.pri < 0 {
		if m.Priority != nil || m.Facility != nil || m.Severity != nil {
			return fmt.Sprintf("priority %s, facility %s, severity %s although the priority was never set", u8(m.Priority), u8(m.Facility), u8(m.Severity))
		}
		var z uint8
		c := *m
		c.Priority, c.Facility, c.Severity = &z, &z, &z
		o := w.out5
		o.pri = 0
		return compare5(&c, &o)
	}
	return compare5(m, &w.out5)
}

// start gives the message a history of operations starts from, and its model.
func startBuild(c *Case) (*rfc5424.SyslogMessage, *built, string) {
	if c.In == nil {
		return &rfc5424.SyslogMessage{}, newBuilt(), ""
	}
	o := c.O
	o.Best = true
	m, err := new5424(o).Parse(c.In)
	g, bad := as5(m)
	if bad != "" || g == nil {
		return nil, nil, bad
	}
	w := ref5424(c.In, o.Compliant)
	b := &built{w.out}
	if d := compareBuilt(g, b); d != "" {
		return nil, nil, fmt.Sprintf("the parsed message: %s (error %v)", d, err)
	}
	return g, b, ""
}

// C21: every setter.
func monSetters(c *Case, r *Rec) string {
	g, w, bad := startBuild(c)
	if g == nil {
		return bad
	}
	from := "new"
	if c.In != nil {
		from = "parsed"
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		if i < c.N {
			// Many come first, judged when they are all there
			perform(g, op)
			w.apply(op)
			continue
		}
		before := ""
		if c.N == 0 {
			before = dump(g)
		}
		ret := perform(g, op)
		r.events++
		stored := w.apply(op)
		if stored {
			r.class(op.Op + ":stored")
			r.class("on a " + from + " message")
			r.nontrivial = true
		} else {
			r.class(op.Op + ":ignored")
		}
		if d := compareBuilt(g, w); d != "" {
			return fmt.Sprintf("after operation %d: %s (it was %s)", i, clip(d, 3000), clip(before, 3000))
		}
		if rs, ok := ret.(*rfc5424.SyslogMessage); !ok || rs == nil || dump(rs) != dump(g) {
			return fmt.Sprintf("operation %d returns another message", i)
		}
	}
	return ""
}

// text is the one the model serializes to, but for the timestamp (XX when there is one).
func (m *built) text() string {
	or := func(p *string) string {
		if p == nil {
			return "-"
		}
		return *p
	}
	t := "-"
	if m.ts != nil {
		t = "XX"
	}
	sd := "-"
	if m.sd != nil {
		sd = ""
		ids := []string{}
		for id := range m.sd {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			sd += "[" + id
			ks := []string{}
			for k := range m.sd[id] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				sd += " " + k + `="` + string(escape([]byte(m.sd[id][k]))) + `"`
			}
			sd += "]"
		}
	}
	s := fmt.Sprintf("<%d>%d %s %s %s %s %s %s", m.pri, m.ver, t, or(m.host), or(m.app), or(m.proc), or(m.mid), sd)
	if m.msg != nil {
		s += " " + *m.msg
	}
	return s
}

// judgeText compares the outcome of String with the model.
func judgeText(text string, err error, w *built) string {
	if w.pri < 0 || w.ver == 0 {
		if err == nil {
			return fmt.Sprintf("serialized to %q although it has no priority or version", text)
		}
		return ""
	}
	if err != nil {
		return "it can not be serialized: " + err.Error()
	}
	f := strings.SplitN(text, " ", 3)
	if len(f) != 3 {
		return fmt.Sprintf("serialized to %q", text)
	}
	if w.ts != nil {
		t, ok := stampOK([]byte(f[1]))
		if !ok || !t.time().Equal(w.ts.time()) || t.off != w.ts.off {
			return fmt.Sprintf("serialized to %q, the timestamp is %v", text, w.ts.time())
		}
		f[1] = "XX"
	}
	if got := strings.Join(f, " "); got != w.text() {
		return fmt.Sprintf("serialized to %q, expected %q", got, w.text())
	}
	if o := ref5424([]byte(text), false); !o.ok() {
		return fmt.Sprintf("serialized to %q, which does not follow the grammar", text)
	}
	m, perr := new5424(Opt{}).Parse([]byte(text))
	g, bad := as5(m)
	if bad != "" || perr != nil || g == nil {
		return fmt.Sprintf("serialized to %q, which is parsed as %s", text, dumpRes(m, perr))
	}
	if d := compareBuilt(g, w); d != "" {
		return fmt.Sprintf("serialized to %q, which is parsed with %s", text, d)
	}
	return ""
}

// C22: serialization of built messages.
func monSerialize(c *Case, r *Rec) string {
	g, w, bad := startBuild(c)
	if g == nil {
		return bad
	}
	look := func(i int) string {
		before := dump(g)
		text, err := g.String()
		r.events++
		if d := judgeText(text, err, w); d != "" {
			return fmt.Sprintf("after %d operations: %s", i, d)
		}
		if d := dump(g); d != before {
			return fmt.Sprintf("after %d operations: serializing %s changed it to %s", i, before, d)
		}
		if again, e := g.String(); again != text || (e == nil) != (err == nil) {
			return fmt.Sprintf("after %d operations: serialized to %q, then to %q", i, text, again)
		}
		if err != nil {
			r.class("not serializable")
		} else {
			r.nontrivial = true
			cl := "serialized"
			if w.sd != nil {
				cl += "+sd"
			}
			if w.ts != nil {
				cl += "+ts"
			}
			if w.msg != nil {
				cl += "+msg"
			}
			r.class(cl)
		}
		return ""
	}
	for i := range c.Ops {
		if (uint64(c.Seed)>>uint(i%60))&1 == 1 {
			if d := look(i); d != "" {
				return d
			}
		}
		perform(g, &c.Ops[i])
		w.apply(&c.Ops[i])
	}
	if d := look(len(c.Ops)); d != "" {
		return d
	}
	if c.N == 0 || c.In != nil {
		return ""
	}
	// Another order
	perm := rand.New(rand.NewSource(c.Seed)).Perm(len(c.Ops))
	g2, w2 := &rfc5424.SyslogMessage{}, newBuilt()
	for _, k := range perm {
		perform(g2, &c.Ops[k])
		w2.apply(&c.Ops[k])
	}
	if w.pri < 0 || w.ver == 0 || w.text() != w2.text() || (w.ts != nil && w.ts.time() != w2.ts.time()) {
		return ""
	}
	t1, e1 := g.String()
	t2, e2 := g2.String()
	r.class("other order")
	if t1 != t2 || (e1 == nil) != (e2 == nil) {
		return fmt.Sprintf("serialized to %q, and with the operations in the order %v to %q", t1, perm, t2)
	}
	return ""
}

// C23: parse, serialize, parse.
func monReparse(c *Case, r *Rec) string {
	m, err := new5424(c.O).Parse(c.In)
	g, bad := as5(m)
	if bad != "" || g == nil {
		r.class("no message")
		return bad
	}
	cl := "whole"
	if err != nil {
		cl = "partial"
	}
	if g.StructuredData != nil {
		cl += "+sd"
	}
	r.class(cl)
	r.nontrivial = true
	before := dump(g)
	text, serr := g.String()
	r.events++
	if serr != nil {
		return fmt.Sprintf("%s can not be serialized: %v", before, serr)
	}
	if now := dump(g); now != before {
		return fmt.Sprintf("serializing %s changed it to %s", before, now)
	}
	m2, err2 := new5424(Opt{Parser: c.O.Parser}).Parse([]byte(text))
	g2, bad := as5(m2)
	if bad != "" || err2 != nil || g2 == nil {
		return fmt.Sprintf("%s serialized to %q, which is parsed as %s", before, text, dumpRes(m2, err2))
	}
	if d := diff5(g, g2); d != "" {
		return fmt.Sprintf("serialized to %q, before and after: %s", text, d)
	}
	text2, serr := g2.String()
	if serr != nil || text2 != text {
		return fmt.Sprintf("serialized to %q, then to %q (%v)", text, text2, serr)
	}
	return ""
}

// ---------------------------------------------------------------- operations

var bopNames = []string{"pri", "ver", "ts", "host", "app", "proc", "mid", "msg", "sdid", "param"}
var bopMax = map[string]int{"host": 255, "app": 48, "proc": 128, "mid": 32, "sdid": 32}

func randField(r *rand.Rand, max int) []byte {
	switch r.Intn(9) {
	case 8:
		if r.Intn(3) == 0 {
			return []byte(word(r))
		}
		return graphWord(word(r), max, false)
	case 0:
		return []byte(pick(r, "-", "", " ", "--", "a b", "\x7f", "é", "\x00", "~", "!", "-a", "a-", "\n", "]", "=", "\"", "\\"))
	case 1:
		return graphs(r, max+r.Intn(4)-1)
	case 2:
		b := graphs(r, 1+r.Intn(max))
		b[r.Intn(len(b))] = someByte(r)
		return b
	}
	return graphs(r, length(r, max))
}

func randValue(r *rand.Rand) []byte {
	v := escape(utf8Text(r, r.Intn(12)))
	switch r.Intn(9) {
	case 8:
		return escape([]byte(word(r)))
	case 0:
		return []byte{}
	case 1:
		return utf8Text(r, r.Intn(6)) // the escapes are missing
	case 2:
		if len(v) > 0 {
			v[r.Intn(len(v))] = someByte(r)
		}
	case 3:
		if len(v) > 0 {
			v = v[:r.Intn(len(v))]
		}
	case 4:
		return []byte(pick(r, `\"`, `\\`, `\]`, `\\\"\]`, `a\`, `\a`, `"`, `]`, `[`, "\\\\\"", "é\\\"é", "\xc3", "\xed\xa0\x80", `\\\\`, `x\]y`))
	}
	return v
}

// randBOp gives an operation; plain ones keep to valid values and to unused names.
func randBOp(r *rand.Rand, name string) BOp {
	op := BOp{Op: name}
	id := func() []byte {
		switch r.Intn(8) {
		case 0:
			return randField(r, 32)
		case 1:
			return sdName(r)
		}
		return []byte(pick(r, "a", "b", "c", "-", "z@1", "A", "aa", "ab"))
	}
	switch name {
	case "pri":
		op.N = r.Intn(192)
		if n, ok := hot(r, 0, 255); ok {
			op.N = n
		}
		if r.Intn(4) == 0 {
			op.N = []int{0, 191, 192, 193, 200, 255, 7, 8}[r.Intn(8)]
		}
	case "ver":
		op.N = 1 + r.Intn(999)
		if n, ok := hot(r, 0, 65535); ok {
			op.N = n
		}
		if r.Intn(4) == 0 {
			op.N = []int{0, 1, 999, 1000, 1001, 65535, 9999, 256, 1023, 10}[r.Intn(10)]
		}
	case "ts":
		t := rfc3339Text(r, true)
		switch r.Intn(8) {
		case 0:
			t = pick(r, "-", "", "x", "2003-02-30T00:00:00Z", "2003-02-29T00:00:00Z", "2003-10-11T22:14:15.1234567Z", "2003-10-11T22:14:15.Z", "2003-10-11T24:00:00Z", "2003-10-11t22:14:15z", "2003-10-11 22:14:15Z", "2003-10-11T22:14:60Z", "2003-10-11T22:14:15", "2003-10-11T22:14:15+24:00", "2003-10-11T22:14:15Z ", " 2003-10-11T22:14:15Z", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999-23:59", "2003-04-31T00:00:00Z")
		case 1:
			t = string(mutate(r, []byte(t), []string{"0", "9", ".", "Z", "T", "+00:00"}))
		}
		op.A = []byte(t)
	case "msg":
		op.A = msgText(r)
	case "sdid":
		op.A = id()
	case "param":
		op.A, op.B, op.C = id(), id(), randValue(r)
		if r.Intn(3) == 0 {
			op.A = []byte(pick(r, "a", "b"))
			op.B = []byte(pick(r, "k", "a", "b", "K"))
		}
	default:
		op.A = randField(r, bopMax[name])
	}
	if op.A == nil {
		op.A = []byte{}
	}
	return op
}

func randBOps(r *rand.Rand, n int) []BOp {
	var ops []BOp
	for ; n > 0; n-- {
		name := bopNames[r.Intn(len(bopNames))]
		if r.Intn(3) == 0 {
			name = "param"
		}
		ops = append(ops, randBOp(r, name))
	}
	return ops
}

// manyOps calls f with histories of setter calls making many elements, parameters, or calls: the share of shard i of n.
func manyOps(x *Ctx, r *rand.Rand, i, n int, f func(ops []BOp) bool) {
	sizes := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192}
	if x.thorough() {
		sizes = append(sizes, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000)
	}
	for _, h := range hotSizes {
		if h <= 40000 {
			sizes = append(sizes, h)
		}
	}
	for k := i; k < 5*len(sizes); k += n {
		size := sizes[k/5]
		name := longNames(r, size+8)
		if k%10 < 5 {
			name = func(k int) []byte { return []byte(fmt.Sprintf("n%d", k)) }
		}
		var ops []BOp
		for q := 0; q < size+8; q++ {
			switch k % 5 {
			case 0: // elements
				ops = append(ops, BOp{Op: "sdid", A: name(q)})
			case 1: // parameters of one
				ops = append(ops, BOp{Op: "param", A: []byte("e"), B: name(q), C: []byte{byte('a' + q%26)}})
			case 2: // elements with a parameter
				ops = append(ops, BOp{Op: "param", A: name(q), B: []byte("p"), C: []byte{byte('a' + q%26)}})
			case 3: // some of each
				ops = append(ops, BOp{Op: "param", A: name(q % (2 + size/7)), B: name(q), C: []byte(`\"\\x`)})
			case 4: // calls of every setter
				ops = append(ops, randBOp(r, bopNames[r.Intn(len(bopNames))]))
			}
		}
		if !f(ops) {
			return
		}
	}
}

// workSetters drives f with systematic single values for every setter: the share of shard i of n.
func workSetters(s *Shard, i, n int, f func(op BOp) bool) {
	x := s.x
	r := s.rng
	k := 0
	mine := func() bool { k++; return k%n == i }
	for v := 0; v < 65536; v++ {
		if !mine() {
			continue
		}
		if v < 256 && !f(BOp{Op: "pri", N: v}) {
			return
		}
		if !f(BOp{Op: "ver", N: v}) {
			return
		}
	}
	places := []string{"host", "app", "proc", "mid", "sdid", "pid", "pname", "pvalue", "msg", "ts"}
	put := func(place string, v []byte) bool {
		if v == nil {
			v = []byte{}
		}
		switch place {
		case "pid":
			return f(BOp{Op: "param", A: v, B: []byte("k"), C: []byte("v")})
		case "pname":
			return f(BOp{Op: "param", A: []byte("a"), B: v, C: []byte("v")})
		case "pvalue":
			return f(BOp{Op: "param", A: []byte("a"), B: []byte("k"), C: v})
		}
		return f(BOp{Op: place, A: v})
	}
	// Every byte, alone and around others; every pair
	for b := 0; b < 256; b++ {
		for _, pl := range places {
			if !mine() {
				continue
			}
			for _, v := range [][]byte{{byte(b)}, {'a', byte(b)}, {byte(b), 'a'}, {'a', byte(b), 'a'}, {'a', 'b', byte(b), byte(b)}, {'\\', byte(b)}, {'\\', '\\', byte(b)}} {
				if !put(pl, v) {
					return
				}
			}
			for q := 0; q < 256; q++ {
				if !put(pl, []byte{byte(b), byte(q)}) {
					return
				}
			}
		}
	}
	// Every length
	for _, pl := range places {
		max := map[string]int{"host": 258, "app": 51, "proc": 131, "mid": 35, "sdid": 35, "pid": 35, "pname": 35, "pvalue": 300, "msg": 300}[pl]
		for l := 0; l <= max; l++ {
			if !mine() {
				continue
			}
			for v := 0; v < 3; v++ {
				g := sdNames(r, l)
				if !put(pl, g) {
					return
				}
				if l > 0 {
					g[r.Intn(l)] = someByte(r)
					if !put(pl, g) {
						return
					}
					// The offending byte is the last one
					g = sdNames(r, l)
					g[l-1] = interesting[r.Intn(len(interesting))]
					if !put(pl, g) {
						return
					}
				}
			}
		}
	}
	// Values: all the short ones over an alphabet, UTF-8
	if !enumerate([]string{"a", "\\", "\"", "]", "é", "\xc3", " ", "="}, x.scale(5, 7), func(w []byte) bool {
		if !mine() {
			return true
		}
		return put("pvalue", append([]byte{}, w...))
	}) {
		return
	}
	for a := 0xc0; a < 256; a++ {
		if !mine() {
			continue
		}
		for b := 0x7e; b < 0xc2; b++ {
			for _, c := range []byte{0x7f, 0x80, 0xbf, 0xc0, 'a', '"'} {
				if !put("pvalue", []byte{byte(a), byte(b), c}) {
					return
				}
				for _, d := range []byte{0x7f, 0x80, 0xbf, 0xc0} {
					if a >= 0xee && !put("pvalue", []byte{byte(a), byte(b), c, d}) {
						return
					}
				}
			}
		}
	}
	// Dates and times
	for y := 0; y < 10000; y += 1 {
		if !mine() {
			continue
		}
		for _, md := range []string{"02-28", "02-29", "02-30"} {
			if !put("ts", []byte(fmt.Sprintf("%04d-%sT00:00:00Z", y, md))) {
				return
			}
		}
	}
	for m := 0; m <= 13; m++ {
		for d := 0; d <= 32; d++ {
			if mine() && (!put("ts", []byte(fmt.Sprintf("2003-%02d-%02dT12:34:56.7+01:00", m, d))) || !put("ts", []byte(fmt.Sprintf("2004-%02d-%02dT12:34:56.7+01:00", m, d)))) {
				return
			}
		}
	}
	for a := 0; a < 100; a++ {
		for b := 0; b < 62; b++ {
			if !mine() {
				continue
			}
			for _, t := range []string{
				fmt.Sprintf("2003-10-11T%02d:%02d:15Z", a, b), fmt.Sprintf("2003-10-11T22:%02d:%02dZ", b, a),
				fmt.Sprintf("2003-10-11T22:14:15+%02d:%02d", a, b), fmt.Sprintf("2003-10-11T22:14:15.5-%02d:%02d", a, b)} {
				if !put("ts", []byte(t)) {
					return
				}
			}
		}
	}
	for _, t := range notable(true) {
		if mine() && !put("ts", []byte(t)) {
			return
		}
	}
	// Every byte in every state
	for _, pl := range []string{"host", "app", "proc", "mid", "sdid", "pid", "pname"} {
		max := bopMax[pl]
		if max == 0 {
			max = 32
		}
		if !transitions([][]byte{fieldOf(max), fieldOf(max + 1)}, mine, func(in []byte) bool { return put(pl, in) }) {
			return
		}
	}
	for _, ctx := range []string{"", "a", "\\\"", "é", "€", "\U0001f600"} {
		for a := 0; a < 256; a++ {
			if !mine() {
				continue
			}
			for _, tail := range []string{"", "\x7f", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc0", "\"", "\\", "]", "\x80\x80", "\xa0\x80", "\xbf\xbf", "\x90\x80\x80", "\x80\x80\x80", "\xbf\xbf\xbf", "\x90\x80\x7f", "\x90\x80\xc0", "\x90\x7f\x80", "\x80b", "\xbf\xbf\xbfb"} {
				if !put("pvalue", cat(ctx, byte(a), tail)) {
					return
				}
			}
		}
	}
	for _, size := range bigSizes {
		if !mine() {
			continue
		}
		for _, pl := range places {
			if size < 300000 && !put(pl, graphs(r, size)) {
				return
			}
		}
		if size > 2000000 {
			continue
		}
		if !put("pvalue", escape(utf8Text(r, size))) || !put("pvalue", bytes.Repeat([]byte("\\]"), size/2)) || !put("msg", utf8Text(r, size)) {
			return
		}
	}
	if !allWords(func(w string) bool {
		if !mine() {
			return true
		}
		for _, pl := range places {
			if !put(pl, []byte(w)) || pl == "pvalue" && !put(pl, escape([]byte(w))) {
				return false
			}
			if max := bopMax[pl]; pl != "msg" && pl != "pvalue" && pl != "ts" {
				if max == 0 {
					max = 32
				}
				if !put(pl, graphWord(w, max, max == 32 && pl != "mid")) {
					return false
				}
			}
		}
		return true
	}) {
		return
	}
	base := []byte("2003-10-11T22:14:15.003456-07:30")
	for p := 0; p <= len(base); p++ {
		if !mine() {
			continue
		}
		if !put("ts", base[:p:p]) {
			return
		}
		for b := 0; b < 256; b++ {
			if p < len(base) && (!put("ts", cat(base[:p], byte(b), base[p+1:])) || !put("ts", cat(base[:p], base[p+1:]))) {
				return
			}
			if !put("ts", cat(base[:p], byte(b), base[p:])) {
				return
			}
		}
	}
}

var fillOps = []BOp{{Op: "pri", N: 34}, {Op: "ver", N: 7}, {Op: "ts", A: []byte("2001-02-03T04:05:06.7+08:00")}, {Op: "host", A: []byte("H")}, {Op: "app", A: []byte("A")}, {Op: "proc", A: []byte("P")}, {Op: "mid", A: []byte("M")}, {Op: "sdid", A: []byte("e")}, {Op: "param", A: []byte("a"), B: []byte("q"), C: []byte("1")}, {Op: "msg", A: []byte("msg")}}

func init() {
	monitors["setters"] = monSetters
	monitors["serialize"] = monSerialize
	monitors["reparse"] = monReparse
	requireOps := func() []string {
		var out []string
		for _, n := range bopNames {
			out = append(out, n+":stored", n+":ignored")
		}
		return append(out, "on a new message", "on a parsed message")
	}
	checks["C21"] = check{
		rule: "every setter with every priority and version, every byte and pair of bytes, every length, dates, times, UTF-8 and escape enumerations, words real messages hold, on an empty and on a filled message; histories making many elements, parameters or calls (up to 8200, and the numbers new to the code; thorough: 100000); random histories of up to 30 calls on new messages and on parsed (partial ones too) messages; all the fields are compared with a model after each call; distinct = distinct (start, history), non-trivial = something was stored",
		run: func(x *Ctx) {
			x.require = requireOps()
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				workSetters(s, i, n, func(op BOp) bool {
					k++
					c := &Case{M: "setters", Ops: []BOp{op}}
					if k%2 == 0 {
						c.Ops = append(append([]BOp{}, fillOps...), op)
					} else if k%7 == 0 {
						c.Ops = append(c.Ops, fillOps...)
					}
					return s.Eval(c)
				})
				manyOps(x, r, i, n, func(ops []BOp) bool {
					cut := len(ops) - 14
					ops = append(ops, BOp{Op: "sdid", A: []byte("last")}, BOp{Op: "param", A: []byte("last"), B: []byte("k"), C: []byte("v")}, BOp{Op: "param", A: ops[0].A, B: []byte("q"), C: []byte("v")})
					ops = append(ops, fillOps...)
					return s.Eval(&Case{M: "setters", Ops: ops, N: cut})
				})
				for c := 0; c < x.scale(12000, 200000); c++ {
					m := 1 + r.Intn(12)
					if c%20 == 0 {
						m = 30
					}
					cs := &Case{M: "setters", Ops: randBOps(r, m)}
					if c%3 == 0 {
						cs.In = anyInput(s, "5424")
						cs.O.Compliant = r.Intn(2) == 0
						if len(cs.In) == 0 {
							cs.In = []byte("<1>1 - h")
						}
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
	checks["C22"] = check{
		rule: "the systematic values of C21 set on a message that can be serialized, and random histories of setter calls (from scratch or from parsed messages) serialized midway and at the end, in two orders; histories making many elements or parameters as in C21; the text is compared with the model, with the reference grammar, and parsed back; distinct = distinct (start, history), non-trivial = serialized at least once",
		run: func(x *Ctx) {
			x.require = []string{"not serializable", "serialized", "serialized+sd", "serialized+sd+ts+msg", "serialized+ts", "serialized+msg", "other order"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				workSetters(s, i, n, func(op BOp) bool {
					k++
					if op.Op == "ver" && op.N > 1100 {
						return true
					}
					c := &Case{M: "serialize", Ops: []BOp{{Op: "pri", N: k % 192}, {Op: "ver", N: 1 + k%999}, op}}
					if k%3 == 0 {
						c.Ops = append(append([]BOp{}, fillOps...), op)
					}
					return s.Eval(c)
				})
				for c := 0; c < x.scale(15000, 250000); c++ {
					m := 1 + r.Intn(12)
					if c%20 == 0 {
						m = 30
					}
					cs := &Case{M: "serialize", Ops: randBOps(r, m), Seed: r.Int63(), N: 1}
					if r.Intn(3) > 0 {
						cs.Ops = append([]BOp{{Op: "pri", N: r.Intn(192)}, {Op: "ver", N: 1 + r.Intn(999)}}, cs.Ops...)
					}
					if c%4 == 0 {
						cs.In = anyInput(s, "5424")
						if len(cs.In) == 0 {
							cs.In = []byte("<1>1 - h")
						}
					}
					if !s.Eval(cs) {
						return
					}
				}
				for c := 0; c < x.scale(12, 150); c++ {
					cs := &Case{M: "serialize", Ops: []BOp{{Op: "pri", N: 1}, {Op: "ver", N: 1}}, Seed: r.Int63() &^ 0xffffffff, N: 1}
					n := []int{30, 130, 260, 520}[c%4] + r.Intn(10)
					name := longNames(r, n)
					for _, k := range r.Perm(n) {
						cs.Ops = append(cs.Ops, BOp{Op: "param", A: name(k % (1 + n/(1+c%3*c%3*4))), B: name(k), C: []byte{byte('a' + k%26)}})
					}
					if !s.Eval(cs) {
						return
					}
				}
				manyOps(x, r, i, n, func(ops []BOp) bool {
					return s.Eval(&Case{M: "serialize", Ops: append([]BOp{{Op: "pri", N: 1}, {Op: "ver", N: 1}}, ops...), N: 1})
				})
				// Many names
				for c := 0; c < x.scale(150, 2000); c++ {
					cs := &Case{M: "serialize", Ops: []BOp{{Op: "pri", N: 1}, {Op: "ver", N: 1}}, Seed: r.Int63() &^ 0xffffffff, N: 1}
					for q := 20 + r.Intn(40); q > 0; q-- {
						cs.Ops = append(cs.Ops, BOp{Op: "param", A: sdNames(r, 1+r.Intn(3)), B: sdNames(r, 1+r.Intn(2)), C: escape(utf8Text(r, r.Intn(5)))})
					}
					if !s.Eval(cs) {
						return
					}
				}
			})
		},
	}
	checks["C23"] = check{
		rule: "the inputs of C01 under both best effort settings and message modes: whenever a message comes back it is serialized, parsed and serialized again; distinct = distinct (input, options), non-trivial = a message came back",
		run: func(x *Ctx) {
			x.require = []string{"whole", "whole+sd", "partial", "partial+sd", "no message"}
			x.Run(16, func(s *Shard, i, n int) {
				k := 0
				work5424(s, i, n, func(section string, in []byte) bool {
					k++
					o := Opt{Best: k%8 != 0, Compliant: k%3 == 0, Parser: k%5 == 0}
					return s.Eval(&Case{M: "reparse", K: section, In: in, O: o})
				})
			})
		},
	}
}
