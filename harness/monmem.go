package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/common"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------------- C30: memory

// live tells the memory in use after a collection.
func live() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// allocated tells how much was allocated so far.
func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// gauge watches the memory in use along a history.
type gauge struct {
	seen    []uint64
	largest int
}

func (g *gauge) look(r *Rec) {
	g.seen = append(g.seen, live())
	r.events++
}

// slack is what the memory in use can vary without having to do with the length of the history.
const slack = 1 << 20

// verdict compares the memory in use during the second half of a history with that early in it.
func (g *gauge) verdict() string {
	if len(g.seen) < 4 {
		return fmt.Sprintf("only %d looks at the memory", len(g.seen))
	}
	base := g.seen[1] // the first one precedes buffers
	if g.seen[0] > base {
		base = g.seen[0]
	}
	allowed := base + slack + 16*uint64(g.largest)
	for i := len(g.seen) / 2; i < len(g.seen); i++ {
		if g.seen[i] > allowed {
			return fmt.Sprintf("the memory in use grows with the history: it was, at regular intervals, %d bytes (largest input %d bytes)", g.seen, g.largest)
		}
	}
	return ""
}

// serial makes RFC 5424 frames differing in all their parts.
func serial(r *rand.Rand, k int) []byte {
	v := strconv.FormatInt(int64(k)*2654435761%1000000007, 36)
	switch k % 8 {
	case 0:
		return []byte(fmt.Sprintf("<%d>1 20%02d-03-11T22:%02d:15.%06dZ h%s a%s p%s m%s [i%s n%s=\"v%s\"] t%s", k%192, k%100, k%60, k%1000000, v, v, v, v, v, v, v, v))
	case 1:
		return []byte(fmt.Sprintf("<%d>%d - h%s - - - - t%s", k%192, 1+k%999, v, v))
	case 2:
		return []byte(fmt.Sprintf("<1>1 2003-10-11T22:14:15+%02d:%02d - a%s - - [i%s][j%s a=\"%s\\]\" b=\"\\\"\"]", k%24, k%60, v, v, v, v))
	case 3:
		return []byte(fmt.Sprintf("<1>1 - - - p%s m%s -", v, v))
	case 4:
		return []byte(fmt.Sprintf("<1>1 - h%s a%s - - - \xef\xbb\xbft%s\n%s", v, v, v, v))
	case 5:
		return cat(fmt.Sprintf("<1>1 - %s a - - - ", v), bytes.Repeat([]byte(v), r.Intn(60)))
	case 6: // wrong in some part
		return []byte(fmt.Sprintf("<%d>1 %s h%s a%s p m [%s", k%300, pick(r, "-", "2003-02-30T00:00:00Z", "x"), v, v, v))
	}
	return []byte(fmt.Sprintf("<34>1 2003-10-11T22:14:15.003Z host%s app - ID47 [ex@32473 iut=\"%s\" e=\"%s\"] BOM%s", v, v, v, v))
}

func serial3164(r *rand.Rand, k int) []byte {
	v := strconv.FormatInt(int64(k)*2654435761%1000000007, 36)
	switch k % 4 {
	case 0:
		return []byte(fmt.Sprintf("<%d>Dec %2d %02d:%02d:%02d h%s a%s[p%s]: m%s", k%192, 1+k%31, k%24, k%60, k%60, v, v, v, v))
	case 1:
		return []byte(fmt.Sprintf("<1>Feb 29 00:00:00 h%s m%s", v, v))
	case 2:
		return []byte(fmt.Sprintf("<1>20%02d-03-11T22:%02d:15%s h%s m%s", k%100, k%60, pick(r, "Z", "+01:00", "-03:30"), v, v))
	}
	return []byte(fmt.Sprintf("<1>Feb %d 00:00:00 h%s t%s[", k%40, v, v))
}

// endless hands out pieces made on demand.
type endless struct {
	next  func() []byte // nil: the end
	buf   []byte
	chunk int
}

func (e *endless) Read(p []byte) (int, error) {
	if len(e.buf) == 0 {
		if e.buf = e.next(); e.buf == nil {
			return 0, io.EOF
		}
	}
	n := len(e.buf)
	if e.chunk > 0 {
		n = minInt(n, e.chunk)
	}
	n = copy(p, e.buf[:minInt(n, len(p))])
	e.buf = e.buf[n:]
	return n, nil
}

const looks = 8

// trifle is what the memory in use does not vary by from the middle to the end of a history.
const trifle = 48 << 10

// monMemory watches a history; one along which the memory grows by little must go on growing in a longer one: what is kept
// up to a limit does not.
func monMemory(c *Case, r *Rec) string {
	g := &gauge{}
	if m := memoryHistory(c, r, g); m != "" || c.K == "announced" {
		return m
	}
	late := func(g *gauge) int64 { return int64(g.seen[len(g.seen)-1]) - int64(g.seen[len(g.seen)/2]) }
	first := late(g)
	if first <= trifle+int64(g.largest) {
		return ""
	}
	longer := *c
	longer.N *= 4
	g = &gauge{}
	if m := memoryHistory(&longer, r, g); m != "" {
		return m
	}
	if second := late(g); second > 2*first && second > 3*trifle {
		return fmt.Sprintf("the memory in use goes on growing with the history: it was, at regular intervals, %d bytes, %d bytes more in the second half of a history of %d inputs, and %d bytes more in that of one of %d inputs", g.seen, first, c.N, second, longer.N)
	}
	r.class("something is kept, up to a limit")
	return ""
}

func memoryHistory(c *Case, r *Rec, g *gauge) string {
	rng := rand.New(rand.NewSource(c.Seed))
	r.class(c.K)
	r.nontrivial = true
	each := maxInt(1, c.N/looks)
	results := 0
	count := func(*syslog.Result) { results++ }
	switch c.K {
	case "oct", "nt", "nt illegal", "nt single bytes", "oct single bytes":
		kind := streamKind(strings.Fields(c.K)[0])
		t := byte('\n')
		if c.O.NUL {
			t = 0
		}
		k := 0
		e := &endless{}
		if strings.HasSuffix(c.K, "single bytes") {
			e.chunk = 1
		}
		e.next = func() []byte {
			if k%each == 0 {
				g.look(r)
			}
			if k++; k > c.N {
				return nil
			}
			f := serial(rng, k)
			if c.K == "nt illegal" && k == 1 {
				f = []byte("no message")
			}
			if !c.O.Best && k%8 == 6 && kind == "oct" {
				f = serial(rng, k+1)
			}
			g.largest = maxInt(g.largest, len(f))
			if kind == "oct" {
				return octetFrame(f)
			}
			return cat(f, t)
		}
		newStream(kind, c.O, count).Parse(e)
		if k <= c.N {
			return fmt.Sprintf("the stream was given up after %d of %d frames", k, c.N)
		}
		want := c.N
		if c.K == "nt illegal" {
			want = 1
		}
		if results != want {
			return fmt.Sprintf("%d results instead of %d", results, want)
		}
	case "oct streams", "nt streams":
		// One parser, many short streams
		kind := streamKind(strings.Fields(c.K)[0])
		t := byte('\n')
		if c.O.NUL {
			t = 0
		}
		panics := false
		p := newStream(kind, c.O, func(*syslog.Result) {
			if panics {
				panic("the listener")
			}
			results++
		})
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			in := serial(rng, k)
			if kind == "oct" {
				in = octetFrame(in)
			} else {
				in = cat(in, t)
			}
			g.largest = maxInt(g.largest, len(in))
			in = in[:len(in)-k%3]
			if k%7 == 0 {
				in = append([]byte{'x'}, in...)
			}
			var rd io.Reader = bytes.NewReader(in)
			if k%5 == 0 {
				rd = io.MultiReader(rd, iotest.ErrReader(fmt.Errorf("failure %d of the reader", k)))
			}
			if k%11 == 0 {
				// The listener, or the reader, panics
				panics = k%2 == 0
				func() {
					defer func() {
						recover()
						panics = false
					}()
					if k%2 == 1 {
						rd = io.MultiReader(rd, panicReader{})
					}
					p.Parse(rd)
				}()
				results++ // that of the panic
				continue
			}
			p.Parse(rd)
		}
		if results < c.N {
			return fmt.Sprintf("%d results for %d streams", results, c.N)
		}
		runtime.KeepAlive(p)
	case "5424":
		m := new5424(c.O)
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			in := serial(rng, k)
			if k%1000 == 999 {
				in = cat("<1>1 - - - - - [a", bytes.Repeat([]byte(" b=\"\\\\\""), 200), "] ", bytes.Repeat([]byte("m"), 3000))
			}
			g.largest = maxInt(g.largest, len(in))
			m.Parse(in)
		}
		runtime.KeepAlive(m)
	case "3164":
		m := new3164(c.O)
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			in := serial3164(rng, k)
			g.largest = maxInt(g.largest, len(in))
			m.Parse(in)
		}
		runtime.KeepAlive(m)
	case "instances":
		// Instances made, used and dropped
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			in := serial(rng, k)
			g.largest = maxInt(g.largest, len(in))
			switch k % 4 {
			case 0:
				new5424(c.O).Parse(in)
			case 1:
				new3164(Opt{Best: c.O.Best, HasYear: true, Year: k, TZ: "Europe/Rome", Locale: "America/New_York", Parser: c.O.Parser}).Parse(serial3164(rng, k))
			case 2:
				newStream("oct", c.O, count).Parse(bytes.NewReader(octetFrame(in)))
			case 3:
				newStream("nt", c.O, count).Parse(bytes.NewReader(in))
			}
		}
	case "builder":
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			v := strconv.Itoa(k)
			b := &rfc5424.SyslogMessage{}
			b.SetPriority(uint8(k%192)).SetVersion(1).SetHostname("h"+v).SetAppname("a"+v).SetProcID("p"+v).SetMsgID("m"+v).SetParameter("i"+v, "n"+v, "v"+v).SetElementID("e" + v).SetMessage("t" + v)
			if s, err := b.String(); err != nil || len(s) < 10 {
				return fmt.Sprintf("it can not be serialized: %q %v", s, err)
			}
			b.FacilityMessage()
			b.SeverityShortLevel()
			g.largest = 200
		}
	case "one message":
		// The same message set, serialized and looked at over and over
		b := &rfc5424.SyslogMessage{}
		b.SetPriority(1).SetVersion(1).SetParameter("id", "name", "value")
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			v := strconv.Itoa(k)
			b.SetPriority(uint8(k % 192)).SetVersion(uint16(1 + k%999)).SetHostname("h" + v).SetAppname("a" + v).SetProcID("p" + v).SetMsgID("m" + v).SetMessage("t" + v).SetTimestamp(fmt.Sprintf("20%02d-03-11T22:%02d:15.%06dZ", k%100, k%60, k%1000000))
			b.SetParameter("id", "name", v).SetElementID("in valid" + v).SetHostname("\x00" + v)
			delete((*b.StructuredData)["id"], "name")
			b.SetParameter("id", "name", v)
			if s, err := b.String(); err != nil || len(s) < 10 {
				return fmt.Sprintf("it can not be serialized: %q %v", s, err)
			}
			b.FacilityLevel()
			b.SeverityLevel()
			b.Valid()
			results++
		}
		g.largest = 200
		runtime.KeepAlive(b)
	case "options again":
		// Options set over and over
		m5, m3 := new5424(Opt{}), new3164(Opt{})
		oct, nt := newStream("oct", Opt{}, count), newStream("nt", Opt{}, count)
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			for _, m := range []syslog.Machine{m5, m3} {
				m.WithBestEffort()
				m.HasBestEffort()
			}
			rfc5424.WithCompliantMsg()(m5)
			rfc5424.WithBestEffort()(m5)
			rfc3164.WithBestEffort()(m3)
			rfc3164.WithRFC3339()(m3)
			rfc3164.WithYear(rfc3164.Year{YYYY: k % 3000})(m3)
			rfc3164.WithTimezone(time.UTC)(m3)
			rfc3164.WithLocaleTimezone(time.FixedZone("Z"+strconv.Itoa(k), k%3600))(m3)
			for _, p := range []syslog.Parser{oct, nt} {
				p.WithBestEffort()
				p.WithListener(func(*syslog.Result) { results += 1 + k - k })
				p.WithMaxMessageLength(100 + k%1000)
			}
			nontransparent.WithTrailer(nontransparent.TrailerType(k % 2))(nt)
			in := serial(rng, k)
			m5.Parse(in)
			m3.Parse(serial3164(rng, k))
			oct.Parse(bytes.NewReader(octetFrame(in)))
			nt.Parse(bytes.NewReader(append(in, byte('\n'*(1-k%2)))))
			g.largest = maxInt(g.largest, len(in))
		}
		if results < c.N {
			return fmt.Sprintf("%d results", results)
		}
		runtime.KeepAlive([]interface{}{m5, m3, oct, nt})
	case "names":
		// Conversions of names and numbers
		for k := 0; k < c.N; k++ {
			if k%each == 0 {
				g.look(r)
			}
			v := strconv.Itoa(k)
			var t nontransparent.TrailerType
			t.UnmarshalTOML([]byte("\"" + v + "\""))
			t.UnmarshalText([]byte(v))
			nontransparent.TrailerTypeFromString(v)
			t.MarshalText()
			nontransparent.TrailerType(k).Value()
			_ = nontransparent.TrailerType(k).String()
			common.EscapeBytes(v + "\"")
			common.UnsafeUTF8DecimalCodePointsToInt([]byte(v))
			common.RemoveBytes([]byte("x"+v), []int{0}, 0)
			common.ValidPriority(uint8(k))
			common.ValidVersion(uint16(k))
			results++
		}
		g.largest = 20
	case "announced":
		// A count costs nothing before its octets come
		kind := streamKind("oct")
		before := allocated()
		rd := &endless{buf: c.In, next: func() []byte { return nil }}
		newStream(kind, c.O, count).Parse(rd)
		used := allocated() - before
		r.events++
		if limit := uint64(400<<10 + 100*len(c.In)); used > limit {
			return fmt.Sprintf("parsing %d octets allocated %d bytes", len(c.In), used)
		}
		if results != c.N {
			return fmt.Sprintf("%d results instead of %d", results, c.N)
		}
		return ""
	default:
		return "unknown kind " + c.K
	}
	return g.verdict()
}

// spikes are kinds of big inputs.
var spikes = []string{"message", "bom message", "value", "escapes", "parameters", "elements", "cut escapes", "cut elements", "header", "lines", "garbage"}

func spike(kind string, size int) []byte {
	rep := func(pre, unit, post string) []byte {
		b := make([]byte, 0, size+len(pre)+len(unit)+len(post))
		b = append(b, pre...)
		for len(b) < size {
			b = append(b, unit...)
		}
		return append(b, post...)
	}
	count := func(pre, f, post string) []byte {
		b := make([]byte, 0, size+len(pre)+100)
		b = append(b, pre...)
		for k := 0; len(b) < size; k++ {
			b = append(b, strings.Replace(f, "#", strconv.Itoa(k), 1)...)
		}
		return append(b, post...)
	}
	const h = "<1>1 - - - - - "
	switch kind {
	case "message":
		return rep(h+"- ", "some text ", "")
	case "bom message":
		return rep(h+"- \xef\xbb\xbf", "text \u00e9", "")
	case "value":
		return rep(h+"[a b=\"", "text", "\"]")
	case "escapes":
		return rep(h+"[a b=\"", "\\\\", "\"] x")
	case "parameters":
		return count(h+"[a", " p#=\"\"", "] x")
	case "elements":
		return count(h, "[e#]", " x")
	case "cut escapes":
		return rep(h+"[a b=\"", "\\]", "")
	case "cut elements":
		return count(h, "[e# k=\"v\"]", "[")
	case "header":
		return rep("<1>1 - ", "host", "")
	case "lines":
		return rep(h+"- ", "l\n\x00\n\x00", "")
	case "message 3164":
		return rep("<1>Dec  1 10:00:00 host app[1]: ", "text", "")
	case "content 3164":
		return rep("<1>Dec  1 10:00:00 host app[", "text", "")
	case "long content 3164":
		return rep("<1>Dec  1 10:00:00 host app[", "text", "]: x")
	}
	return rep("", "garbage", "")
}

// monSpike feeds small inputs, a big one, and small ones again: the memory taken for the big one must be given back.
func monSpike(c *Case, r *Rec) string {
	rng := rand.New(rand.NewSource(c.Seed))
	f := strings.SplitN(c.K, ": ", 2)
	r.class("after a big input: " + f[0])
	r.nontrivial = true
	const small = 40
	var base, after uint64
	results := 0
	input := func(k int) []byte {
		if k == small {
			base = live()
			return spike(f[1], c.N)
		}
		if f[0] == "3164" {
			return serial3164(rng, k)
		}
		return serial(rng, k*8)
	}
	switch f[0] {
	case "5424", "3164":
		m := newMachine(f[0], c.O)
		for k := 0; k < 2*small; k++ {
			m.Parse(input(k))
			results++
		}
		after = live()
		runtime.KeepAlive(m)
	case "oct", "nt":
		t := byte('\n')
		if c.O.NUL {
			t = 0
		}
		k := -1
		e := &endless{chunk: 50000}
		e.next = func() []byte {
			if k++; k >= 2*small {
				if after == 0 {
					after = live()
				}
				return nil
			}
			if f[0] == "oct" {
				return octetFrame(input(k))
			}
			return cat(input(k), t)
		}
		newStream(f[0], c.O, func(*syslog.Result) { results++ }).Parse(e)
	case "oct streams", "nt streams":
		kind := streamKind(strings.Fields(f[0])[0])
		t := byte('\n')
		if c.O.NUL {
			t = 0
		}
		p := newStream(kind, c.O, func(*syslog.Result) { results++ })
		for k := 0; k < 2*small; k++ {
			if kind == "oct" {
				p.Parse(bytes.NewReader(octetFrame(input(k))))
			} else {
				p.Parse(bytes.NewReader(cat(input(k), t)))
			}
		}
		after = live()
		runtime.KeepAlive(p)
	}
	r.events += int64(results)
	if results < small {
		return fmt.Sprintf("only %d results", results)
	}
	if after > base+slack+uint64(c.N)/16 {
		return fmt.Sprintf("%d bytes of memory were in use before an input of %d octets, %d bytes are %d small inputs later", base, c.N, after, small-1)
	}
	return ""
}

// panicReader panics.
type panicReader struct{}

func (panicReader) Read([]byte) (int, error) { panic("the reader") }

func init() {
	monitors["memory"] = monMemory
	monitors["spike"] = monSpike
	kinds := []string{"oct", "nt", "nt illegal", "oct single bytes", "nt single bytes", "oct streams", "nt streams", "5424", "3164", "instances", "builder", "one message", "options again", "names", "announced", "after a big input: 5424", "after a big input: 3164", "after a big input: oct", "after a big input: nt", "after a big input: oct streams", "after a big input: nt streams"}
	checks["C30"] = check{
		rule: "long histories in which every input differs in all its parts (one endless stream handed out by frames or by single octets, many streams on one parser, a stream that is not syslog at all, one machine, many short-lived instances, builders, one message set over and over, options set over and over, names and numbers), the monitor collecting garbage and reading the memory in use at 8 regular points of each; an input of 5 MB (64 MB in the thorough tier) of each of 14 kinds amid small ones, after which the memory must be given back; counts announcing up to 2^31 octets followed by few of them, with the bytes allocated measured; distinct = distinct (kind, options, seed, octets)",
		run: func(x *Ctx) {
			x.require = kinds
			x.Run(1, func(s *Shard, i, n int) {
				size := x.scale(120000, 1000000)
				seed := x.Seed * 1000
				run := func(k string, n int, o Opt) bool {
					seed++
					return s.Eval(&Case{M: "memory", K: k, N: n, O: o, Seed: seed})
				}
				big := x.scale(5<<20, 64<<20)
				for _, k := range append([]string{"message 3164", "content 3164", "long content 3164"}, spikes...) {
					for _, best := range []bool{false, true} {
						for _, f := range []string{"5424", "3164", "oct", "nt", "oct streams", "nt streams"} {
							o := Opt{Best: best}
							if strings.HasPrefix(f, "oct") {
								if o.Max = intp(2 * big); !best && f == "oct" && (k == "header" || strings.HasSuffix(k, "3164") || strings.HasPrefix(k, "cut") || k == "garbage") {
									continue // it would stop there
								}
							}
							if k == "garbage" && f == "oct" {
								continue
							}
							if f == "nt" && k != "lines" {
								continue // the buffer of a stream is as large as its longest line
							}
							if o.NUL = strings.HasPrefix(f, "nt") && best; f == "5424" || f == "3164" {
								if o.Parser = best; (f == "3164") != strings.HasSuffix(k, "3164") && k != "garbage" && k != "message" {
									continue
								}
							}
							o.Compliant = f == "5424" && k == "bom message"
							seed++
							if !s.Eval(&Case{M: "spike", K: f + ": " + k, N: big, O: o, Seed: seed}) {
								return
							}
						}
					}
				}
				for _, max := range []int{8192, 65536, 70000, 1 << 20, 1 << 28, math.MaxInt32} {
					for _, count := range []int{1, 100, 8192, 65536, 65537, 70000, 1 << 20, 1 << 28, math.MaxInt32} {
						for _, best := range []bool{false, true} {
							for _, in := range []string{" ", " <", " <1>1 - - - - - - x", "", " <1>1 - - - - - - " + strings.Repeat("x", 200)} {
								in = strconv.Itoa(count) + in
								o := Opt{Best: best, Max: intp(max)}
								want := len(refOctet([]byte(in), o).results)
								if !s.Eval(&Case{M: "memory", K: "announced", In: []byte(in), N: want, O: o}) {
									return
								}
							}
						}
					}
				}
				for _, best := range []bool{true, false} {
					for _, nul := range []bool{false, true} {
						if !run("nt", size, Opt{Best: best, NUL: nul}) || !run("nt illegal", size, Opt{Best: best, NUL: nul}) {
							return
						}
					}
					if !run("oct", size, Opt{Best: best}) || !run("oct", size, Opt{Best: best, Max: intp(1 << 20)}) ||
						!run("oct single bytes", size/4, Opt{Best: best}) || !run("nt single bytes", size/4, Opt{Best: best}) ||
						!run("oct streams", size/2, Opt{Best: best, Max: intp(500)}) || !run("nt streams", size/2, Opt{Best: best}) {
						return
					}
					for _, p := range []bool{false, true} {
						if !run("5424", 2*size, Opt{Best: best, Parser: p}) || !run("5424", size, Opt{Best: best, Parser: p, Compliant: true}) ||
							!run("3164", 2*size, Opt{Best: best, Parser: p}) || !run("3164", size, Opt{Best: best, Parser: p, RFC3339: true, HasYear: true, Year: 2020, TZ: "Europe/Rome", Locale: "America/New_York"}) ||
							!run("instances", size/2, Opt{Best: best, Parser: p}) {
							return
						}
					}
				}
				_ = run("builder", size, Opt{}) && run("one message", size, Opt{}) && run("options again", size/2, Opt{}) && run("names", size, Opt{})
			})
		},
	}
}
