package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// frame5 gives the text of a message for a frame, starting with '<'; it may be invalid.
func frame5(r *rand.Rand, bad bool) []byte {
	var v []byte
	switch r.Intn(8) {
	case 0:
		v = []byte("<1>1 - - - - - -")
	case 1:
		v = cat("<13>1 - - - - - - ", []byte(pick(r, "a", "\n", "\x00", "\n<", "<", "17 <1>1 - - - - - - x", "\n<1>1 - - - - - -", "\xef\xbb\xbfé", "5", " ", "  ", "x\ny\x00z\n\n")))
	case 2:
		v = cat("<34>1 2003-10-11T22:14:15.003Z h a p m [a b=\"", escape(utf8Text(r, r.Intn(30))), "\"] ", graphs(r, r.Intn(60)))
	case 3:
		n := []int{50, 490, 511, 512, 513, 1000, 4000, 4096, 8100}[r.Intn(9)] + r.Intn(20)
		if h, ok := hot(r, 17, 8190); ok {
			n = h - 17*r.Intn(2)
		}
		v = cat("<1>1 - - - - - - ", graphs(r, n))
		if len(v) > 8190 {
			v = v[:8190]
		}
	default:
		v = valid5424(r)
		if len(v) > 8190 {
			v = v[:8190]
		}
	}
	if bad {
		switch r.Intn(6) {
		case 0:
			return []byte(pick(r, "<", "<1>", "<1>1", "<x", "<1>1 ", "<34>1 2003-10-11T22:14:15.003Z host", "<1>1 - - - - - [a", "<1>1 - - - - - [a b=\"c", "<200>1 - - - - - -", "<1>0 - - - - - -", "<1>1 2003-02-30T00:00:00Z - - - - -"))
		case 1:
			return v[:1+r.Intn(len(v))]
		default:
			v = mutate(r, v, tokens5424)
			if len(v) == 0 {
				return []byte("<")
			}
			v[0] = '<'
			return v
		}
	}
	return v
}

func octetFrame(f []byte) []byte { return cat(fmt.Sprintf("%d ", len(f)), f) }

// octetStream gives a well framed stream.
func octetStream(r *rand.Rand, maxFrames int, badOnes bool) []byte {
	var b []byte
	for n := r.Intn(maxFrames + 1); n >= 0; n-- {
		b = append(b, octetFrame(frame5(r, badOnes && r.Intn(4) == 0))...)
	}
	return b
}

// ntStream gives a stream with complete lines.
func ntStream(r *rand.Rand, maxFrames int, badOnes bool, trailer byte) []byte {
	var b []byte
	for n := r.Intn(maxFrames + 1); n >= 0; n-- {
		b = append(b, frame5(r, badOnes && r.Intn(4) == 0)...)
		b = append(b, trailer)
		if r.Intn(5) == 0 {
			b = append(b, bytes.Repeat([]byte{trailer}, 1+r.Intn(3))...)
		}
		if r.Intn(6) == 0 {
			b = append(b, pick(r, "more", "\x00", "\n", " <", "1>", "x\n\n", "é")...)
			b = append(b, trailer)
		}
	}
	return b
}

var tokensStream = []string{"<", "\n", "\x00", " ", "0", "1", "9", "16 ", "<1>1 - - - - - -", "16 <1>1 - - - - - -", "\n<", "\x00<", "18446744073709551616 ", "-1", "+1", "\t", "\r", "<1>1", "007 ", "/", ":", "  "}

// bigger than the buffers of the readers
func largeFrame(r *rand.Rand, n int) []byte {
	f := cat("<1>1 - - - - - - ", graphs(r, n))
	return f[:n]
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// kinByte gives another byte of the same class.
func kinByte(r *rand.Rand, b byte) byte {
	for {
		n := b
		switch {
		case digit(b):
			n = byte('0' + r.Intn(10))
		case b >= 'a' && b <= 'z':
			n = byte('a' + r.Intn(26))
		case b >= 'A' && b <= 'Z':
			n = byte('A' + r.Intn(26))
		case b >= 0x80 && b < 0xc0:
			n = byte(0x80 + r.Intn(0x40))
		default:
			return b
		}
		if n != b {
			return n
		}
	}
}

// kinAt gives an input as long as another one, differing at one place only.
func kinAt(r *rand.Rand, in []byte, at int) []byte {
	b := append([]byte(nil), in...)
	b[at] = kinByte(r, b[at])
	return b
}

// kin gives an input which looks like another one.
func kin(r *rand.Rand, in []byte) []byte {
	b := append([]byte(nil), in...)
	if len(b) == 0 {
		return b
	}
	switch r.Intn(6) {
	case 0, 1:
		for k := 1 + r.Intn(3); k > 0; k-- {
			at := r.Intn(len(b))
			b[at] = kinByte(r, b[at])
		}
	case 2:
		// Another word
		at := r.Intn(len(b))
		for ; at < len(b) && (digit(b[at]) || b[at]|0x20 >= 'a' && b[at]|0x20 <= 'z'); at++ {
			b[at] = kinByte(r, b[at])
		}
	case 3:
		// Exchange two bytes
		i, j := r.Intn(len(b)), r.Intn(len(b))
		if graph(b[i]) && graph(b[j]) {
			b[i], b[j] = b[j], b[i]
		}
	case 4:
		// Longer or shorter by one
		at := r.Intn(len(b))
		if r.Intn(2) == 0 {
			b = append(b[:at], b[at+1:]...)
		} else {
			b = append(b[:at+1], b[at:]...)
		}
	default:
		// Another end
		at := len(b) - 1 - r.Intn(minInt(len(b), 12))
		for ; at < len(b); at++ {
			b[at] = kinByte(r, b[at])
		}
	}
	return b
}

// kinBases gives messages to derive similar ones from.
func kinBases(kind string) []string {
	if kind == "5424" {
		return []string{
			`<165>1 2003-10-11T22:14:15.003Z mymachine evntslog 8710 ID47 [exampleSDID iut="3" eventSource="Application" eventID="1011"][pri class="high" c2="a\]b\"c"] An application event log entry`,
			`<34>123 2003-08-24T05:14:15.000003-07:00 192.0.2.1 myproc 123 m1 - It's time to make the do-nuts`,
			`<13>1 2020-01-01T00:00:00Z host app 1 - [a k="v"] x`,
			"<7>1 - h a p m [e x=\"\xc3\xa9\xe2\x82\xac\"] \xef\xbb\xbf\xc3\xa9\xe2\x82\xac",
		}
	}
	return []string{
		`<34>Oct 11 22:14:15 mymachine su[1234]: 'su root' failed for lonvick on /dev/pts/8`,
		`<13>Feb  5 17:32:18 10.0.0.99 Use the BFG!`,
		`<28>2019-12-02T16:49:23+02:00 host app[23410]: Test - cannot add`,
		`<191>Dec 31 23:59:59 h a: b`,
	}
}

// kinStream gives a stream of messages looking like the previous ones.
func kinStream(r *rand.Rand, kind string, trailer byte, n int) []byte {
	bases := kinBases("5424")
	f := []byte(bases[r.Intn(len(bases))])
	var b []byte
	for k := 1 + r.Intn(n); k > 0; k-- {
		if r.Intn(10) == 0 {
			f = []byte(bases[r.Intn(len(bases))])
		} else if f = kin(r, f); len(f) == 0 || len(f) > 400 {
			f = []byte(bases[0])
		}
		f[0] = '<'
		if kind == "oct" {
			b = append(b, octetFrame(f)...)
		} else {
			b = append(append(b, f...), trailer)
		}
	}
	return b
}

// longStream gives a stream of many short frames.
func longStream(r *rand.Rand, kind string, o Opt, frames int) []byte {
	t := byte('\n')
	if o.NUL {
		t = 0
	}
	var cycle [][]byte
	for n := 5 + r.Intn(50); n > 0; n-- {
		f := cat(fmt.Sprintf("<%d>%d - - - - - -", r.Intn(192), 1+r.Intn(999)), pick(r, "", "", " x", " "+strconv.Itoa(n), " \x00\n "))
		if r.Intn(4) == 0 {
			f = cat("<9>1 - h", strconv.Itoa(r.Intn(5)), " a p m [a b=\"", escape(utf8Text(r, r.Intn(3))), "\"]")
		}
		if r.Intn(6) == 0 && (o.Best || kind == "nt") {
			f = f[:1+r.Intn(len(f))]
		}
		if kind == "oct" {
			f = octetFrame(f)
		} else {
			f = append(f, t)
		}
		cycle = append(cycle, f)
	}
	var b []byte
	for n := 0; n < frames; n++ {
		b = append(b, cycle[n%len(cycle)]...)
	}
	return b
}

// wordOnes evaluates streams with words in all the places.
func wordOnes(x *Ctx, s *Shard, i int, kind string, end func(in []byte, o Opt) *Case) bool {
	k := 0
	return allWords(func(w string) bool {
		if k++; k%16 != i {
			return s.ok()
		}
		o := Opt{Best: s.rng.Intn(2) == 0, NUL: kind == "nt" && s.rng.Intn(3) == 0}
		t := byte('\n')
		if o.NUL {
			t = 0
		}
		for _, in := range wordStream(w, kind, t) {
			if len(in) == 0 {
				continue
			}
			c := end(in, o)
			c.K = kind
			if c.M == "" {
				c.M = "stream"
				if c.R == nil {
					c.R = randReader(s.rng, len(c.In))
				}
			}
			if !s.Eval(c) {
				return false
			}
		}
		return true
	})
}

// longOnes evaluates streams of more frames than 16 bits can count, each ended in the given way.
func longOnes(x *Ctx, s *Shard, i int, kind string, end func(in []byte, o Opt) *Case) bool {
	counts := []int{65536, 65536, 65537, 65535, 66000 + s.rng.Intn(4000), 32768, 32767, 32769, 16384, 4096, 1024, 1023, 1025, 512, 511, 513, 256, 255, 257, 258, 128, 127, 129, 254, 64, 100, 1000, 10000}
	if x.thorough() {
		counts = append(counts, 65536, 65537, 131072, 131072, 131073, 262144, 300000)
	}
	for _, n := range hotSizes {
		if n < 300000 {
			counts = append(counts, n)
		}
	}
	for q, count := range counts {
		if q%16 != i {
			continue
		}
		o := Opt{Best: (q+q/16)%2 == 0, NUL: kind == "nt" && q/2%2 == 1}
		c := end(longStream(s.rng, kind, o, count), o)
		c.K = kind
		if c.M == "" {
			c.M = "stream"
			if c.R == nil {
				c.R = &ReaderSpec{Chunks: []int{4096, 700 + s.rng.Intn(9000)}}
			}
		}
		if !s.Eval(c) {
			return false
		}
	}
	return true
}

// bigSpec hands out big streams without reading every octet alone.
func bigSpec(r *rand.Rand, n int) *ReaderSpec {
	s := &ReaderSpec{WithEOF: r.Intn(2) == 0}
	switch r.Intn(4) {
	case 0:
	case 1:
		s.Chunks = []int{4096}
	case 2:
		s.Chunks = []int{1 + r.Intn(n), 1 + r.Intn(70000), 300 + r.Intn(3000)}
	case 3:
		s.Chunks = []int{1448, 0, 65536, 16384, 1}
	}
	return s
}

// bigFrame gives a frame of some size; the content is of several kinds, and may be invalid in the end.
func bigFrame(r *rand.Rand, size int) []byte {
	h := pick(r, "<1>1 - - - - - - ", "<1>1 - - - - - - \xef\xbb\xbf", "<34>123 2003-10-11T22:14:15.003Z h a p m [a b=\"\\\"\"][c] ", "<1>1 - - - - - [a b=\"")
	fill := pick(r, "\n", "\n<", "\x00", "<1>1 - - - - - -\n", "16 <1>1 - - - - - -", "x", "é", "7", "", "", "")
	tail := ""
	if strings.HasPrefix(h, "<1>1 - - - - - [") {
		tail = "\"]"
		fill = pick(r, "\n", "\n<", "\x00", "x", "é", "\\\\", "", "")
	}
	if size < len(h)+len(tail) {
		return largeFrame(r, size)
	}
	n := size - len(h) - len(tail)
	var b []byte
	if fill == "" {
		b = graphs(r, n)
		for k := range b {
			if b[k] == '"' || b[k] == '\\' || b[k] == ']' {
				b[k] = '_'
			}
		}
	} else {
		b = bytes.Repeat([]byte(fill), n/len(fill))
		b = append(b, "............................."[:n%len(fill)]...)
	}
	if tail == "" {
		b[len(b)-1] = pick(r, "\r", " ", "x", "\n", "\x00", "\t", "]")[0]
	}
	return cat(h, b, tail)
}

// bigOnes evaluates streams with big frames, each ended in the given way; size is the one of the big frame.
func bigOnes(x *Ctx, s *Shard, i int, kind string, end func(in []byte, o Opt, size int) *Case) bool {
	r := s.rng
	sizes := []int{16384, 32767, 32768, 32769, 65516, 65535, 65536, 65537, 65556, 65557, 70000, 131071, 131072, 131073, 262144, 262145, 524288, 524289, 1000001, 1048575, 1048576, 1048577, 1048597, 2097153, 4194305}
	for k := 0; k < x.scale(7, 100); k++ {
		sizes = append(sizes, 60000+r.Intn(1<<uint(16+k%7)))
	}
	if x.thorough() {
		sizes = append(sizes, 8388609, 16777215, 16777216, 16777217, 33554433)
	}
	for _, n := range hotSizes {
		if n > 60 {
			sizes = append(sizes, n)
		}
		if n > 60 && n < 300000 {
			sizes = append(sizes, n, n, n)
		}
	}
	for q, size := range sizes {
		if (q+i)%16 != 0 {
			continue
		}
		o := Opt{Best: r.Intn(2) == 0, NUL: kind == "nt" && r.Intn(2) == 0}
		var in []byte
		add := func(f []byte) {
			if kind == "oct" {
				in = append(in, octetFrame(f)...)
				return
			}
			in = append(in, f...)
			if o.NUL {
				in = append(in, 0)
			} else {
				in = append(in, '\n')
			}
		}
		if kind == "oct" {
			o.Max = intp([]int{size, size + 1, size + r.Intn(size), math.MaxInt32}[r.Intn(4)])
		}
		for k := r.Intn(3); k > 0; k-- {
			add(frame5(r, o.Best))
		}
		for k := r.Intn(2); k >= 0; k-- {
			add(bigFrame(r, size-k*r.Intn(size/2)))
		}
		for k := r.Intn(3); k > 0; k-- {
			add(frame5(r, o.Best))
		}
		c := end(in, o, size)
		c.K = kind
		if c.M == "" {
			c.M = "stream"
			if c.R == nil {
				c.R = bigSpec(r, len(c.In))
			}
		}
		if !s.Eval(c) {
			return false
		}
	}
	return true
}

const goodOne = "<1>1 - - - - - - good"

// edgeOnes makes streams with a frame of every size around the powers of two and the sizes of the buffers; when cut, the
// stream ends that many octets after its beginning, or after that of the contents of a larger frame.
func edgeOnes(x *Ctx, s *Shard, i, n int, kind string, cut bool) bool {
	r := s.rng
	long := largeFrame(r, 300000)
	far := x.scale(64, 300)
	k := 0
	for _, base := range []int{1024, 2048, 4096, 8192, 8212, 16384, 32768, 65536, 65556, 131072, 131112} {
		for d := -far; d <= far; d++ {
			if k++; k%n != i {
				continue
			}
			size := base + d
			for _, best := range []bool{false, true} {
				o := Opt{Best: best}
				if kind == "oct" {
					o.Max = intp([]int{size, 200000, 300000, 65536 + r.Intn(300000)}[r.Intn(4)])
				} else {
					o.NUL = r.Intn(2) == 0
				}
				t := byte('\n')
				if o.NUL {
					t = 0
				}
				var ins [][]byte
				switch {
				case kind == "oct" && cut:
					o.Max = intp(300000)
					larger := octetFrame(long[:size+1+r.Intn(100000)])
					at := bytes.IndexByte(larger, ' ') + 1
					ins = [][]byte{larger[:size], larger[:at+size], cat(octetFrame([]byte(goodOne)), larger[:at+size])}
				case kind == "oct":
					ins = [][]byte{cat(octetFrame(long[:size]), octetFrame([]byte(goodOne))), cat(octetFrame([]byte(goodOne)), octetFrame(long[:size]), octetFrame([]byte(goodOne)))}
				case cut:
					ins = [][]byte{long[:size], cat(goodOne, t, long[:size]), cat(goodOne, t, long[:size-len(goodOne)-1])}
				default:
					ins = [][]byte{cat(long[:size], t, goodOne, t), cat(goodOne, t, long[:size], t, goodOne, t), cat(goodOne, t, long[:size-len(goodOne)-1], t, goodOne, t)}
				}
				for q, in := range ins {
					c := &Case{M: "stream", K: kind, In: in, O: o}
					switch (k + q) % 4 {
					case 0:
						c.R = bigSpec(r, len(in))
					case 1:
						if cut {
							c.In = cat(in, "more")
							c.R = fault(r, bigSpec(r, len(in)+1), len(in))
						}
					}
					if !s.Eval(c) {
						return false
					}
				}
			}
		}
	}
	return true
}
