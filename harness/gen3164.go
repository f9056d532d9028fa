package main

import (
	"bytes"
	"fmt"
	"math/rand"
)

var seeds3164 = []string{
	`<34>Oct 11 22:14:15 mymachine su: 'su root' failed for lonvick on /dev/pts/8`,
	`<13>Dec  2 16:31:03 host app: Test`,
	`<0>Jan  1 00:00:00 h x`,
	`<191>Feb 29 23:59:59 - sshd[123]: a [b]: c]`,
	`<34>May  9 01:02:03 h.example.com a[b]c: d`,
	`<7>Aug 31 19:00:59 h t[-]: ] m`,
	"<28>Nov 30 02:50:01 h \xff\x80é: é[\xe2\x82]: €",
	`<165>Mar 10 10:20:30 h -: x`,
	`<19>Apr 19 09:08:07 hh a[[x]]: y[z]`,
}

var seeds3339 = []string{
	`<28>2019-12-02T16:49:23+02:00 host app[23410]: Test`,
	`<34>2016-02-29T23:59:59Z - x: y`,
	`<5>0000-01-31T00:00:00-23:59 h [x]`,
}

var tokens3164 = []string{"<", ">", "Jan ", " ", ": ", ":", "[", "]", "]: ", "a[b]: ", "-", "Feb 29", "12:30:45", "2018-01-02T03:04:05Z", "\x00", "\x7f", "\x80", "tag", "1", "0", "\n"}

func msg3164(r *rand.Rand) []byte {
	vis := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			switch r.Intn(4) {
			case 0:
				b[i] = byte(0x80 + r.Intn(128))
			case 1:
				b[i] = ":[] -:[]"[r.Intn(8)]
			default:
				b[i] = byte(0x20 + r.Intn(95))
			}
		}
		return b
	}
	var b []byte
	if r.Intn(12) == 0 {
		b = append(b, plainWord(word(r))...)
	} else if r.Intn(4) > 0 {
		b = append(b, graphs(r, length(r, 33))...)
		for i := range b {
			if r.Intn(8) > 0 && !tagchar3(b[i]) {
				b[i] = "._-/]a"[r.Intn(6)]
			}
		}
		if r.Intn(2) == 0 {
			b = append(b, '[')
			b = append(b, vis(r.Intn(12))...)
			if r.Intn(4) > 0 {
				b = append(b, ']')
			}
		}
		b = append(b, pick(r, ": ", ": ", ": ", ":", " ", "", ":  ", "::", ": :")...)
	}
	if r.Intn(12) == 0 {
		b = append(b, plainWord(word(r))...)
	}
	n := r.Intn(16)
	if r.Intn(40) == 0 {
		n = r.Intn(3000)
	}
	if v, ok := hot(r, 0, 10000); ok && r.Intn(3) == 0 {
		n = v
	}
	b = append(b, vis(n)...)
	if len(b) == 0 {
		b = []byte("x")
	}
	return b
}

func valid3164(r *rand.Rand, with3339 bool) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "<%s>", priText(r))
	if with3339 {
		b.WriteString(rfc3339Text(r, false))
	} else {
		mo := 1 + r.Intn(12)
		d := 1 + r.Intn(daysIn(0, mo))
		if r.Intn(4) == 0 {
			d = daysIn(0, mo)
		}
		fmt.Fprintf(&b, "%s %2d %s:%s:%s", months3[mo-1], d, twoDigits(r, 0, 23), twoDigits(r, 0, 59), twoDigits(r, 0, 59))
	}
	b.WriteByte(' ')
	b.Write(headerField(r, 255))
	b.WriteByte(' ')
	b.Write(msg3164(r))
	return b.Bytes()
}

// work3164 drives f with RFC 3164 inputs: the share of shard i of n.
func work3164(s *Shard, i, n int, f func(section string, in []byte) bool) {
	x := s.x
	r := s.rng
	k := 0
	mine := func() bool { k++; return k%n == i }
	type base struct {
		section string
		in      []byte
	}
	var corpus []base
	for _, t := range seeds3164 {
		corpus = append(corpus, base{"corpus", []byte(t)})
	}
	for _, t := range seeds3339 {
		corpus = append(corpus, base{"rfc3339", []byte(t)})
	}
	cr := rand.New(rand.NewSource(x.Seed))
	for len(corpus) < 12+x.scale(16, 120) {
		w := len(corpus)%3 == 0
		if v := valid3164(cr, w); len(v) < 120 {
			corpus = append(corpus, base{map[bool]string{true: "rfc3339", false: "corpus"}[w], v})
		}
	}
	for _, c := range corpus {
		for pos := 0; pos <= len(c.in); pos++ {
			if !mine() {
				continue
			}
			if !f(c.section, c.in[:pos]) {
				return
			}
			for b := 0; b < 256; b++ {
				if pos < len(c.in) {
					m := append([]byte(nil), c.in...)
					m[pos] = byte(b)
					if !f(c.section, m) {
						return
					}
				}
				if !f(c.section, cat(c.in[:pos], byte(b))) {
					return
				}
			}
			for _, b := range interesting {
				if !f(c.section, cat(c.in[:pos], b, c.in[pos:])) {
					return
				}
			}
			if pos < len(c.in) && !f(c.section, cat(c.in[:pos], c.in[pos+1:])) {
				return
			}
		}
	}
	// PRI
	if !enumerate([]string{"0", "1", "2", "8", "9", "5", ">", "<", "-", " ", "x"}, x.scale(4, 5), func(w []byte) bool {
		if !mine() {
			return true
		}
		return f("pri", cat("<", w)) && f("pri", cat("<", w, ">Oct 11 22:14:15 h m"))
	}) {
		return
	}
	for v := 0; v < 1100; v++ {
		if mine() && (!f("pri", []byte(fmt.Sprintf("<%d>Oct 11 22:14:15 h a: m", v))) || !f("pri", []byte(fmt.Sprintf("<%03d>Oct 11 22:14:15 h m", v)))) {
			return
		}
	}
	// MSG
	pre := "<13>Oct 11 22:14:15 h "
	if !enumerate([]string{"a", "]", "[", ":", " ", "-", "\x1f", "\xc3"}, x.scale(6, 7), func(w []byte) bool {
		if !mine() {
			return true
		}
		return f("msg", cat(pre, w))
	}) {
		return
	}
	if !enumerate([]string{"[", "]", ":", ": ", "]: ", "x", "]:", " "}, x.scale(5, 7), func(w []byte) bool {
		if !mine() {
			return true
		}
		return f("msg", cat(pre, "t[", w)) && f("msg", cat(pre, "tag", w, "z"))
	}) {
		return
	}
	// Lengths
	for l := 0; l <= 36; l++ {
		for v := 0; v < 20; v++ {
			if !mine() {
				continue
			}
			t := graphs(r, l)
			for q := range t {
				for !tagchar3(t[q]) {
					t[q] = byte(33 + r.Intn(94))
				}
			}
			for _, tail := range []string{"", ":", ": ", ": m", "[1]: m", "[", "[1", "[1]", "[1]:", "[1]: ", " : m", "\x01", "[\x7f", "[1]\x00", ": \n", "[]: m", "[-]: m", "[1]:m", ":m", "[1] m"} {
				if !f("taglength", cat(pre, t, tail)) {
					return
				}
			}
		}
	}
	for l := 0; l <= 258; l++ {
		if !mine() {
			continue
		}
		for v := 0; v < 3; v++ {
			h := graphs(r, l)
			if !f("hostlength", cat("<13>Oct 11 22:14:15 ", h, " m")) || !f("hostlength", cat("<13>Oct 11 22:14:15 ", h, " a[1]: m")) || !f("hostlength", cat("<13>Oct 11 22:14:15 ", h)) {
				return
			}
		}
	}
	// Dates and times
	for _, m := range append([]string{"jan", "JAN", "Foo", "Ja", "Janu", "Ma", "Juk"}, months3...) {
		for d := -1; d <= 33; d++ {
			if !mine() {
				continue
			}
			for _, t := range []string{"22:14:15", "00:00:00", "24:00:00"} {
				if !f("date", []byte(fmt.Sprintf("<13>%s %2d %s h m", m, d, t))) || !f("date", []byte(fmt.Sprintf("<13>%s %02d %s h m", m, d, t))) || !f("date", []byte(fmt.Sprintf("<13>%s %d %s h m", m, d, t))) || !f("date", []byte(fmt.Sprintf("<13>%s %2d %s", m, d, t))) || !f("date", []byte(fmt.Sprintf("<13>%s %2d %sx", m, d, t))) {
					return
				}
			}
		}
	}
	for a := 0; a < 100; a++ {
		for b := 0; b < 62; b++ {
			if mine() && (!f("date", []byte(fmt.Sprintf("<13>Oct 11 %02d:%02d:15 h m", a, b))) || !f("date", []byte(fmt.Sprintf("<13>Oct 11 22:%02d:%02d h m", b, a))) ||
				!f("rfc3339", []byte(fmt.Sprintf("<13>2003-10-11T%02d:%02d:15Z h m", a, b))) || !f("rfc3339", []byte(fmt.Sprintf("<13>2003-10-11T22:14:%02d+%02d:%02d h m", b, a, b)))) {
				return
			}
		}
	}
	for _, y := range []int{0, 1900, 2000, 2003, 2004, 9999} {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				if mine() && (!f("rfc3339", []byte(fmt.Sprintf("<1>%04d-%02d-%02dT12:34:56+01:00 h m", y, m, d))) || !f("rfc3339", []byte(fmt.Sprintf("<1>%04d-%02d-%02dT12:34:56Zx", y, m, d)))) {
					return
				}
			}
		}
	}
	for _, t := range notable(false) {
		if mine() && !f("rfc3339", cat("<1>", t, " h m")) {
			return
		}
	}
	// Every byte in every state
	if !transitions(cover3164(), mine, func(in []byte) bool {
		if len(in) > 4 && in[4] == '2' {
			return f("rfc3339", in)
		}
		return f("cover", in)
	}) {
		return
	}
	for _, size := range bigSizes {
		if !mine() {
			continue
		}
		for _, in := range big3164(rand.New(rand.NewSource(x.Seed)), size) {
			if !f("big", in) {
				return
			}
		}
	}
	if !allWords(func(w string) bool {
		return !mine() || words3164(w, f)
	}) {
		return
	}
	// Random
	for c := 0; c < x.scale(12000, 150000); c++ {
		w := r.Intn(3) == 0
		sec := map[bool]string{true: "rfc3339", false: "valid"}[w]
		v := valid3164(r, w)
		if !f(sec, v) {
			return
		}
		for q := 0; q < 3; q++ {
			if !f(sec, mutate(r, v, tokens3164)) {
				return
			}
		}
		if c%40 == 0 {
			g := make([]byte, r.Intn(60))
			for q := range g {
				g[q] = someByte(r)
			}
			if !f("garbage", g) || !f("garbage", cat("<1>", g)) || !f("garbage", cat(pre, g)) {
				return
			}
		}
	}
}
