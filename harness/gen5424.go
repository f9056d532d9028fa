package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"time"
)

// ---------------------------------------------------------------- random pieces

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

// length is biased to the boundaries of a field of at most max bytes.
func length(r *rand.Rand, max int) int {
	if n, ok := hot(r, 1, max); ok {
		return n
	}
	switch r.Intn(10) {
	case 0:
		return max
	case 1:
		return max - 1
	case 2, 3:
		return 1 + r.Intn(max)
	case 4:
		return 1
	}
	return 1 + r.Intn(minInt(max, 8))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func graphs(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = byte(33 + r.Intn(94))
		case 1:
			b[i] = `-[]"\=<>:/!~0`[r.Intn(13)]
		default:
			b[i] = byte('a' + r.Intn(26))
		}
	}
	return b
}

func sdNames(r *rand.Rand, n int) []byte {
	b := graphs(r, n)
	for i := range b {
		for !sdchar(b[i]) {
			b[i] = byte(33 + r.Intn(94))
		}
	}
	return b
}

func sdName(r *rand.Rand) []byte {
	if r.Intn(12) == 0 {
		return graphWord(word(r), 32, true)
	}
	if r.Intn(3) > 0 {
		return []byte(pick(r, "a", "b", "c", "x", "id", "ex@32473", "-", "a-b", "k", "key"))
	}
	return sdNames(r, length(r, 32))
}

var runes = []string{"\x00", "\x7f", "é", "ß", "\u0080", "\u07ff", "\u0800", "€", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "漢", "😀", "\xef\xbb\xbf", "\n", "\r", "\t", " "}

// utf8Text is text in UTF-8.
func utf8Text(r *rand.Rand, n int) []byte {
	var b []byte
	for len(b) < n {
		switch r.Intn(5) {
		case 0:
			b = append(b, runes[r.Intn(len(runes))]...)
		case 1:
			b = append(b, `"\]`[r.Intn(3)])
		case 2:
			b = append(b, byte(r.Intn(128)))
		default:
			b = append(b, byte('a'+r.Intn(26)))
		}
	}
	return b
}

// escape writes a value as it must be sent.
func escape(v []byte) []byte {
	var b []byte
	for _, c := range v {
		if c == '"' || c == '\\' || c == ']' {
			b = append(b, '\\')
		}
		b = append(b, c)
	}
	return b
}

func twoDigits(r *rand.Rand, lo, hi int) string {
	if n, ok := hot(r, lo, hi); ok {
		return fmt.Sprintf("%02d", n)
	}
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("%02d", lo)
	case 1:
		return fmt.Sprintf("%02d", hi)
	}
	return fmt.Sprintf("%02d", lo+r.Intn(hi-lo+1))
}

// notable gives the texts of instants that are out of the ordinary (the zero one of the time package, the ends of
// the ranges of clocks and of the grammar...), in several offsets.
func notable(fractions bool) []string {
	var out []string
	for _, s := range []string{"0001-01-01T00:00:00Z", "0000-12-31T23:59:59Z", "0000-01-01T00:00:00Z", "0000-02-29T00:00:00Z", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1900-01-01T00:00:00Z",
		"1601-01-01T00:00:00Z", "1677-09-21T00:12:43Z", "1677-09-21T00:12:44Z", "1754-08-30T22:43:41Z", "2262-04-11T23:47:16Z", "2262-04-11T23:47:17Z", "1901-12-13T20:45:52Z", "2038-01-19T03:14:07Z", "2038-01-19T03:14:08Z", "2106-02-07T06:28:15Z",
		"2106-02-07T06:28:16Z", "2000-01-01T00:00:00Z", "1999-12-31T23:59:59Z", "9999-12-31T23:59:59Z", "9999-12-31T00:00:00Z", "2016-12-31T23:59:59Z", "2036-02-07T06:28:16Z"} {
		t, _ := time.Parse(time.RFC3339, s)
		for _, off := range []string{"Z", "+00:00", "-00:00", "+00:01", "+01:00", "-01:00", "+05:30", "-12:00", "+14:00", "+23:59", "-23:59"} {
			o := 0
			if off != "Z" {
				var h, m int
				fmt.Sscanf(off[1:], "%02d:%02d", &h, &m)
				if o = h*3600 + m*60; off[0] == '-' {
					o = -o
				}
			}
			// The instant seen with that offset, and its reading with another one
			for _, l := range []time.Time{t.Add(time.Duration(o) * time.Second), t} {
				if l.Year() < 0 || l.Year() > 9999 {
					continue
				}
				for _, f := range []string{"", ".0", ".000000", ".000001", ".5", ".999999"} {
					if f == "" || fractions {
						out = append(out, fmt.Sprintf("%04d-%s%s%s", l.Year(), l.Format("01-02T15:04:05"), f, off))
					}
				}
			}
		}
	}
	return out
}

// validDate gives an existing date.
func validDate(r *rand.Rand) (y, m, d int) {
	switch r.Intn(6) {
	case 0:
		y = []int{0, 1, 4, 99, 100, 400, 1582, 1600, 1700, 1899, 1900, 1999, 2000, 2100, 9999, 9996}[r.Intn(16)]
	case 1, 2:
		y = r.Intn(10000)
	default:
		y = 1970 + r.Intn(100)
	}
	if n, ok := hot(r, 0, 9999); ok {
		y = n
	}
	m = 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		m = 2
	}
	d = 1 + r.Intn(daysIn(y, m))
	if r.Intn(4) == 0 {
		d = daysIn(y, m)
	}
	return
}

func rfc3339Text(r *rand.Rand, frac bool) string {
	y, m, d := validDate(r)
	s := fmt.Sprintf("%04d-%02d-%02dT%s:%s:%s", y, m, d, twoDigits(r, 0, 23), twoDigits(r, 0, 59), twoDigits(r, 0, 59))
	if frac && r.Intn(2) == 0 {
		n := 1 + r.Intn(6)
		s += "."
		for i := 0; i < n; i++ {
			s += string(rune('0' + r.Intn(10)))
		}
	}
	switch r.Intn(3) {
	case 0:
		return s + "Z"
	default:
		return s + pick(r, "+", "-") + twoDigits(r, 0, 23) + ":" + twoDigits(r, 0, 59)
	}
}

func priText(r *rand.Rand) string {
	if n, ok := hot(r, 0, 191); ok {
		return strconv.Itoa(n)
	}
	switch r.Intn(4) {
	case 0:
		return pick(r, "0", "1", "9", "10", "19", "99", "100", "189", "190", "191")
	}
	return strconv.Itoa(r.Intn(192))
}

func verText(r *rand.Rand) string {
	if n, ok := hot(r, 1, 999); ok {
		return strconv.Itoa(n)
	}
	switch r.Intn(3) {
	case 0:
		return pick(r, "1", "9", "10", "99", "100", "999", "2")
	case 1:
		return "1"
	}
	return strconv.Itoa(1 + r.Intn(999))
}

func headerField(r *rand.Rand, max int) []byte {
	switch r.Intn(5) {
	case 0, 1:
		return []byte("-")
	case 2:
		if r.Intn(2) == 0 {
			return graphWord(word(r), max, false)
		}
		return []byte(pick(r, "host", "mymachine.example.com", "192.0.2.1", "su", "--", "0", "evntslog", "8710", "ID47", "-x", "x-"))
	}
	return graphs(r, length(r, max))
}

func sdText(r *rand.Rand) []byte {
	if r.Intn(4) == 0 {
		return []byte("-")
	}
	var b []byte
	used := map[string]bool{}
	n := 1 + r.Intn(3)
	if r.Intn(20) == 0 {
		n = 1 + r.Intn(12)
	}
	if v, ok := hot(r, 1, 40); ok && r.Intn(4) == 0 {
		n = v
	}
	for e := 0; e < n; e++ {
		id := sdName(r)
		if used[string(id)] {
			continue
		}
		used[string(id)] = true
		b = append(b, '[')
		b = append(b, id...)
		np := r.Intn(4)
		if r.Intn(20) == 0 {
			np = r.Intn(20)
		}
		if v, ok := hot(r, 0, 40); ok && r.Intn(4) == 0 {
			np = v
		}
		for k := 0; k < np; k++ {
			b = append(b, ' ')
			b = append(b, sdName(r)...)
			b = append(b, '=', '"')
			l := r.Intn(10)
			if r.Intn(40) == 0 {
				l = r.Intn(300)
			}
			if v, ok := hot(r, 0, 5000); ok && r.Intn(4) == 0 {
				l = v
			}
			if r.Intn(8) == 0 {
				b = append(b, escape(textWord(word(r)))...)
			} else {
				b = append(b, escape(utf8Text(r, l))...)
			}
			b = append(b, '"')
		}
		b = append(b, ']')
	}
	return b
}

func msgText(r *rand.Rand) []byte {
	n := r.Intn(20)
	switch r.Intn(30) {
	case 0:
		n = 200 + r.Intn(2000)
	case 1:
		n = 8000 + r.Intn(400)
	}
	if v, ok := hot(r, 0, 10000); ok && r.Intn(3) == 0 {
		n = v
	}
	var b []byte
	switch r.Intn(7) {
	case 6:
		b = cat(pick(r, "", "", "", "\xef\xbb\xbf"), word(r), pick(r, "", "", " ", "\n", " "+word(r)))
	case 0:
		b = append([]byte("\xef\xbb\xbf"), utf8Text(r, n)...)
	case 1:
		b = utf8Text(r, n)
	case 2:
		b = make([]byte, n)
		r.Read(b)
	case 3:
		return []byte(pick(r, "", " ", "-", "\n", "x\n", "\x00", "\xef\xbb\xbf", "\xef\xbb", "\xef", "<1>1 - - - - - -", "[a b=\"c\"]", "16 <1>1 - - - - - -", "\xef\xbb\xbf\xef\xbb\xbf"))
	default:
		b = graphs(r, n)
	}
	return b
}

// valid5424 gives an input that follows the grammar (in any message mode unless a BOM is followed by garbage).
func valid5424(r *rand.Rand) []byte {
	var b bytes.Buffer
	t := "-"
	if r.Intn(3) > 0 {
		t = rfc3339Text(r, true)
	}
	fmt.Fprintf(&b, "<%s>%s %s ", priText(r), verText(r), t)
	for _, m := range []int{255, 48, 128, 32} {
		b.Write(headerField(r, m))
		b.WriteByte(' ')
	}
	b.Write(sdText(r))
	if r.Intn(4) > 0 {
		b.WriteByte(' ')
		b.Write(msgText(r))
	}
	return b.Bytes()
}

var interesting = []byte{0, 1, 9, 10, 13, 27, 31, 32, 33, '"', '-', '/', '0', '1', '9', ':', ';', '<', '=', '>', '[', '\\', ']', 'A', 'T', 'Z', 'a', 'z', '~', 127, 128, 0x9f, 0xa0, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 255}

func someByte(r *rand.Rand) byte {
	if r.Intn(3) == 0 {
		return byte(r.Intn(256))
	}
	return interesting[r.Intn(len(interesting))]
}

var tokens5424 = []string{"<", ">", "<1>1 ", "- ", " - - - - -", "-", "[a]", "[a k=\"v\"]", "[", "]", "\"", "=\"", "\\", "\\\"", "\\]", "\\\\", "\xef\xbb\xbf", " ", "2003-10-11T22:14:15.003Z", "T", "Z", "+02:00", ".123456", "\n", "1", "0", "19", "x", "é", "\xc3", "\x00"}

// mutate breaks an input in 1..3 places.
func mutate(r *rand.Rand, in []byte, tokens []string) []byte {
	b := append([]byte(nil), in...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			return append(b, someByte(r))
		}
		i := r.Intn(len(b))
		// Prefer the beginning, where the structure is
		if r.Intn(2) == 0 {
			i = r.Intn(minInt(len(b), 60))
		}
		switch r.Intn(9) {
		case 0:
			b[i] = someByte(r)
		case 1:
			b = append(b[:i], append([]byte{someByte(r)}, b[i:]...)...)
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = b[:i]
		case 4:
			t := tokens[r.Intn(len(tokens))]
			b = append(b[:i], append([]byte(t), b[i:]...)...)
		case 5:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 6:
			j := i + r.Intn(len(b)-i)
			seg := append([]byte(nil), b[i:j]...)
			b = append(b[:j], append(seg, b[j:]...)...)
		case 7:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 8:
			if digit(b[i]) {
				b[i] = byte('0' + r.Intn(10))
			} else {
				b[i] ^= 1 << uint(r.Intn(8))
			}
		}
	}
	return b
}

// ---------------------------------------------------------------- corpora

var seeds5424 = []string{
	`<34>1 2003-10-11T22:14:15.003Z mymachine.example.com su - ID47 - 'su root' failed for lonvick on /dev/pts/8`,
	`<165>1 2003-08-24T05:14:15.000003-07:00 192.0.2.1 myproc 8710 - - %% It's time to make the do-nuts.`,
	"<165>1 2003-10-11T22:14:15.003Z mymachine.example.com evntslog - ID47 [exampleSDID@32473 iut=\"3\" eventSource=\"Application\" eventID=\"1011\"] \xef\xbb\xbfAn application event log entry...",
	`<165>1 2003-10-11T22:14:15.003Z mymachine.example.com evntslog - ID47 [exampleSDID@32473 iut="3" eventSource="Application" eventID="1011"][examplePriority@32473 class="high"]`,
	`<0>999 - - - - - - `,
	`<1>1 - - - - - -`,
	`<191>100 2000-02-29T23:59:59.999999+23:59 h a p m [a b="\"\\\]"] x`,
	"<7>10 2016-12-31T00:00:00-00:00 - - - - [a][b x=\"\" y=\"\xf0\x9f\x98\x80\xe2\x82\xac\xc3\xa9\"] \xef\xbb\xbf\xf0\x9f\x98\x80\xe2\x82\xac",
	"<19>2 - h - p - [a k=\"v\" k=\"w\"][b][c] \xef\xbb\xbf\xed\x9f\xbf\xee\x80\x80\xf4\x8f\xbf\xbf",
}

// enumerate calls f with all the strings over the alphabet of at most n symbols; it skips the rest of a branch when f returns false.
func enumerate(alphabet []string, n int, f func(s []byte) bool) bool {
	var rec func(prefix []byte, left int) bool
	rec = func(prefix []byte, left int) bool {
		if !f(prefix) {
			return false
		}
		if left == 0 {
			return true
		}
		for _, a := range alphabet {
			if !rec(append(prefix[:len(prefix):len(prefix)], a...), left-1) {
				return false
			}
		}
		return true
	}
	return rec(nil, n)
}

func cat(parts ...interface{}) []byte {
	var b []byte
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			b = append(b, v...)
		case []byte:
			b = append(b, v...)
		case byte:
			b = append(b, v)
		}
	}
	return b
}

// work5424 drives f with RFC 5424 inputs: the share of shard i of n.
// Sections can be limited: nil means all.
func work5424(s *Shard, i, n int, f func(section string, in []byte) bool) {
	x := s.x
	k := 0
	mine := func() bool { k++; return k%n == i }
	go1 := func(section string, in []byte) bool {
		return f(section, in)
	}
	r := s.rng

	// (1) every byte at every position, every truncation, of a corpus
	corpus := [][]byte{}
	for _, t := range seeds5424 {
		corpus = append(corpus, []byte(t))
	}
	cr := rand.New(rand.NewSource(x.Seed))
	for len(corpus) < len(seeds5424)+x.scale(10, 80) {
		v := valid5424(cr)
		if len(v) < 140 {
			corpus = append(corpus, v)
		}
	}
	for _, base := range corpus {
		for pos := 0; pos <= len(base); pos++ {
			if !mine() {
				continue
			}
			if !go1("truncation", base[:pos]) {
				return
			}
			for b := 0; b < 256; b++ {
				if pos < len(base) {
					m := append([]byte(nil), base...)
					m[pos] = byte(b)
					if !go1("substitution", m) {
						return
					}
				}
			}
			for _, b := range interesting {
				m := cat(base[:pos], b, base[pos:])
				if !go1("insertion", m) {
					return
				}
			}
			for _, b := range []byte{0, '\n', '\r', ' ', '<', ']', '-', '0', 'x', 0xff} {
				// Cut, then one more byte
				if !go1("cut", cat(base[:pos], b)) {
					return
				}
			}
			if pos < len(base) && !go1("deletion", cat(base[:pos], base[pos+1:])) {
				return
			}
		}
	}

	// (2) all the short strings over digits and friends, as PRI and VERSION
	tails := []string{" - - - - - -", "", ">1 - - - - - -", " - - - - - - x"}
	if !enumerate([]string{"0", "1", "2", "8", "9", "5", ">", "<", "-", " ", "x"}, x.scale(4, 5), func(w []byte) bool {
		if !mine() {
			return true
		}
		return go1("pri", cat("<", w)) && go1("pri", cat("<", w, ">1 - - - - - -")) && go1("version", cat("<1>", w)) && go1("version", cat("<1>", w, tails[0]))
	}) {
		return
	}
	for v := 0; v < 1200; v++ {
		if !mine() {
			continue
		}
		if !go1("pri", []byte(fmt.Sprintf("<%d>1 - - - - - -", v))) || !go1("version", []byte(fmt.Sprintf("<13>%d - - - - - -", v))) || !go1("pri", []byte(fmt.Sprintf("<%03d>1 - - - - - -", v))) || !go1("version", []byte(fmt.Sprintf("<13>%03d - - - - - - m", v))) {
			return
		}
	}

	// (3) dates: month lengths of all years, all days and months, all times, all offsets
	date := func(s string) bool { return go1("date", cat("<1>1 ", s, " - - - - -")) }
	for y := 0; y < 10000; y += 1 {
		if !mine() {
			continue
		}
		for _, md := range []string{"02-28", "02-29", "02-30"} {
			if !date(fmt.Sprintf("%04d-%sT00:00:00Z", y, md)) {
				return
			}
		}
	}
	for _, y := range []int{0, 1900, 2000, 2003, 2004} {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				if mine() && !date(fmt.Sprintf("%04d-%02d-%02dT12:34:56.7+01:00", y, m, d)) {
					return
				}
			}
		}
	}
	for a := 0; a < 100; a++ {
		for b := 0; b < 62; b++ {
			if !mine() {
				continue
			}
			for _, t := range []string{
				fmt.Sprintf("2003-10-11T%02d:%02d:15Z", a, b), fmt.Sprintf("2003-10-11T22:%02d:%02dZ", b, a),
				fmt.Sprintf("2003-10-11T22:14:15+%02d:%02d", a, b), fmt.Sprintf("2003-10-11T22:14:15.5-%02d:%02d", a, b)} {
				if !date(t) {
					return
				}
			}
		}
	}
	for _, t := range notable(true) {
		if mine() && !date(t) {
			return
		}
	}
	for fl := 0; fl <= 9; fl++ {
		for v := 0; v < 40; v++ {
			if !mine() {
				continue
			}
			fr := fmt.Sprintf("%09d", r.Intn(1000000000))[:fl]
			if !date("2003-10-11T22:14:15."+fr+"Z") || !date("2003-10-11T22:14:15."+fr+"+02:00") {
				return
			}
		}
	}

	// (4) lengths of the fields
	for fi, max := range []int{255, 48, 128, 32} {
		for l := 0; l <= max+2; l++ {
			if !mine() {
				continue
			}
			for v := 0; v < x.scale(2, 8); v++ {
				fs := [][]byte{[]byte("-"), []byte("-"), []byte("-"), []byte("-")}
				for q := range fs {
					if r.Intn(3) == 0 {
						fs[q] = headerField(r, []int{255, 48, 128, 32}[q])
					}
				}
				fs[fi] = graphs(r, l)
				if v == 1 {
					fs[fi] = bytes.Repeat([]byte{someByte(r)}, l)
				}
				h := cat("<1>1 - ", bytes.Join(fs, []byte(" ")))
				if !go1("length", cat(h, " -")) || !go1("length", h) || !go1("length", cat("<1>1 - ", bytes.Join(fs[:fi+1], []byte(" ")))) {
					return
				}
			}
		}
	}
	for l := 0; l <= 35; l++ {
		if !mine() {
			continue
		}
		for v := 0; v < 6; v++ {
			nm := sdNames(r, l)
			if !go1("sdlength", cat("<1>1 - - - - - [", nm, "]")) || !go1("sdlength", cat("<1>1 - - - - - [", nm, " k=\"v\"] m")) || !go1("sdlength", cat("<1>1 - - - - - [a ", nm, "=\"v\"]")) || !go1("sdlength", cat("<1>1 - - - - - [a ", nm)) || !go1("sdlength", cat("<1>1 - - - - - [", nm)) {
				return
			}
		}
	}

	// (5) structured data: all the short strings over an alphabet
	if !enumerate([]string{"[", "]", "a", "b", "=", "\"", "\\", " ", "-"}, x.scale(5, 7), func(w []byte) bool {
		if !mine() {
			return true
		}
		return go1("sd", cat("<1>1 - - - - - ", w))
	}) {
		return
	}
	if !enumerate([]string{"]", "a", "\"", "\\", " ", "é", "\xc3", "="}, x.scale(4, 6), func(w []byte) bool {
		if !mine() {
			return true
		}
		return go1("sdvalue", cat("<1>1 - - - - - [a k=\"1\" b=\"", w)) && go1("sdvalue", cat("<1>1 - - - - - [a k=\"", w, "\"]")) && go1("sdvalue", cat("<1>1 - - - - - [a k=\"", w, "\" a=\"x\"][b] m"))
	}) {
		return
	}
	if !enumerate([]string{"[a", "[b", "]", " k=\"1\"", " k=\"2\"", " j=\"\\\"\"", " ", "x"}, x.scale(5, 6), func(w []byte) bool {
		if !mine() {
			return true
		}
		return go1("sdtokens", cat("<1>1 - - - - - ", w))
	}) {
		return
	}

	// (6) UTF-8
	u := func(w []byte) bool {
		return go1("utf8", cat("<1>1 - - - - - - \xef\xbb\xbfa", w, "b")) && go1("utf8", cat("<1>1 - - - - - [a k=\"", w, "\"] m")) && go1("utf8", cat("<1>1 - - - - - - \xef\xbb\xbf", w))
	}
	for a := 0; a < 256; a++ {
		if !mine() {
			continue
		}
		if !u([]byte{byte(a)}) {
			return
		}
		for b := 0; b < 256; b++ {
			if !u([]byte{byte(a), byte(b)}) {
				return
			}
		}
		if a >= 0xe0 {
			for b := 0; b < 256; b++ {
				for _, c := range []byte{0, 0x7f, 0x80, 0xbf, 0xc0, 'a', '"', 0xff} {
					if !u([]byte{byte(a), byte(b), c}) {
						return
					}
					if a >= 0xf0 && (b >= 0x7e && b <= 0xc1) {
						for _, d := range []byte{0x7f, 0x80, 0xbf, 0xc0} {
							if !u([]byte{byte(a), byte(b), c, d}) {
								return
							}
						}
					}
				}
			}
		}
	}
	for _, p := range []string{"\xef", "\xef\xbb", "\xef\xbb\xbf", "\xef\xbb\xbe", "\xee\xbb\xbf", "\xbb\xbf", "\xff"} {
		for a := 0; a < 256; a++ {
			if mine() && (!go1("bom", cat("<1>1 - - - - - - ", p, byte(a))) || !go1("bom", cat("<1>1 - - - - - - ", p, byte(a), "x\xff"))) {
				return
			}
		}
	}

	// (7) every byte in every state
	if !transitions(cover5424(), mine, func(in []byte) bool { return go1("cover", in) }) {
		return
	}
	for _, ctx := range []string{"a", "\\\"", "é", "€", "\U0001f600"} {
		for a := 0; a < 256; a++ {
			if !mine() {
				continue
			}
			for _, tail := range []string{"", "\x7f", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc0", "\"", "\\", "]", "\x80\x80", "\xa0\x80", "\xbf\xbf", "\x90\x80\x80", "\x80\x80\x80", "\xbf\xbf\xbf", "\x90\x80\x7f", "\x90\x80\xc0", "\x90\x7f\x80"} {
				if !go1("cover", cat("<1>1 - - - - - [a k=\"", ctx, byte(a), tail, "\"] m")) || !go1("utf8", cat("<1>1 - - - - - - \xef\xbb\xbf", ctx, byte(a), tail)) {
					return
				}
			}
		}
	}

	// (8) big ones
	for _, size := range bigSizes {
		if !mine() {
			continue
		}
		for _, in := range big5424(rand.New(rand.NewSource(x.Seed)), size) {
			if !go1("big", in) {
				return
			}
		}
	}

	// (9) words
	if !allWords(func(w string) bool {
		return !mine() || words5424(w, func(in []byte) bool { return go1("words", in) })
	}) {
		return
	}

	// (10) random structured inputs, and mutations of them
	for c := 0; c < x.scale(12000, 150000); c++ {
		v := valid5424(r)
		if !go1("valid", v) {
			return
		}
		for q := 0; q < 3; q++ {
			if !go1("mutant", mutate(r, v, tokens5424)) {
				return
			}
		}
		if c%40 == 0 {
			g := make([]byte, r.Intn(60))
			for q := range g {
				g[q] = someByte(r)
			}
			if !go1("garbage", g) || !go1("garbage", cat("<1>1 ", g)) || !go1("garbage", cat("<1>1 - - - - - ", g)) {
				return
			}
		}
	}
}
