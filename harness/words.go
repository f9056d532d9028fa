package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// realWords are values of the kinds that real messages hold, and which code may be tempted to treat in a way of their own.
var realWords = []string{
	// hosts
	"localhost", "localhost.localdomain", "mymachine.example.com", "192.0.2.1", "127.0.0.1", "0.0.0.0", "255.255.255.255", "::1", "[::1]", "2001:db8::ff00:42:8329", "fe80::1%eth0", "10.0.0.1:514", "HOST", "Host-01.Example.COM.", "example.com.", "web_01", "*", "xn--bcher-kva.example", "_gateway",
	// programs, processes, message ids
	"su", "sshd", "sshd[123]", "kernel", "KERNEL", "CRON", "(root)", "/usr/sbin/cron", "C:\\Windows\\System32", "postfix/smtpd", "systemd", "systemd-logind", "evntslog", "8710", "00042", "-1", "+1", "1e3", "0x1F", "4294967296", "18446744073709551616", "99999999999999999999", "ID47", "TCPIN", "%ASA-6-302013", "%%", "%s", "%d%n", "%!s(MISSING)", "{}", "$HOME", "${jndi:x}",
	// no values
	"-", "--", "---", "- -", "nil", "NIL", "null", "NULL", "none", "None", "NILVALUE", "undefined", "unknown", "N/A", "n/a", "nan", "NaN", "true", "false", "0", "00", "<nil>", "''", "\"\"", "\"-\"",
	// structured data
	"timeQuality", "tzKnown", "isSynced", "syncAccuracy", "origin", "ip", "enterpriseId", "software", "swVersion", "meta", "sequenceId", "sysUpTime", "language", "exampleSDID@32473", "examplePriority@32473", "iut", "eventSource", "eventID", "class", "id@0", "@", "a@", "@1", "id@32473.1.2", "x@y@z", "SYSLOG", "NODENAME",
	"[timeQuality tzKnown=\"1\" isSynced=\"1\"]", "[origin ip=\"192.0.2.1\" ip=\"192.0.2.129\"]", "[meta sequenceId=\"1\"]", "[a b=\"c\"]", "[]", "][", "[a]", "\\]", "\\\"", "\\\\", "\\n", "\\x41", "\\u0041", "\\0",
	// messages
	"last message repeated 3 times", "-- MARK --", "message repeated 2 times: [ x]", "--- last message repeated 1 time ---", "@cee:", "@cee: {\"a\":1}", "{\"a\":\"b\",\"c\":[1,2]}", "[1,2]", "<xml a=\"b\">c</xml>", "key=value", "k=\"v\" w='x'", "'su root' failed for lonvick on /dev/pts/8", "It's time to make the do-nuts.", "a,b;c|d", "http://example.com/?q=1&r=%20#f", "user@example.com", "# comment", "// comment", "<!-- -->", "'; DROP TABLE x; --", "../../etc/passwd", "\x1b[31mred\x1b[0m", "tab\there", "cr\rhere", "crlf\r\nhere", "\r\n", "\r", "#012", "#011", "#033", "#000", "^M", "\\r\\n", "\u00a0", "\u2028", "\u2029", "\ufeff", "\u200b", "\u202e", "e\u0301", "日本語", "Привет", "😀", "caf\xe9", "\x80\x81", "\xff\xfe", "\xfe\xff", "\xc0\x80", "\x00", "\x7f", "\u0085", "\x1a", "\x04",
	// times
	"Oct 11 22:14:15", "Feb 29 00:00:00", "2003-10-11T22:14:15.003Z", "2003-10-11 22:14:15", "2003-10-11T22:14:15", "1985-04-12T23:20:50.52Z", "2018", "UTC", "Z", "GMT", "+00:00", "CET", "12:34:56", "1065910455", "Oct 11 22:14:15 2003", "2003 Oct 11 22:14:15", "Oct  1 00:00:00:", "*Oct 11 22:14:15.003:", "Mon", "Monday", "T", "AM", "PM",
	// framing
	"<13>", "<1>1", "<1>1 - - - - - -", "<34>Oct 11 22:14:15 h a: m", "16 <1>1 - - - - - -", "16 ", "0", "1 ", "\n", "\x00", "\n\x00", "<", ">", "<>", "<<", "\n<", "1",
	// names of priorities
	"kern", "user", "mail", "daemon", "auth", "security", "syslog", "lpr", "news", "uucp", "cron", "authpriv", "ftp", "ntp", "audit", "alert", "clock", "local0", "local7", "emerg", "panic", "crit", "err", "error", "warning", "warn", "notice", "info", "debug", "mark", "LF", "NUL", "lf", "nul",
}

// words are the ones given above and those of the code itself, sizes the numbers the code got.
var (
	words    []string
	hotSizes []int
	hotWords []string
	hotInts  []int64
)

//go:embed literals.base
var literalsBase string

// literals gives how many times each literal is in each file of the code under test.
func literals(dir string) map[string]int {
	out := map[string]int{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if n := info.Name(); path != dir && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor" || n == "docs") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		rel = filepath.ToSlash(rel)
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			switch v := fold(e); {
			case v == nil:
			case isChar(e):
				if n, ok := constant.Int64Val(v); ok {
					out[rel+"\ts"+strconv.Quote(string(rune(n)))]++
				}
			case v.Kind() == constant.Int:
				out[rel+"\ti"+v.ExactString()]++
			case v.Kind() == constant.String:
				if s := constant.StringVal(v); s != "" && len(s) < 300 {
					out[rel+"\ts"+strconv.Quote(s)]++
				}
			}
			return true
		})
		return nil
	})
	return out
}

func isChar(e ast.Expr) bool {
	l, ok := e.(*ast.BasicLit)
	return ok && l.Kind == token.CHAR
}

// fold evaluates what is made of literals.
func fold(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT || e.Kind == token.STRING || e.Kind == token.CHAR {
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		}
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.UnaryExpr:
		if x := fold(e.X); x != nil {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := fold(e.X), fold(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 100 {
				return constant.Shift(x, e.Op, uint(n))
			}
			return nil
		case token.ADD, token.SUB, token.MUL, token.OR, token.AND, token.XOR:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}

// initWords looks at the literals of the code under test: what it compares with, and the limits it got, are worth generating.
func initWords(dir string) {
	words = append(words, realWords...)
	known := map[string]bool{}
	for _, w := range words {
		known[w] = true
	}
	if dir == "" {
		return
	}
	base := map[string]int{}
	sc := bufio.NewScanner(strings.NewReader(literalsBase))
	for sc.Scan() {
		if i := strings.LastIndexByte(sc.Text(), '\t'); i > 0 {
			base[sc.Text()[:i]], _ = strconv.Atoi(sc.Text()[i+1:])
		}
	}
	var hot []string
	for l, n := range literals(dir) {
		if n > base[l] {
			hot = append(hot, l[strings.IndexByte(l, '\t')+1:])
		}
	}
	sort.Strings(hot)
	seen := map[int]bool{}
	for _, l := range hot {
		if l[0] == 's' {
			if w, err := strconv.Unquote(l[1:]); err == nil {
				if !known[w] {
					known[w] = true
					words = append(words, w)
				}
				if len(hotWords) < 300 {
					hotWords = append(hotWords, w)
				}
			}
			continue
		}
		n, err := strconv.ParseInt(l[1:], 10, 64)
		if err != nil {
			continue
		}
		hotInts = append(hotInts, n)
		add := func(n int64) {
			for _, s := range []int64{n - 1, n, n + 1} {
				if s > 2 && s < 5<<20 && !seen[int(s)] && len(hotSizes) < 42 {
					seen[int(s)] = true
					hotSizes = append(hotSizes, int(s))
				}
			}
		}
		if n > 4 {
			add(n)
		}
		if n > 4 && n < 23 {
			add(1 << uint(n))
		}
	}
	for _, n := range hotInts {
		if n > 0 && n < 10000 && len(years3) < 80 {
			years3 = append(years3, int(n)-1, int(n), int(n)+1)
		}
	}
	sort.Ints(hotSizes)
	bigSizes = append(bigSizes, hotSizes...)
}

// hot gives, at times, one of the numbers the code got, or one next to it, between lo and hi.
func hot(r *rand.Rand, lo, hi int) (int, bool) {
	if len(hotInts) == 0 || r.Intn(3) > 0 {
		return 0, false
	}
	for k := 0; k < 4; k++ {
		if n := hotInts[r.Intn(len(hotInts))] + int64([]int{0, 0, 0, 1, -1}[r.Intn(5)]); n >= int64(lo) && n <= int64(hi) {
			return int(n), true
		}
	}
	return 0, false
}

// word picks one of them, in some form.
func word(r *rand.Rand) string {
	w := words[r.Intn(len(words))]
	if len(hotWords) > 0 && r.Intn(4) == 0 {
		w = hotWords[r.Intn(len(hotWords))]
	}
	return wordForm(w, r.Intn(14))
}

const wordForms = 9

func wordForm(w string, k int) string {
	switch k {
	case 0:
		return strings.ToUpper(w)
	case 1:
		return strings.ToLower(w)
	case 2:
		return w + "x"
	case 3:
		return "x" + w
	case 4:
		return w + w
	case 5:
		return w[:len(w)-1]
	case 6:
		return w + " " + w
	case 7:
		return " " + w
	}
	return w
}

// graphWord makes a header field of a word.
func graphWord(w string, max int, name bool) []byte {
	b := bytes.Map(func(c rune) rune {
		if c < 33 || c > 126 || name && (c == '=' || c == '"' || c == ']') {
			return -1
		}
		return c
	}, []byte(w))
	if len(b) > max {
		b = b[:max]
	}
	if len(b) == 0 {
		b = []byte("w")
	}
	return b
}

// textWord makes text in UTF-8 of a word.
func textWord(w string) []byte {
	if utf8.ValidString(w) {
		return []byte(w)
	}
	return bytes.ToValidUTF8([]byte(w), []byte("?"))
}

// plainWord makes text without control characters of a word.
func plainWord(w string) []byte {
	return bytes.Map(func(c rune) rune {
		if unicode.IsControl(c) || c == utf8.RuneError {
			return '_'
		}
		return c
	}, []byte(w))
}

// allWords calls f with all the words in their forms.
func allWords(f func(w string) bool) bool {
	for _, w := range words {
		for k := 0; k < wordForms; k++ {
			v := wordForm(w, k)
			if k < wordForms-1 && (v == w || v == "") {
				continue
			}
			if !f(v) {
				return false
			}
		}
	}
	return true
}

// words5424 gives inputs which hold a word in any place.
func words5424(w string, f func(in []byte) bool) bool {
	g := graphWord(w, 255, false)
	n := graphWord(w, 32, true)
	t := escape(textWord(w))
	h := func(max int) []byte { return g[:minInt(len(g), max)] }
	for _, in := range [][]byte{
		cat("<13>1 - ", g, " - - - - m"), cat("<13>1 - - ", h(48), " - - -"), cat("<13>1 - - - ", h(128), " - - m"), cat("<13>1 - - - - ", h(32), " -"),
		cat("<13>1 - ", g, " ", h(48), " ", h(128), " ", h(32), " [", n, " ", n, "=\"", t, "\"] ", w),
		cat("<13>1 - - - - - [", n, "]"), cat("<13>1 - - - - - [a ", n, "=\"v\"][b c=\"d\"] m"), cat("<13>1 - - - - - [a b=\"", t, "\"]"), cat("<13>1 - - - - - [a b=\"c ", t, " d\" e=\"", t, "\"][f g=\"", t, "\"] x"),
		cat("<13>1 - - - - - [a b=\"c\"][", n, " ", n, "=\"", w, "\"]"),
		cat("<13>1 - - - - - - ", w), cat("<13>1 - - - - - - m ", w, " m"), cat("<13>1 - - - - - - \xef\xbb\xbf", w), cat("<13>1 - - - - - - \xef\xbb\xbfm", w, "\nm"), cat("<13>1 - - - - - [a] ", w, "\n"),
		// where it may not be
		cat("<13>1 ", w, " - - - - - m"), cat("<13>1 - ", w, " - - - - m"), cat("<13>1 - - - - - ", w), cat("<13>", w, " - - - - - -"), cat("<", w, ">1 - - - - - -"), []byte(w), cat(w, "<13>1 - - - - - -"), cat("<13>1 - - - - - -", w), cat("<13>1 - - - - - [a ", w, "] m"), cat("<13>1 - - - - - [", w, "] m"),
	} {
		if !f(in) {
			return false
		}
	}
	return true
}

// words3164 gives inputs which hold a word in any place.
func words3164(w string, f func(sec string, in []byte) bool) bool {
	g := graphWord(w, 255, false)
	t := graphWord(w, 32, false)
	for _, in := range [][]byte{
		cat("<13>Oct 11 22:14:15 ", g, " m"), cat("<13>Oct 11 22:14:15 ", g, " a[1]: m"), cat("<13>Oct 11 22:14:15 h ", t, ": m"), cat("<13>Oct 11 22:14:15 h ", t, "[1]: m"), cat("<13>Oct 11 22:14:15 h a[", plainWord(w), "]: m"),
		cat("<13>Oct 11 22:14:15 h ", t, "[", plainWord(w), "]: ", plainWord(w)), cat("<13>Oct 11 22:14:15 h ", plainWord(w)), cat("<13>Oct 11 22:14:15 h a: ", plainWord(w)), cat("<13>Oct 11 22:14:15 h a: m ", plainWord(w), " m"), cat("<13>Oct 11 22:14:15 ", g, " ", t, ": ", plainWord(w)),
		cat("<13>Oct 11 22:14:15 h ", w), cat("<13>Oct 11 22:14:15 h a: ", w), cat("<13>Oct 11 22:14:15 h a[", w, "]: m"), cat("<13>Oct 11 22:14:15 ", w, " m"), cat("<13>", w, " h m"), cat("<", w, ">Oct 11 22:14:15 h m"), []byte(w), cat("<13>Oct 11 22:14:15", w, " h m"), cat("<13>Oct 11 22:14:15 h m", w), cat("<13>", w, " Oct 11 22:14:15 h m"),
	} {
		if !f("words", in) {
			return false
		}
	}
	return f("rfc3339", cat("<13>2003-10-11T22:14:15Z ", g, " ", t, ": ", plainWord(w)))
}

// wordStream gives streams which hold a word in any place.
func wordStream(w string, kind string, t byte) [][]byte {
	f := [][]byte{cat("<1>1 - - - - - - ", w), cat("<1>1 - ", graphWord(w, 255, false), " - - - - ", w, w), cat("<1>1 - - - - - - m", w, "m"), []byte("<1>1 - - - - - -")}
	if kind == "oct" {
		return [][]byte{
			cat(octetFrame(f[0]), octetFrame(f[1]), octetFrame(f[2]), octetFrame(f[3])), cat(octetFrame(f[2]), w, octetFrame(f[3])), cat(w, octetFrame(f[0])), cat("16", w, " <1>1 - - - - - -"), cat("16 ", w), cat("16 ", w, f[3], octetFrame(f[3])), cat(octetFrame(f[0]), w),
			octetFrame(f[0])[:len(f[0])+1],
		}
	}
	return [][]byte{
		cat(f[0], t, f[1], t, f[2], t, f[3], t), cat(f[0], t, w, t, f[3], t), cat(w, t, f[0], t), cat(f[0], t, w), cat(f[3], w, t, f[1]), cat(f[3], t, w, f[3], t), []byte(w),
	}
}

// printLiterals writes what is kept in literals.base.
func printLiterals(dir string) {
	var out []string
	for l, n := range literals(dir) {
		out = append(out, fmt.Sprintf("%s\t%d", l, n))
	}
	sort.Strings(out)
	fmt.Println(strings.Join(out, "\n"))
}
