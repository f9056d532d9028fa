package main

import (
	"bytes"
	"fmt"
	"math/rand"
)

// fieldOf gives a text of n characters allowed everywhere, without repetitions nearby.
func fieldOf(n int) []byte {
	const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[i%len(alpha)]
	}
	return b
}

// cover5424 gives inputs whose prefixes visit every state of the grammar, at the limits of its lengths.
func cover5424() [][]byte {
	var out [][]byte
	add := func(parts ...interface{}) { out = append(out, cat(parts...)) }
	for _, over := range []int{0, 1} {
		add("<1>1 - ", fieldOf(255+over), " - - - -")
		add("<1>1 - - ", fieldOf(48+over), " - - -")
		add("<1>1 - - - ", fieldOf(128+over), " - -")
		add("<1>1 - - - - ", fieldOf(32+over), " -")
		add("<1>1 - - - - - [", fieldOf(32+over), "]")
		add("<1>1 - - - - - [", fieldOf(32+over), " k=\"v\"] m")
		add("<1>1 - - - - - [a][", fieldOf(32+over), "]")
		add("<1>1 - - - - - [a ", fieldOf(32+over), "=\"v\"]")
		add("<1>1 - - - - - [a k=\"v\" ", fieldOf(32+over), "=\"v\"][b] m")
	}
	return out
}

// cover3164 is like cover5424.
func cover3164() [][]byte {
	var out [][]byte
	for _, pre := range []string{"<13>Oct 11 22:14:15 ", "<13>2003-10-11T22:14:15Z "} {
		for _, over := range []int{0, 1} {
			out = append(out, cat(pre, fieldOf(255+over), " m"), cat(pre, "h ", fieldOf(32+over), ": m"), cat(pre, "h ", fieldOf(32+over), "[1]: m"), cat(pre, "h ", fieldOf(32+over), " m"))
		}
	}
	return out
}

// transitions calls f with every byte after every prefix of the bases, followed by the rest of the base (in place of a byte of
// it, or besides) or by nothing.
func transitions(bases [][]byte, mine func() bool, f func(in []byte) bool) bool {
	for _, base := range bases {
		for pos := 0; pos <= len(base); pos++ {
			if !mine() {
				continue
			}
			if !f(base[:pos:pos]) {
				return false
			}
			for b := 0; b < 256; b++ {
				if !f(cat(base[:pos], byte(b))) {
					return false
				}
				if pos < len(base) && !f(cat(base[:pos], byte(b), base[pos+1:])) {
					return false
				}
			}
			for _, b := range interesting {
				if !f(cat(base[:pos], b, base[pos:])) {
					return false
				}
			}
		}
	}
	return true
}

var bigSizes = []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071, 131072, 131073, 262145, 524289, 1048575, 1048576, 1048577, 4194305}

// longNames gives names which are alike: all but one place is the same, or they are permutations of one another.
func longNames(r *rand.Rand, n int) func(k int) []byte {
	base := sdNames(r, []int{32, 32, 31, 25, 17, 16, 9, 8, 7}[r.Intn(9)])
	at := []int{0, len(base) - 6, r.Intn(len(base)), len(base) - 6}[r.Intn(4)]
	at = minInt(maxInt(at, 0), maxInt(len(base)-6, 0))
	scale := r.Intn(3)
	return func(k int) []byte {
		b := append([]byte{}, base...)
		d := fmt.Sprintf("%06d", k)
		switch scale {
		case 1:
			d = fmt.Sprintf("%06x", uint32(k)*2654435761>>8)
		case 2:
			// The same letters for all: bits of the number as ab or ba
			if len(b) == 32 && n <= 65536 {
				for q := 0; q < 16; q++ {
					x, y := byte('a'), byte('b')
					if k>>uint(q)&1 == 1 {
						x, y = y, x
					}
					b[2*q], b[2*q+1] = x, y
				}
				return b
			}
		}
		copy(b[at:], d)
		return b
	}
}

// big5424 gives inputs with something big, around the sizes where buffers and small integers end.
func big5424(r *rand.Rand, size int) [][]byte {
	g := graphs(r, size)
	u := utf8Text(r, size)
	for len(u) > size {
		u = u[:len(u)-1]
	}
	u = bytes.ToValidUTF8(u, []byte("."))
	in := [][]byte{
		cat("<1>1 - - - - - - ", g),
		cat("<1>1 - - - - - - \xef\xbb\xbf", u),
		cat("<1>1 - - - - - - \xef\xbb\xbf", u, "\xff"),
		cat("<1>1 - - - - - [a k=\"", escape(u), "\" j=\"\\\"\"] m"),
		cat("<1>1 - - - - - [a k=\"", bytes.Repeat([]byte("x"), size), "\\]\"][b l=\"1\"] m"),
		cat("<1>1 - - - - - [a k=\"", bytes.Repeat([]byte("\\\""), size/2), "\"]"),
		cat("<1>1 - - - - - [a k=\"", bytes.Repeat([]byte("y"), size), "\" l=\"\\x"),
	}
	if size <= 70000 {
		n := size / 8
		if size <= 2049 {
			n = size
		}
		var ps, es []byte
		for k := 0; k < n; k++ {
			ps = append(ps, fmt.Sprintf(" p%d=\"%d\"", k, k)...)
			es = append(es, fmt.Sprintf("[e%d]", k)...)
		}
		// Long names which differ only at some place, in no order
		var pl, el []byte
		name := longNames(r, n)
		for _, k := range r.Perm(n) {
			pl = append(pl, fmt.Sprintf(" %s=\"%d\"", name(k), k)...)
			el = append(el, fmt.Sprintf("[%s]", name(k))...)
		}
		in = append(in, cat("<1>1 - - - - - ", el, "[a", pl, "] m"), cat("<1>1 - - - - - ", el, "[", name(r.Intn(n)), "]"))
		in = append(in, cat("<1>1 - - - - - [a", ps, "] m"), cat("<1>1 - - - - - ", es, " m"), cat("<1>1 - - - - - ", es, "[e0] m"), cat("<1>1 - - - - - ", es, "[a", ps, " x"))
	}
	return in
}

// big3164 is like big5424.
func big3164(r *rand.Rand, size int) [][]byte {
	vis := func() []byte {
		b := make([]byte, size)
		for i := range b {
			b[i] = byte(0x20 + r.Intn(95))
			if r.Intn(4) == 0 {
				b[i] = byte(0x80 + r.Intn(128))
			}
		}
		return b
	}
	content := bytes.Map(func(c rune) rune {
		if c == ']' {
			return '.'
		}
		return c
	}, graphs(r, size))
	return [][]byte{
		cat("<13>Oct 11 22:14:15 h ", vis()),
		cat("<13>Oct 11 22:14:15 h a: ", vis()),
		cat("<13>Oct 11 22:14:15 h a[", content, "]: m"),
		cat("<13>Oct 11 22:14:15 h a[", content, "]"),
		cat("<13>Oct 11 22:14:15 h a[", content),
		cat("<13>Oct 11 22:14:15 h a: ", vis(), "\x00"),
	}
}
