package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/common"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------------- C31: cost

// cpu is the processor time used by the current thread.
func cpu() time.Duration {
	var t syscall.Timespec
	const thread = 3 // CLOCK_THREAD_CPUTIME_ID
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, thread, uintptr(unsafe.Pointer(&t)), 0)
	return time.Duration(t.Nano())
}

// repeatTo repeats a pattern, with # being the number of the repetition, up to a size.
func repeatTo(pattern string, size int) []byte {
	b := make([]byte, 0, size+64)
	for k := 0; len(b) < size; k++ {
		if strings.Contains(pattern, "#") {
			b = append(b, strings.ReplaceAll(pattern, "#", strconv.FormatInt(int64(k), 36))...)
		} else {
			b = append(b, pattern...)
		}
	}
	return b
}

// costly makes the input of a kind, about the given size, and gives what is to be measured.
var costly = map[string]func(o Opt, size int) func(){}

func parsing5424(pre, pattern, post string) func(o Opt, size int) func() {
	return func(o Opt, size int) func() {
		in := cat(pre, repeatTo(pattern, size), post)
		m := new5424(o)
		return func() { m.Parse(in) }
	}
}

func parsing3164(pre, pattern, post string) func(o Opt, size int) func() {
	return func(o Opt, size int) func() {
		in := cat(pre, repeatTo(pattern, size), post)
		m := new3164(o)
		return func() { m.Parse(in) }
	}
}

func streaming(kind, pre, pattern, post string) func(o Opt, size int) func() {
	return func(o Opt, size int) func() {
		in := cat(pre, repeatTo(pattern, size), post)
		if strings.HasPrefix(pre, "count") {
			in = octetFrame(in[len("count"):])
		}
		n := 0
		p := newStream(kind, o, func(*syslog.Result) { n++ })
		return func() {
			var rd io.Reader = bytes.NewReader(in)
			if o.HasYear { // any flag: by single octets
				b := in
				rd = &endless{buf: b, next: func() []byte { return nil }, chunk: 1}
			}
			p.Parse(rd)
		}
	}
}

func serializing(pre, pattern, post string) func(o Opt, size int) func() {
	return func(o Opt, size int) func() {
		m, err := rfc5424.NewMachine().Parse(cat(pre, repeatTo(pattern, size), post))
		if err != nil {
			panic(err)
		}
		msg := m.(*rfc5424.SyslogMessage)
		return func() { msg.String() }
	}
}

// manyStreams hands out streams with their number in place of #, to one parser or to a new one for each.
func manyStreams(kind, stream string, anew bool) func(o Opt, size int) func() {
	return func(o Opt, size int) func() {
		return func() {
			n := 0
			o := o
			if kind == "oct" {
				o.Max = intp(40) // a small buffer takes little time
			}
			p := newStream(kind, o, func(*syslog.Result) { n++ })
			for k := 0; k < size/8; k++ {
				if anew {
					p = newStream(kind, o, func(*syslog.Result) { n++ })
				}
				p.Parse(strings.NewReader(strings.ReplaceAll(stream, "#", strconv.Itoa(k))))
			}
		}
	}
}

func init() {
	const h = "<34>1 2003-10-11T22:14:15.003Z host app 1 id "
	const h3 = "<34>Dec  1 22:14:15 host "
	const f = "<1>1 - - - - - - x"
	for k, v := range map[string]func(o Opt, size int) func(){
		"5424 escapes":              parsing5424(h+"[a b=\"", `\\\]\"`, "\"] m"),
		"5424 some escapes":         parsing5424(h+"[a b=\"", `xxxxxxxxxxxxx\\`, "\"] m"),
		"5424 many escaped values":  parsing5424(h+"[a", ` p#="\\\\"`, "] m"),
		"5424 parameters":           parsing5424(h+"[a", ` p#="v"`, "] m"),
		"5424 same parameter":       parsing5424(h+"[a", ` p="v"`, "] m"),
		"5424 elements":             parsing5424(h, `[e#]`, " m"),
		"5424 elements with values": parsing5424(h, `[e# a="v"]`, " m"),
		"5424 value":                parsing5424(h+"[a b=\"", "v\u20ac", "\"] m"),
		"5424 unterminated value":   parsing5424(h+"[a b=\"", `v\]`, ""),
		"5424 wrong end of value":   parsing5424(h+"[a b=\"", `v\]`, "\"x"),
		"5424 wrong last element":   parsing5424(h, `[e# a="v"]`, "[e0 a=\"v\"]"),
		"5424 message":              parsing5424(h+"- ", "message ", ""),
		"5424 BOM message":          parsing5424(h+"- \xef\xbb\xbf", "m\u20ac\U0001f600", ""),
		"5424 wrong BOM message":    parsing5424(h+"- \xef\xbb\xbf", "m\u20ac", "\xff"),
		"5424 BOMs":                 parsing5424(h+"- ", "\xef\xbb\xbf", ""),
		"5424 garbage":              parsing5424("", "<", ""),
		"5424 digits":               parsing5424("<", "1", ""),
		"5424 long name":            parsing5424("<1>1 - ", "n", ""),
		"5424 long name of element": parsing5424("<1>1 - - - - - [", "n", ""),
		"5424 fraction":             parsing5424("<1>1 2003-10-11T22:14:15.", "0", "Z"),
		"3164 content":              parsing3164(h3+"tag[1]: ", "content ", ""),
		"3164 untagged":             parsing3164(h3, "x", ""),
		"3164 colons":               parsing3164(h3, "x: ", ""),
		"3164 brackets":             parsing3164(h3+"tag", "[x", ""),
		"3164 closed brackets":      parsing3164(h3+"tag", "[x]", ": y"),
		"3164 wrong end":            parsing3164(h3+"tag: ", "content ", "\n"),
		"3164 long hostname":        parsing3164("<34>Dec  1 22:14:15 ", "h", ""),
		"3164 garbage":              parsing3164("", "<", ""),
		"oct frames":                streaming("oct", "", "18 "+f, ""),
		"oct unparsable frames":     streaming("oct", "", "5 <1>1x", ""),
		"oct one frame":             streaming("oct", "count"+f, "m\n", ""),
		"oct digits":                streaming("oct", "", "1", ""),
		"nt frames":                 streaming("nt", "", f+"\n", ""),
		"nt frames of lines":        streaming("nt", "", f+"\nmore\n", ""),
		"nt one frame":              streaming("nt", f, "m", "\n"),
		"nt one frame of lines":     streaming("nt", f, "m\n", ""),
		"nt one frame of NULs":      streaming("nt", f, "m\x00", "\n"),
		"nt tail":                   streaming("nt", f+"\n"+f, "m", ""),
		"nt trailers":               streaming("nt", f, "\n", ""),
		"nt illegal":                streaming("nt", "x\n", f+"\n", ""),
		"nt unparsable":             streaming("nt", "", "<x\n", ""),
		"String of escapes":         serializing(h+"[a b=\"", `\\\]\"`, "\"] m"),
		"String of parameters":      serializing(h+"[a", ` p#="v"`, "] m"),
		"String of elements":        serializing(h, `[e#]`, " m"),
		"String of values":          serializing(h, `[e# a="v" b="\\"]`, " m"),
		"String of message":         serializing(h+"- ", "message ", ""),
		// Many small things, as if each was of 16 octets
		"5424 many inputs": func(o Opt, size int) func() {
			return func() {
				m := new5424(o)
				for k := 0; k < size/16; k++ {
					m.Parse([]byte("<1>1 - h" + strconv.Itoa(k) + " - - - [a b=\"" + strconv.Itoa(k) + "\"] m"))
				}
			}
		},
		"5424 many wrong inputs": func(o Opt, size int) func() {
			return func() {
				m := new5424(o)
				for k := 0; k < size/16; k++ {
					m.Parse([]byte("<1>1 - h" + strconv.Itoa(k) + " -\x00"))
				}
			}
		},
		"5424 many machines": func(o Opt, size int) func() {
			return func() {
				for k := 0; k < size/16; k++ {
					new5424(o).Parse([]byte("<1>1 - - - - - [a b=\"\\\"" + strconv.Itoa(k) + "\"] m"))
				}
			}
		},
		"3164 many inputs": func(o Opt, size int) func() {
			return func() {
				m := new3164(o)
				for k := 0; k < size/16; k++ {
					m.Parse([]byte(h3 + "tag" + strconv.Itoa(k) + "[1]: m"))
				}
			}
		},
		"3164 many machines": func(o Opt, size int) func() {
			return func() {
				for k := 0; k < size/16; k++ {
					new3164(o).Parse([]byte(h3 + strconv.Itoa(k)))
				}
			}
		},
		"nt many streams":         manyStreams("nt", "<1>1 - h# - - - - m\n<1>1 - - - - - -", false),
		"nt many wrong streams":   manyStreams("nt", "x#\n<1>1 - - - - - -", false),
		"nt many stream parsers":  manyStreams("nt", "<1>1 - h# - - - - m\n", true),
		"oct many streams":        manyStreams("oct", "16 <1>1 - - - - - -16 <1>1 - - - - - -", false),
		"oct many wrong streams":  manyStreams("oct", "16 <1>1 - - - - - -16 <1>1 #", false),
		"oct many stream parsers": manyStreams("oct", "16 <1>1 - - - - - -", true),
		"many messages": func(o Opt, size int) func() {
			return func() {
				for k := 0; k < size/16; k++ {
					m := new(rfc5424.SyslogMessage)
					m.SetPriority(uint8(k)).SetVersion(1).SetHostname("h"+strconv.Itoa(k)).SetParameter("a", "b", "\\\"")
					m.String()
				}
			}
		},
		"one message again": func(o Opt, size int) func() {
			return func() {
				m := new(rfc5424.SyslogMessage)
				m.SetPriority(1).SetVersion(1).SetParameter("a", "b", "\\\"")
				for k := 0; k < size/16; k++ {
					m.SetMessage(strconv.Itoa(k)).SetParameter("a", "b", "c")
					m.String()
				}
			}
		},
		"set value": func(o Opt, size int) func() {
			v := string(repeatTo(`v\\\]`, size))
			return func() { new(rfc5424.SyslogMessage).SetParameter("id", "name", v) }
		},
		"set parameters": func(o Opt, size int) func() {
			return func() {
				m := new(rfc5424.SyslogMessage)
				for k := 0; k < size/16; k++ {
					m.SetParameter("id", "n"+strconv.Itoa(k), "v")
				}
			}
		},
		"set parameters of elements": func(o Opt, size int) func() {
			return func() {
				m := new(rfc5424.SyslogMessage)
				for k := 0; k < size/16; k++ {
					m.SetParameter("e"+strconv.Itoa(k), "n", "v")
				}
			}
		},
		"set again": func(o Opt, size int) func() {
			return func() {
				m := new(rfc5424.SyslogMessage)
				for k := 0; k < size/16; k++ {
					m.SetParameter("e", "n", "v").SetElementID("e").SetHostname("h").SetMessage("m")
				}
			}
		},
		"set elements": func(o Opt, size int) func() {
			return func() {
				m := new(rfc5424.SyslogMessage)
				for k := 0; k < size/16; k++ {
					m.SetElementID("n" + strconv.Itoa(k))
				}
			}
		},
		"set message": func(o Opt, size int) func() {
			v := string(repeatTo("message\u20ac ", size))
			return func() { new(rfc5424.SyslogMessage).SetMessage(v) }
		},
		"escape": func(o Opt, size int) func() {
			v := string(repeatTo(`v\"]`, size))
			return func() { common.EscapeBytes(v) }
		},
		"remove": func(o Opt, size int) func() {
			v := repeatTo(`v\"`, size)
			var at []int
			for i, c := range v {
				if c == '\\' {
					at = append(at, i)
				}
			}
			return func() { common.RemoveBytes(v, at, 0) }
		},
	} {
		costly[k] = v
	}
	monitors["cost"] = monCost
	checks["C31"] = check{
		rule: "for each kind of large input (escapes, parameters, elements, names, messages, frames, lines, digits, garbage, complete or broken at their end), and for many small inputs, streams, instances and messages one after the other (each counted as 8 or 16 octets), the processor time per octet is measured at growing sizes, from 32 KB up to the largest; distinct = distinct (kind, options)",
		run: func(x *Ctx) {
			x.Run(1, func(s *Shard, i, n int) {
				for k := range costly {
					x.require = append(x.require, k)
				}
				largest := x.scale(2<<20, 16<<20)
				for _, k := range sortedKeys(costly) {
					os := []Opt{{}, {Best: true}}
					switch {
					case strings.Contains(k, "many ") && k != "5424 many escaped values":
					case strings.HasPrefix(k, "5424"):
						os = append(os, Opt{Best: true, Compliant: true}, Opt{Parser: true})
					case strings.HasPrefix(k, "oct "):
						os = []Opt{{Max: intp(1 << 30)}, {Max: intp(1 << 30), Best: true}, {Max: intp(1 << 30), Best: true, HasYear: true}}
					case strings.HasPrefix(k, "nt "):
						os = append(os, Opt{HasYear: true, Best: true})
					case strings.HasPrefix(k, "3164"):
					default:
						os = os[:1]
					}
					for _, o := range os {
						if !s.Eval(&Case{M: "cost", K: k, O: o, N: largest}) {
							return
						}
					}
				}
			})
		},
	}
}

func sortedKeys(m map[string]func(o Opt, size int) func()) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// monCost checks that the cost per octet does not grow with the size.
func monCost(c *Case, r *Rec) string {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	r.class(c.K)
	r.nontrivial = true
	make, ok := costly[c.K]
	if !ok {
		return "unknown kind " + c.K
	}
	const smallest = 32 << 10
	const factor = 10
	perOctet := func(size, tries int) float64 {
		do := make(c.O, size)
		best := 0.0
		for try := 0; try < tries; try++ {
			runtime.GC()
			start := cpu()
			n := 0
			var spent time.Duration
			for {
				do()
				n++
				if spent = cpu() - start; spent > 5*time.Millisecond {
					break
				}
			}
			r.events += int64(n)
			cost := float64(spent) / float64(n) / float64(size)
			if try == 0 || cost < best {
				best = cost
			}
			if spent > time.Second {
				break
			}
		}
		return best
	}
	base := 0.0
	all := ""
	for size := smallest; size <= c.N; size *= 4 {
		cost := perOctet(size, 2)
		if size > smallest && cost > factor*base && cost > 200 {
			cost = perOctet(size, 5)
		}
		all += fmt.Sprintf(" %.3g ns at %d octets,", cost, size)
		if size == smallest {
			base = cost
		}
		// Caches being what they are the cost of an octet varies; a cost that grows with the size goes beyond that.
		if cost > factor*base && cost > 200 {
			return "the cost per octet grows with the size: it is" + strings.TrimRight(all, ",")
		}
	}
	if debugCost {
		fmt.Printf("%-30s %+v%s\n", c.K, c.O, all)
	}
	return ""
}

var debugCost = false
