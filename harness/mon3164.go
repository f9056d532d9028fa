package main

import (
	"bytes"
	"fmt"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

type ownYear struct{ year int }

func (y *ownYear) Apply() int { return y.year }

func opts3164(o Opt) []syslog.MachineOption {
	var opts []syslog.MachineOption
	if o.Best {
		opts = append(opts, rfc3164.WithBestEffort())
	}
	if o.RFC3339 {
		opts = append(opts, rfc3164.WithRFC3339())
	}
	if o.HasYear {
		if o.Year == currentYear {
			opts = append(opts, rfc3164.WithYear(rfc3164.CurrentYear{}))
		} else if o.Year%3 == 0 {
			// A strategy of the user
			opts = append(opts, rfc3164.WithYear(&ownYear{o.Year}))
		} else {
			opts = append(opts, rfc3164.WithYear(rfc3164.Year{YYYY: o.Year}))
		}
	}
	if o.TZ != "" {
		opts = append(opts, rfc3164.WithTimezone(zone(o.TZ)))
	}
	if o.Locale != "" {
		opts = append(opts, rfc3164.WithLocaleTimezone(zone(o.Locale)))
	}
	return reorder(opts, o.Order)
}

// reorder puts options in the given order; indices are modulo their number, missing ones follow.
func reorder(opts []syslog.MachineOption, order []int) []syslog.MachineOption {
	if len(opts) == 0 {
		return opts
	}
	var out []syslog.MachineOption
	used := map[int]bool{}
	for _, i := range order {
		i %= len(opts)
		out = append(out, opts[i])
		used[i] = true
	}
	for i, f := range opts {
		if !used[i] {
			out = append(out, f)
		}
	}
	return out
}

func new3164(o Opt) syslog.Machine {
	if o.Parser {
		return rfc3164.NewParser(opts3164(o)...)
	}
	return rfc3164.NewMachine(opts3164(o)...)
}

func as3(m syslog.Message) (*rfc3164.SyslogMessage, string) {
	if m == nil {
		return nil, ""
	}
	g, ok := m.(*rfc3164.SyslogMessage)
	if !ok {
		return nil, fmt.Sprintf("the message is a %T", m)
	}
	if g == nil {
		return nil, "the message is a typed nil"
	}
	return g, ""
}

func classify3(w *res3) string {
	if !w.good {
		return "rejected:" + w.stage
	}
	c := "accepted"
	if w.out.st.rfc3339 {
		c += "+rfc3339"
	}
	if w.out.tag != nil {
		c += "+tag"
	}
	if w.out.proc != nil {
		c += "+procid"
	}
	return c
}

// C10
func monAccept3(c *Case, r *Rec) string {
	w := ref3164(c.In, c.O.RFC3339)
	r.class(classify3(&w))
	r.nontrivial = w.pri
	o := c.O
	o.Best = false
	m, err := new3164(o).Parse(c.In)
	r.events++
	switch {
	case w.good && err != nil:
		return fmt.Sprintf("rejected (%v) although it follows the grammar", err)
	case w.good && m == nil:
		return "no message although it follows the grammar"
	case !w.good && err == nil:
		return fmt.Sprintf("accepted although it does not follow the grammar at offset %d (%s): %s", w.col, w.stage, dump(m))
	case !w.good && m != nil:
		return "a message along with the error in strict mode"
	}
	return ""
}

// checkTime compares the timestamp of a message with what the options ask for.
func checkTime3(got *time.Time, st *stamp3, o Opt, y0, y1 int) string {
	if got == nil || st == nil {
		if got == nil && st == nil {
			return ""
		}
		return fmt.Sprintf("timestamp %v, expected one: %v", got, st != nil)
	}
	year := o.Year
	if !o.HasYear {
		year = 0
	}
	years := []int{year}
	if year == currentYear {
		years = []int{y0, y1}
	}
	want := time.Time{}
	for _, y := range years {
		want = st.time(o, y)
		_, a := got.Zone()
		_, b := want.Zone()
		if got.Equal(want) && a == b {
			return ""
		}
	}
	return fmt.Sprintf("timestamp %v, expected %v", got, want)
}

// C11, C12
func monExtract3(c *Case, r *Rec) string {
	w := ref3164(c.In, c.O.RFC3339)
	r.class(classify3(&w))
	if !w.good {
		return ""
	}
	r.nontrivial = true
	for _, best := range []bool{false, true} {
		o := c.O
		o.Best = best
		y0 := time.Now().Year()
		m, err := new3164(o).Parse(c.In)
		y1 := time.Now().Year()
		r.events++
		if err != nil {
			return fmt.Sprintf("best=%v: rejected (%v) although it follows the grammar", best, err)
		}
		g, bad := as3(m)
		if bad != "" {
			return bad
		}
		if g == nil {
			return "no message"
		}
		if c.M == "time3164" {
			if d := checkTime3(g.Timestamp, w.out.st, o, y0, y1); d != "" {
				return fmt.Sprintf("best=%v: %s", best, d)
			}
			continue
		}
		if d := compare3(g, &w.out); d != "" {
			return fmt.Sprintf("best=%v: %s", best, d)
		}
	}
	return ""
}

// C12
func monTime3(c *Case, r *Rec) string {
	s := ""
	if c.O.HasYear {
		s += "+year"
		if c.O.Year == currentYear {
			s = "+currentyear"
		}
	}
	if c.O.TZ != "" {
		s += "+tz"
	}
	if c.O.Locale != "" {
		s += "+locale"
	}
	if c.O.RFC3339 {
		s += "+rfc3339"
	}
	r.class("options:" + s)
	return monExtract3(c, r)
}

const err3339 = "expecting a Stamp or a RFC3339 timestamp"

// errText3 is the description of the part of the grammar where an error lies ("" when it comes from the time package).
func errText3(w *res3, in []byte, with3339 bool) string {
	const parse = "parsing error"
	switch w.stage {
	case "pri":
		if w.col == 0 {
			return "expecting a priority value within angle brackets"
		}
		return "expecting a priority value in the range 1-191 or equal to 0"
	case "timestamp":
		from := bytes.IndexByte(in, '>') + 1
		switch {
		case w.stamped:
			return parse
		case with3339 && w.col > from && digit(in[from]):
			// (the generic text, too, before the offset)
			return err3339
		}
		return "expecting a Stamp timestamp"
	case "hostname":
		return "expecting an hostname (from 1 to max 255 US-ASCII characters)"
	case "msg":
		switch {
		case w.bracket:
			return "expecting a content part composed by visible characters only"
		case w.col == w.msgat:
			return "expecting an alphanumeric tag (max 32 characters)"
		}
		return parse
	}
	return ""
}

// C13
func monError3(c *Case, r *Rec) string {
	w := ref3164(c.In, c.O.RFC3339)
	o := c.O
	o.Best = false
	sm, serr := new3164(o).Parse(c.In)
	o.Best = true
	y0 := time.Now().Year()
	bm, berr := new3164(o).Parse(c.In)
	y1 := time.Now().Year()
	r.events += 2
	r.nontrivial = w.pri
	cl := classify3(&w)
	if !w.good {
		if w.out.proc != nil {
			cl += "+procid"
		} else if w.out.tag != nil {
			cl += "+tag"
		}
	}
	r.class(cl)
	if (serr == nil) != (berr == nil) || serr != nil && serr.Error() != berr.Error() {
		return fmt.Sprintf("strict error %v, best effort error %v", serr, berr)
	}
	b, bad := as3(bm)
	if bad != "" {
		return bad
	}
	if serr == nil {
		if !w.good {
			return "accepted although it does not follow the grammar"
		}
		if sm == nil || b == nil {
			return "no message and no error"
		}
		if x, y := dump(sm), dump(bm); x != y {
			return "strict and best effort messages differ: " + x + " / " + y
		}
		return ""
	}
	if w.good {
		return fmt.Sprintf("rejected (%v) although it follows the grammar", serr)
	}
	if sm != nil {
		return "strict parsing gives a message along with the error"
	}
	text, col, ok := splitErr(serr)
	if !ok || text == "" {
		return fmt.Sprintf("the error %q does not tell what and the column", serr)
	}
	if want := errText3(&w, c.In, c.O.RFC3339); want != "" && text != want && !(want == err3339 && text == "parsing error") {
		return fmt.Sprintf("error %q, expected %q at column %d (%s)", serr, want, w.col, w.stage)
	}
	if col != w.col {
		return fmt.Sprintf("error %q, expected at column %d (%s)", serr, w.col, w.stage)
	}
	if w.pri != (b != nil) {
		return fmt.Sprintf("partial message: %v, expected: %v (error %v)", b != nil, w.pri, berr)
	}
	if b != nil {
		if d := compare3(b, &w.out); d != "" {
			return fmt.Sprintf("partial message: %s (error %v)", d, berr)
		}
		if d := checkTime3(b.Timestamp, w.out.st, o, y0, y1); d != "" {
			return fmt.Sprintf("partial message: %s (error %v)", d, berr)
		}
	}
	return ""
}

var zones = []string{"UTC", "Europe/Rome", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Africa/Monrovia", "Asia/Kathmandu", "Pacific/Kiritimati", "Europe/Dublin", "America/Sao_Paulo", "Local", "fixed0", "fixed3600", "fixed-3600", "fixed19800", "fixed-34201", "fixed86340"}

var years3 = []int{0, 1, 4, 100, 1582, 1600, 1883, 1884, 1899, 1900, 1916, 1945, 1969, 1970, 1972, 1999, 2000, 2011, 2018, 2019, 2020, 2021, 2038, 2100, 2400, 9999, 10000, -1, -4, 12345, currentYear}

func randOpt3(s *Shard) Opt {
	r := s.rng
	o := Opt{RFC3339: r.Intn(2) == 0, Parser: r.Intn(4) == 0}
	if r.Intn(3) > 0 {
		o.HasYear = true
		o.Year = years3[r.Intn(len(years3))]
		if r.Intn(3) == 0 {
			o.Year = 1800 + r.Intn(400)
		}
	}
	if r.Intn(2) == 0 {
		o.TZ = zones[r.Intn(len(zones))]
	}
	if r.Intn(2) == 0 {
		o.Locale = zones[r.Intn(len(zones))]
	}
	for k := r.Intn(6); k > 0; k-- {
		o.Order = append(o.Order, r.Intn(5))
	}
	return o
}

func init() {
	monitors["accept3164"] = monAccept3
	monitors["extract3164"] = monExtract3
	monitors["time3164"] = monTime3
	monitors["error3164"] = monError3
	for id, mon := range map[string]string{"C10": "accept3164", "C11": "extract3164", "C13": "error3164"} {
		id, mon := id, mon
		checks[id] = check{
			rule: "RFC 3164 inputs: every byte at every position and every truncation of a corpus, every byte in every state met by a guided walk, PRI and MSG strings over small alphabets, all dates and times of day, every tag and hostname length, words real messages hold in every place, random inputs and their mutations; with and without the RFC 3339 option; distinct = distinct (input, options), non-trivial = got past the PRI (C11: accepted)",
			run: func(x *Ctx) {
				x.require = map[string][]string{
					"C10": {"accepted", "accepted+tag", "accepted+rfc3339+tag+procid", "rejected:pri", "rejected:timestamp", "rejected:date", "rejected:hostname", "rejected:msg"},
					"C11": {"accepted", "accepted+tag", "accepted+rfc3339+tag+procid", "accepted+tag+procid", "accepted+rfc3339"},
					"C13": {"accepted", "rejected:pri", "rejected:timestamp", "rejected:date", "rejected:hostname", "rejected:msg", "rejected:msg+tag", "rejected:msg+procid"},
				}[id]
				x.Run(16, func(s *Shard, i, n int) {
					k := 0
					work3164(s, i, n, func(section string, in []byte) bool {
						k++
						if section == "rfc3339" || k%3 == 0 {
							if !s.Eval(&Case{M: mon, K: section, In: in, O: Opt{RFC3339: true, Parser: k%2 == 0}}) {
								return false
							}
							if section == "rfc3339" && k%16 != 0 {
								return true
							}
						}
						o := Opt{Parser: k%5 == 0}
						if k%7 == 0 {
							o = randOpt3(s)
						}
						return s.Eval(&Case{M: mon, K: section, In: in, O: o})
					})
				})
			},
		}
	}
	checks["C12"] = check{
		rule: "every (month, day) pair under every year of a list covering leap, century, transition and out of the ordinary years, all times of day, random dates and RFC 3339 timestamps, under random combinations and orders of the options, with zones having offset changes, fixed zones and the local one (which is not UTC), and strategies for the year of the user; distinct = distinct (input, options), all accepted ones",
		run: func(x *Ctx) {
			x.require = []string{"options:", "options:+year", "options:+currentyear+tz+locale+rfc3339", "options:+year+tz+locale", "accepted+rfc3339", "accepted+tag"}
			x.Run(16, func(s *Shard, i, n int) {
				r := s.rng
				k := 0
				mine := func() bool { k++; return k%n == i }
				stamp := func(mo, d, h, mi, se int) []byte {
					return []byte(fmt.Sprintf("<13>%s %2d %02d:%02d:%02d h a: m", months3[mo-1], d, h, mi, se))
				}
				for _, y := range years3 {
					for mo := 1; mo <= 12; mo++ {
						for d := 1; d <= daysIn(0, mo); d++ {
							if !mine() {
								continue
							}
							for v := 0; v < x.scale(6, 60); v++ {
								o := randOpt3(s)
								o.HasYear, o.Year = true, y
								if !s.Eval(&Case{M: "time3164", In: stamp(mo, d, r.Intn(24), r.Intn(60), r.Intn(60)), O: o}) {
									return
								}
							}
						}
					}
				}
				// Instants that are out of the ordinary
				for _, t := range notable(false) {
					if !mine() {
						continue
					}
					for v := 0; v < x.scale(2, 10); v++ {
						o := randOpt3(s)
						o.RFC3339 = true
						if !s.Eval(&Case{M: "time3164", In: cat("<1>", t, " h x"), O: o}) {
							return
						}
					}
					n, _ := time.Parse(time.RFC3339, t)
					o := randOpt3(s)
					o.HasYear, o.Year = true, n.Year()
					if v := r.Intn(4); v == 0 {
						o.Locale = ""
					} else if v == 1 {
						o.Locale, o.TZ = "", ""
					}
					if !s.Eval(&Case{M: "time3164", In: stamp(int(n.Month()), n.Day(), n.Hour(), n.Minute(), n.Second()), O: o}) {
						return
					}
				}
				for sec := 0; sec < 86400; sec += x.scale(7, 1) {
					if !mine() {
						continue
					}
					if !s.Eval(&Case{M: "time3164", In: stamp(1+r.Intn(12), 1+r.Intn(28), sec/3600, sec/60%60, sec%60), O: randOpt3(s)}) {
						return
					}
				}
				for c := 0; c < x.scale(20000, 300000); c++ {
					o := randOpt3(s)
					in := stamp(1+r.Intn(12), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60))
					if r.Intn(3) == 0 {
						o.RFC3339 = true
						in = cat("<1>", rfc3339Text(r, false), " h x")
					}
					if !s.Eval(&Case{M: "time3164", In: in, O: o}) {
						return
					}
				}
				// Hours around the offset changes of a few zones, every year
				for y := 1900; y <= 2037; y++ {
					for _, z := range []string{"Europe/Rome", "America/New_York", "Australia/Lord_Howe", "America/Sao_Paulo", "Europe/Dublin"} {
						if !mine() {
							continue
						}
						t := time.Date(y, 1, 1, 0, 0, 0, 0, zone(z))
						for t.Year() == y {
							_, end := t.ZoneBounds()
							if end.IsZero() || end.Year() != y {
								break
							}
							for dm := -130; dm <= 130; dm += x.scale(13, 1) {
								q := end.Add(time.Duration(dm) * time.Minute)
								for _, o := range []Opt{{HasYear: true, Year: y, Locale: z}, {HasYear: true, Year: y, TZ: z}, {HasYear: true, Year: y, TZ: "Asia/Kathmandu", Locale: z}} {
									if !s.Eval(&Case{M: "time3164", In: stamp(int(q.Month()), q.Day(), q.Hour(), q.Minute(), q.Second()), O: o}) {
										return
									}
								}
								u := q.UTC()
								if !s.Eval(&Case{M: "time3164", In: stamp(int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second()), O: Opt{HasYear: true, Year: y, TZ: z}}) {
									return
								}
							}
							t = end.Add(time.Hour)
						}
					}
				}
			})
		},
	}
}
