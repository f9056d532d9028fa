package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func new5424(o Opt) syslog.Machine {
	var opts []syslog.MachineOption
	if o.Best {
		opts = append(opts, rfc5424.WithBestEffort())
	}
	if o.Compliant {
		opts = append(opts, rfc5424.WithCompliantMsg())
	}
	if o.Parser {
		return rfc5424.NewParser(opts...)
	}
	return rfc5424.NewMachine(opts...)
}

func as5(m syslog.Message) (*rfc5424.SyslogMessage, string) {
	if m == nil {
		return nil, ""
	}
	g, ok := m.(*rfc5424.SyslogMessage)
	if !ok {
		return nil, fmt.Sprintf("the message is a %T", m)
	}
	if g == nil {
		return nil, "the message is a typed nil"
	}
	return g, ""
}

var colRe = regexp.MustCompile(`(?s)^(.*) \[col (\d+)\]$`)

func splitErr(err error) (text string, col int, ok bool) {
	m := colRe.FindStringSubmatch(err.Error())
	if m == nil {
		return err.Error(), -1, false
	}
	c, e := strconv.Atoi(m[2])
	return m[1], c, e == nil
}

func partOf(kind string) string {
	k := strings.Fields(kind)
	if len(k) > 4 {
		k = k[:4]
	}
	return strings.Join(k, "_")
}

func classify5(w *res5) string {
	if !w.ok() {
		return "rejected:" + partOf(w.kind)
	}
	c := "accepted"
	if w.out.sd != nil {
		c += "+sd"
	}
	if w.out.msg != nil {
		c += "+msg"
	}
	return c
}

// C01: acceptance.
func monAccept5(c *Case, r *Rec) string {
	w := ref5424(c.In, c.O.Compliant)
	r.class(classify5(&w))
	r.nontrivial = w.minimal || w.col > 1
	o := c.O
	o.Best = false
	m, err := new5424(o).Parse(c.In)
	r.events++
	if w.ok() && err != nil {
		return fmt.Sprintf("rejected (%v) although it follows the grammar", err)
	}
	if w.ok() && m == nil {
		return "no message although it follows the grammar"
	}
	if !w.ok() && err == nil {
		return fmt.Sprintf("accepted although it does not follow the grammar at offset %d (%s): %s", w.col, w.kind, dump(m))
	}
	if !w.ok() && m != nil {
		return "a message along with the error in strict mode"
	}
	return ""
}

// C02: extraction.
func monExtract5(c *Case, r *Rec) string {
	w := ref5424(c.In, c.O.Compliant)
	r.class(classify5(&w))
	if !w.ok() {
		return ""
	}
	r.nontrivial = true
	for _, best := range []bool{false, true} {
		o := c.O
		o.Best = best
		m, err := new5424(o).Parse(c.In)
		r.events++
		if err != nil {
			return fmt.Sprintf("best=%v: rejected (%v) although it follows the grammar", best, err)
		}
		g, bad := as5(m)
		if bad != "" {
			return bad
		}
		if g == nil {
			return "no message"
		}
		if d := compare5(g, &w.out); d != "" {
			return fmt.Sprintf("best=%v: %s", best, d)
		}
	}
	return ""
}

// C03: best effort.
func monBest5(c *Case, r *Rec) string {
	w := ref5424(c.In, c.O.Compliant)
	o := c.O
	o.Best = false
	sm, serr := new5424(o).Parse(c.In)
	o.Best = true
	bm, berr := new5424(o).Parse(c.In)
	r.events += 2
	cl := classify5(&w)
	if !w.ok() && w.minimal {
		cl = "partial:" + partOf(w.kind)
	}
	r.class(cl)
	r.nontrivial = w.minimal
	if (serr == nil) != (berr == nil) || serr != nil && serr.Error() != berr.Error() {
		return fmt.Sprintf("strict error %v, best effort error %v", serr, berr)
	}
	b, bad := as5(bm)
	if bad != "" {
		return bad
	}
	if serr == nil {
		s, bad := as5(sm)
		if bad != "" {
			return bad
		}
		if s == nil || b == nil {
			return "no message and no error"
		}
		if d := diff5(s, b); d != "" {
			return "strict and best effort messages differ: " + d
		}
		if w.ok() {
			if d := compare5(b, &w.out); d != "" {
				return d
			}
		}
		return ""
	}
	if sm != nil {
		return "strict parsing gives a message along with the error"
	}
	if w.ok() {
		return fmt.Sprintf("rejected (%v) although it follows the grammar", serr)
	}
	if w.minimal != (b != nil) {
		return fmt.Sprintf("partial message: %v, expected: %v (error %v)", b != nil, w.minimal, berr)
	}
	if b != nil {
		if d := compare5(b, &w.out); d != "" {
			return fmt.Sprintf("partial message: %s (error %v)", d, berr)
		}
	}
	return ""
}

// C04: errors.
func monError5(c *Case, r *Rec) string {
	w := ref5424(c.In, c.O.Compliant)
	r.class(classify5(&w))
	for _, best := range []bool{false, true} {
		o := c.O
		o.Best = best
		_, err := new5424(o).Parse(c.In)
		r.events++
		if err == nil {
			if !w.ok() {
				return "accepted although it does not follow the grammar"
			}
			continue
		}
		r.nontrivial = true
		if w.ok() {
			return fmt.Sprintf("rejected (%v) although it follows the grammar", err)
		}
		text, col, ok := splitErr(err)
		if !ok {
			return fmt.Sprintf("the error %q does not tell the column", err)
		}
		if col != w.col {
			return fmt.Sprintf("error %q, expected at column %d", err, w.col)
		}
		if w.date {
			known := false
			for _, k := range kinds5 {
				known = known || k == text
			}
			if known || text == "" {
				return fmt.Sprintf("error %q for an impossible date", err)
			}
			continue
		}
		if text != w.kind && (w.alt == "" || text != w.alt) {
			return fmt.Sprintf("error %q, expected %q", err, w.kind)
		}
	}
	return ""
}

var kinds5 = []string{rfc5424.ErrPrival, rfc5424.ErrPri, rfc5424.ErrVersion, rfc5424.ErrHostname, rfc5424.ErrAppname, rfc5424.ErrProcID, rfc5424.ErrMsgID, rfc5424.ErrStructuredData, rfc5424.ErrSdID, rfc5424.ErrSdIDDuplicated, rfc5424.ErrSdParam, rfc5424.ErrMsg, rfc5424.ErrMsgNotCompliant, rfc5424.ErrEscape, rfc5424.ErrParse}

// diff5 compares two messages of RFC 5424.
func diff5(a, b *rfc5424.SyslogMessage) string {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return ""
		}
		return "one of the two is missing"
	}
	x, y := dump(a), dump(b)
	if x != y {
		return x + " / " + y
	}
	return ""
}

func init() {
	monitors["accept5424"] = monAccept5
	monitors["extract5424"] = monExtract5
	monitors["best5424"] = monBest5
	monitors["error5424"] = monError5
	for id, mon := range map[string]string{"C01": "accept5424", "C02": "extract5424", "C03": "best5424", "C04": "error5424"} {
		id, mon := id, mon
		checks[id] = check{
			rule: "RFC 5424 inputs: every byte at every position and every truncation of a corpus, all short PRI/VERSION/SD strings over small alphabets, calendar and UTF-8 enumerations, every field length, every byte (and the end) in every state met by a guided walk, inputs of up to megabytes, words real messages hold in every place, random grammar based inputs and their mutations; both message modes; distinct = distinct (input, options), non-trivial = got past the PRI (C02: accepted, C04: rejected)",
			run: func(x *Ctx) {
				x.require = map[string][]string{
					"C01": {"accepted+sd+msg", "accepted", "rejected:" + partOf(rfc5424.ErrSdParam)},
					"C02": {"accepted+sd+msg", "accepted", "accepted+msg", "accepted+sd"},
					"C03": {"accepted+sd+msg", "partial:" + partOf(rfc5424.ErrSdParam), "partial:" + partOf(rfc5424.ErrHostname), "partial:" + partOf(rfc5424.ErrMsgNotCompliant)},
					"C04": {"rejected:" + partOf(rfc5424.ErrPri), "rejected:" + partOf(rfc5424.ErrVersion), "rejected:date", "rejected:" + partOf(rfc5424.ErrMsgID), "rejected:" + partOf(rfc5424.ErrEscape)},
				}[id]
				x.Run(16, func(s *Shard, i, n int) {
					k := 0
					work5424(s, i, n, func(section string, in []byte) bool {
						k++
						c := &Case{M: mon, K: section, In: in}
						// The message mode matters for inputs with a non trivial message only
						switch {
						case section == "utf8" || section == "bom":
							if !s.Eval(&Case{M: mon, K: section, In: in}) {
								return false
							}
							c.O.Compliant = true
						default:
							c.O.Compliant = k%2 == 0
						}
						c.O.Parser = k%5 == 0
						return s.Eval(c)
					})
				})
			},
		}
	}
}
