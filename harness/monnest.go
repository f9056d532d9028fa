package main

import (
	"fmt"
	"math/rand"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// ---------------------------------------------------------------- C36: callbacks which use the library

// nest is a nested use of the library.
type nest struct {
	r       *rand.Rand
	s       *Shard
	rec     *Rec
	shared  []syslog.Machine // parsers used at every depth
	sharedO []Opt
	budget  int
	bad     string
}

func (n *nest) note(depth int, what, d string) {
	if d != "" && n.bad == "" {
		n.bad = fmt.Sprintf("at depth %d, %s: %s", depth, what, d)
	}
}

// act does something with the library, at the given depth.
func (n *nest) act(depth int) {
	if n.budget--; n.budget < 0 || n.bad != "" {
		return
	}
	r := n.r
	k := r.Intn(7)
	if depth == 0 {
		k = 0
	}
	switch k {
	case 0, 1:
		n.stream(depth)
	case 2:
		kind := pick(r, "5424", "3164")
		o := randOptOf(n.s, kind)
		p := newMachine(kind, o)
		for q := 1 + r.Intn(4); q > 0; q-- {
			in := anyInput(n.s, kind)
			y0 := time.Now().Year()
			m, err := p.Parse(in)
			n.rec.events++
			n.note(depth, fmt.Sprintf("a machine of its own (%+v) on %q", o, clip(string(in), 200)), judge(kind, m, err, in, o, y0))
		}
		n.rec.class(fmt.Sprintf("machines at depth %d", depth))
	case 3:
		i := r.Intn(len(n.shared))
		kind := []string{"5424", "3164"}[i%2]
		in := anyInput(n.s, kind)
		y0 := time.Now().Year()
		m, err := n.shared[i].Parse(in)
		n.rec.events++
		n.note(depth, fmt.Sprintf("a parser used at every depth (%+v) on %q", n.sharedO[i], clip(string(in), 200)), judge(kind, m, err, in, n.sharedO[i], y0))
		n.rec.class(fmt.Sprintf("parsers used at every depth at depth %d", depth))
	default:
		g, w := &rfc5424.SyslogMessage{}, newBuilt()
		ops := append([]BOp{{Op: "pri", N: r.Intn(192)}, {Op: "ver", N: 1 + r.Intn(999)}}, randBOps(r, 1+r.Intn(8))...)
		for i := range ops {
			perform(g, &ops[i])
			w.apply(&ops[i])
		}
		text, err := g.String()
		n.rec.events++
		n.note(depth, "a message built", judgeText(text, err, w))
		n.rec.class(fmt.Sprintf("builders at depth %d", depth))
	}
}

// stream parses a stream whose listener and reader do something themselves.
func (n *nest) stream(depth int) {
	r := n.r
	kind := pick(r, "oct", "nt")
	o := randStreamOpt(n.s)
	o.NUL = kind == "nt" && r.Intn(2) == 0
	in, spec := reuseStream(n.s, kind, o)
	if len(in) > 400 {
		in = in[:400]
	}
	if r.Intn(2) == 0 {
		spec.Chunks = []int{1 + r.Intn(100)}
	}
	x := expected(kind, in, o, &spec)
	g := &got{}
	inside := r.Intn(4)
	snk := &sink{g: g}
	rd := newReader(in, &spec)
	p := newStream(kind, o, func(res *syslog.Result) {
		snk.listen(res)
		before := g.texts[len(g.texts)-1]
		if depth < 4 && inside != 1 && r.Intn(3) > 0 {
			n.act(depth + 1)
			n.rec.class(fmt.Sprintf("from a listener at depth %d", depth))
		}
		if res == nil {
			return
		}
		if now := dumpRes(res.Message, res.Error); now != before {
			n.note(depth, "a result", fmt.Sprintf("it was %s, it became %s meanwhile", before, now))
		}
		if m, ok := res.Message.(*rfc5424.SyslogMessage); ok && m != nil && res.Error == nil {
			if _, err := m.String(); err != nil {
				n.note(depth, "a message received", err.Error())
			}
		}
	})
	rd.hook = func(*monReader) {
		if depth < 4 && inside != 2 && r.Intn(5) == 0 {
			n.act(depth + 1)
			n.rec.class(fmt.Sprintf("from a reader at depth %d", depth))
		}
	}
	p.Parse(rd)
	n.rec.events++
	n.rec.class(fmt.Sprintf("streams at depth %d", depth))
	d := compareStream(g, &x)
	if d != "" {
		d += "\ndelivered:" + g.String()
	}
	n.note(depth, fmt.Sprintf("a %s stream %q (%+v)", kind, clip(string(in), 400), o), d)
}

func monNest(c *Case, r *Rec) string {
	rng := rand.New(rand.NewSource(c.Seed))
	n := &nest{r: rng, s: &Shard{rng: rng}, rec: r, budget: c.N}
	for i := 0; i < 4; i++ {
		kind := []string{"5424", "3164"}[i%2]
		o := randOptOf(n.s, kind)
		o.Parser = i < 3
		n.shared, n.sharedO = append(n.shared, newMachine(kind, o)), append(n.sharedO, o)
	}
	n.act(0)
	r.nontrivial = r.events > 2
	return n.bad
}

func init() {
	monitors["nest"] = monNest
	checks["C36"] = check{
		rule: "streams whose listeners and readers parse other streams, use machines of their own, parsers used at every depth, builders, and serialize the messages received, up to four levels deep; everything at every depth is compared with the reference models; distinct = distinct seed, non-trivial = more than two uses",
		run: func(x *Ctx) {
			for d := 0; d < 4; d++ {
				x.require = append(x.require, fmt.Sprintf("from a listener at depth %d", d), fmt.Sprintf("from a reader at depth %d", d), fmt.Sprintf("streams at depth %d", d+1),
					fmt.Sprintf("machines at depth %d", d+1), fmt.Sprintf("builders at depth %d", d+1), fmt.Sprintf("parsers used at every depth at depth %d", d+1))
			}
			x.Run(16, func(s *Shard, i, n int) {
				for c := 0; c < x.scale(1500, 40000); c++ {
					if !s.Eval(&Case{M: "nest", Seed: s.rng.Int63n(1 << 50), N: 2 + s.rng.Intn(40)}) {
						return
					}
				}
			})
		},
	}
}
