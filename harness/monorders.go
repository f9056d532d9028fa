package main

import (
	"bufio"
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// What an instance does can not depend on what the others did before, in the same process. A new instance is not a good
// reference for that, since what is wrong may be shared by all the instances. So the same scripts are run by different
// processes in different orders, each one must observe the same.

// kinScript works on inputs, or values, which look like the ones of the other scripts.
func kinScript(kind string, seed int64) string {
	r := rand.New(rand.NewSource(seed))
	s := &Shard{rng: r}
	var log bytes.Buffer
	k := "5424"
	if strings.HasSuffix(kind, "3") {
		k = "3164"
	}
	bases := kinBases(k)
	next := func(in []byte) []byte {
		if r.Intn(8) == 0 || len(in) == 0 || len(in) > 300 {
			return []byte(bases[r.Intn(len(bases))])
		}
		return kin(r, in)
	}
	switch kind {
	case "kin5", "kin3":
		o := randOptOf(s, k)
		o.Parser = r.Intn(2) == 0
		p := newMachine(k, o)
		in := next(nil)
		for n := 20; n > 0; n-- {
			m, err := p.Parse(append([]byte(nil), in...))
			log.WriteString(dumpRes(m, err))
			in = next(in)
		}
	case "kinoct", "kinnt":
		o := Opt{Best: r.Intn(4) > 0}
		snk := &sink{}
		p := newStream(kind[3:], o, snk.listen)
		for n := 3; n > 0; n-- {
			in := kinStream(r, kind[3:], '\n', 10)
			snk.g = &got{}
			p.Parse(newReader(in, randReader(r, len(in))))
			log.WriteString(snk.g.String())
		}
	case "kinbuild":
		// The parts of a message which looks like others are given to a builder
		m := &rfc5424.SyslogMessage{}
		in := next(nil)
		for n := 12; n > 0; n-- {
			in = next(in)
			f := strings.SplitN(string(in), " ", 7)
			for len(f) < 7 {
				f = append(f, string(in))
			}
			m.SetTimestamp(f[1])
			m.SetHostname(f[2])
			m.SetAppname(f[3])
			m.SetProcID(f[4])
			m.SetMsgID(f[5])
			m.SetMessage(f[6])
			m.SetPriority(uint8(len(in)))
			m.SetVersion(uint16(len(f[6])))
			m.SetParameter(f[2], f[3], f[6])
			m.SetElementID(f[4])
			log.WriteString(dump(m))
			fmt.Fprintln(&log)
			if n%3 == 0 {
				fmt.Fprint(&log, fmt.Sprint(m.String()))
			}
		}
	case "shared5", "shared3":
		o := randOptOf(s, k)
		o.Parser = true
		p := newMachine(k, o)
		ins := make([][]byte, 24)
		in := next(nil)
		for i := range ins {
			ins[i] = append([]byte(nil), in...)
			if in = next(in); r.Intn(4) == 0 {
				ins[i] = anyInput(s, k)
			}
		}
		out := make([]string, len(ins))
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						out[g] = fmt.Sprintf("panic: %v", e)
					}
				}()
				for i := g; i < len(ins); i += 4 {
					m, err := p.Parse(ins[i])
					out[i] = dumpRes(m, err)
				}
			}(g)
		}
		wg.Wait()
		for i := range out {
			fmt.Fprintf(&log, "%q\n  %s\n", ins[i], out[i])
		}
	default:
		return script(kind, seed)
	}
	return log.String()
}

func orderedScript(kinds []string, seed int64, j int) (text string) {
	defer func() {
		if e := recover(); e != nil {
			text = fmt.Sprintf("panic: %v", e)
		}
	}()
	return kinScript(kinds[j%len(kinds)], seed+int64(j))
}

// orderOf tells in which order the scripts are run.
func orderOf(order string, seed int64, n int) []int {
	at := make([]int, n)
	for j := range at {
		at[j] = j
		if order == "down" {
			at[j] = n - 1 - j
		}
	}
	if order == "shuffled" {
		rand.New(rand.NewSource(seed)).Shuffle(n, func(a, b int) { at[a], at[b] = at[b], at[a] })
	}
	return at
}

// digests is what a child process does. It prints a digest of what each script observes, and the whole of it for one.
func digests(list string, seed int64, n int, order string, show int) {
	kinds := strings.Split(list, ",")
	out := make([]uint64, n)
	text := ""
	do := func(j int) {
		t := orderedScript(kinds, seed, j)
		h := fnv.New64a()
		h.Write([]byte(t))
		out[j] = h.Sum64()
		if j == show {
			text = t
		}
	}
	if order == "threads" {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for j := g; j < n; j += 8 {
					do(j)
				}
			}(g)
		}
		wg.Wait()
	} else {
		for _, j := range orderOf(order, seed, n) {
			do(j)
		}
	}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	if show >= 0 {
		w.WriteString(text)
		return
	}
	for _, h := range out {
		fmt.Fprintf(w, "%016x\n", h)
	}
}

func runDigests(c *Case, order string, show int) (string, string) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "digests", c.K, fmt.Sprint(c.Seed), fmt.Sprint(c.N), order, strconv.Itoa(show))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err = cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if err != nil {
		return "", fmt.Sprintf("a process running scripts (%s) ended with %v\n%s", order, err, clip(errb.String(), 6000))
	}
	return out.String(), ""
}

// monOrders runs N scripts in new processes, in different orders.
func monOrders(c *Case, r *Rec) string {
	orders := []string{"up", "down", "shuffled", "threads"}
	res := make([]string, len(orders))
	bad := make([]string, len(orders))
	var wg sync.WaitGroup
	for i, o := range orders {
		wg.Add(1)
		go func(i int, o string) {
			defer wg.Done()
			res[i], bad[i] = runDigests(c, o, -1)
		}(i, o)
	}
	wg.Wait()
	r.events += int64(c.N * len(orders))
	r.nontrivial = true
	for _, k := range strings.Split(c.K, ",") {
		r.class("orders of " + k)
	}
	for i := range orders {
		if bad[i] != "" {
			return bad[i]
		}
	}
	base := strings.Fields(res[0])
	if len(base) != c.N {
		return fmt.Sprintf("%d digests instead of %d", len(base), c.N)
	}
	kinds := strings.Split(c.K, ",")
	for i := 1; i < len(orders); i++ {
		for j, h := range strings.Fields(res[i]) {
			if h != base[j] {
				a, _ := runDigests(c, orders[0], j)
				b, _ := runDigests(c, orders[i], j)
				return fmt.Sprintf("script %d (%s) observes something else depending on what other instances did before it (order %s against %s), %s", j, kinds[j%len(kinds)], orders[0], orders[i], strings.Replace(firstDiff(a, b), "\nalone:", "\nand:", 1))
			}
		}
	}
	return ""
}

// ordersOf evaluates scripts in different orders.
func ordersOf(x *Ctx, n int, kinds ...string) {
	for _, k := range kinds {
		x.require = append(x.require, "orders of "+k)
	}
	x.Run(x.scale(2, 12), func(s *Shard, i, _ int) {
		s.Eval(&Case{M: "conc-orders", K: strings.Join(kinds, ","), Seed: s.rng.Int63n(1 << 40), N: n})
	})
}

func init() { monitors["conc-orders"] = monOrders }
