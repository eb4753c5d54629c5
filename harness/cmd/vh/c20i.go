package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// The interactive client, on a terminal.

const askLimit = 60 * time.Second

var resultRe = regexp.MustCompile(`Result of ([^\n]*): (-?[0-9]+)\.`)

func typable(s string) bool {
	for _, r := range s {
		if !unicode.IsPrint(r) || r > 0x24f {
			return false
		}
	}
	return len(s) > 0 && len(s) < 100
}

// interact runs one session of n requests against two directories, the second of
// which may be missing.
func interact(c *C, point, complex *cluster, d, stats *directory, n int, how string, replace func() (d, stats *directory)) {
	menu := "What do you want to do ?"
	var t *terminal
	start := func() bool {
		t = startOnTerminal(c, "interactive", scratch(c), []string{"VPIR_CONFIG_POINT=" + point.config, "VPIR_CONFIG_COMPLEX=" + complex.config})
		if t == nil {
			return false
		}
		if out, ok := t.prompt(c, menu, askLimit); !ok {
			c.Failf("%s: the interactive client ends at once: %v %s", how, t.why(), tail(out, 800))
		}
		return true
	}
	if !start() {
		return
	}
	next := func(text string) string {
		out, ok := t.prompt(c, text, askLimit)
		if !ok {
			c.Failf("%s: ends before it asks %q: %v %s", how, text, t.why(), tail(out, 1200))
		}
		return out
	}
	last, lastAt := "", 0
	for i := 0; i < n; i++ {
		if replace != nil && i%6 == 5 { // while the session goes on
			d, stats = replace()
			how += ", new directory"
			c.Obs("directories_replaced", 1)
		}
		if stats == nil || c.R.Intn(3) == 0 { // a key
			e := d.pickAddress(c)
			if !typable(e) {
				continue
			}
			t.pick(0)
			next("Enter the email")
			t.typeText(e + "\r")
			out := next(menu)
			d.judgeKey(c, how, e, out, !strings.Contains(out, "No key is found"))
			c.Evalf("%s key %q", how, e)
			c.Obs("interactive_lookups", 1)
			continue
		}
		t.pick(1)
		next("What kind of stat do you want ?")
		count := func(f func(k plainKey) bool) uint32 { return (&predicate{match: f}).count(stats.plain) }
		text := func() (q string, at int) {
			defer func() { last, lastAt = q, at }()
			if last != "" && c.R.Intn(3) > 0 { // the same once more, or at the other end
				return last, []int{lastAt, 1 - lastAt}[c.R.Intn(2)]
			}
			e := ""
			for !typable(e) {
				e = stats.plain[c.R.Intn(len(stats.plain))].email
			}
			at = c.R.Intn(2)
			n := 1 + c.R.Intn(len(e))
			if c.R.Intn(3) > 0 && n > 4 {
				n = 1 + c.R.Intn(4)
			}
			if at == 0 {
				return e[:n], 0
			}
			return e[len(e)-n:], 1
		}
		emails := func(q string, at int) func(k plainKey) bool {
			return func(k plainKey) bool {
				if at == 0 {
					return emailMatch(len(q), 0, q)(k.email)
				}
				return emailMatch(0, len(q), q)(k.email)
			}
		}
		var want []uint32
		label, fails := "", false
		switch kind := c.R.Intn(4); kind {
		case 0, 1:
			q, at := text()
			if !typable(q) {
				q, at = "a", 0
			}
			if kind == 0 {
				t.pick(0)
				next("What attribute do you want to count on ?")
				t.pick(0)
				want = []uint32{count(emails(q, at))}
			} else {
				t.pick(1)
				v, ok := (&predicate{match: emails(q, at)}).average(stats.plain, time.Now().UTC().Year())
				want, fails = []uint32{v}, !ok
			}
			next("Select the kind of query")
			t.pick(at)
			next("Enter your query text")
			t.typeText(q + "\r")
			label = fmt.Sprintf("%d %q at %d", kind, q, at)
		case 2:
			t.pick(0)
			next("What attribute do you want to count on ?")
			t.pick(1)
			next("Select the kind of algo")
			names := []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}
			k := c.R.Intn(5)
			t.pick(k)
			want = []uint32{count(func(x plainKey) bool { return x.algo == algoNames[names[k]] })}
			label = names[k]
		case 3:
			t.pick(0)
			next("What attribute do you want to count on ?")
			t.pick(2)
			next("Enter a year")
			if c.R.Intn(2) == 0 {
				t.typeText([]string{"-3", "20x", "year"}[c.R.Intn(3)] + "\r")
				next("Enter a year")
			}
			y := []int{2011, 2019, 2018, 2000 + c.R.Intn(20)}[c.R.Intn(4)]
			t.typeText(strconv.Itoa(y) + "\r")
			start := time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
			want = []uint32{count(func(k plainKey) bool { return k.when.Equal(start) }),
				count(func(k plainKey) bool { return k.when.UTC().Year() == y }),
				count(func(k plainKey) bool { return k.when.UTC().Year() == y-1 }),
				count(func(k plainKey) bool { return k.when.UTC().Year() < y })}
			label = fmt.Sprint(y)
		}
		c.Evalf("%s statistic %s", how, label)
		c.Obs("interactive_statistics", 1)
		out, ok := t.prompt(c, "Type enter to continue.", askLimit)
		m := resultRe.FindStringSubmatch(out)
		if fails { // there is no result: the program ends, or says so
			c.Check(m == nil, "%s: %s: the average of nothing is %v", how, label, m)
			if !ok && !start() {
				return
			}
			continue
		}
		c.Check(ok && m != nil, "%s: %s: no result: %v %s", how, label, t.why(), tail(out, 1000))
		good := false
		for _, w := range want {
			good = good || m[2] == fmt.Sprint(w)
		}
		c.Check(good, "%s: %s: %s instead of %v", how, label, m[0], want)
		t.typeText("\r")
		next(menu)
	}
	t.pick(2)
	st := t.exit(c, 20*time.Second)
	c.Check(st == 0, "%s: ends with status %d: %s", how, st, tail(t.plain(0), 600))
	c.Obs("interactive_sessions", 1)
}

func buildInteractive(t *T) {
	for rep := 0; rep < t.N(2, 10); rep++ {
		rep := rep
		t.Addf(func(c *C) {
			d := newDirectory(c, genKeys(c.R, 10+c.R.Intn(60)))
			s := newDirectory(c, statKeys(c, 20+c.R.Intn(60)))
			scheme := []string{"pointPIR", "pointVPIR"}[rep%2]
			k := 2 + c.R.Intn(2)
			point := startCluster(c, scheme, k, d.dir, d.files)
			complex := startCluster(c, "complexVPIR", 2, s.dir, s.files)
			var jobs []func()
			for i := 0; i < 3; i++ {
				x := c.child()
				jobs = append(jobs, func() {
					interact(x, point, complex, d, s, t.N(16, 80), fmt.Sprintf("%s with %d servers, interactive", scheme, k), nil)
				})
			}
			together(c, jobs)
			point.healthy(c, "interactive")
			complex.healthy(c, "interactive")
		}, "interactive, round %d", rep)
		t.Addf(func(c *C) {
			// servers whose directory is replaced
			scheme := []string{"pointVPIR", "pointPIR"}[rep%2]
			k := 2 + c.R.Intn(2)
			var ps, ks *served
			fill := func() (*directory, *directory) {
				ps = newServedOf(c, scheme, k, newDirectory(c, genKeys(c.R, 1+c.R.Intn(130))))
				ks = newServedOf(c, "complexVPIR", 2, newDirectory(c, statKeys(c, 1+c.R.Intn(60))))
				return ps.d, ks.d
			}
			d, s := fill()
			pf, kf := ps.fakes(c), ks.fakes(c)
			point := &cluster{scheme: scheme, config: writeConfig(c, addrsOf(pf)), addrs: addrsOf(pf)}
			complex := &cluster{scheme: "complexVPIR", config: writeConfig(c, addrsOf(kf)), addrs: addrsOf(kf)}
			interact(c, point, complex, d, s, t.N(18, 60), "interactive", func() (*directory, *directory) {
				d, s = fill()
				ps.replace(pf)
				ks.replace(kf)
				return d, s
			})
			// sessions of the library
			a, b := point.session(c), complex.session(c)
			for i := 0; i < t.N(4, 20); i++ {
				d, s = fill()
				ps.replace(pf)
				ks.replace(kf)
				point.sessionWork(c, d, &a, fmt.Sprintf("session, directory %d", i), 6)()
				complex.sessionWork(c, s, &b, fmt.Sprintf("session, directory %d", i), 6)()
				c.Obs("directories_replaced", 1)
			}
		}, "replaced directories, round %d", rep)
	}
}

// askInteractive is a session of one request.
func askInteractive(s *served, point, complex string) *asker {
	return &asker{"interactive", func(c *C) (bool, string) {
		t := startOnTerminal(c, "interactive", scratch(c), []string{"VPIR_CONFIG_POINT=" + point, "VPIR_CONFIG_COMPLEX=" + complex})
		steps := []func(){
			func() { t.pick(1) }, func() { t.pick(0) }, func() { t.pick(1) }, func() { t.pick(c.R.Intn(5)) }, func() { t.typeText("\r") }}
		texts := []string{"What do you want to do ?", "What kind of stat", "What attribute", "Select the kind of algo", "Type enter to continue."}
		if strings.HasPrefix(s.scheme, "point") {
			e := "a@b.c"
			for i := 0; i < 20; i++ {
				if x := s.d.pickAddress(c); typable(x) {
					e = x
				}
			}
			steps = []func(){func() { t.pick(0) }, func() { t.typeText(e + "\r") }, func() {}}
			texts = []string{"What do you want to do ?", "Enter the email", "What do you want to do ?"}
		}
		all := ""
		for i, f := range steps {
			out, ok := t.prompt(c, texts[i], askLimit)
			all += out
			if !ok {
				return t.exit(c, 20*time.Second) != 0, all
			}
			f()
		}
		t.stop()
		return false, all
	}}
}

func haveTerminals() bool {
	a, b, err := openPty()
	if err == nil {
		a.Close()
		b.Close()
	}
	return err == nil
}
