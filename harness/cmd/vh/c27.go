package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime/metrics"

	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C27", &propDef{
		rule: "a client of one of the schemes, an honest query of it and a vector of answers made from the honest ones: each answer corrupted in turn (every prefix, extensions, every header bit, dropped, repeated and extreme words, random bytes, nothing) or all of them, or another number of answers; reconstruction has to give an error or the right result without a crash and within bounded memory (the unauthenticated schemes, which cannot tell, may give a wrong result when every length and number is well-formed), and after each series an honest lookup with the same client has to be right; before any query it has to be an error. Distinct by scheme, answer and corruption",
		assume: []string{
			"unauthenticated schemes: an answer of the right length and number cannot be told from a right one",
			"a wrong result of an authenticated scheme is accepted by chance with negligible probability (at most about 1e-7 for each attempt, lattice schemes)"},
		minEvals: 20000,
		build:    buildC27,
	})
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// bounded runs f and reports whether it allocates more than a limit. Others
// allocate at the same time, so that only a repeated excess counts.
func bounded(limit uint64, f func()) bool {
	for i := 0; i < 3; i++ {
		a := allocated()
		f()
		if allocated()-a <= limit {
			return true
		}
	}
	return false
}

const allocLimit = 1 << 30

// wellFormed tells whether an unauthenticated client cannot refuse answers.
func wellFormed(honest, a [][]byte) bool {
	if len(a) != len(honest) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(honest[i]) {
			return false
		}
	}
	return true
}

func hostileAnswers(c *C, s *scheme, lookups, n int) {
	cl := s.newClient(detReader{c.R})
	honestly := func(when string) {
		r := s.pick(c)
		if m := r.judge(s.ask(cl, r)); m != "" {
			c.Failf("%s: %s: %s", s.name, when, m)
		}
		c.Obs("honest_lookups", 1)
	}

	// before any query
	fresh := s.newClient(detReader{c.R})
	for _, a := range [][][]byte{nil, {}, {nil}, {{}}, {{}, {}}, {c.Bytes(8), c.Bytes(8)}, {make([]byte, 64)}, {c.Bytes(300), c.Bytes(300), c.Bytes(300)}} {
		var err error
		if p := Panics(func() { _, err = fresh.reconstruct(a) }); p != nil {
			c.Failf("%s: %d answers before any query: panic: %v", s.name, len(a), p)
		}
		c.Check(err != nil, "%s: %d answers before any query are accepted", s.name, len(a))
		c.Evalf("%s before %d", s.name, len(a))
	}

	for l := 0; l < lookups; l++ {
		var r *request
		var honest [][]byte
		renew := func() {
			r = s.pick(c)
			qs, err := cl.query(r)
			c.Must(err, s.name)
			honest = make([][]byte, len(qs))
			for i := range qs {
				honest[i], err = s.answer[i](qs[i])
				c.Must(err, s.name)
			}
		}
		renew()
		count := 0
		try := func(what string, a [][]byte) {
			keep := make([][]byte, len(a))
			for i := range a {
				keep[i] = append([]byte{}, a[i]...)
			}
			var v string
			var err error
			var p interface{}
			ok := bounded(allocLimit, func() {
				x := make([][]byte, len(keep))
				for i := range x {
					if a[i] != nil {
						x[i] = append([]byte{}, keep[i]...)
					}
				}
				p = Panics(func() { v, err = cl.reconstruct(x) })
			})
			if p != nil {
				c.Failf("%s: %s: %s: panic: %v", s.name, r.what, what, p)
			}
			c.Check(ok, "%s: %s: %s: reconstruction allocates more than %d bytes", s.name, r.what, what, allocLimit)
			same := len(a) == len(honest)
			for i := 0; same && i < len(a); i++ {
				same = bytes.Equal(keep[i], honest[i])
			}
			switch {
			case err != nil:
				c.Obs("refused", 1)
			case v == r.want:
				c.Obs("right", 1)
			case same:
				// LWE and others judge the honest answer below
				c.Failf("%s: %s: the honest answers give %s instead of %s", s.name, r.what, v, r.want)
			case s.auth || !wellFormed(honest, keep):
				c.Failf("%s: %s: %s: gives %s instead of %s or an error", s.name, r.what, what, v, r.want)
			default:
				c.Obs("undetectable", 1)
			}
			c.Evalf("%s %d %s", s.name, l, what)
			count++
			if count%97 == 0 { // go on with another query of the same client
				honestly("after " + what)
				renew()
			}
		}
		with := func(i int, x []byte) [][]byte {
			a := append([][]byte{}, honest...)
			a[i] = x
			return a
		}
		// numbers
		for k := 0; k <= len(honest)+2; k++ {
			if k == len(honest) {
				continue
			}
			var a [][]byte
			for i := 0; i < k; i++ {
				a = append(a, honest[i%len(honest)])
			}
			try(fmt.Sprintf("%d answers", k), a)
			for i := range a {
				a[i] = append([]byte{}, make([]byte, len(a[i]))...)
			}
			try(fmt.Sprintf("%d answers of zeros", k), a)
			try(fmt.Sprintf("%d missing answers", k), make([][]byte, k))
		}
		try("no answers", nil)
		try("all missing", make([][]byte, len(honest)))
		for _, size := range []int{0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 24, 31, 32, 33, 64, 100, 4096} {
			a := make([][]byte, len(honest))
			for i := range a {
				a[i] = make([]byte, size)
			}
			try(fmt.Sprintf("all of %d zeros", size), a)
			for i := range a {
				a[i] = c.Bytes(size)
			}
			try(fmt.Sprintf("all of %d random bytes", size), a)
		}
		for i := range honest {
			try(fmt.Sprintf("answer %d missing", i), with(i, nil))
			try(fmt.Sprintf("answer %d zeros", i), with(i, make([]byte, len(honest[i]))))
			try(fmt.Sprintf("answer %d ones", i), with(i, bytes.Repeat([]byte{255}, len(honest[i]))))
			try(fmt.Sprintf("answer %d random", i), with(i, c.Bytes(len(honest[i]))))
			try(fmt.Sprintf("answer %d repeated", i), with(i, append(append([]byte{}, honest[i]...), honest[i]...)))
			if l == 0 {
				try(fmt.Sprintf("answer %d with 16 MB appended", i), with(i, append(append([]byte{}, honest[i]...), make([]byte, 16<<20)...)))
			}
			corruptions(c, honest[i], 40, n, func(what string, x []byte) { try(fmt.Sprintf("answer %d: %s", i, what), with(i, x)) })
			// extreme dimensions in front of what is there
			for _, d := range []uint32{0, 1, 2, 255, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				for pos := 0; pos < 16 && pos+4 <= len(honest[i]); pos += 4 {
					x := append([]byte{}, honest[i]...)
					binary.BigEndian.PutUint32(x[pos:], d)
					try(fmt.Sprintf("answer %d: word %d is %d", i, pos/4, d), with(i, x))
					binary.LittleEndian.PutUint32(x[pos:], d)
					try(fmt.Sprintf("answer %d: word %d is %d, little endian", i, pos/4, d), with(i, x))
				}
			}
		}
		// the same change everywhere
		corruptions(c, honest[0], 8, n/2, func(what string, x []byte) {
			a := make([][]byte, len(honest))
			for i := range a {
				a[i] = x
			}
			try("all: "+what, a)
		})
		honestly("after hostile answers")
	}
}

func buildC27(t *T) {
	for rep := 0; rep < t.N(3, 14); rep++ {
		label := fmt.Sprintf("schemes %d", rep)
		for i := 0; i < schemeCount; i++ {
			i, rep := i, rep
			t.Addf(func(c *C) {
				s := allSchemes(&C{t: t, k: c.k, R: t.Rng(label)}, 1+rep%3)[i]
				hostileAnswers(c, s, t.N(2, 5), t.N(150, 400))
			}, "answers of scheme %d, round %d", i, rep)
		}
	}
	t.Addf(func(c *C) {
		// a query that fails does not make the next answers dangerous
		for _, s := range allSchemes(c, 1) {
			cl := s.newClient(utils.RandomPRG())
			for _, i := range []int{-1, -1 << 31, 1 << 20, 1 << 30} {
				r := s.pick(c)
				if r.pred != nil {
					r.pred.Input = nil
				}
				r.index = i
				Panics(func() { cl.query(r) }) // the outcome is not C27's
				for _, n := range []int{0, 1, 2, 3, 4} {
					a := make([][]byte, n)
					for j := range a {
						a[j] = c.Bytes(64)
					}
					if p := Panics(func() { cl.reconstruct(a) }); p != nil {
						c.Failf("%s: %d answers after a refused query: panic: %v", s.name, n, p)
					}
					c.Evalf("%s refused %d %d", s.name, i, n)
				}
				good := s.pick(c)
				if m := good.judge(s.ask(cl, good)); m != "" {
					c.Failf("%s: after a refused query: %s", s.name, m)
				}
			}
		}
	}, "queries that are refused")
}
