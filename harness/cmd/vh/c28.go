package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
)

func init() {
	register("C28", &propDef{
		rule:     "a server object of one of the schemes and a query: honest, or an honest one corrupted (every prefix, extensions, every header bit, dropped, repeated and extreme words), or random, or a well-encoded query of the wrong shape (aggregate queries with every field out of range, matrices of other dimensions, other numbers of group elements); the answer has to be an error or of the normal size and to depend on the bytes of the query only, the query and the database have to be unchanged, memory use bounded, and the next honest lookup right; the address sanitizer watches the C kernels. Distinct by scheme and query",
		variants: []string{"", "asan"},
		minEvals: 20000,
		build:    buildC28,
	})
}

type serverProbe struct {
	c      *C
	s      *scheme
	cl     *schemeClient
	normal func(k int, q []byte) []int // acceptable sizes of answers
	before string
	count  int
}

// probe observes the normal sizes of answers on honest queries.
func newProbe(c *C, s *scheme) *serverProbe {
	p := &serverProbe{c: c, s: s, cl: s.newClient(detReader{c.R}), before: s.snapshot()}
	r := s.pick(c)
	qs, err := p.cl.query(r)
	c.Must(err, s.name)
	var lq, la []int
	for k := range qs {
		a, err := s.answer[k](qs[k])
		c.Must(err, s.name)
		lq, la = append(lq, len(qs[k])), append(la, len(a))
	}
	p.normal = func(k int, q []byte) []int {
		switch {
		case r.pred != nil:
			return []int{la[k], 2 * la[k]} // counts, and averages
		case s.repeated > 0: // a list of as many matrices as were asked for
			const list = 4 // bytes in front of a list
			perQ, perA := (lq[k]-list)/s.repeated, (la[k]-list)/s.repeated
			return []int{la[k], list + (len(q)-list)/perQ*perA}
		}
		return []int{la[k]}
	}
	return p
}

func (p *serverProbe) honest(when string) {
	r := p.s.pick(p.c)
	if m := r.judge(p.s.ask(p.cl, r)); m != "" {
		p.c.Failf("%s: %s: %s", p.s.name, when, m)
	}
	p.c.Obs("honest_lookups", 1)
}

func (p *serverProbe) try(k int, what string, q []byte) {
	c, s := p.c, p.s
	var answers [2][]byte
	var errs [2]error
	for n := range answers {
		// the query within a larger buffer of other contents
		buf := bytes.Repeat([]byte{byte(0x55 + 0x55*n)}, len(q)+64)
		copy(buf, q)
		x := buf[:len(q)]
		var pan interface{}
		ok := bounded(allocLimit, func() { pan = Panics(func() { answers[n], errs[n] = s.answer[k](x) }) })
		if pan != nil {
			c.Failf("%s: %s: server %d panics: %v\nquery: %x", s.name, what, k, pan, clip(string(q), 300))
		}
		c.Check(ok, "%s: %s: answering allocates more than %d bytes", s.name, what, allocLimit)
		c.Check(bytes.Equal(x, q), "%s: %s: answering modifies the query", s.name, what)
		for _, b := range buf[len(q):] {
			c.Check(b == byte(0x55+0x55*n), "%s: %s: answering writes past the query", s.name, what)
		}
		if errs[n] == nil {
			good := false
			for _, l := range p.normal(k, q) {
				good = good || len(answers[n]) == l
			}
			c.Check(good, "%s: %s: an answer of %d bytes instead of %v", s.name, what, len(answers[n]), p.normal(k, q))
		}
	}
	c.Check((errs[0] == nil) == (errs[1] == nil) && (errs[0] != nil || bytes.Equal(answers[0], answers[1])),
		"%s: %s: two answers to the same query differ", s.name, what)
	if errs[0] == nil {
		c.Obs("answered", 1)
	} else {
		c.Obs("refused", 1)
	}
	c.Evalf("%s %d %s", s.name, k, what)
	if p.count++; p.count%199 == 0 {
		p.honest("after " + what)
	}
}

func (p *serverProbe) done() {
	p.honest("after hostile queries")
	p.c.Check(p.s.snapshot() == p.before, "%s: answering modifies the database", p.s.name)
}

func hostileQueries(c *C, s *scheme, n int) {
	p := newProbe(c, s)
	qs, err := p.cl.query(s.pick(c))
	c.Must(err, s.name)
	for k := range s.answer {
		p.try(k, "honest", qs[k])
		p.try(k, "nothing", nil)
		for _, l := range []int{1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 31, 32, 33, 51, 64, 69, 100, 1000, 65536} {
			p.try(k, fmt.Sprintf("%d zeros", l), make([]byte, l))
			p.try(k, fmt.Sprintf("%d ones", l), bytes.Repeat([]byte{255}, l))
			p.try(k, fmt.Sprintf("%d random bytes", l), c.Bytes(l))
		}
		p.try(k, "16 MB", make([]byte, 16<<20))
		for i := 0; i < n; i++ {
			p.try(k, fmt.Sprintf("random of the right length %d", i), c.Bytes(len(qs[k])))
		}
		corruptions(c, qs[k], 48, n, func(what string, x []byte) { p.try(k, what, x) })
		for i := 0; i < len(s.answer); i++ {
			p.try(k, fmt.Sprintf("the query for server %d", i), qs[i])
		}
	}
	p.done()
}

// hostilePredicates are aggregate queries that are encoded well but whose
// fields are not what a client sends.
func hostilePredicates(c *C, s *scheme, n int) {
	p := newProbe(c, s)
	ints := []int{0, 1, -1, 2, 3, 10, 31, 32, 33, 100, 255, 256, 1 << 16, 1 << 31, -1 << 31, 1<<40 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64 - 1}
	number := func() int {
		if c.R.Intn(2) == 0 {
			return c.R.Intn(40)
		}
		return ints[c.R.Intn(len(ints))]
	}
	size := func(right int) int {
		switch c.R.Intn(3) {
		case 0:
			return right
		case 1:
			if right += c.R.Intn(5) - 2; right < 0 {
				right = 0
			}
			return right
		}
		return c.R.Intn(40)
	}
	words := func(n int) []uint32 {
		out := make([]uint32, n)
		for i := range out {
			out[i] = pickDim(c)
		}
		return out
	}
	var bases []*query.FSS
	for i := 0; i < 6; i++ {
		qs, err := p.cl.query(s.pick(c))
		c.Must(err, s.name)
		bases = append(bases, decodeFSS(c, qs[i%2]))
	}
	for i := 0; i < n; i++ {
		q := &query.FSS{}
		base := bases[c.R.Intn(len(bases))]
		info := *base.Info
		info.Targets = append([]query.Target{}, base.Targets...)
		q.Info = &info
		q.FssKey = fss.FssKeyEq2P{SInit: append([]byte{}, base.FssKey.SInit...), TInit: base.FssKey.TInit, FinalCW: append([]uint32{}, base.FssKey.FinalCW...)}
		for _, cw := range base.FssKey.CW {
			q.FssKey.CW = append(q.FssKey.CW, append([]byte{}, cw...))
		}
		for k := 1 + c.R.Intn(4); k > 0; k-- {
			switch c.R.Intn(14) {
			case 0:
				q.FssKey.SInit = c.Bytes(size(16))
			case 1:
				q.FssKey.TInit = byte(pickDim(c))
			case 2:
				q.FssKey.FinalCW = words(size(len(base.FssKey.FinalCW)))
			case 3: // other numbers of correction words
				l := size(len(q.FssKey.CW))
				if c.R.Intn(4) == 0 {
					l = 200 + c.R.Intn(200)
				}
				q.FssKey.CW = nil
				for len(q.FssKey.CW) < l {
					q.FssKey.CW = append(q.FssKey.CW, c.Bytes(18))
				}
			case 4: // one of another length
				if len(q.FssKey.CW) > 0 {
					q.FssKey.CW[c.R.Intn(len(q.FssKey.CW))] = c.Bytes(size(18))
				}
			case 5: // the last one
				if l := len(q.FssKey.CW); l > 0 {
					q.FssKey.CW[l-1] = c.Bytes(size(18))
				}
			case 6:
				info.Target = query.Target(c.R.Intn(6))
				if c.R.Intn(4) == 0 {
					info.Target = query.Target(c.R.Intn(256))
				}
			case 7:
				info.FromStart = number()
			case 8:
				info.FromEnd = number()
			case 9:
				info.FromStart, info.FromEnd = number(), number()
			case 10:
				info.And = !info.And
			case 11:
				info.Avg = !info.Avg
			case 12:
				info.Sum = !info.Sum
			case 13:
				info.Targets = nil
				for l := c.R.Intn(5); l > 0; l-- {
					info.Targets = append(info.Targets, query.Target(c.R.Intn(256)))
				}
			}
		}
		if c.R.Intn(40) == 0 {
			q.Info = nil
		}
		p.try(i%2, fmt.Sprintf("shape %d: %d correction words, final %d, info %+v", i, len(q.FssKey.CW), len(q.FssKey.FinalCW), info), encodeFSS(c, q))
	}
	// other values, encoded well
	type otherKey struct {
		Target             string
		FromStart, FromEnd float64
		And                []byte
	}
	type nested struct{ FssKey struct{ CW []string } }
	type lists struct {
		FssKey struct {
			SInit   []byte
			TInit   uint64
			CW      [][]byte
			FinalCW []uint64
		}
		Info *query.Info
	}
	var big lists
	big.FssKey.TInit = 1 << 40
	big.FssKey.FinalCW = []uint64{1 << 60, 1, 1, 1}
	for i, v := range []interface{}{"text", 7, []byte("bytes"), map[string]int{"Target": 1}, otherKey{"x", 1.5, 2, []byte{1}}, nested{}, struct{ X int }{3}, []query.FSS{*bases[0]}, big, lists{Info: bases[0].Info}} {
		var b bytes.Buffer
		if err := gob.NewEncoder(&b).Encode(v); err != nil {
			c.Failf("harness: %v", err)
		}
		p.try(0, fmt.Sprintf("another value %d", i), b.Bytes())
		p.try(1, fmt.Sprintf("another value %d twice", i), append(append([]byte{}, b.Bytes()...), b.Bytes()...))
		corruptions(c, b.Bytes(), 4, 30, func(what string, x []byte) { p.try(0, fmt.Sprintf("another value %d: %s", i, what), x) })
	}
	p.done()
}

// hostileMatrices have every dimension with data of every length.
func hostileMatrices(c *C, s *scheme, bytesElement int) {
	p := newProbe(c, s)
	dims := []int{0, 1, 2, 3, s.rows - 1, s.rows, s.rows + 1, 2 * s.rows, s.cols, s.cols + 1, s.rows * s.cols}
	head := []uint32{}
	for _, d := range dims {
		head = append(head, uint32(d))
	}
	head = append(head, 1<<16, 1<<30, 1<<31-1, 1<<31, 1<<32-1)
	for _, a := range head {
		for _, b := range head {
			for _, n := range dims {
				x := c.Bytes(8 + n*bytesElement)
				binary.BigEndian.PutUint32(x, a)
				binary.BigEndian.PutUint32(x[4:], b)
				p.try(0, fmt.Sprintf("%dx%d in %d bytes", a, b, len(x)), x)
				if s.repeated > 0 {
					ks := []uint32{0, 1, 2, 5, uint32(n), uint32(8 + 4*n), 1 << 31, 1<<32 - 1}
					for _, i := range c.R.Perm(len(ks))[:2] {
						k := ks[i]
						y := append(make([]byte, 4), x...)
						binary.BigEndian.PutUint32(y, k)
						p.try(0, fmt.Sprintf("%d of %dx%d in %d bytes", k, a, b, len(y)), y)
						copy(y, x[:8])
						binary.BigEndian.PutUint32(y[8:], k)
						p.try(0, fmt.Sprintf("%dx%d of %d in %d bytes", a, b, k, len(y)), y)
					}
				}
			}
		}
	}
	p.done()
}

// hostileElements are lists of group elements of the wrong number, and of
// elements that are encoded in other ways.
func hostileElements(c *C, s *scheme, g group.Group) {
	p := newProbe(c, s)
	qs, err := p.cl.query(s.pick(c))
	c.Must(err, s.name)
	size := len(qs[0]) / s.cols
	c.Check(size*s.cols == len(qs[0]), "%s: a query of %d bytes for %d columns", s.name, len(qs[0]), s.cols)
	enc := func(compressed bool) []byte {
		e := g.RandomElement(detReader{c.R})
		if c.R.Intn(8) == 0 {
			e = g.Identity()
		}
		var b []byte
		if compressed {
			b, err = e.MarshalBinaryCompress()
		} else {
			b, err = e.MarshalBinary()
		}
		c.Must(err, "encoding")
		return b
	}
	pad := func(b []byte, n int) []byte {
		if len(b) < n {
			b = append(b, make([]byte, n-len(b))...)
		}
		return b[:n]
	}
	for n := 0; n <= 2*s.cols+2; n++ {
		for _, kind := range []string{"padded", "compressed", "uncompressed", "random"} {
			var x []byte
			for i := 0; i < n; i++ {
				switch kind {
				case "padded":
					x = append(x, pad(enc(false), size)...)
				case "compressed":
					x = append(x, enc(true)...)
				case "uncompressed":
					x = append(x, enc(false)...)
				default:
					x = append(x, c.Bytes(size)...)
				}
			}
			p.try(0, fmt.Sprintf("%d %s elements", n, kind), x)
		}
	}
	for first := 0; first < 256; first++ {
		x := append([]byte{}, qs[0]...)
		i := c.R.Intn(s.cols) * size
		x[i] = byte(first)
		p.try(0, fmt.Sprintf("element %d starts with %d", i/size, first), x)
		for j := range x[i+1 : i+size] {
			x[i+1+j] = 0
		}
		p.try(0, fmt.Sprintf("element %d is %d and zeros", i/size, first), x)
		for j := range x[i+1 : i+size] {
			x[i+1+j] = 255
		}
		p.try(0, fmt.Sprintf("element %d is %d and ones", i/size, first), x)
	}
	p.done()
}

func buildC28(t *T) {
	for rep := 0; rep < t.N(2, 12); rep++ {
		label := fmt.Sprintf("schemes %d", rep)
		for i := 0; i < schemeCount; i++ {
			i, rep := i, rep
			t.Addf(func(c *C) {
				hostileQueries(c, allSchemes(&C{t: t, k: c.k, R: t.Rng(label)}, 1+rep%3)[i], t.N(150, 600))
			}, "queries of scheme %d, round %d", i, rep)
		}
		for _, auth := range []bool{false, true} {
			auth := auth
			t.Addf(func(c *C) { hostilePredicates(c, predScheme(randomKeys(c.R, 1+c.R.Intn(25)), auth), t.N(2500, 20000)) }, "shapes of aggregate queries, auth=%v, round %d", auth, rep)
		}
	}
	// columns around the sizes where the number of levels and bytes change
	for _, cols := range []int{1, 2, 7, 8, 9, 15, 16, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1025} {
		for _, k := range []int{2, 3} {
			cols, k := cols, k
			t.Addf(func(c *C) {
				rows := 1 + c.R.Intn(3)
				hostileQueries(c, pointScheme(fixedDB(c.R, rows, cols, 1+c.R.Intn(6), false), k, 1+c.R.Intn(3)), t.N(40, 400))
				hostileQueries(c, pointScheme(variableDB(c.R, rows, cols, 12, true), k, 1+c.R.Intn(3)), t.N(20, 200))
			}, "queries for %d columns and %d servers", cols, k)
		}
	}
	for _, d := range [][2]int{{1, 1}, {1, 7}, {7, 1}, {3, 4}, {8, 8}, {17, 5}, {33, 70}} {
		for _, kind := range []string{"lwe", "lwe128", "amplify"} {
			d, kind := d, kind
			if kind == "lwe128" && d[0] > 8 {
				continue
			}
			t.Addf(func(c *C) {
				be := 4
				if kind == "lwe128" {
					be = 16
				}
				hostileMatrices(c, latticeScheme1(c, kind, d[0], d[1]), be)
			}, "matrices for %s %dx%d", kind, d[0], d[1])
		}
	}
	for name, g := range map[string]group.Group{"P256": group.P256, "P384": group.P384, "ristretto255": group.Ristretto255} {
		name, g := name, g
		for _, n := range []int{1, 2, 5, 12} {
			n := n
			t.Addf(func(c *C) { hostileElements(c, groupScheme(c, name, g, n, n > 2), g) }, "elements of %s, %d cells", name, n)
		}
	}
}
