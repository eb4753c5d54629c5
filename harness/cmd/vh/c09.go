package main

import (
	"fmt"
	"math"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C09", &propDef{
		rule:     "a list of keys, a predicate (counts and averages), the answers of two honest servers and an alteration of one of them: one element, the value together with any proper subset of the tags fitted to the authentication keys (which the monitor recovers from both shares), for the count and for the sum of an average, random answers, answers of other queries, of other lists; an evaluation is one reconstruction, which has to be an error or the honest result; the authentication keys recovered from every query are compared and counted; distinct by predicate and alteration",
		assume:   []string{"a guess of a tag is right with probability 2^-31"},
		minEvals: 5000,
		build:    buildC09,
	})
}

// payload recovers the values shared by a query at its point.
func payload(c *C, q0, q1 *query.FSS, in []bool, n int) []uint32 {
	o0, o1 := make([]uint32, n), make([]uint32, n)
	fss.ServerInitialize(n).EvaluatePF(0, q0.FssKey, in, o0)
	fss.ServerInitialize(n).EvaluatePF(1, q1.FssKey, in, o1)
	out := make([]uint32, n)
	for i := range out {
		out[i] = uint32((uint64(o0[i]) + uint64(o1[i])) % uint64(field.ModP))
	}
	return out
}

const tags = field.ConcurrentExecutions

func addP(a uint32, b uint64) uint32 {
	return uint32((uint64(a) + b%uint64(field.ModP)) % uint64(field.ModP))
}

func buildC09(t *T) {
	attack := func(c *C, keys []plainKey, p *predicate, other []plainKey) {
		db := keysDB(keys)
		ss := predServers(db, true)
		so := predServers(keysDB(other), true)
		cl := client.NewPredicateAPIR(detReader{c.R}, &db.Info)
		in, err := p.q.Encode()
		c.Must(err, "encoding")
		qs, err := cl.QueryBytes(in, 2)
		c.Must(err, "query")
		enc := make([][]byte, 2)
		as := make([][]uint32, 2)
		for i := range as {
			enc[i], err = ss[i].AnswerBytes(qs[i])
			c.Must(err, "answer")
			as[i] = utils.ByteSliceToUint32Slice(enc[i])
		}
		want, werr := cl.Reconstruct(as)
		if p.avg {
			if werr != nil {
				return // nothing is selected
			}
		} else {
			c.Must(werr, "honest result")
		}
		n := 1 + tags
		parts := len(as[0]) / n
		c.Check(len(as[0]) == n*parts && (parts == 2) == p.avg, "an answer of %d elements", len(as[0]))
		pay := payload(c, decodeFSS(c, qs[0]), decodeFSS(c, qs[1]), p.q.Input, n)
		c.Check(pay[0] == 1, "the value at the point is %d", pay[0])

		try := func(what string, who int, bad []uint32) {
			ans := [][]uint32{append([]uint32{}, as[0]...), append([]uint32{}, as[1]...)}
			ans[who] = append([]uint32{}, bad...)
			got, err := cl.Reconstruct(ans)
			if err == nil && got != want {
				c.Failf("%s: server %d alters its answer (%s) and %d is accepted instead of %d", p.what, who, what, got, want)
			}
			ab := [][]byte{enc[0], enc[1]}
			ab[who] = utils.Uint32SliceToByteSlice(bad)
			v, err2 := cl.ReconstructBytes(ab)
			if err2 == nil && asNumber(c, v) != want {
				c.Failf("%s: server %d alters its encoded answer (%s) and %v is accepted instead of %d", p.what, who, what, v, want)
			}
			c.Evalf("%s/%d/%s", p.what, who, what)
			if err != nil {
				c.Obs("rejections", 1)
			} else {
				c.Obs("accepted_with_the_same_result", 1)
			}
		}
		for who := 0; who < 2; who++ {
			// single elements
			for e := 0; e < n*parts; e++ {
				for _, d := range []uint64{1, 2, uint64(field.ModP) - 1, 1 << 30, uint64(c.R.Int63()), uint64(c.R.Intn(1000))} {
					b := append([]uint32{}, as[who]...)
					b[e] = addP(b[e], d)
					try(fmt.Sprintf("element %d plus %d", e, d), who, b)
				}
				for bit := uint(0); bit < 32; bit++ {
					b := append([]uint32{}, as[who]...)
					b[e] ^= 1 << bit
					try(fmt.Sprintf("element %d bit %d", e, bit), who, b)
				}
			}
			// the value with fitted tags, but for some
			for part := 0; part < parts; part++ {
				for mask := 0; mask < 1<<tags-1; mask++ {
					// large enough to change an average
					d := uint64(1 + c.R.Intn(1<<30))
					b := append([]uint32{}, as[who]...)
					b[part*n] = addP(b[part*n], d)
					for x := 0; x < tags; x++ {
						if mask>>uint(x)&1 == 1 {
							b[part*n+1+x] = addP(b[part*n+1+x], d*uint64(pay[1+x]))
						}
					}
					try(fmt.Sprintf("part %d plus %d with tags %x", part, d, mask), who, b)
					if parts == 2 {
						// the other part as if all was known
						for x := 0; x <= tags; x++ {
							e := (1-part)*n + x
							b[e] = addP(b[e], 3*uint64(pay[x]))
						}
						try(fmt.Sprintf("part %d plus %d with tags %x, other part fitted", part, d, mask), who, b)
					}
				}
				// fitted with one key for all of the tags
				for x := 0; x < tags; x++ {
					d := uint64(1 + c.R.Intn(1<<30))
					b := append([]uint32{}, as[who]...)
					b[part*n] = addP(b[part*n], d)
					for y := 0; y < tags; y++ {
						b[part*n+1+y] = addP(b[part*n+1+y], d*uint64(pay[1+x]))
					}
					try(fmt.Sprintf("part %d plus %d with tags of key %d", part, d, x), who, b)
				}
				// unauthenticated guesses
				for _, a := range []uint64{0, 1, 2} {
					b := append([]uint32{}, as[who]...)
					for y := 0; y <= tags; y++ {
						d := uint64(777)
						if y > 0 {
							d *= a
						}
						b[part*n+y] = addP(b[part*n+y], d)
					}
					try(fmt.Sprintf("part %d plus 777 with keys %d", part, a), who, b)
				}
			}
			if parts == 2 {
				try("parts swapped", who, append(append([]uint32{}, as[who][n:]...), as[who][:n]...))
				try("count twice", who, append(append([]uint32{}, as[who][:n]...), as[who][:n]...))
				try("sum twice", who, append(append([]uint32{}, as[who][n:]...), as[who][n:]...))
				try("count alone", who, as[who][:n])
			} else {
				try("twice", who, append(append([]uint32{}, as[who]...), as[who]...))
			}
			// permuted, scaled, cleared, random
			b := append([]uint32{}, as[who]...)
			c.R.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
			try("shuffled", who, b)
			for _, f := range []uint64{0, 2, 3, uint64(field.ModP) - 1} {
				b := make([]uint32, len(as[who]))
				for i := range b {
					b[i] = uint32(uint64(as[who][i]) * f % uint64(field.ModP))
				}
				try(fmt.Sprintf("times %d", f), who, b)
			}
			for x := 0; x < 10; x++ {
				b := make([]uint32, len(as[who]))
				for i := range b {
					b[i] = uint32(c.R.Int63n(int64(field.ModP)))
				}
				try(fmt.Sprintf("random %d", x), who, b)
			}
			try("answer of the other server", who, as[1-who])
			// the same query on another list
			ob, err := so[who].AnswerBytes(qs[who])
			c.Must(err, "answer")
			try("answer from another list", who, utils.ByteSliceToUint32Slice(ob))
		}
		// the answer to another query with the same predicate
		q2, err := cl.QueryBytes(in, 2)
		c.Must(err, "query")
		for who := 0; who < 2; who++ {
			fresh, err := ss[1-who].AnswerBytes(q2[1-who])
			c.Must(err, "answer")
			ab := [][]byte{fresh, fresh}
			ab[who] = enc[who]
			v, err := cl.ReconstructBytes(ab)
			if err == nil && asNumber(c, v) != want {
				c.Failf("%s: an answer to a previous query gives %v instead of %d", p.what, v, want)
			}
			c.Evalf("%s/replay/%d", p.what, who)
		}
	}
	for i := 0; i < t.N(48, 800); i++ {
		i := i
		t.Addf(func(c *C) {
			keys := randomKeys(c.R, 3+c.R.Intn(20))
			other := append([]plainKey{}, keys[1:]...)
			other = append(other, randomKeys(c.R, 2)...)
			for x := 0; x < 3; x++ {
				p := randomPredicate(c, keys)
				if x == 0 || i%2 == 0 {
					k := keys[c.R.Intn(len(keys))]
					p = avgPredicate(0, 0, k.email)
					if len(k.email) > 2 && i%4 == 0 {
						p = avgPredicate(0, 2, k.email)
					}
				}
				attack(c, keys, p, other)
			}
		}, "attacks/%d", i)
	}
	// long lists
	for i, n := range []int{100, 1000, 5000, 700, 2049} {
		i, n := i, n
		if i > 2 && !t.Thorough {
			continue
		}
		t.Addf(func(c *C) {
			keys := randomKeys(c.R, n)
			other := append([]plainKey{}, keys[1:]...)
			p := randomPredicate(c, keys)
			if i%2 == 1 {
				p = avgPredicate(0, 0, keys[n-1].email)
			}
			attack(c, keys, p, other)
			c.Obs("long_lists", 1)
		}, "long/%d", n)
	}
	// the authentication keys
	t.Addf(func(c *C) {
		keys := randomKeys(c.R, 4)
		db := keysDB(keys)
		seen := map[uint32]int{}
		var bits [31]int
		total, dup := 0, 0
		nq := t.N(2000, 40000)
		p := emailPredicate(2, 0, "alice")
		pa := avgPredicate(2, 0, "alice")
		cl := client.NewPredicateAPIR(detReader{c.R}, &db.Info)
		for i := 0; i < nq; i++ {
			if i%10 == 0 {
				cl = client.NewPredicateAPIR(detReader{c.R}, &db.Info)
			}
			q := p.q
			if i%3 == 0 {
				q = pa.q
			}
			in, err := q.Encode()
			c.Must(err, "encoding")
			qs, err := cl.QueryBytes(in, 2)
			c.Must(err, "query")
			k0, k1 := decodeFSS(c, qs[0]), decodeFSS(c, qs[1])
			pay := payload(c, k0, k1, q.Input, 1+tags)
			for x := 1; x <= tags; x++ {
				c.Check(pay[x] < field.ModP, "authentication key %d is not a field element", pay[x])
				for y := 1; y < x; y++ {
					if pay[x] == pay[y] {
						dup++
					}
				}
				if seen[pay[x]] > 0 {
					dup++
				}
				seen[pay[x]]++
				total++
				for b := range bits {
					bits[b] += int(pay[x] >> uint(b) & 1)
				}
				// what one server receives does not give the key away
				for _, k := range []*query.FSS{k0, k1} {
					for y, f := range k.FssKey.FinalCW {
						if f == pay[x] || f == (field.ModP-pay[x])%field.ModP {
							dup++
							_ = y
						}
					}
				}
			}
			c.Evalf("keys/%d", i)
			predAftermath(c, cl, 1+tags, i%3 == 0)
		}
		c.Obs("authentication_keys", total)
		// about total^2/2^32 by chance
		if limit := 6 + 4*total/1000*total/1000*1000/4294; dup > limit {
			c.Failf("%d repetitions among %d authentication keys, or with what one server receives", dup, total)
		}
		for b, n := range bits {
			z := (float64(n) - float64(total)/2) / math.Sqrt(float64(total)/4)
			if math.Abs(z) > 7 {
				c.Failf("bit %d of the authentication keys is set %d times out of %d", b, n, total)
			}
		}
	}, "authentication keys")
}
