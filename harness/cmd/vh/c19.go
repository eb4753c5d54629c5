package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C19", &propDef{
		rule:     "a server object of one of the schemes whose answers to a list of queries are computed one at a time, then again by many goroutines at once, and have to be the same bytes; whole lookups by many clients at once, compared with the plaintext; the shared trees, generators, matrices, samplers and databases used by many goroutines at once; the database and the queries have to be unchanged, and answers already delivered may not change. The race detector watches everything. An evaluation is one concurrent answer; distinct by scheme, query and goroutine",
		variants: []string{"", "race"},
		minEvals: 5000,
		build:    buildC19,
	})
}

// inParallel runs f in n goroutines that start together and reports the first
// complaint.
func inParallel(n int, f func(g int) string) string {
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	var first atomic.Value
	ready.Add(n)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					first.CompareAndSwap(nil, fmt.Sprintf("panic: %v", p))
				}
			}()
			ready.Done()
			<-start
			if s := f(g); s != "" {
				first.CompareAndSwap(nil, s)
			}
		}(g)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	if s := first.Load(); s != nil {
		return s.(string)
	}
	return ""
}

func concurrentAnswers(c *C, s *scheme, nq, goroutines, rounds int) {
	type item struct {
		server  int
		q, keep []byte
		want    []byte
		r       *request
	}
	before := s.snapshot()
	var items []*item
	for i := 0; i < nq; i++ {
		r := s.pick(c)
		qs, err := s.newClient(utils.RandomPRG()).query(r)
		c.Must(err, s.name)
		for k := range qs {
			a, err := s.answer[k](qs[k])
			c.Must(err, s.name)
			items = append(items, &item{k, qs[k], append([]byte{}, qs[k]...), append([]byte{}, a...), r})
		}
	}
	orders := make([][]int, goroutines)
	for g := range orders {
		orders[g] = c.R.Perm(len(items))
	}
	msg := inParallel(goroutines, func(g int) string {
		var kept [][]byte
		var of []*item
		for round := 0; round < rounds; round++ {
			for n, i := range orders[g] {
				it := items[i]
				a, err := s.answer[it.server](it.q)
				if err != nil {
					return fmt.Sprintf("%s: %s, server %d: %v", s.name, it.r.what, it.server, err)
				}
				if !bytes.Equal(a, it.want) {
					return fmt.Sprintf("%s: %s, server %d: another answer than when asked alone", s.name, it.r.what, it.server)
				}
				c.Evalf("%s %d %d %d", s.name, g, round, i)
				if n%3 == 0 {
					runtime.Gosched()
				}
				if len(kept) < 16 {
					kept, of = append(kept, a), append(of, it)
				}
			}
		}
		for i := range kept {
			if !bytes.Equal(kept[i], of[i].want) {
				return fmt.Sprintf("%s: %s: an answer changes after it was delivered", s.name, of[i].r.what)
			}
		}
		return ""
	})
	if msg != "" {
		c.Failf("%s", msg)
	}
	for _, it := range items {
		c.Check(bytes.Equal(it.q, it.keep), "%s: answering %s modifies the query", s.name, it.r.what)
	}
	c.Check(s.snapshot() == before, "%s: answering modifies the database", s.name)
	c.Obs("concurrent_answers", goroutines*rounds*len(items))
}

func buildC19(t *T) {
	heavy := t.N(1, 4)
	for rep := 0; rep < t.N(2, 8); rep++ {
		t.Addf(func(c *C) {
			for _, s := range allSchemes(c, 2) {
				g := 6 + c.R.Intn(10)
				concurrentAnswers(c, s, 6, g, 2*heavy)
				// whole lookups by independent clients
				reqs := make([][]*request, g)
				for i := range reqs {
					for j := 0; j < 3*heavy; j++ {
						reqs[i] = append(reqs[i], s.pick(c))
					}
				}
				msg := inParallel(g, func(i int) string {
					cl := s.newClient(utils.RandomPRG())
					for _, r := range reqs[i] {
						if m := r.judge(s.ask(cl, r)); m != "" {
							return s.name + ": " + m
						}
						c.Evalf("%s lookup %d %s", s.name, i, r.what)
					}
					return ""
				})
				if msg != "" {
					c.Failf("%s", msg)
				}
				c.Obs("concurrent_lookups", g*3*heavy)
			}
		}, "all the schemes, round %d", rep)
	}
	t.Addf(func(c *C) {
		// large enough for several goroutines in one answer
		for _, auth := range []bool{false, true} {
			for _, k := range []int{2, 3} {
				p := fixedDB(c.R, 8, 64, 40, auth)
				s := pointScheme(p, k)
				concurrentAnswers(c, s, 8, 12, heavy)
				p = variableDB(c.R, 3, 67, 100, auth)
				concurrentAnswers(c, pointScheme(p, k, 5), 8, 12, heavy)
			}
			concurrentAnswers(c, predScheme(randomKeys(c.R, 120), auth), 12, 16, heavy)
		}
		concurrentAnswers(c, latticeScheme1(c, "lwe", 40, 40), 4, 8, heavy)
		concurrentAnswers(c, groupScheme(c, "P256", group.P256, 150, true), 3, 6, 1)
	}, "larger databases")
	t.Addf(func(c *C) {
		// all the schemes at the same time
		ss := allSchemes(c, 1)
		reqs := make([]*request, 4*len(ss))
		before := make([]string, len(ss))
		for i := range ss {
			before[i] = ss[i].snapshot()
		}
		for i := range reqs {
			reqs[i] = ss[i%len(ss)].pick(c)
		}
		for round := 0; round < 2*heavy; round++ {
			msg := inParallel(len(reqs), func(i int) string {
				s := ss[i%len(ss)]
				if m := reqs[i].judge(s.ask(s.newClient(utils.RandomPRG()), reqs[i])); m != "" {
					return s.name + ": " + m
				}
				c.Evalf("mixed %d %d", round, i)
				return ""
			})
			if msg != "" {
				c.Failf("%s", msg)
			}
		}
		for i := range ss {
			c.Check(ss[i].snapshot() == before[i], "%s: answering modifies the database", ss[i].name)
		}
	}, "all the schemes at the same time")
	t.Addf(func(c *C) {
		data := make([][]byte, 37)
		for i := range data {
			data[i] = c.Bytes(1 + c.R.Intn(20))
		}
		tree, err := merkle.New(data)
		c.Must(err, "tree")
		root := append([]byte{}, tree.Root()...)
		msg := inParallel(12, func(g int) string {
			for i := range data {
				j := (i*7 + g) % len(data)
				p, err := tree.GenerateProofAt(j)
				if err != nil {
					return err.Error()
				}
				if ok := verifies(data[j], p, root); !ok {
					return fmt.Sprintf("a proof made concurrently for %d does not verify", j)
				}
				if p, err = tree.GenerateProof(data[j]); err != nil || !verifies(data[j], p, root) {
					return fmt.Sprintf("a proof made concurrently for the content of %d does not verify: %v", j, err)
				}
				c.Evalf("tree %d %d", g, j)
			}
			other, err := merkle.New(data)
			if err != nil || !bytes.Equal(other.Root(), root) {
				return "a tree made concurrently has another root"
			}
			return ""
		})
		c.Check(msg == "", "%s", msg)
		c.Check(bytes.Equal(tree.Root(), root), "the root changes")
	}, "a shared tree")
	t.Addf(func(c *C) {
		// databases made concurrently are those made alone
		kinds := []func() string{
			func() string { return dumpBytes(database.CreateRandomBytes(utils.NewPRG(seedKey("a")), 8*60, 3, 4)) },
			func() string { return dumpBytes(database.CreateRandomMerkle(utils.NewPRG(seedKey("b")), 8*60, 3, 4)) },
			func() string {
				d := database.CreateRandomBinaryLWE(utils.NewPRG(seedKey("c")), 5, 9)
				return dumpInfo(&d.Info) + dumpCells(d.Matrix, 5, 9)
			},
			func() string {
				d := database.CreateRandomBinaryLWE128(utils.NewPRG(seedKey("d")), 2, 3)
				return dumpInfo(&d.Info) + dumpCells(d.Matrix, 2, 3)
			},
			func() string {
				d := database.CreateRandomEllipticWithDigest(utils.NewPRG(seedKey("e")), 30, group.Ristretto255, true)
				return dumpInfo(&d.Info) + fmt.Sprintf("%x", d.Entries)
			},
			func() string {
				d, err := database.CreateRandomBitsDB(utils.NewPRG(seedKey("f")), 32*40, 4, 2)
				if err != nil {
					return err.Error()
				}
				return dumpDB(d)
			},
		}
		want := make([]string, len(kinds))
		for i, f := range kinds {
			want[i] = f()
		}
		msg := inParallel(12, func(g int) string {
			for i := range kinds {
				j := (i + g) % len(kinds)
				if got := kinds[j](); got != want[j] {
					return fmt.Sprintf("a database made concurrently differs: %s instead of %s", got, want[j])
				}
				c.Evalf("db %d %d", g, j)
			}
			return ""
		})
		c.Check(msg == "", "%s", msg)
	}, "databases made concurrently")
	t.Addf(func(c *C) {
		// shared generators and samplers
		var mu sync.Mutex
		seen := map[uint64]bool{}
		msg := inParallel(16, func(g int) string {
			mr := utils.MathRand()
			for i := 0; i < 300; i++ {
				v := mr.Uint64()
				mu.Lock()
				dup := seen[v]
				seen[v] = true
				mu.Unlock()
				if dup {
					return "two goroutines draw the same number from the shared generator"
				}
				if x := utils.GaussSample(); x < -200 || x > 200 {
					return fmt.Sprintf("a sample of %d", x)
				}
				utils.RandomPRG().Read(make([]byte, 20))
				field.RandVector(3)
				c.Evalf("draw %d %d", g, i)
			}
			a := matrix.NewGauss(3, 5)
			matrix.NewGauss128(3, 5)
			r := matrix.NewRandom(utils.NewPRG(seedKey("m")), 6, 7)
			b := matrix.NewBytes(7, 4)
			matrix.BinaryMul(r, b)
			matrix.Mul(a, matrix.NewRandom(utils.RandomPRG(), 5, 2))
			r2 := matrix.NewRandom(utils.NewPRG(seedKey("m")), 6, 7)
			if !bytes.Equal(matrix.MatrixToBytes(r), matrix.MatrixToBytes(r2)) {
				return "two matrices of one seed differ"
			}
			return ""
		})
		c.Check(msg == "", "%s", msg)
	}, "shared generators and samplers")
	t.Addf(func(c *C) {
		// one matrix read by many products at once
		a, b := rndMatrix(c, 30, 20), rndBinary(c, 20, 17)
		want := matrix.MatrixToBytes(matrix.BinaryMul(a, b))
		aw, bw := rndMatrix128(c, 12, 20), rndBinary(c, 20, 9)
		want128 := matrix.Matrix128ToBytes(matrix.BinaryMul128(aw, bw))
		msg := inParallel(12, func(g int) string {
			for i := 0; i < 20; i++ {
				if !bytes.Equal(matrix.MatrixToBytes(matrix.BinaryMul(a, b)), want) || !bytes.Equal(matrix.Matrix128ToBytes(matrix.BinaryMul128(aw, bw)), want128) {
					return "a product computed concurrently differs"
				}
				c.Evalf("product %d %d", g, i)
			}
			return ""
		})
		c.Check(msg == "", "%s", msg)
	}, "shared matrices")
	t.Addf(func(c *C) {
		// independent generators and evaluators of function shares
		n := 40
		in, pay := randomBits(c, n), randomPayload(c, 5)
		other := randomBits(c, n)
		msg := inParallel(12, func(g int) string {
			for i := 0; i < 20; i++ {
				cl := fss.ClientInitialize(5)
				k := cl.GenerateTreePF(in, pay)
				e := fss.ServerInitialize(5)
				for _, x := range [][]bool{in, other} {
					o0, o1 := make([]uint32, 5), make([]uint32, 5)
					e.EvaluatePF(0, k[0], x, o0)
					e.EvaluatePF(1, k[1], x, o1)
					for j := range o0 {
						w := uint32(0)
						if reflect.DeepEqual(x, in) {
							w = pay[j]
						}
						if (uint64(o0[j])+uint64(o1[j]))%uint64(modP) != uint64(w) {
							return "shares made concurrently do not add up"
						}
					}
					c.Evalf("fss %d %d", g, i)
				}
			}
			return ""
		})
		c.Check(msg == "", "%s", msg)
	}, "function shares")
}
