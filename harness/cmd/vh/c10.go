package main

import (
	"crypto/rand"
	"fmt"
	"io"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
)

func init() {
	register("C10", &propDef{
		rule:     "a shape of the database, a number of servers, a requested position and a source of randomness (of the system, deterministic, delivering a few bytes at a time); many lookups each. The monitor counts every bit, and the exclusive or of pairs of bits, of what each server receives, of the exclusive or of what every proper subset receives (for secret sharing; this covers their joint distribution) and of consecutive lookups, against fair coins, and compares positions with each other; sizes are equal, queries do not repeat. An evaluation is one lookup observed or one distribution judged; distinct by shape, servers, position and source",
		assume:   []string{"a distribution that differs from the uniform one in other ways than in bits and pairs of bits, or by less than about 7.5 standard deviations of the sample, is not noticed"},
		minEvals: 20000,
		build:    buildC10,
	})
}

// smallPoint makes a database if it is small.
func smallPoint(c *C, rows, cols int, kind string) (*database.Info, *pointDB) {
	if rows*cols > 40 || kind == "" {
		return pointInfo(rows, cols, kind), nil
	}
	p := fixedDB(c.R, rows, cols, 16, kind == "merkle")
	info := p.db.Info
	return &info, p
}

func pointInfo(rows, cols int, kind string) *database.Info {
	return &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 16, PIRType: kind,
		Merkle: &database.Merkle{Root: make([]byte, 32), ProofLen: 8}}
}

// pointSource makes a source of randomness.
func pointSource(c *C, kind string) io.Reader {
	switch kind {
	case "system":
		return rand.Reader
	case "short":
		return &shortReader{src: detReader{c.R}, r: c.R, max: 7}
	case "one byte":
		return &shortReader{src: detReader{c.R}, r: c.R, max: 1}
	case "short or nothing":
		return &lazyReader{src: detReader{c.R}, c: c}
	}
	return detReader{c.R}
}

// order tells in which order a client asks for n things in round s: now one
// after the other, now each of them several times in a row, now backwards.
func order(s, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		switch s % 4 {
		case 1:
			out = append(out, i, i)
		case 3:
			out = append(out, n-1-i)
		default:
			out = append(out, i)
		}
	}
	return out
}

// lazyReader now and then delivers nothing, without an error.
type lazyReader struct {
	src io.Reader
	c   *C
}

func (l *lazyReader) Read(p []byte) (int, error) {
	n := l.c.R.Intn(9)
	if n == 0 {
		return 0, nil
	}
	if n > len(p) {
		n = len(p)
	}
	return l.src.Read(p[:n])
}

// pointAftermath is what may follow a query: nothing, or answers that are
// accepted or not.
func pointAftermath(c *C, cl *client.PIR, info *database.Info, k int, p *pointDB, qs [][]byte) {
	as := make([][]byte, k)
	switch c.R.Intn(7) {
	case 0:
		// honest ones
		for i := range as {
			if p != nil {
				var err error
				as[i], err = newPointServer(p.db, k).AnswerBytes(qs[i])
				c.Must(err, "answer")
				continue
			}
			as[i] = make([]byte, info.NumRows*info.BlockSize)
		}
	case 1, 2:
		b := c.Bytes(info.NumRows * info.BlockSize)
		for i := range as {
			as[i] = b
		}
		as[k-1] = c.Bytes(len(b))
	case 3:
		as = [][]byte{{1, 2, 3}}
	case 4:
		if _, err := cl.QueryBytes(idxBytes(info.NumRows*info.NumColumns+c.R.Intn(100)), k); err == nil {
			c.Failf("a lookup outside of the database is sent")
		}
		return
	default:
		return
	}
	if _, err := cl.ReconstructBytes(as); err != nil {
		c.Obs("answers_rejected", 1)
	} else {
		c.Obs("answers_accepted", 1)
	}
}

func buildC10(t *T) {
	type shape struct{ rows, cols int }
	sources := []string{"system", "deterministic", "short", "one byte", "short or nothing"}

	// secret sharing among three servers and more
	share := func(c *C, sh shape, k int, src string, samples, npairs int, positions []int) {
		info, p := smallPoint(c, sh.rows, sh.cols, []string{"classical", "merkle", ""}[c.R.Intn(3)])
		rnd := pointSource(c, src)
		subsets := 1<<uint(k) - 2
		var masks []int
		if subsets <= 30 {
			for m := 1; m <= subsets; m++ {
				masks = append(masks, m)
			}
		} else {
			for i := 0; i < k; i++ {
				masks = append(masks, 1<<uint(i), (1<<uint(k)-1)^(1<<uint(i)))
			}
			for len(masks) < 30 {
				masks = append(masks, 1+c.R.Intn(subsets))
			}
		}
		size := -1
		labs := map[int][]*bitLab{}
		var succ []*bitLab
		var cl *client.PIR
		var prev [][]byte
		seen := map[string]bool{}
		for s := 0; s < samples; s++ {
			if s%50 == 0 {
				cl = client.NewPIR(rnd, info)
				prev = nil
			}
			for _, x := range order(s, len(positions)) {
				pos := positions[x]
				qs, err := cl.QueryBytes(idxBytes(pos), k)
				c.Must(err, "query")
				c.Check(len(qs) == k, "%d queries for %d servers", len(qs), k)
				for i, q := range qs {
					if size < 0 {
						size = len(q)
					}
					c.Check(len(q) == size, "the query to server %d of %d for position %d has %d bytes instead of %d", i, k, pos, len(q), size)
					if size >= 12 {
						c.Check(!seen[string(q)], "the query to server %d of %d for position %d repeats a former one", i, k, pos)
						seen[string(q)] = true
					}
				}
				if labs[pos] == nil {
					for range masks {
						labs[pos] = append(labs[pos], newLab(c.R, size, npairs))
					}
				}
				for x, m := range masks {
					b := make([]byte, size)
					for i := range qs {
						if m>>uint(i)&1 == 1 {
							b = xorBytes(b, qs[i])
						}
					}
					labs[pos][x].add(b)
				}
				if succ == nil {
					for range qs {
						succ = append(succ, newLab(c.R, size, npairs))
					}
				}
				if prev != nil {
					for i := range qs {
						succ[i].add(xorBytes(prev[i], qs[i]))
					}
				}
				prev = qs
				c.Evalf("%d/%d", pos, s)
				// how a lookup ends does not matter
				pointAftermath(c, cl, info, k, p, qs)
			}
		}
		for _, pos := range positions {
			for x, m := range masks {
				if bad := labs[pos][x].judge(false); bad != "" {
					c.Failf("%dx%d, %d servers, randomness %s, position %d: what servers %b receive is not uniform: %s", sh.rows, sh.cols, k, src, pos, m, bad)
				}
				c.Evalf("judged/%d/%x", pos, m)
			}
		}
		for i, l := range succ {
			if bad := l.judge(false); bad != "" {
				c.Failf("%dx%d, %d servers, randomness %s: consecutive queries to server %d are related: %s", sh.rows, sh.cols, k, src, i, bad)
			}
		}
		c.Obs("lookups_shared_among_three_or_more", samples*len(positions))
	}
	positionsOf := func(c *C, sh shape, n int) []int {
		total := sh.rows * sh.cols
		if total <= n {
			out := make([]int, total)
			for i := range out {
				out[i] = i
			}
			return out
		}
		out := []int{0, total - 1}
		for len(out) < n {
			out = append(out, c.R.Intn(total))
		}
		return out
	}
	shapes := []shape{{1, 1}, {1, 2}, {1, 7}, {1, 8}, {1, 9}, {1, 16}, {3, 5}, {4, 4}, {2, 33}, {1, 100}}
	for _, sh := range shapes {
		for _, k := range []int{3, 4, 5, 8} {
			sh, k := sh, k
			src := sources[(sh.rows*3+sh.cols+k)%len(sources)]
			t.Addf(func(c *C) {
				share(c, sh, k, src, t.N(500, 10000), 300, positionsOf(c, sh, 5))
			}, "shared/%dx%d/%d/%s", sh.rows, sh.cols, k, src)
		}
	}
	for _, src := range sources {
		src := src
		for _, k := range []int{3, 4} {
			k := k
			t.Addf(func(c *C) {
				share(c, shape{2, 20}, k, src, t.N(1500, 40000), 400, []int{0, 7, 8, 19, 20, 39})
			}, "source/%s/%d", src, k)
		}
	}
	for _, k := range []int{16, 17, 33, 65, 130, 257} {
		k := k
		t.Addf(func(c *C) {
			share(c, shape{2, 9}, k, sources[k%len(sources)], t.N(300, 2000), 300, []int{0, 7, 8, 17})
		}, "servers/%d", k)
	}
	for _, cols := range []int{255, 256, 1000, 4096, 8193} {
		cols := cols
		for _, k := range []int{3, 16} {
			k := k
			t.Addf(func(c *C) {
				share(c, shape{1 + cols%3, cols}, k, sources[(cols+k)%5], t.N(130, 1000), 500, []int{0, cols - 1, cols / 2})
			}, "large/%d/%d", cols, k)
		}
	}

	for _, cols := range []int{32769, 70001, 140003} {
		cols := cols
		t.Addf(func(c *C) {
			share(c, shape{1, cols}, 3+cols%2, sources[cols%5], t.N(45, 130), 500, []int{0, cols - 1})
		}, "very large/%d", cols)
	}

	// distributed point functions for two servers
	for _, sh := range []shape{{1, 1}, {1, 2}, {1, 8}, {5, 5}, {1, 63}, {1, 64}, {1, 65}, {1, 127}, {1, 128}, {2, 300}, {1, 5000}, {1, 100000}} {
		sh := sh
		src := sources[(sh.rows+sh.cols)%len(sources)]
		t.Addf(func(c *C) {
			info, p := smallPoint(c, sh.rows, sh.cols, "merkle")
			rnd := pointSource(c, src)
			positions := positionsOf(c, sh, 6)
			labs := map[string]*bitLab{}
			seen := map[string]bool{}
			size := -1
			samples := t.N(800, 20000)
			var cl *client.PIR
			var prev [][]byte
			var succ [2]*bitLab
			for s := 0; s < samples; s++ {
				if s%50 == 0 {
					cl = client.NewPIR(rnd, info)
				}
				for _, x := range order(s, len(positions)) {
					pos := positions[x]
					qs, err := cl.QueryBytes(idxBytes(pos), 2)
					c.Must(err, "query")
					c.Check(len(qs) == 2, "%d queries for 2 servers", len(qs))
					for i, q := range qs {
						if size < 0 {
							size = len(q)
						}
						c.Check(len(q) == size, "the query to server %d for position %d has %d bytes instead of %d", i, pos, len(q), size)
						c.Check(!seen[string(q[:16])], "the key of server %d for position %d repeats", i, pos)
						seen[string(q[:16])] = true
						key := fmt.Sprintf("%d/%d", i, pos)
						if labs[key] == nil {
							labs[key] = newLab(c.R, size, 1500)
						}
						labs[key].add(q)
						if prev != nil {
							if succ[i] == nil {
								succ[i] = newLab(c.R, size, 1000)
							}
							succ[i].add(xorBytes(prev[i], q))
						}
					}
					prev = qs
					pointAftermath(c, cl, info, 2, p, qs)
					c.Evalf("%d/%d", pos, s)
				}
			}
			for i := 0; i < 2; i++ {
				for x, pos := range positions {
					l := labs[fmt.Sprintf("%d/%d", i, pos)]
					if bad := l.judge(true); bad != "" {
						c.Failf("%dx%d: the key of server %d for position %d is not uniform: %s", sh.rows, sh.cols, i, pos, bad)
					}
					if bad := l.differs(labs[fmt.Sprintf("%d/%d", i, positions[0])]); x > 0 && bad != "" {
						c.Failf("%dx%d: the key of server %d tells positions %d and %d apart: %s", sh.rows, sh.cols, i, pos, positions[0], bad)
					}
					c.Evalf("judged/%d/%d", i, pos)
				}
				if bad := succ[i].judge(true); bad != "" {
					c.Failf("%dx%d: consecutive keys of server %d are related: %s", sh.rows, sh.cols, i, bad)
				}
			}
			c.Obs("lookups_shared_among_two", samples*len(positions))
			// most of a key varies
			varies := 0
			for _, cnt := range labs["0/0"].cnt {
				if cnt != 0 && cnt != labs["0/0"].n {
					varies++
				}
			}
			c.Check(varies > 120, "only %d bits of a key vary", varies)
		}, "two/%dx%d/%s", sh.rows, sh.cols, src)
	}

	// what is refused, and randomness that fails
	t.Addf(func(c *C) {
		for _, sh := range []shape{{1, 1}, {1, 40}, {6, 6}} {
			for _, kind := range []string{"", "classical", "merkle"} {
				info := pointInfo(sh.rows, sh.cols, kind)
				for pos := 0; pos < sh.rows*sh.cols; pos++ {
					cl := client.NewPIR(detReader{c.R}, info)
					for _, k := range []int{1, 0, -1, -2} {
						qs, err := cl.QueryBytes(idxBytes(pos), k)
						c.Check(err != nil, "a lookup of position %d with %d servers is sent as %v", pos, k, qs)
						c.Evalf("%dx%d/%s/%d/%d", sh.rows, sh.cols, kind, pos, k)
					}
					c.Obs("refusals", 4)
				}
			}
		}
	}, "refused")
	for _, k := range []int{3, 5} {
		k := k
		t.Addf(func(c *C) {
			info := pointInfo(1, 100, "")
			for left := 0; left < 13*(k-1); left++ {
				f := &failReader{src: detReader{c.R}, left: left}
				cl := client.NewPIR(f, info)
				qs, err := cl.QueryBytes(idxBytes(c.R.Intn(100)), k)
				if err == nil && f.left <= 0 && f.failed {
					c.Failf("randomness ends after %d bytes, yet a query is made: %x", left, qs)
				}
				c.Evalf("%d", left)
				// the client works again with a working source
				f.left = 1 << 20
				_, err = cl.QueryBytes(idxBytes(5), k)
				c.Must(err, "query")
			}
		}, "failing randomness/%d", k)
	}
}
