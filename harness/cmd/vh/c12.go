package main

import (
	"crypto/rand"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	mrand "math/rand"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C12", &propDef{
		rule:     "a single-server scheme (both lattice moduli, amplified, group-based over each group), a shape, requested positions and a source of randomness; many lookups each. The monitor counts every bit and the exclusive or of pairs of bits of every component of the query, of the difference with the previous query and of the difference between repetitions, against fair coins, compares positions with each other, and checks sizes and that nothing repeats; two lattice-based queries made with the same secret differ by noise of the expected width in every component. An evaluation is one query observed or one distribution judged; distinct by scheme, shape, position and source",
		assume:   []string{"a distribution that differs in other ways than in bits and pairs of bits, or by less than about 7.5 standard deviations of the sample, is not noticed"},
		minEvals: 5000,
		build:    buildC12,
	})
}

// parts makes lookups and gives the masked part of the query, by repetition.
type querier struct {
	query func(pos int) [][]byte
	elem  int // bytes of a component
	comps int // components of a repetition
	// answer passes an answer of the encoded length to the client: of an
	// honest server with an empty database, or not
	answer func(b []byte) error
	honest func() []byte
}

// aftermath is what may follow a query: nothing, or an answer that is right,
// forged, or malformed.
func (q *querier) aftermath(c *C) {
	if q.answer == nil {
		return
	}
	switch c.R.Intn(7) {
	case 0:
		if err := q.answer(q.honest()); err != nil {
			c.Failf("the answer of an honest server is not accepted: %v", err)
		}
		c.Obs("answers_accepted", 1)
	case 1:
		b := q.honest()
		for i := 0; i < 3; i++ {
			b[len(b)-1-c.R.Intn(len(b)/2+1)%len(b)] ^= 1 << uint(c.R.Intn(8))
		}
		if q.answer(b) != nil {
			c.Obs("answers_rejected", 1)
		}
	case 2:
		b := q.honest()
		n := len(b) / 2
		if n > 4000 {
			n = 4000
		}
		copy(b[len(b)-n:], c.Bytes(n))
		if q.answer(b) != nil {
			c.Obs("answers_rejected", 1)
		}
	case 3:
		if q.answer(c.Bytes(c.R.Intn(40))) != nil {
			c.Obs("answers_rejected", 1)
		}
	}
}

func lattice(c *C, kind string, rnd io.Reader, rows, cols int, encoded bool) *querier {
	info := &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1, Auth: &database.Auth{}}
	flat := func(m *matrix.Matrix) []byte {
		c.Check(m.Rows() == 1 && m.Cols() == rows, "a query of %dx%d for a database of %dx%d", m.Rows(), m.Cols(), rows, cols)
		var b []byte
		for i := 0; i < m.Cols(); i++ {
			b = binary.LittleEndian.AppendUint32(b, m.Get(0, i))
		}
		return b
	}
	if kind == "lwe128" {
		info.Auth.DigestLWE128 = matrix.New128(utils.ParamsWithDatabaseSize128(rows, cols).N, cols)
	} else {
		info.Auth.DigestLWE = matrix.New(utils.ParamsWithDatabaseSize(rows, cols).N, cols)
	}
	size := -1
	check := func(b []byte, err error) []byte {
		c.Must(err, "query")
		if size < 0 {
			size = len(b)
		}
		c.Check(len(b) == size, "a query of %d bytes, others have %d", len(b), size)
		return b
	}
	switch kind {
	case "lwe":
		cl := client.NewLWE(rnd, info, utils.ParamsWithDatabaseSize(rows, cols))
		return &querier{func(pos int) [][]byte {
			if encoded {
				return [][]byte{flat(matrix.BytesToMatrix(check(cl.QueryBytes(pos))))}
			}
			return [][]byte{flat(cl.Query(pos/cols, pos%cols))}
		}, 4, rows, func(b []byte) error {
			_, err := cl.ReconstructBytes(b)
			return err
		}, func() []byte { return matrix.MatrixToBytes(matrix.New(1, cols)) }}
	case "lwe128":
		cl := client.NewLWE128(rnd, info, utils.ParamsWithDatabaseSize128(rows, cols))
		return &querier{func(pos int) [][]byte {
			var m *matrix.Matrix128
			if encoded {
				m = matrix.BytesToMatrix128(check(cl.QueryBytes(pos)))
			} else {
				m = cl.Query(pos/cols, pos%cols)
			}
			c.Check(m.Rows() == 1 && m.Cols() == rows, "a query of %dx%d for a database of %dx%d", m.Rows(), m.Cols(), rows, cols)
			b := make([]byte, 16*rows)
			for i := 0; i < rows; i++ {
				m.Get(0, i).PutBytes(b[16*i:])
			}
			return [][]byte{b}
		}, 16, rows, func(b []byte) error {
			_, err := cl.ReconstructBytes(b)
			return err
		}, func() []byte { return matrix.Matrix128ToBytes(matrix.New128(1, cols)) }}
	case "amplify":
		cl := client.NewAmplify(rnd, info, utils.ParamsWithDatabaseSize(rows, cols), 2)
		return &querier{func(pos int) [][]byte {
			var ms []*matrix.Matrix
			if encoded {
				ms = matrix.BytesToMatrices(check(cl.QueryBytes(pos)))
			} else {
				ms = cl.Query(pos/cols, pos%cols)
			}
			c.Check(len(ms) == 5, "%d repetitions instead of 5", len(ms))
			var out [][]byte
			for _, m := range ms {
				out = append(out, flat(m))
			}
			return out
		}, 4, rows, func(b []byte) error {
			_, err := cl.ReconstructBytes(b)
			return err
		}, func() []byte {
			var ms []*matrix.Matrix
			for i := 0; i < 5; i++ {
				ms = append(ms, matrix.New(1, cols))
			}
			return matrix.MatricesToBytes(ms)
		}}
	}
	panic(kind)
}

func dhQuerier(c *C, gi int, rnd io.Reader, rows, cols int) *querier {
	g := dhGroups[gi].g
	r := mrand.New(mrand.NewSource(1))
	_ = r
	p, err := g.Generator().MarshalBinaryCompress()
	c.Must(err, "encoding")
	h := dhHash(c, rows, cols, gi, len(p))
	cl := client.NewDH(rnd, h)
	size := -1
	return &querier{func(pos int) [][]byte {
		q, err := cl.QueryBytes(pos)
		c.Must(err, "query")
		if size < 0 {
			size = len(q)
			c.Check(size == cols*len(p), "a query of %d bytes for %d columns", size, cols)
		}
		c.Check(len(q) == size, "a query of %d bytes, others have %d", len(q), size)
		return [][]byte{q}
	}, len(p), cols, func(b []byte) error {
		_, err := cl.ReconstructBytes(b)
		return err
	}, func() []byte { return append([]byte{}, h.SubDigests...) }}
}

// dhHash describes a database without contents.
func dhHash(c *C, rows, cols, gi, elem int) *database.Info {
	db := makeDH(c, dhGroups[gi].g, 1, false, func(i, r, co int) byte { return 0 })
	info := db.db.Info
	auth := *info.Auth
	info.Auth = &auth
	info.NumRows, info.NumColumns = rows, cols
	var ids []group.Element
	for i := 0; i < rows; i++ {
		ids = append(ids, dhGroups[gi].g.Identity())
	}
	var err error
	auth.SubDigests, err = database.MarshalGroupElements(ids, elem)
	c.Must(err, "digests")
	hasher := auth.Hash.New()
	hasher.Write(auth.SubDigests)
	auth.Digest = hasher.Sum(nil)
	return &info
}

func buildC12(t *T) {
	observe := func(c *C, what string, mk func() *querier, total, samples int, positions []int) {
		labs := map[int][]*bitLab{}
		var succ, reps []*bitLab
		seen := map[string]bool{}
		var qr *querier
		var prev [][]byte
		for s := 0; s < samples; s++ {
			if s%(samples/4+1) == 0 {
				qr = mk()
				prev = nil
			}
			for _, x := range order(s, len(positions)) {
				pos := positions[x]
				parts := qr.query(pos)
				for r, b := range parts {
					c.Check(len(b) == qr.elem*qr.comps, "%s: %d bytes for %d components", what, len(b), qr.comps)
					for i := 0; i < qr.comps; i++ {
						e := string(b[i*qr.elem : (i+1)*qr.elem])
						if qr.elem > 4 {
							c.Check(!seen[e], "%s: component %d of the query for position %d repeats", what, i, pos)
							seen[e] = true
						}
					}
					if qr.elem == 4 && qr.comps >= 4 {
						c.Check(!seen[string(b)], "%s: the query for position %d repeats", what, pos)
						seen[string(b)] = true
					}
					if len(labs[pos]) <= r {
						labs[pos] = append(labs[pos], newLab(c.R, len(b), 800))
					}
					labs[pos][r].add(b)
					if prev != nil {
						if len(succ) <= r {
							succ = append(succ, newLab(c.R, len(b), 300))
						}
						succ[r].add(xorBytes(prev[r], b))
					}
					if r > 0 {
						if len(reps) < r {
							reps = append(reps, newLab(c.R, len(b), 300))
						}
						reps[r-1].add(xorBytes(parts[r-1], b))
					}
				}
				prev = parts
				qr.aftermath(c)
				c.Evalf("%d/%d", pos, s)
				c.Obs("queries", 1)
			}
		}
		for _, pos := range positions {
			for r, l := range labs[pos] {
				if bad := l.judge(true); bad != "" {
					c.Failf("%s, position %d, repetition %d: not uniform: %s", what, pos, r, bad)
				}
				if bad := l.differs(labs[positions[0]][r]); bad != "" {
					c.Failf("%s, repetition %d: positions %d and %d can be told apart: %s", what, r, pos, positions[0], bad)
				}
				// constant bits: the format of group elements, but not more
				for i := 0; i < qr.comps; i++ {
					k := 0
					for _, n := range l.cnt[8*i*qr.elem : 8*(i+1)*qr.elem] {
						if n == 0 || n == l.n {
							k++
						}
					}
					limit := 0
					if qr.elem > 16 {
						limit = 16
					}
					c.Check(k <= limit, "%s, position %d: %d bits of component %d are constant", what, pos, k, i)
				}
				c.Evalf("judged/%d/%d", pos, r)
			}
		}
		for r, l := range succ {
			if bad := l.judge(true); bad != "" {
				c.Failf("%s: consecutive queries are related (repetition %d): %s", what, r, bad)
			}
		}
		for r, l := range reps {
			if bad := l.judge(true); bad != "" {
				c.Failf("%s: repetitions %d and %d are related: %s", what, r, r+1, bad)
			}
		}
	}
	pick := func(c *C, rows, cols int) []int {
		total := rows * cols
		out := []int{0}
		for _, p := range []int{cols - 1, total - 1, c.R.Intn(total), c.R.Intn(total)} {
			dup := false
			for _, q := range out {
				dup = dup || q == p
			}
			if !dup {
				out = append(out, p)
			}
		}
		return out
	}
	type shape struct{ rows, cols int }
	sources := []string{"system", "deterministic", "short", "one byte", "short or nothing"}
	for _, kind := range []string{"lwe", "lwe128", "amplify"} {
		for si, sh := range []shape{{1, 1}, {1, 5}, {2, 2}, {3, 4}, {8, 8}, {17, 3}, {64, 64}} {
			for _, encoded := range []bool{true, false} {
				kind, sh, encoded := kind, sh, encoded
				src := sources[(si+len(kind))%len(sources)]
				n := 400
				switch {
				case kind == "lwe128" && sh.rows > 16:
					n = 60
				case kind == "lwe128":
					n = 120
				case kind == "amplify" || sh.rows > 16:
					n = 130
				}
				if sh.rows*sh.cols < 5 {
					n *= 2
				}
				if encoded && si%2 == 0 {
					n /= 2
				}
				if n < 70 {
					n = 70
				}
				t.Addf(func(c *C) {
					observe(c, fmt.Sprintf("%s %dx%d, randomness %s", kind, sh.rows, sh.cols, src), func() *querier {
						return lattice(c, kind, pointSource(c, src), sh.rows, sh.cols, encoded)
					}, sh.rows*sh.cols, t.N(n, 20*n), pick(c, sh.rows, sh.cols))
				}, "%s/%dx%d/%v/%s", kind, sh.rows, sh.cols, encoded, src)
			}
		}
		for _, src := range sources {
			kind, src := kind, src
			n := 250
			if kind == "lwe128" {
				n = 80
			}
			t.Addf(func(c *C) {
				observe(c, fmt.Sprintf("%s 4x4, randomness %s", kind, src), func() *querier {
					return lattice(c, kind, pointSource(c, src), 4, 4, true)
				}, 16, t.N(n, 20*n), []int{0, 6, 15})
			}, "source/%s/%s", kind, src)
		}
		// the same secret twice
		for si, sh := range []shape{{1, 1}, {5, 5}, {16, 2}, {100, 100}, {1300, 2}} {
			kind, sh, si := kind, sh, si
			t.Addf(func(c *C) {
				elem, n := 4, 1
				switch kind {
				case "lwe128":
					elem = 16
				case "amplify":
					n = 5
				}
				pairs := 60
				if sh.rows < 10 {
					pairs = 200
				}
				if kind == "lwe128" {
					pairs /= 4
					if sh.rows > 1000 && !t.Thorough {
						sh.rows = 300
					}
				}
				if sh.rows > 1000 {
					// long queries: enough to see every component without noise
					pairs = 14
					if kind == "amplify" {
						pairs = 4
					}
				}
				pairs = t.N(pairs, 10*pairs)
				sum, sq, zero, count := 0.0, 0.0, 0, 0
				read, alike := 0, 0
				percomp := make([]int, sh.rows)
				for p := 0; p < pairs; p++ {
					seed := c.R.Int63()
					pos := c.R.Intn(sh.rows * sh.cols)
					rec := &recReader{}
					var qr *querier
					run := func() [][]byte {
						// by two clients, or twice by the same
						rec.src = detReader{mrand.New(mrand.NewSource(seed))}
						rec.buf = nil
						if qr == nil || p%3 != 0 {
							qr = lattice(c, kind, rec, sh.rows, sh.cols, p%2 == 0)
						}
						q := qr.query(pos)
						read = len(rec.buf)
						return q
					}
					a, b := run(), run()
					same := sh.rows >= 16
					for r := range a {
						for i := 0; i < sh.rows; i++ {
							var d float64
							if elem == 4 {
								d = float64(int32(binary.LittleEndian.Uint32(a[r][4*i:]) - binary.LittleEndian.Uint32(b[r][4*i:])))
							} else {
								x, y := a[r][16*i:], b[r][16*i:]
								lo := binary.LittleEndian.Uint64(x) - binary.LittleEndian.Uint64(y)
								hi := binary.LittleEndian.Uint64(x[8:]) - binary.LittleEndian.Uint64(y[8:])
								if binary.LittleEndian.Uint64(x) < binary.LittleEndian.Uint64(y) {
									hi--
								}
								c.Check(hi == 0 && lo < 1<<32 || hi == math.MaxUint64 && lo > -(1<<32)&math.MaxUint64, "%s: two queries with the same secret differ by %x %x", kind, hi, lo)
								d = float64(int64(lo))
							}
							c.Check(math.Abs(d) < 400, "%s: two queries with the same secret differ by %v in component %d", kind, d, i)
							if d == 0 {
								zero++
								percomp[i]++
							} else {
								same = false
							}
							sum += d
							sq += d * d
							count++
						}
					}
					if same {
						alike++
					}
					c.Evalf("%d", p)
				}
				c.Check(alike == 0 || zero == count, "%s: %d of %d pairs of queries with the same secret have the same noise", kind, alike, pairs)
				if zero == count {
					// is the noise derived from the same source?
					secret := 1100 * 4 * n
					if kind == "lwe128" {
						secret = 4800 * 16
					}
					c.Check(read >= secret+n*elem*(sh.rows+1), "%s: queries have no noise", kind)
					return
				}
				c.Obs("noise_differences", count)
				// differences of two samples of width 6.4
				v := sq / float64(count)
				want := 2 * 6.4 * 6.4
				c.Check(math.Abs(v-want) < zLimit*want*math.Sqrt(2/float64(count))+0.03*want, "%s: the variance of the difference of two noises is %.2f instead of %.2f (%d differences)", kind, v, want, count)
				m := sum / float64(count)
				c.Check(math.Abs(m) < zLimit*math.Sqrt(want/float64(count)), "%s: the mean of the difference of two noises is %.3f", kind, m)
				for i, z := range percomp {
					p := 0.0441 // of a difference of zero
					e := float64(pairs * n)
					c.Check(float64(z) < p*e+8*math.Sqrt(p*e)+6, "%s: component %d has no noise in %d of %d queries", kind, i, z, pairs*n)
				}
				_ = si
			}, "noise/%s/%dx%d", kind, sh.rows, sh.cols)
		}
	}
	for gi, g := range dhGroups {
		for _, sh := range []shape{{1, 1}, {1, 3}, {3, 2}, {4, 5}} {
			for _, src := range sources {
				gi, g, sh, src := gi, g, sh, src
				if (g.slow > 1 || sh.rows > 3) && src != "short" && src != "system" {
					continue
				}
				n := 600 / g.slow / sh.cols
				if n < 40 {
					n = 40
				}
				t.Addf(func(c *C) {
					positions := pick(c, sh.rows, sh.cols)
					if len(positions) > 3 {
						positions = positions[:3]
					}
					// samples below what a fair bit needs to vary
					if n < 70 {
						n = 70
					}
					observe(c, fmt.Sprintf("%s %dx%d, randomness %s", g.name, sh.rows, sh.cols, src), func() *querier {
						return dhQuerier(c, gi, pointSource(c, src), sh.rows, sh.cols)
					}, sh.rows*sh.cols, t.N(n, 8*n), positions)
				}, "dh/%s/%dx%d/%s", g.name, sh.rows, sh.cols, src)
			}
		}
	}
	_ = rand.Reader
}
