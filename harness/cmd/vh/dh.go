package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
)

var dhGroups = []struct {
	name string
	g    group.Group
	slow int
}{
	{"P256", group.P256, 1},
	{"ristretto255", group.Ristretto255, 1},
	{"P384", group.P384, 8},
	{"P521", group.P521, 16},
}

type dhDB struct {
	db    *database.Elliptic
	cells []byte
	rows  int
	cols  int
}

// newDH makes a database from the cells, padded with zeros.
func makeDH(c *C, g group.Group, n int, rebalanced bool, cell func(i, rows, cols int) byte) *dhDB {
	rows, cols := database.CalculateNumRowsAndColumns(n, rebalanced)
	cells := make([]byte, rows*cols)
	for i := range cells {
		cells[i] = cell(i, rows, cols)
	}
	// only the lowest bit of what is read counts
	noisy := make([]byte, len(cells))
	for i := range noisy {
		noisy[i] = cells[i] | byte(c.R.Intn(128)<<1)
	}
	db := database.CreateRandomEllipticWithDigest(io.MultiReader(bytes.NewReader(noisy), detReader{c.R}), n, g, rebalanced)
	c.Check(db.NumRows == rows && db.NumColumns == cols && rows*cols >= n, "a database of %d cells has shape %dx%d", n, db.NumRows, db.NumColumns)
	// what the database holds
	c.Check(len(db.Entries) == rows*cols, "%d entries in %dx%d", len(db.Entries), rows, cols)
	for i := range cells {
		cells[i] = db.Entries[i]
		c.Check(cells[i] <= 1, "entry %d is %d", i, cells[i])
	}
	return &dhDB{db, append([]byte{}, cells...), rows, cols}
}

func init() {
	register("C06", &propDef{
		rule:     "a group (P256, P384, P521, ristretto255), a size, a shape (vector, square), a content (random, rows of zeros, rows of ones, all zeros, all ones, single ones) and every position or a sample; an evaluation is one lookup compared with the stored bit, or the digests of one size checked by a lookup of every row; distinct by group, size, shape, content and position",
		minEvals: 500,
		build:    buildC06,
	})
	register("C07", &propDef{
		rule:     "a group, a shape, a requested position and an altered cell of the server's database, or an alteration of the answer (elements replaced, negated, swapped, dropped, added, replayed, taken from other queries), or altered digests; an evaluation is one reconstruction, which has to be an error, or one client start, which has to be refused; distinct by group, shape, position and alteration",
		assume:   []string{"hardness of the discrete logarithm: random elements are distinct"},
		minEvals: 800,
		build:    buildC07,
	})
}

func dhLookup(c *C, cl *client.DH, s *server.DH, i int) (byte, error) {
	q, err := cl.QueryBytes(i)
	c.Must(err, "query")
	a, err := s.AnswerBytes(q)
	c.Must(err, "answer")
	v, err := cl.ReconstructBytes(a)
	if err != nil {
		return 0, err
	}
	b, ok := v.(byte)
	if !ok {
		c.Failf("the result is a %T", v)
	}
	return b, nil
}

func buildC06(t *T) {
	contents := map[string]func(c *C) func(i, rows, cols int) byte{
		"random": func(c *C) func(i, rows, cols int) byte {
			return func(i, rows, cols int) byte { return byte(c.R.Intn(2)) }
		},
		"zeros": func(c *C) func(i, rows, cols int) byte { return func(i, rows, cols int) byte { return 0 } },
		"ones":  func(c *C) func(i, rows, cols int) byte { return func(i, rows, cols int) byte { return 1 } },
		"stripes": func(c *C) func(i, rows, cols int) byte {
			return func(i, rows, cols int) byte { return byte(i / cols % 2) }
		},
		"single": func(c *C) func(i, rows, cols int) byte {
			x := c.R.Intn(1 << 20)
			return func(i, rows, cols int) byte {
				if i == x%(rows*cols) {
					return 1
				}
				return 0
			}
		},
	}
	run := func(c *C, g group.Group, n int, rebalanced bool, content string, max int) {
		d := makeDH(c, g, n, rebalanced, contents[content](c))
		cl := client.NewDH(detReader{c.R}, &d.db.Info)
		s := server.NewDH(d.db)
		pos := positions(c.R, len(d.cells), max)
		if len(d.cells) > max {
			// every row at least once
			for r := 0; r < d.rows; r++ {
				pos = append(pos, r*d.cols+c.R.Intn(d.cols))
			}
		}
		pos = append(pos, pos[0], pos[0])
		for _, i := range pos {
			v, err := dhLookup(c, cl, s, i)
			if err != nil {
				c.Failf("%dx%d, %s: lookup of %d: %v", d.rows, d.cols, content, i, err)
			}
			c.Check(v == d.cells[i], "%dx%d, %s: lookup of %d returned %d instead of %d", d.rows, d.cols, content, i, v, d.cells[i])
			c.Evalf("%d/%v/%s/%d", n, rebalanced, content, i)
			c.Obs("bits_returned", 1)
		}
		c.Check(bytes.Equal(d.cells, d.db.Entries), "the database changed")
	}
	names := []string{"random", "zeros", "ones", "stripes", "single"}
	for _, gr := range dhGroups {
		gr := gr
		for _, rebalanced := range []bool{true, false} {
			rebalanced := rebalanced
			for ni, n := range []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 30, 49, 64, 81} {
				n := n
				if n > 100/gr.slow && !t.Thorough {
					continue
				}
				for ci, content := range names {
					content := content
					if (ni+ci)%2 == 1 && gr.slow > 1 && !t.Thorough {
						continue
					}
					max := 40 / gr.slow
					if max < 3 {
						max = 3
					}
					t.Addf(func(c *C) { run(c, gr.g, n, rebalanced, content, t.N(max, 200)) }, "%s/%d/square=%v/%s", gr.name, n, rebalanced, content)
				}
			}
		}
	}
	// every size
	sizes := t.N(100, 600)
	for n := 1; n <= sizes; n++ {
		n := n
		t.Addf(func(c *C) {
			run(c, group.Ristretto255, n, true, "random", 2)
			if n%4 == 0 {
				run(c, group.P256, n, true, "random", 2)
			}
		}, "sizes/%d", n)
	}
	for _, gr := range dhGroups[:2] {
		gr := gr
		for _, n := range []int{1000, 2500} {
			n := n
			if n > 1000 && !t.Thorough {
				continue
			}
			t.Addf(func(c *C) { run(c, gr.g, n, true, "random", 4) }, "large/%s/%d", gr.name, n)
		}
	}
	t.Addf(func(c *C) {
		d := makeDH(c, group.Ristretto255, 12, true, contents["random"](c))
		cl := client.NewDH(detReader{c.R}, &d.db.Info)
		s := server.NewDH(d.db)
		n := len(d.cells)
		for _, i := range []int{n, n + 1, -1, 1 << 30, -(1 << 30)} {
			if _, err := cl.QueryBytes(i); err == nil {
				c.Failf("position %d of %d was not refused", i, n)
			}
			c.Evalf("outside/%d", i)
			v, err := dhLookup(c, cl, s, 1)
			c.Check(err == nil && v == d.cells[1], "lookup after a refusal")
		}
	}, "refusals")
}

func buildC07(t *T) {
	for _, gr := range dhGroups {
		gr := gr
		shapes := []struct {
			n  int
			sq bool
		}{{1, false}, {2, false}, {6, false}, {4, true}, {9, true}, {16, true}}
		for _, sh := range shapes {
			sh := sh
			if sh.n > 40/gr.slow && sh.n != 4 && !t.Thorough {
				continue
			}
			for _, content := range []string{"random", "zeros", "ones"} {
				content := content
				if content != "random" && gr.slow > 8 && !t.Thorough {
					continue
				}
				mk := func(c *C) *dhDB {
					return makeDH(c, gr.g, sh.n, sh.sq, func(i, rows, cols int) byte {
						switch content {
						case "ones":
							return 1
						case "zeros":
							return 0
						}
						return byte(c.R.Intn(2))
					})
				}
				t.Addf(func(c *C) {
					d := mk(c)
					n := len(d.cells)
					cl := client.NewDH(detReader{c.R}, &d.db.Info)
					s := server.NewDH(d.db)
					bad := &database.Elliptic{Info: d.db.Info}
					sb := server.NewDH(bad)
					reject := func(what string, i int, cells []byte) {
						bad.Entries = cells
						v, err := dhLookup(c, cl, sb, i)
						if err == nil {
							c.Failf("%s %dx%d: %s, position %d: accepted, %d (stored %d)", gr.name, d.rows, d.cols, what, i, v, d.cells[i])
						}
						c.Evalf("%s/%d", what, i)
						c.Obs("rejections", 1)
					}
					for x := 0; x < n; x++ {
						cells := append([]byte{}, d.cells...)
						cells[x] ^= 1
						ps := positions(c.R, n, n)
						if gr.slow > 1 && !t.Thorough {
							ps = []int{x, (x + 1) % n, (x + d.cols) % n, c.R.Intn(n)}
						}
						for _, i := range ps {
							reject(fmt.Sprintf("cell %d altered", x), i, cells)
						}
					}
					for rep := 0; rep < t.N(12/gr.slow+2, 100); rep++ {
						cells := append([]byte{}, d.cells...)
						for k := 0; k < 1+c.R.Intn(n); k++ {
							cells[c.R.Intn(n)] ^= 1
						}
						if bytes.Equal(cells, d.cells) {
							continue
						}
						reject(fmt.Sprintf("cells altered %d", rep), c.R.Intn(n), cells)
					}
					// two rows or columns exchanged
					for r := 0; r+1 < d.rows; r++ {
						cells := append([]byte{}, d.cells...)
						copy(cells[r*d.cols:(r+1)*d.cols], d.cells[(r+1)*d.cols:(r+2)*d.cols])
						copy(cells[(r+1)*d.cols:(r+2)*d.cols], d.cells[r*d.cols:(r+1)*d.cols])
						if !bytes.Equal(cells, d.cells) {
							reject(fmt.Sprintf("rows %d and next exchanged", r), c.R.Intn(n), cells)
						}
					}
					for x := 0; x+1 < d.cols; x++ {
						cells := append([]byte{}, d.cells...)
						for r := 0; r < d.rows; r++ {
							cells[r*d.cols+x], cells[r*d.cols+x+1] = cells[r*d.cols+x+1], cells[r*d.cols+x]
						}
						if !bytes.Equal(cells, d.cells) {
							reject(fmt.Sprintf("columns %d and next exchanged", x), c.R.Intn(n), cells)
						}
					}
					for i := 0; i < n; i++ {
						v, err := dhLookup(c, cl, s, i)
						c.Check(err == nil && v == d.cells[i], "honest lookup of %d: %v", i, err)
						if gr.slow > 1 && i > 2 {
							break
						}
					}
				}, "cells/%s/%d/square=%v/%s", gr.name, sh.n, sh.sq, content)

				t.Addf(func(c *C) {
					d := mk(c)
					n := len(d.cells)
					cl := client.NewDH(detReader{c.R}, &d.db.Info)
					s := server.NewDH(d.db)
					es := d.db.ElementSize
					enc := func(e group.Element) []byte {
						b, err := database.MarshalGroupElements([]group.Element{e}, es)
						c.Must(err, "encoding")
						return b
					}
					dec := func(b []byte) group.Element {
						e, err := database.UnmarshalGroupElements(b, gr.g, es)
						c.Must(err, "decoding")
						return e[0]
					}
					var old []byte
					for rep := 0; rep < t.N(6/gr.slow+2, 24); rep++ {
						i := c.R.Intn(n)
						q, err := cl.QueryBytes(i)
						c.Must(err, "query")
						a, err := s.AnswerBytes(q)
						c.Must(err, "answer")
						c.Check(len(a) == es*d.rows, "answer of %d bytes for %d rows", len(a), d.rows)
						reject := func(what string, b []byte) {
							if bytes.Equal(a, b) {
								return
							}
							v, err := cl.ReconstructBytes(b)
							if err == nil {
								c.Failf("%s %dx%d, %s: %s, position %d: accepted, %v (stored %d)", gr.name, d.rows, d.cols, content, what, i, v, d.cells[i])
							}
							c.Evalf("%d/%s/%d", rep, what, i)
							c.Obs("rejections", 1)
						}
						with := func(r int, e []byte) []byte {
							b := append([]byte{}, a...)
							copy(b[r*es:], e)
							return b
						}
						for r := 0; r < d.rows; r++ {
							e := a[r*es : (r+1)*es]
							re := gr.g.RandomElement(detReader{c.R})
							reject(fmt.Sprintf("row %d random", r), with(r, enc(re)))
							reject(fmt.Sprintf("row %d identity", r), with(r, enc(gr.g.Identity())))
							reject(fmt.Sprintf("row %d generator", r), with(r, enc(gr.g.Generator())))
							reject(fmt.Sprintf("row %d negated", r), with(r, enc(gr.g.NewElement().Neg(dec(e)))))
							reject(fmt.Sprintf("row %d doubled", r), with(r, enc(gr.g.NewElement().Dbl(dec(e)))))
							reject(fmt.Sprintf("row %d plus generator", r), with(r, enc(gr.g.NewElement().Add(dec(e), gr.g.Generator()))))
							for x := 0; x < d.cols && x < 4; x++ {
								// an element of the query added
								qe := dec(q[x*es : (x+1)*es])
								if d.cells[r*d.cols+x] == 0 || x == i%d.cols {
									reject(fmt.Sprintf("row %d plus query element %d", r, x), with(r, enc(gr.g.NewElement().Add(dec(e), qe))))
								}
								reject(fmt.Sprintf("row %d is hash %d", r, x), with(r, enc(database.HashIndexToGroup(uint64(x), gr.g))))
								reject(fmt.Sprintf("row %d is query element %d", r, x), func() []byte {
									// unless it is the answer of a row with this single one
									return with(r, q[x*es:(x+1)*es])
								}())
							}
							sub := d.db.SubDigests[r*es : (r+1)*es]
							reject(fmt.Sprintf("row %d is its digest", r), with(r, sub))
							for r2 := 0; r2 < r; r2++ {
								b := append([]byte{}, a...)
								copy(b[r*es:], a[r2*es:(r2+1)*es])
								reject(fmt.Sprintf("row %d is that of %d", r, r2), b)
								copy(b[r2*es:], a[r*es:(r+1)*es])
								reject(fmt.Sprintf("rows %d and %d swapped", r, r2), b)
							}
							reject(fmt.Sprintf("row %d dropped", r), append(append([]byte{}, a[:r*es]...), a[(r+1)*es:]...))
							reject(fmt.Sprintf("row %d repeated", r), append(append([]byte{}, a[:(r+1)*es]...), a[r*es:]...))
							for k := 0; k < 6; k++ {
								b := append([]byte{}, a...)
								b[r*es+c.R.Intn(es)] ^= 1 << uint(c.R.Intn(8))
								reject(fmt.Sprintf("row %d bit %d", r, k), b)
							}
							if old != nil {
								reject(fmt.Sprintf("row %d replayed", r), with(r, old[r*es:(r+1)*es]))
							}
						}
						reject("element added", append(append([]byte{}, a...), enc(gr.g.Identity())...))
						reject("element added at the front", append(enc(gr.g.Identity()), a...))
						reject("random element added", append(append([]byte{}, a...), enc(gr.g.RandomElement(detReader{c.R}))...))
						reject("nothing", nil)
						reject("a byte less", a[:len(a)-1])
						reject("a byte more", append(append([]byte{}, a...), 0))
						if old != nil {
							zero := true
							for _, x := range d.cells {
								zero = zero && x == 0
							}
							if !zero {
								reject("replayed", old)
							}
						}
						// the client still works
						v, err := cl.ReconstructBytes(a)
						c.Must(err, "genuine answer after altered ones")
						c.Check(v.(byte) == d.cells[i], "genuine answer after altered ones")
						old = a
					}
				}, "answers/%s/%d/square=%v/%s", gr.name, sh.n, sh.sq, content)
			}
		}
		// many rows: single bits and single answers, in any of them
		side := 30
		if gr.slow > 1 {
			side = 12
		}
		if gr.slow > 8 {
			side = 6
		}
		t.Addf(func(c *C) {
			d := makeDH(c, gr.g, side*side, true, func(i, rows, cols int) byte { return byte(c.R.Intn(2)) })
			n, rows := len(d.cells), d.db.NumRows
			bad := &database.Elliptic{Info: d.db.Info}
			good, sb := server.NewDH(d.db), server.NewDH(bad)
			cl := client.NewDH(detReader{c.R}, &d.db.Info)
			es := d.db.ElementSize
			for rep := 0; rep < t.N(2, 8); rep++ {
				for r := 0; r < rows; r++ {
					// a bit of row r, read from there or from elsewhere
					i := r*d.db.NumColumns + c.R.Intn(d.db.NumColumns)
					cells := append([]byte{}, d.cells...)
					cells[i] ^= 1
					bad.Entries = cells
					p := []int{i, c.R.Intn(n), n - 1, 0}[c.R.Intn(4)]
					if v, err := dhLookup(c, cl, sb, p); err == nil {
						c.Failf("%s: bit %d altered, position %d of %d: accepted, %d (stored %d)", gr.name, i, p, n, v, d.cells[p])
					}
					c.Obs("rejections", 1)
					c.Evalf("rows/bit/%d/%d", rep, r)
					// the answer of row r by another one
					q, err := cl.QueryBytes(p)
					c.Must(err, "query")
					a, err := good.AnswerBytes(q)
					c.Must(err, "answer")
					o := c.R.Intn(rows)
					b := append([]byte{}, a...)
					copy(b[r*es:(r+1)*es], a[o*es:(o+1)*es])
					v, err := cl.ReconstructBytes(b)
					if err == nil && v.(byte) != d.cells[p] {
						c.Failf("%s: answer of row %d for row %d, position %d of %d: accepted, %d (stored %d)", gr.name, o, r, p, n, v, d.cells[p])
					}
					if err == nil && !bytes.Equal(a, b) {
						c.Failf("%s: answer of row %d for row %d, position %d of %d: accepted", gr.name, o, r, p, n)
					}
					c.Evalf("rows/answer/%d/%d", rep, r)
				}
			}
		}, "rows/%s/%d", gr.name, side)
		// more rows than a byte counts, altered near the ends
		if gr.slow == 1 && (t.Thorough || gr.g == group.P256) {
			t.Addf(func(c *C) {
				d := makeDH(c, gr.g, 290*290, true, func(i, rows, cols int) byte { return byte(c.R.Intn(2)) })
				n, rows, es := len(d.cells), d.db.NumRows, d.db.ElementSize
				bad := &database.Elliptic{Info: d.db.Info}
				good, sb := server.NewDH(d.db), server.NewDH(bad)
				cl := client.NewDH(detReader{c.R}, &d.db.Info)
				for rep := 0; rep < t.N(12, 100); rep++ {
					r := []int{rows - 1, c.R.Intn(rows), 255 + c.R.Intn(3), rows/2 + c.R.Intn(rows/2), 128, 64}[rep%6]
					i := r*d.db.NumColumns + c.R.Intn(d.db.NumColumns)
					if rep%3 == 0 {
						i = (r+1)*d.db.NumColumns - 1
					}
					bad.Entries = append([]byte{}, d.cells...)
					bad.Entries[i] ^= 1
					p := []int{0, i, c.R.Intn(n), n - 1, d.db.NumColumns}[rep%5]
					if v, err := dhLookup(c, cl, sb, p); err == nil {
						c.Failf("%s: bit %d altered, position %d of %d: accepted, %d (stored %d)", gr.name, i, p, n, v, d.cells[p])
					}
					q, err := cl.QueryBytes(p)
					c.Must(err, "query")
					a, err := good.AnswerBytes(q)
					c.Must(err, "answer")
					b, o := append([]byte{}, a...), c.R.Intn(rows)
					copy(b[r*es:(r+1)*es], a[o*es:(o+1)*es])
					if v, err := cl.ReconstructBytes(b); err == nil && !bytes.Equal(a, b) {
						c.Failf("%s: answer of row %d for row %d, position %d of %d: accepted, %v", gr.name, o, r, p, n, v)
					}
					v, err := cl.ReconstructBytes(a)
					c.Check(err == nil && v.(byte) == d.cells[p], "%s: honest lookup of %d of %d: %v", gr.name, p, n, err)
					c.Evalf("many rows/%d", rep)
					c.Obs("rejections", 2)
				}
			}, "many rows/%s", gr.name)
		}
		// wide rows: bits moved between columns far apart
		wide := t.N(1100/gr.slow/gr.slow, 9000/gr.slow)
		if wide < 80 {
			wide = 80
		}
		t.Addf(func(c *C) {
			d := makeDH(c, gr.g, wide, false, func(i, rows, cols int) byte { return byte(c.R.Intn(2)) })
			n := len(d.cells)
			bad := &database.Elliptic{Info: d.db.Info}
			sb := server.NewDH(bad)
			cl := client.NewDH(detReader{c.R}, &d.db.Info)
			for dist := 1; dist < n; dist *= 2 {
				for rep := 0; rep < t.N(2, 6); rep++ {
					i := c.R.Intn(n - dist)
					for k := 0; k < n && d.cells[i] == d.cells[i+dist]; k++ {
						i = (i + 1) % (n - dist)
					}
					if d.cells[i] == d.cells[i+dist] {
						continue
					}
					cells := append([]byte{}, d.cells...)
					cells[i], cells[i+dist] = cells[i+dist], cells[i]
					bad.Entries = cells
					p := []int{i, i + dist, c.R.Intn(n)}[c.R.Intn(3)]
					v, err := dhLookup(c, cl, sb, p)
					if err == nil {
						c.Failf("%s: bits %d and %d exchanged, position %d of %d: accepted, %d (stored %d)", gr.name, i, i+dist, p, n, v, d.cells[p])
					}
					c.Evalf("%d/%d", dist, rep)
					c.Obs("rejections", 1)
				}
			}
			// every column is masked by an element of its own
			q, err := cl.QueryBytes(c.R.Intn(n))
			c.Must(err, "query")
			es := d.db.ElementSize
			seen := make(map[string]int)
			for j := 0; j < n; j++ {
				e := string(q[j*es : (j+1)*es])
				if x, ok := seen[e]; ok {
					c.Failf("%s: the query has the same element for the columns %d and %d of %d: their bits can be exchanged", gr.name, x, j, n)
				}
				seen[e] = j
			}
			c.Evalf("query of %d columns", n)
		}, "wide/%s/%d", gr.name, wide)
		t.Addf(func(c *C) {
			// the element of a column is not that of any other, also far away
			seen := make(map[string]uint64)
			add := func(j uint64) {
				b, err := database.HashIndexToGroup(j, gr.g).MarshalBinaryCompress()
				c.Must(err, "encoding")
				if x, ok := seen[string(b)]; ok && x != j {
					c.Failf("%s: the columns %d and %d have the same element: their bits can be exchanged", gr.name, x, j)
				}
				seen[string(b)] = j
			}
			for j := 0; j < t.N(20000, 200000)/gr.slow; j++ {
				add(uint64(j))
			}
			for b := 0; b < 64; b++ {
				add(1 << uint(b))
				add(1<<uint(b) + 3)
				add(1<<uint(b) - 1)
			}
			c.Evalf("%d columns", len(seen))
			c.Obs("columns_compared", len(seen))
		}, "columns/%s", gr.name)
		// digests
		t.Addf(func(c *C) {
			d := makeDH(c, gr.g, 4, true, func(i, rows, cols int) byte { return byte(c.R.Intn(2)) })
			es := d.db.ElementSize
			start := func(f func(a *database.Auth)) interface{} {
				info := d.db.Info
				a := *d.db.Auth
				a.Digest = append([]byte{}, a.Digest...)
				a.SubDigests = append([]byte{}, a.SubDigests...)
				f(&a)
				info.Auth = &a
				return Panics(func() { client.NewDH(detReader{c.R}, &info) })
			}
			c.Check(start(func(a *database.Auth) {}) == nil, "the genuine digests are refused")
			refuse := func(what string, f func(a *database.Auth)) {
				if start(f) == nil {
					c.Failf("%s: the client starts with %s", gr.name, what)
				}
				c.Evalf("start/%s", what)
				c.Obs("starts_refused", 1)
			}
			for b := 0; b < 8*len(d.db.SubDigests); b += 1 + c.R.Intn(5) {
				b := b
				refuse(fmt.Sprintf("row digests with bit %d changed", b), func(a *database.Auth) { a.SubDigests[b/8] ^= 1 << uint(b%8) })
			}
			for b := 0; b < 256; b++ {
				b := b
				refuse(fmt.Sprintf("global digest with bit %d changed", b), func(a *database.Auth) { a.Digest[b/8] ^= 1 << uint(b%8) })
			}
			refuse("a row digest less", func(a *database.Auth) { a.SubDigests = a.SubDigests[:len(a.SubDigests)-es] })
			refuse("a row digest more", func(a *database.Auth) { a.SubDigests = append(a.SubDigests, a.SubDigests[:es]...) })
			refuse("no row digests", func(a *database.Auth) { a.SubDigests = nil })
			refuse("no global digest", func(a *database.Auth) { a.Digest = nil })
			refuse("a cut global digest", func(a *database.Auth) { a.Digest = a.Digest[:16] })
			refuse("an extended global digest", func(a *database.Auth) { a.Digest = append(a.Digest, 0) })
			refuse("row digests swapped", func(a *database.Auth) {
				copy(a.SubDigests, d.db.SubDigests[es:2*es])
				copy(a.SubDigests[es:], d.db.SubDigests[:es])
				if bytes.Equal(a.SubDigests, d.db.SubDigests) {
					a.Digest[0] ^= 1
				}
			})
		}, "digests/%s", gr.name)
	}
}
