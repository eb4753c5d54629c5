package main

import (
	"fmt"
	"io"
	"math"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"
)

// latticeScheme hides the differences among the three lattice-based schemes.
type latticeScheme interface {
	// query returns a query for the position, encoded or not
	query(i int) error
	// answer makes the honest answer from the cells given to setServer
	answer() error
	// tamper adds v, scaled to the top of the modulus if top, to a column of
	// the answer of a repetition
	tamper(rep, col int, v int64, top bool)
	reconstruct() (uint32, error)
	setServer(cells []byte)
	repetitions() int
	bound() uint32
	name() string
}

func cellsMatrix(rows, cols int, cells []byte) *matrix.MatrixBytes {
	m := matrix.NewBytes(rows, cols)
	for i, v := range cells {
		m.SetData(i, v)
	}
	return m
}

func lweDB(rows, cols int, cells []byte) *database.LWE {
	db := &database.LWE{Matrix: cellsMatrix(rows, cols, cells),
		Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1}}
	db.Auth = &database.Auth{DigestLWE: database.Digest(db, rows)}
	return db
}

func lweDB128(rows, cols int, cells []byte) *database.LWE128 {
	db := &database.LWE128{Matrix: cellsMatrix(rows, cols, cells),
		Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1}}
	db.Auth = &database.Auth{DigestLWE128: database.Digest128(db, rows)}
	return db
}

type lwe32 struct {
	rows, cols int
	params     *utils.ParamsLWE
	cl         *client.LWE
	s          *server.LWE
	bytes      bool
	q, a       *matrix.Matrix
	qb, ab     []byte
}

func newLWE32(rnd io.Reader, rows, cols int, cells []byte, bytes bool) *lwe32 {
	db := lweDB(rows, cols, cells)
	l := &lwe32{rows: rows, cols: cols, bytes: bytes, params: utils.ParamsWithDatabaseSize(rows, cols)}
	l.cl = client.NewLWE(rnd, &db.Info, l.params)
	l.s = server.NewLWE(db)
	return l
}
func (l *lwe32) name() string     { return fmt.Sprintf("lwe %dx%d bytes=%v", l.rows, l.cols, l.bytes) }
func (l *lwe32) repetitions() int { return 1 }
func (l *lwe32) bound() uint32    { return l.params.B }
func (l *lwe32) setServer(cells []byte) {
	l.s = server.NewLWE(&database.LWE{Matrix: cellsMatrix(l.rows, l.cols, cells),
		Info: database.Info{NumRows: l.rows, NumColumns: l.cols, BlockSize: 1}})
}
func (l *lwe32) query(i int) (err error) {
	if l.bytes {
		l.qb, err = l.cl.QueryBytes(i)
	} else {
		l.q = l.cl.Query(i/l.cols, i%l.cols)
	}
	return
}
func (l *lwe32) answer() (err error) {
	if l.bytes {
		l.ab, err = l.s.AnswerBytes(l.qb)
	} else {
		l.a = l.s.Answer(l.q)
	}
	return
}
func tamper32(m *matrix.Matrix, col int, v int64, top bool) {
	d := uint32(v)
	if top {
		d = uint32(v) << 24
	}
	m.Set(0, col, m.Get(0, col)+d)
}
func (l *lwe32) tamper(rep, col int, v int64, top bool) {
	if l.bytes {
		m := matrix.BytesToMatrix(l.ab)
		tamper32(m, col, v, top)
		l.ab = matrix.MatrixToBytes(m)
	} else {
		tamper32(l.a, col, v, top)
	}
}
func (l *lwe32) reconstruct() (uint32, error) {
	if l.bytes {
		return l.cl.ReconstructBytes(l.ab)
	}
	return l.cl.Reconstruct(l.a)
}

type lwe128 struct {
	rows, cols int
	params     *utils.ParamsLWE
	cl         *client.LWE128
	s          *server.LWE128
	bytes      bool
	q, a       *matrix.Matrix128
	qb, ab     []byte
}

func newLWE128(rnd io.Reader, rows, cols int, cells []byte, bytes bool) *lwe128 {
	db := lweDB128(rows, cols, cells)
	l := &lwe128{rows: rows, cols: cols, bytes: bytes, params: utils.ParamsWithDatabaseSize128(rows, cols)}
	l.cl = client.NewLWE128(rnd, &db.Info, l.params)
	l.s = server.NewLWE128(db)
	return l
}
func (l *lwe128) name() string     { return fmt.Sprintf("lwe128 %dx%d bytes=%v", l.rows, l.cols, l.bytes) }
func (l *lwe128) repetitions() int { return 1 }
func (l *lwe128) bound() uint32    { return l.params.B }
func (l *lwe128) setServer(cells []byte) {
	l.s = server.NewLWE128(&database.LWE128{Matrix: cellsMatrix(l.rows, l.cols, cells),
		Info: database.Info{NumRows: l.rows, NumColumns: l.cols, BlockSize: 1}})
}
func (l *lwe128) query(i int) (err error) {
	if l.bytes {
		l.qb, err = l.cl.QueryBytes(i)
	} else {
		l.q = l.cl.Query(i/l.cols, i%l.cols)
	}
	return
}
func (l *lwe128) answer() (err error) {
	if l.bytes {
		l.ab, err = l.s.AnswerBytes(l.qb)
	} else {
		l.a = l.s.Answer(l.q)
	}
	return
}
func (l *lwe128) tamper(rep, col int, v int64, top bool) {
	m := l.a
	if l.bytes {
		m = matrix.BytesToMatrix128(l.ab)
	}
	d := uint128.From64(uint64(v))
	if v < 0 {
		d = uint128.Zero.SubWrap(uint128.From64(uint64(-v)))
	}
	if top {
		d = d.Lsh(120)
	}
	m.Set(0, col, m.Get(0, col).AddWrap(d))
	if l.bytes {
		l.ab = matrix.Matrix128ToBytes(m)
	}
}
func (l *lwe128) reconstruct() (uint32, error) {
	if l.bytes {
		return l.cl.ReconstructBytes(l.ab)
	}
	return l.cl.Reconstruct(l.a)
}

type amplified struct {
	rows, cols, t int
	params        *utils.ParamsLWE
	cl            *client.Amplify
	s             *server.Amplify
	bytes         bool
	q, a          []*matrix.Matrix
	qb, ab        []byte
}

func newAmplified(rnd io.Reader, rows, cols, t int, cells []byte, bytes bool) *amplified {
	db := lweDB(rows, cols, cells)
	l := &amplified{rows: rows, cols: cols, t: t, bytes: bytes, params: utils.ParamsWithDatabaseSize(rows, cols)}
	l.cl = client.NewAmplify(rnd, &db.Info, l.params, t)
	l.s = server.NewAmplify(db)
	return l
}
func (l *amplified) name() string {
	return fmt.Sprintf("amplified t=%d %dx%d bytes=%v", l.t, l.rows, l.cols, l.bytes)
}
func (l *amplified) repetitions() int { return 2*l.t + 1 }
func (l *amplified) bound() uint32    { return l.params.B }
func (l *amplified) setServer(cells []byte) {
	l.s = server.NewAmplify(&database.LWE{Matrix: cellsMatrix(l.rows, l.cols, cells),
		Info: database.Info{NumRows: l.rows, NumColumns: l.cols, BlockSize: 1}})
}
func (l *amplified) query(i int) (err error) {
	if l.bytes {
		l.qb, err = l.cl.QueryBytes(i)
	} else {
		l.q = l.cl.Query(i/l.cols, i%l.cols)
	}
	return
}
func (l *amplified) answer() (err error) {
	if l.bytes {
		l.ab, err = l.s.AnswerBytes(l.qb)
	} else {
		l.a = l.s.Answer(l.q)
	}
	return
}
func (l *amplified) tamper(rep, col int, v int64, top bool) {
	m := l.a
	if l.bytes {
		m = matrix.BytesToMatrices(l.ab)
	}
	tamper32(m[rep], col, v, top)
	if l.bytes {
		l.ab = matrix.MatricesToBytes(m)
	}
}
func (l *amplified) reconstruct() (uint32, error) {
	if l.bytes {
		return l.cl.ReconstructBytes(l.ab)
	}
	return l.cl.Reconstruct(l.a)
}

// newLattice makes a scheme by its name.
func newLattice(kind string, rnd io.Reader, rows, cols int, cells []byte, bytes bool) latticeScheme {
	switch kind {
	case "lwe":
		return newLWE32(rnd, rows, cols, cells, bytes)
	case "lwe128":
		return newLWE128(rnd, rows, cols, cells, bytes)
	case "amplify0":
		return newAmplified(rnd, rows, cols, 0, cells, bytes)
	case "amplify1":
		return newAmplified(rnd, rows, cols, 1, cells, bytes)
	case "amplify3":
		return newAmplified(rnd, rows, cols, 3, cells, bytes)
	case "amplify130": // more repetitions than a byte counts
		return newAmplified(rnd, rows, cols, 130, cells, bytes)
	}
	panic(kind)
}

func randomCells(c *C, n int, kind string) []byte {
	cells := make([]byte, n)
	for i := range cells {
		switch kind {
		case "random":
			cells[i] = byte(c.R.Intn(2))
		case "ones":
			cells[i] = 1
		case "sparse":
			if c.R.Intn(8) == 0 {
				cells[i] = 1
			}
		case "dense":
			if c.R.Intn(8) != 0 {
				cells[i] = 1
			}
		}
	}
	return cells
}

// smallFirst delivers small numbers the first times that a few bytes are asked
// for, then random bytes.
type smallFirst struct {
	src   io.Reader
	times int
	val   byte
	hits  int
}

func (s *smallFirst) Read(p []byte) (int, error) {
	n, err := s.src.Read(p)
	if len(p) <= 16 && s.times > 0 {
		s.times--
		s.hits++
		for i := range p {
			p[i] = 0
		}
		p[0] = s.val
		if s.val == 0xff {
			// close to the modulus
			for i := range p {
				p[i] = 0xff
			}
			p[0] = byte(256 - 20)
		}
	}
	return n, err
}

func init() {
	register("C04", &propDef{
		rule:     "a scheme (32-bit, 128-bit, amplified with 1, 3 and 7 repetitions), an interface (in memory, encoded), a shape, a content (all zero, all one, sparse, dense, random), a source of randomness and every position (or a sample in large shapes), several times with one client; an evaluation is one lookup compared with the stored bit; distinct by scheme, shape, content and position",
		assume:   []string{"the noise exceeds 12 standard deviations with negligible probability"},
		minEvals: 1000,
		build:    buildC04,
	})
	register("C05", &propDef{
		rule:     "a scheme, a shape, a requested position and a cell in which the server's database differs from the digested one (all pairs for small shapes, several cells and whole databases for others), or an addition to a column of an answer beyond the noise bound; an evaluation is one reconstruction, which has to be an error, and never the wrong bit; an unexpected acceptance is repeated eight times with fresh randomness, and is a violation if it comes back or if acceptances are more frequent than the soundness error of the scheme allows; distinct by scheme, shape, position and alteration",
		assume:   []string{"soundness error of a 32-bit modulus: about 4B/2^32 for an altered cell, with B the noise bound"},
		minEvals: 2000,
		build:    buildC05,
	})
}

var latticeKinds = []string{"lwe", "lwe128", "amplify0", "amplify1", "amplify3"}

func buildC04(t *T) {
	run := func(c *C, l latticeScheme, cells []byte, maxPos, again int) {
		pos := positions(c.R, len(cells), maxPos)
		c.R.Shuffle(len(pos), func(a, b int) { pos[a], pos[b] = pos[b], pos[a] })
		for i := 0; i < again; i++ {
			pos = append(pos, pos[c.R.Intn(len(pos))])
		}
		for _, i := range pos {
			if c.R.Intn(8) == 0 {
				c.Must(l.query(c.R.Intn(len(cells))), "query") // given up
			}
			c.Must(l.query(i), "query")
			c.Must(l.answer(), "answer")
			v, err := l.reconstruct()
			if err != nil {
				c.Failf("%s: lookup of %d: %v", l.name(), i, err)
			}
			if v != uint32(cells[i]) {
				c.Failf("%s: lookup of %d returned %d instead of %d", l.name(), i, v, cells[i])
			}
			c.Evalf("%s/%d", l.name(), i)
			c.Obs("bits_returned", 1)
		}
	}
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 9}, {9, 1}, {3, 5}, {5, 3}, {8, 8}, {16, 16}, {1, 64}, {64, 1}, {7, 33}, {33, 7}, {40, 40}}
	// larger ones, with fewer lookups
	for _, sh := range [][2]int{{257, 33}, {31, 260}, {1, 2051}, {1029, 2}, {130, 129}, {512, 64}} {
		sh := sh
		for _, kind := range latticeKinds {
			kind := kind
			if kind == "lwe128" && sh[0]*sh[1] > 9000 && !t.Thorough {
				continue
			}
			t.Addf(func(c *C) {
				cells := randomCells(c, sh[0]*sh[1], "random")
				max, again := 12, 2
				if kind == "lwe128" {
					max, again = 4, 1
				}
				run(c, newLattice(kind, detReader{c.R}, sh[0], sh[1], cells, true), cells, max, again)
			}, "larger/%s/%dx%d", kind, sh[0], sh[1])
		}
	}
	for _, big := range []struct {
		kind       string
		rows, cols int
	}{{"lwe", 1, 66001}, {"lwe", 5003, 1}, {"lwe", 70, 5003}, {"lwe128", 1, 5003}, {"lwe128", 2051, 2}, {"lwe", 66001, 1}, {"amplify0", 1, 5003},
		{"amplify130", 2, 3}, {"amplify130", 1, 1}, {"amplify130", 5, 40}} {
		big := big
		if big.rows > 10000 && !t.Thorough {
			continue
		}
		t.Addf(func(c *C) {
			cells := randomCells(c, big.rows*big.cols, "random")
			run(c, newLattice(big.kind, detReader{c.R}, big.rows, big.cols, cells, true), cells, 15, 1)
		}, "bulky/%s/%dx%d", big.kind, big.rows, big.cols)
	}
	if t.Thorough {
		shapes = append(shapes, [2]int{128, 128}, [2]int{1, 4096}, [2]int{1024, 1}, [2]int{300, 17}, [2]int{512, 512})
	}
	contents := []string{"random", "zeros", "ones", "sparse", "dense"}
	for si, sh := range shapes {
		sh := sh
		for ki, kind := range latticeKinds {
			kind := kind
			for bi, enc := range []bool{false, true} {
				enc := enc
				for x, content := range contents {
					content := content
					if !t.Thorough && x > 0 && (si+ki+bi+x)%4 != 0 && si > 3 {
						continue
					}
					max, again := 64, 8
					if kind == "lwe128" {
						max, again = 12, 2
					}
					if kind == "amplify3" {
						max = 16
					}
					if sh[0] >= 128 {
						max = 8
					}
					if t.Thorough {
						max *= 4
					}
					t.Addf(func(c *C) {
						cells := randomCells(c, sh[0]*sh[1], content)
						run(c, newLattice(kind, detReader{c.R}, sh[0], sh[1], cells, enc), cells, max, again)
					}, "%s/%dx%d/%s/bytes=%v", kind, sh[0], sh[1], content, enc)
				}
			}
		}
	}
	// the databases of the library
	for i := 0; i < t.N(10, 100); i++ {
		t.Addf(func(c *C) {
			n := 1 + c.R.Intn(900)
			rnd := detReader{c.R}
			check := func(rows, cols int, get func(r, c int) byte, lookup func(i int) (uint32, error)) {
				c.Check(rows*cols >= n, "a database of %d cells for %d", rows*cols, n)
				for _, i := range positions(c.R, rows*cols, 10) {
					v, err := lookup(i)
					c.Must(err, "lookup")
					c.Check(v == uint32(get(i/cols, i%cols)), "lookup of %d in %dx%d", i, rows, cols)
					c.Evalf("generated/%d/%d", n, i)
				}
			}
			db := database.CreateRandomBinaryLWEWithLength(rnd, n)
			cl := client.NewLWE(rnd, &db.Info, utils.ParamsWithDatabaseSize(db.NumRows, db.NumColumns))
			s := server.NewLWE(db)
			check(db.NumRows, db.NumColumns, db.Matrix.Get, func(i int) (uint32, error) {
				q, err := cl.QueryBytes(i)
				c.Must(err, "query")
				a, err := s.AnswerBytes(q)
				c.Must(err, "answer")
				return cl.ReconstructBytes(a)
			})
			db1 := database.CreateRandomBinaryLWEWithLength128(rnd, n)
			cl1 := client.NewLWE128(rnd, &db1.Info, utils.ParamsWithDatabaseSize128(db1.NumRows, db1.NumColumns))
			s1 := server.NewLWE128(db1)
			check(db1.NumRows, db1.NumColumns, db1.Matrix.Get, func(i int) (uint32, error) {
				q, err := cl1.QueryBytes(i)
				c.Must(err, "query")
				a, err := s1.AnswerBytes(q)
				c.Must(err, "answer")
				return cl1.ReconstructBytes(a)
			})
		}, "generated/%d", i)
	}
	// sources of randomness that deliver small numbers, or few bytes at a time
	for _, kind := range []string{"lwe", "lwe128", "amplify1"} {
		kind := kind
		for _, val := range []byte{0, 1, 2, 83, 84, 200, 0xff} {
			val := val
			t.Addf(func(c *C) {
				for _, sh := range [][2]int{{1, 1}, {2, 3}, {6, 4}} {
					cells := randomCells(c, sh[0]*sh[1], "ones")
					cells[0] = 0
					if sh[0] == 1 {
						cells[0] = 1
					}
					for _, times := range []int{1, 3, 10} {
						for _, i := range positions(c.R, len(cells), 4) {
							r := &smallFirst{src: detReader{c.R}, times: times, val: val}
							run1(c, newLattice(kind, r, sh[0], sh[1], cells, true), cells, i)
							c.Obs("small_numbers_delivered", r.hits)
						}
					}
				}
			}, "small/%s/%d", kind, val)
		}
		t.Addf(func(c *C) {
			cells := randomCells(c, 30, "random")
			for _, max := range []int{1, 5, 1000} {
				run(c, newLattice(kind, &shortReader{detReader{c.R}, c.R, max}, 5, 6, cells, true), cells, 8, 2)
			}
		}, "slow/%s", kind)
	}
	// positions outside the database are refused
	t.Addf(func(c *C) {
		for _, kind := range latticeKinds {
			for _, sh := range [][2]int{{1, 1}, {3, 4}} {
				cells := randomCells(c, sh[0]*sh[1], "random")
				n := len(cells)
				for _, i := range []int{n, n + 1, -1, math.MinInt32, math.MaxInt32} {
					l := newLattice(kind, detReader{c.R}, sh[0], sh[1], cells, true)
					if err := l.query(i); err == nil {
						c.Failf("%s: position %d was not refused", l.name(), i)
					}
					c.Evalf("outside/%s/%d/%d", kind, n, i)
					c.Obs("refusals", 1)
					run1(c, l, cells, 0)
				}
			}
		}
	}, "refusals")
}

func run1(c *C, l latticeScheme, cells []byte, i int) {
	c.Must(l.query(i), "query")
	c.Must(l.answer(), "answer")
	v, err := l.reconstruct()
	c.Must(err, l.name()+": lookup")
	c.Check(v == uint32(cells[i]), "%s: lookup of %d returned %d instead of %d", l.name(), i, v, cells[i])
	c.Evalf("%s/%d", l.name(), i)
}

func buildC05(t *T) {
	// attack runs one alteration; it returns whether the client accepted
	type alteration func(l latticeScheme) // after the honest answer
	try := func(c *C, l latticeScheme, cells []byte, i int, f alteration, what string) bool {
		c.Must(l.query(i), "query")
		c.Must(l.answer(), "answer")
		if f != nil {
			f(l)
		}
		v, err := l.reconstruct()
		c.Evalf("%s/%d/%s", l.name(), i, what)
		if err != nil {
			c.Obs("rejections", 1)
			return false
		}
		c.Obs("acceptances", 1)
		_ = v
		return true
	}
	mustReject := func(c *C, l latticeScheme, cells []byte, i int, f alteration, what string) {
		if !try(c, l, cells, i, f, what) {
			return
		}
		again := 0
		for x := 0; x < 8; x++ {
			if try(c, l, cells, i, f, fmt.Sprintf("%s again %d", what, x)) {
				again++
			}
		}
		if again >= 1 {
			c.Failf("%s: position %d, %s: accepted %d times out of 9", l.name(), i, what, again+1)
		}
	}
	changed := func(cells []byte, at ...int) []byte {
		d := append([]byte{}, cells...)
		for _, x := range at {
			d[x] ^= 1
		}
		return d
	}
	// the whole product of cells and positions
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 6}, {6, 1}, {3, 4}, {4, 3}, {5, 5}}
	for _, sh := range shapes {
		sh := sh
		for _, kind := range latticeKinds {
			kind := kind
			for _, content := range []string{"random", "zeros", "ones"} {
				content := content
				if (kind == "lwe128" || kind == "amplify3") && content != "random" && sh[0]*sh[1] > 6 && !t.Thorough {
					continue
				}
				t.Addf(func(c *C) {
					n := sh[0] * sh[1]
					cells := randomCells(c, n, content)
					l := newLattice(kind, detReader{c.R}, sh[0], sh[1], cells, c.R.Intn(2) == 0)
					for x := 0; x < n; x++ {
						l.setServer(changed(cells, x))
						for i := 0; i < n; i++ {
							mustReject(c, l, cells, i, nil, fmt.Sprintf("cell %d altered", x))
						}
					}
					// and the honest database is accepted by the same client
					l.setServer(cells)
					for i := 0; i < n; i++ {
						run1(c, l, cells, i)
					}
				}, "cells/%s/%dx%d/%s", kind, sh[0], sh[1], content)
			}
		}
	}
	// larger shapes, several cells, other databases
	for _, sh := range [][2]int{{8, 8}, {1, 40}, {40, 1}, {16, 16}, {3, 50}, {257, 33}, {9, 519}, {1030, 3}, {130, 67}} {
		sh := sh
		for _, kind := range []string{"lwe", "lwe128", "amplify1"} {
			kind := kind
			t.Addf(func(c *C) {
				n := sh[0] * sh[1]
				cells := randomCells(c, n, "random")
				l := newLattice(kind, detReader{c.R}, sh[0], sh[1], cells, true)
				reps := t.N(150, 3000)
				if kind == "lwe128" {
					reps = t.N(30, 500)
				}
				if n > 3000 { // each altered database is digested again
					reps = t.N(16, 300)
					if kind == "lwe128" {
						reps = t.N(8, 40)
					}
				}
				for rep := 0; rep < reps; rep++ {
					i := c.R.Intn(n)
					var at []int
					switch rep % 8 {
					case 0:
						at = []int{i}
					case 1: // another column
						at = []int{i/sh[1]*sh[1] + (i%sh[1]+1)%sh[1]}
					case 2: // another row
						at = []int{(i + sh[1]) % n}
					case 3:
						at = []int{c.R.Intn(n)}
					case 4: // two cells, the noise may not cancel
						a := c.R.Intn(n)
						at = []int{a, (a + 1) % n}
					case 5: // a row
						for x := 0; x < sh[1]; x++ {
							at = append(at, i/sh[1]*sh[1]+x)
						}
					case 6: // a column
						for x := 0; x < sh[0]; x++ {
							at = append(at, x*sh[1]+i%sh[1])
						}
					case 7:
						for x := 0; x < n; x++ {
							if c.R.Intn(2) == 0 {
								at = append(at, x)
							}
						}
						if len(at) == 0 {
							at = []int{0}
						}
					}
					l.setServer(changed(cells, at...))
					mustReject(c, l, cells, i, nil, fmt.Sprintf("%d cells from %d altered, %d", len(at), at[0], rep))
				}
				l.setServer(cells)
				run1(c, l, cells, c.R.Intn(n))
			}, "databases/%s/%dx%d", kind, sh[0], sh[1])
		}
	}
	// answers altered beyond the bound on the noise, in any column and
	// repetition, whatever the position requested
	for _, sh := range [][2]int{{16, 1}, {16, 5}, {25, 4}} {
		sh := sh
		for _, kind := range latticeKinds {
			kind := kind
			t.Addf(func(c *C) {
				n := sh[0] * sh[1]
				cells := randomCells(c, n, "random")
				for _, enc := range []bool{false, true} {
					l := newLattice(kind, detReader{c.R}, sh[0], sh[1], cells, enc)
					b := int64(l.bound())
					type add struct {
						v   int64
						top bool
					}
					adds := []add{{b + b/4 + 40, false}, {-(b + b/4 + 40), false}, {2 * b, false}, {-2 * b, false},
						{3 * b, false}, {10 * b, false}, {1 << 20, false}, {-(1 << 20), false}, {1 << 28, false},
						{1, true}, {64, true}, {128, true}, {255, true}}
					for _, a := range adds {
						a := a
						for col := 0; col < sh[1]; col++ {
							for rep := 0; rep < l.repetitions(); rep++ {
								rep, col := rep, col
								i := c.R.Intn(n)
								if rep+col > 0 && kind == "lwe128" && !t.Thorough && c.R.Intn(3) != 0 {
									continue
								}
								mustReject(c, l, cells, i, func(l latticeScheme) { l.tamper(rep, col, a.v, a.top) },
									fmt.Sprintf("%d added to column %d of repetition %d (top %v)", a.v, col, rep, a.top))
							}
						}
					}
					// tiny additions do not change the bit
					for rep := 0; rep < 20; rep++ {
						i, col := c.R.Intn(n), c.R.Intn(sh[1])
						c.Must(l.query(i), "query")
						c.Must(l.answer(), "answer")
						l.tamper(c.R.Intn(l.repetitions()), col, int64(c.R.Intn(9)-4), false)
						v, err := l.reconstruct()
						if err == nil && v != uint32(cells[i]) {
							c.Failf("%s: an answer altered by less than the noise gives %d", l.name(), v)
						}
						c.Evalf("tiny/%s/%d", l.name(), rep)
					}
					// random additions: a bit, if any, is the digested one
					for rep := 0; rep < t.N(30, 1000); rep++ {
						i, col := c.R.Intn(n), c.R.Intn(sh[1])
						v := c.R.Int63n(1<<40) - 1<<39
						mustNotLie(c, l, cells, i, col, v)
					}
				}
			}, "answers/%s/%dx%d", kind, sh[0], sh[1])
		}
	}
	// the same with many columns, rows or repetitions, near the ends and
	// beyond what a byte counts
	for _, big := range []struct {
		kind       string
		rows, cols int
	}{{"lwe", 16, 5003}, {"lwe", 2, 1500}, {"lwe", 4999, 3}, {"lwe128", 16, 1030}, {"lwe128", 1030, 2}, {"amplify1", 16, 2051}, {"amplify130", 16, 3}} {
		big := big
		t.Addf(func(c *C) {
			n := big.rows * big.cols
			cells := randomCells(c, n, "random")
			l := newLattice(big.kind, detReader{c.R}, big.rows, big.cols, cells, true)
			pick := func(n, k int) int {
				switch k % 4 {
				case 0:
					return n - 1
				case 1:
					return n/2 + c.R.Intn(n-n/2)
				case 2:
					return n - 1 - n/16
				}
				return c.R.Intn(n)
			}
			b := int64(l.bound())
			for rep := 0; rep < t.N(16, 200); rep++ {
				rep := rep
				col, x := pick(big.cols, rep), pick(l.repetitions(), rep/4)
				a := []int64{10 * b, -10 * b, 1 << 24, 1 << 28}[c.R.Intn(4)]
				i := []int{0, n - 1, col, c.R.Intn(n), n/big.cols/2*big.cols + col}[c.R.Intn(5)] % n
				mustReject(c, l, cells, i, func(l latticeScheme) { l.tamper(x, col, a, false) },
					fmt.Sprintf("%d added to column %d of repetition %d, case %d", a, col, x, rep))
			}
			// every column where something may be full
			for x := 1; x <= big.cols; x *= 2 {
				for col := x - 1; col <= x+1 && col < big.cols; col++ {
					if x > 4 && (x < 256 || big.kind == "lwe128" && col != x && !t.Thorough) {
						continue
					}
					col := col
					mustReject(c, l, cells, c.R.Intn(n), func(l latticeScheme) { l.tamper(c.R.Intn(l.repetitions()), col, 1<<24, false) },
						fmt.Sprintf("added to column %d", col))
				}
			}
			for rep := 0; rep < t.N(10, 60); rep++ {
				row, col := pick(big.rows, rep), pick(big.cols, rep/2)
				if k := 1 << uint(c.R.Intn(13)); rep%3 == 0 && k < big.rows {
					row = k
				}
				x := row*big.cols + col
				l.setServer(changed(cells, x))
				i := []int{0, n - 1, col, c.R.Intn(n), x}[rep%5]
				mustReject(c, l, cells, i, nil, fmt.Sprintf("cell %d altered, case %d", x, rep))
			}
			l.setServer(cells)
			run1(c, l, cells, c.R.Intn(n))
		}, "bulky/%s/%dx%d", big.kind, big.rows, big.cols)
	}
	// answers of another query, or of another database, replayed
	for _, kind := range latticeKinds {
		kind := kind
		t.Addf(func(c *C) {
			cells := randomCells(c, 12, "random")
			l := newLattice(kind, detReader{c.R}, 3, 4, cells, true)
			for rep := 0; rep < t.N(10, 100); rep++ {
				i := c.R.Intn(12)
				c.Must(l.query(c.R.Intn(12)), "query")
				c.Must(l.answer(), "answer")
				c.Must(l.query(i), "query") // the answer is to the query before
				if v, err := l.reconstruct(); err == nil {
					// once in a billion
					c.Must(l.query(c.R.Intn(12)), "query")
					c.Must(l.answer(), "answer")
					c.Must(l.query(i), "query")
					if _, err := l.reconstruct(); err == nil {
						c.Failf("%s: the answer to another query is accepted and gives %d", l.name(), v)
					}
				}
				c.Evalf("replay/%d", rep)
			}
		}, "replay/%s", kind)
	}
	// frequency of acceptances
	t.Addf(func(c *C) {
		rows, cols := 12, 12
		n := rows * cols
		cells := randomCells(c, n, "random")
		l := newLattice("lwe", detReader{c.R}, rows, cols, cells, false)
		reps := t.N(6000, 200000)
		acc := 0
		for rep := 0; rep < reps; rep++ {
			if rep%50 == 0 {
				l.setServer(changed(cells, c.R.Intn(n)))
			}
			if try(c, l, cells, c.R.Intn(n), nil, fmt.Sprintf("frequency %d", rep)) {
				acc++
			}
		}
		expected := float64(reps) * 4 * float64(l.bound()) / (1 << 32)
		if float64(acc) > 3+10*expected {
			c.Failf("%s: %d of %d answers from an altered database are accepted, %.3f expected", l.name(), acc, reps, expected)
		}
	}, "frequency")
}

// mustNotLie checks that an altered answer does not give the wrong bit.
func mustNotLie(c *C, l latticeScheme, cells []byte, i, col int, v int64) {
	lies := 0
	for x := 0; x < 4; x++ {
		c.Must(l.query(i), "query")
		c.Must(l.answer(), "answer")
		l.tamper(c.R.Intn(l.repetitions()), col, v, x%2 == 1)
		got, err := l.reconstruct()
		c.Evalf("lie/%s/%d/%d/%d/%d", l.name(), i, col, v, x)
		if err == nil && got != uint32(cells[i]) {
			lies++
			continue
		}
		return
	}
	c.Failf("%s: adding %d to column %d makes the client return the wrong bit (%d times)", l.name(), v, col, lies)
}
