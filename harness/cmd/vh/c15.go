package main

import (
	"encoding/binary"
	"fmt"
	"io"
	mrand "math/rand"

	"github.com/si-co/vpir-code/lib/matrix"
	"lukechampine.com/uint128"
)

func init() {
	register("C15", &propDef{
		rule:     "an operation (product, product by a binary matrix, sum, difference, element access, random generation) over one of the moduli, a shape (every shape with dimensions of up to 6 including empty ones, random ones of up to 70, a few large and thin ones) and a content (random, largest elements, powers of two, sparse), also with operands that were decoded from bytes or are the same object, compared with schoolbook arithmetic; operands that do not fit have to be refused; everything again under the address sanitizer. An evaluation is one result compared or one refusal; distinct by operation, shape and content",
		variants: []string{"", "asan"},
		minEvals: 20000,
		build:    buildC15,
	})
}

func rndMatrix(c *C, r, cols int) *matrix.Matrix {
	m := matrix.New(r, cols)
	kind := c.R.Intn(5)
	for i := 0; i < r; i++ {
		for j := 0; j < cols; j++ {
			var v uint32
			switch kind {
			case 0:
				v = 1<<32 - 1 - uint32(c.R.Intn(3))
			case 1:
				v = 1 << uint(c.R.Intn(32))
			case 2:
				v = uint32(c.R.Intn(3))
			default:
				v = c.R.Uint32()
			}
			m.Set(i, j, v)
		}
	}
	if c.R.Intn(2) == 0 {
		m = matrix.BytesToMatrix(matrix.MatrixToBytes(m))
		c.Check(m != nil, "a matrix of %dx%d does not decode", r, cols)
	}
	return m
}

func rnd128(c *C) uint128.Uint128 {
	switch c.R.Intn(5) {
	case 0:
		return uint128.Max
	case 1:
		return uint128.New(1, 0).Lsh(uint(c.R.Intn(128)))
	case 2:
		return uint128.From64(uint64(c.R.Intn(3)))
	}
	return uint128.New(c.R.Uint64(), c.R.Uint64())
}

func rndMatrix128(c *C, r, cols int) *matrix.Matrix128 {
	m := matrix.New128(r, cols)
	for i := 0; i < r; i++ {
		for j := 0; j < cols; j++ {
			m.Set(i, j, rnd128(c))
		}
	}
	if c.R.Intn(2) == 0 {
		m = matrix.BytesToMatrix128(matrix.Matrix128ToBytes(m))
		c.Check(m != nil, "a matrix of %dx%d does not decode", r, cols)
	}
	return m
}

func rndBinary(c *C, r, cols int) *matrix.MatrixBytes {
	m := matrix.NewBytes(r, cols)
	c.Check(m.Len() == r*cols, "a matrix of %dx%d has %d elements", r, cols, m.Len())
	kind := c.R.Intn(4)
	for i := 0; i < r*cols; i++ {
		switch kind {
		case 0:
			m.SetData(i, 1)
		case 1:
		default:
			m.SetData(i, byte(c.R.Intn(2)))
		}
	}
	return m
}

func dims(c *C, what string, m interface{ Rows() int }, r, cols, gotCols int) {
	c.Check(m.Rows() == r && gotCols == cols, "%s: a matrix of %dx%d instead of %dx%d", what, m.Rows(), gotCols, r, cols)
}

func buildC15(t *T) {
	type shape struct{ a, b, d int }
	// all the operations on matrices of a*b and b*d
	all := func(c *C, s shape, again int) {
		name := fmt.Sprintf("%dx%d by %dx%d", s.a, s.b, s.b, s.d)
		for r := 0; r < again; r++ {
			a, b, bin := rndMatrix(c, s.a, s.b), rndMatrix(c, s.b, s.d), rndBinary(c, s.b, s.d)
			ea, eb := string(matrix.MatrixToBytes(a)), string(matrix.MatrixToBytes(b))
			m := matrix.Mul(a, b)
			bm := matrix.BinaryMul(a, bin)
			dims(c, name, m, s.a, s.d, m.Cols())
			dims(c, name, bm, s.a, s.d, bm.Cols())
			c.Check(m.Len() == s.a*s.d && bm.Len() == s.a*s.d, "%s: %d and %d elements", name, m.Len(), bm.Len())
			for i := 0; i < s.a; i++ {
				for j := 0; j < s.d; j++ {
					var x, y uint32
					for k := 0; k < s.b; k++ {
						x += a.Get(i, k) * b.Get(k, j)
						if bin.Get(k, j) == 1 {
							y += a.Get(i, k)
						}
					}
					c.Check(m.Get(i, j) == x, "%s: element %d,%d of the product is %d instead of %d", name, i, j, m.Get(i, j), x)
					c.Check(bm.Get(i, j) == y, "%s: element %d,%d of the product by a binary matrix is %d instead of %d", name, i, j, bm.Get(i, j), y)
				}
			}
			c.Check(ea == string(matrix.MatrixToBytes(a)) && eb == string(matrix.MatrixToBytes(b)), "%s: a product modifies its operands", name)
			c.Evalf("products/%s/%d", name, r)
			// sums and differences
			x, y := rndMatrix(c, s.a, s.b), rndMatrix(c, s.a, s.b)
			ex, ey := matrix.BytesToMatrix(matrix.MatrixToBytes(x)), string(matrix.MatrixToBytes(y))
			if r%3 == 2 {
				y = x
			}
			x.Add(y)
			for i := 0; i < s.a; i++ {
				for j := 0; j < s.b; j++ {
					w := ex.Get(i, j)
					if r%3 == 2 {
						w += ex.Get(i, j)
					} else {
						w += y.Get(i, j)
					}
					c.Check(x.Get(i, j) == w, "%s: element %d,%d of the sum is %d instead of %d", name, i, j, x.Get(i, j), w)
				}
			}
			if r%3 != 2 {
				c.Check(ey == string(matrix.MatrixToBytes(y)), "%s: a sum modifies its second operand", name)
				x.Sub(y)
				c.Check(string(matrix.MatrixToBytes(x)) == string(matrix.MatrixToBytes(ex)), "%s: subtracting does not undo adding", name)
				z := matrix.New(s.a, s.b)
				z.Sub(ex)
				for i := 0; i < s.a; i++ {
					for j := 0; j < s.b; j++ {
						c.Check(z.Get(i, j) == -ex.Get(i, j), "%s: element %d,%d of the difference", name, i, j)
					}
				}
			}
			c.Evalf("sums/%s/%d", name, r)

			A, B := rndMatrix128(c, s.a, s.b), rndMatrix128(c, s.b, s.d)
			eA, eB := string(matrix.Matrix128ToBytes(A)), string(matrix.Matrix128ToBytes(B))
			M, BM := matrix.Mul128(A, B), matrix.BinaryMul128(A, bin)
			dims(c, name, M, s.a, s.d, M.Cols())
			dims(c, name, BM, s.a, s.d, BM.Cols())
			for i := 0; i < s.a; i++ {
				for j := 0; j < s.d; j++ {
					var x, y uint128.Uint128
					for k := 0; k < s.b; k++ {
						x = x.AddWrap(A.Get(i, k).MulWrap(B.Get(k, j)))
						if bin.Get(k, j) == 1 {
							y = y.AddWrap(A.Get(i, k))
						}
					}
					c.Check(M.Get(i, j) == x, "%s: element %d,%d of the product of 128 bits is %v instead of %v", name, i, j, M.Get(i, j), x)
					c.Check(BM.Get(i, j) == y, "%s: element %d,%d of the product of 128 bits by a binary matrix is %v instead of %v", name, i, j, BM.Get(i, j), y)
				}
			}
			c.Check(eA == string(matrix.Matrix128ToBytes(A)) && eB == string(matrix.Matrix128ToBytes(B)), "%s: a product modifies its operands", name)
			X, Y := rndMatrix128(c, s.a, s.b), rndMatrix128(c, s.a, s.b)
			eX := matrix.BytesToMatrix128(matrix.Matrix128ToBytes(X))
			X.Add(Y)
			for i := 0; i < s.a; i++ {
				for j := 0; j < s.b; j++ {
					c.Check(X.Get(i, j) == eX.Get(i, j).AddWrap(Y.Get(i, j)), "%s: element %d,%d of the sum of 128 bits", name, i, j)
				}
			}
			X.Sub(Y)
			X.Sub(Y)
			for i := 0; i < s.a; i++ {
				for j := 0; j < s.b; j++ {
					c.Check(X.Get(i, j) == eX.Get(i, j).SubWrap(Y.Get(i, j)), "%s: element %d,%d of the difference of 128 bits", name, i, j)
				}
			}
			c.Check(a.BytesSize() == float64(4*s.a*s.b) && A.BytesSize() == float64(16*s.a*s.b), "%s: sizes of %v and %v bytes", name, a.BytesSize(), A.BytesSize())
			c.Evalf("128/%s/%d", name, r)
			c.Obs("operations", 8)
		}
	}
	for a := 0; a <= 6; a++ {
		a := a
		t.Addf(func(c *C) {
			for b := 0; b <= 6; b++ {
				for d := 0; d <= 6; d++ {
					all(c, shape{a, b, d}, t.N(3, 40))
				}
			}
		}, "small/%d", a)
	}
	for i := 0; i < t.N(60, 1500); i++ {
		t.Addf(func(c *C) {
			all(c, shape{1 + c.R.Intn(70), 1 + c.R.Intn(70), 1 + c.R.Intn(70)}, 2)
		}, "medium/%d", i)
	}
	for _, s := range []shape{{1, 1100, 64}, {1, 4800, 7}, {1, 3, 5000}, {1000, 2, 3}, {1, 513, 513}, {2, 2049, 1}, {129, 1, 129}, {31, 33, 1025}, {1, 70000, 1}, {1, 2, 70001}, {70001, 2, 1}, {2, 3, 66000}, {66000, 3, 2}, {1, 1, 131079}, {263, 2, 263}} {
		s := s
		t.Addf(func(c *C) { all(c, s, 3) }, "large/%dx%dx%d", s.a, s.b, s.d)
	}
	bulky := []shape{{131, 300, 150}, {513, 257, 33}, {64, 1024, 129}, {1, 9001, 201}, {300, 7, 2051}, {1, 1024, 1501}, {1031, 65, 67}}
	if t.Thorough {
		bulky = append(bulky, shape{1024, 1024, 512}, shape{700, 2049, 130}, shape{1, 4800, 20001}, shape{5000, 513, 33}, shape{1, 1 << 20, 33})
	}
	for _, s := range bulky {
		s := s
		t.Addf(func(c *C) { all(c, s, 1) }, "bulky/%dx%dx%d", s.a, s.b, s.d)
	}
	// operands that do not fit
	t.Addf(func(c *C) {
		for i := 0; i < t.N(3000, 30000); i++ {
			r := func() int { return c.R.Intn(9) }
			a, b, d, e := r(), r(), r(), r()
			A, B := matrix.New(a, b), matrix.New(d, e)
			A2, B2 := matrix.New128(a, b), matrix.New128(d, e)
			bin := matrix.NewBytes(d, e)
			ops := map[string]func(){}
			if b != d {
				ops["product"] = func() { matrix.Mul(A, B) }
				ops["product by a binary matrix"] = func() { matrix.BinaryMul(A, bin) }
				ops["product of 128 bits"] = func() { matrix.Mul128(A2, B2) }
				ops["product of 128 bits by a binary matrix"] = func() { matrix.BinaryMul128(A2, bin) }
			}
			if a != d || b != e {
				ops["sum"] = func() { A.Add(B) }
				ops["difference"] = func() { A.Sub(B) }
				ops["sum of 128 bits"] = func() { A2.Add(B2) }
				ops["difference of 128 bits"] = func() { A2.Sub(B2) }
			}
			for n, f := range ops {
				c.Check(Panics(f) != nil, "%s of %dx%d and %dx%d is not refused", n, a, b, d, e)
				c.Evalf("%s/%dx%d/%dx%d", n, a, b, d, e)
				c.Obs("refusals", 1)
			}
			// data of the wrong size
			k := c.R.Intn(80)
			p := Panics(func() { matrix.NewWithData(a, b, make([]uint32, k)) })
			c.Check((p == nil) == (k == a*b), "%d elements for %dx%d: %v", k, a, b, p)
		}
	}, "refused")
	// element access
	t.Addf(func(c *C) {
		for i := 0; i < t.N(300, 3000); i++ {
			r, cols := 1+c.R.Intn(12), 1+c.R.Intn(12)
			m, M, mb := matrix.New(r, cols), matrix.New128(r, cols), matrix.NewBytes(r, cols)
			ref := map[[2]int]uint32{}
			for k := 0; k < 60; k++ {
				x, y, v := c.R.Intn(r), c.R.Intn(cols), c.R.Uint32()
				if k%4 == 0 {
					m.SetData(x*cols+y, v)
				} else {
					m.Set(x, y, v)
				}
				M.Set(x, y, uint128.New(uint64(v), ^uint64(v)))
				mb.SetData(x*cols+y, byte(v))
				ref[[2]int{x, y}] = v
			}
			for x := 0; x < r; x++ {
				for y := 0; y < cols; y++ {
					v, set := ref[[2]int{x, y}]
					w := uint128.New(uint64(v), ^uint64(v))
					if !set {
						w = uint128.Zero
					}
					c.Check(m.Get(x, y) == v && M.Get(x, y) == w && mb.Get(x, y) == byte(v), "%dx%d: element %d,%d", r, cols, x, y)
				}
			}
			c.Check(m.Rows() == r && m.Cols() == cols && m.Len() == r*cols && M.Rows() == r && M.Cols() == cols && mb.Len() == r*cols, "dimensions of %dx%d", r, cols)
			c.Evalf("%d", i)
		}
	}, "access")
	// random matrices hold what the source delivers
	t.Addf(func(c *C) {
		for i := 0; i < t.N(200, 2000); i++ {
			r, cols := c.R.Intn(20), c.R.Intn(20)
			if i%10 == 0 {
				r, cols = 1, 1
			}
			if i%40 == 7 {
				r, cols = 1+c.R.Intn(140), 1+c.R.Intn(140)
			}
			if i%100 == 8 {
				r, cols = 1, 17000+c.R.Intn(10000)
			}
			seed := c.R.Int63()
			src := func(short int) io.Reader {
				d := detReader{mrand.New(mrand.NewSource(seed))}
				if short > 0 {
					return &shortReader{src: byteReader{mrand.New(mrand.NewSource(seed))}, r: c.R, max: short}
				}
				return d
			}
			m, n := matrix.NewRandom(byteReader{mrand.New(mrand.NewSource(seed))}, r, cols), matrix.NewRandom(src(1+c.R.Intn(9)), r, cols)
			c.Check(m.Rows() == r && m.Cols() == cols && m.Len() == r*cols, "a random matrix of %dx%d has %d elements and says %dx%d", r, cols, m.Len(), m.Rows(), m.Cols())
			c.Check(len(matrix.MatrixToBytes(m)) == 8+4*r*cols, "a random matrix of %dx%d encodes to %d bytes", r, cols, len(matrix.MatrixToBytes(m)))
			c.Check(string(matrix.MatrixToBytes(m)) == string(matrix.MatrixToBytes(n)), "a random matrix of %dx%d depends on how the source delivers its bytes", r, cols)
			M, N := matrix.NewRandom128(byteReader{mrand.New(mrand.NewSource(seed))}, r, cols), matrix.NewRandom128(src(1+c.R.Intn(9)), r, cols)
			c.Check(M.Rows() == r && M.Cols() == cols && len(matrix.Matrix128ToBytes(M)) == 8+16*r*cols, "a random matrix of 128 bits of %dx%d encodes to %d bytes", r, cols, len(matrix.Matrix128ToBytes(M)))
			c.Check(string(matrix.Matrix128ToBytes(M)) == string(matrix.Matrix128ToBytes(N)), "a random matrix of 128 bits of %dx%d depends on how the source delivers its bytes", r, cols)
			g, G := matrix.NewGauss(r, cols), matrix.NewGauss128(r, cols)
			c.Check(g.Rows() == r && g.Cols() == cols && g.Len() == r*cols && G.Rows() == r && G.Cols() == cols && len(matrix.Matrix128ToBytes(G)) == 8+16*r*cols, "dimensions of noise of %dx%d", r, cols)
			seen := map[uint32]int{}
			for x := 0; x < r; x++ {
				for y := 0; y < cols; y++ {
					seen[m.Get(x, y)]++
				}
			}
			c.Check(len(seen) >= r*cols-20-r*cols/1000, "%d values among %d random elements", len(seen), r*cols)
			c.Evalf("%d", i)
			// a source that fails
			if r*cols > 0 {
				p := Panics(func() { matrix.NewRandom(&failReader{src: src(0), left: 4*r*cols - 1}, r, cols) })
				q := Panics(func() { matrix.NewRandom128(&failReader{src: src(0), left: 16*r*cols - 1}, r, cols) })
				c.Check(p != nil && q != nil, "a source that fails is not noticed (%v, %v)", p, q)
			}
		}
	}, "random")
	t.Addf(func(c *C) {
		lab, lab128 := newLab(c.R, 4*9, 600), newLab(c.R, 16*6, 600)
		for i := 0; i < t.N(3000, 60000); i++ {
			m, M := matrix.NewRandom(detReader{c.R}, 3, 3), matrix.NewRandom128(detReader{c.R}, 2, 3)
			lab.add(matrix.MatrixToBytes(m)[8:])
			lab128.add(matrix.Matrix128ToBytes(M)[8:])
			c.Evalf("%d", i)
		}
		for _, l := range []*bitLab{lab, lab128} {
			if bad := l.judge(false); bad != "" {
				c.Failf("random matrices are not uniform: %s", bad)
			}
		}
	}, "uniform")
	// what decodes is consistent with its dimensions
	t.Addf(func(c *C) {
		for i := 0; i < t.N(20000, 300000); i++ {
			b := make([]byte, c.R.Intn(60))
			if len(b) >= 8 {
				binary.BigEndian.PutUint32(b, pickDim(c))
				binary.BigEndian.PutUint32(b[4:], pickDim(c))
			}
			if i%2 == 0 && len(b) >= 8 { // about right
				r, cols := c.R.Intn(4), c.R.Intn(4)
				b = make([]byte, 8+4*r*cols*(1+3*(i/2%2))+[]int{0, 0, 0, -1, 1, 4, 16, -4}[c.R.Intn(8)])
				if len(b) < 8 {
					b = make([]byte, 8)
				}
				binary.BigEndian.PutUint32(b, uint32(r))
				binary.BigEndian.PutUint32(b[4:], uint32(cols))
			}
			if m := matrix.BytesToMatrix(b); m != nil {
				c.Check(m.Rows()*m.Cols() == m.Len() && m.Len() == (len(b)-8)/4, "%x decodes to a matrix of %dx%d with %d elements", b, m.Rows(), m.Cols(), m.Len())
				c.Obs("decoded", 1)
				if m.Cols() > 100 || m.Rows() > 100 {
					continue // without elements
				}
				one := matrix.NewBytes(m.Cols(), 2)
				matrix.BinaryMul(m, one)
				matrix.Mul(m, matrix.New(m.Cols(), 3))
				m.Add(matrix.New(m.Rows(), m.Cols()))
			}
			if m := matrix.BytesToMatrix128(b); m != nil {
				c.Check(8+16*m.Rows()*m.Cols() == len(b), "%x decodes to a matrix of 128 bits of %dx%d", b, m.Rows(), m.Cols())
				c.Obs("decoded_128", 1)
				if m.Cols() > 100 || m.Rows() > 100 {
					continue
				}
				matrix.BinaryMul128(m, matrix.NewBytes(m.Cols(), 2))
				matrix.Mul128(m, matrix.New128(m.Cols(), 3))
			}
			c.Evalf("%x", b)
		}
	}, "decoded")
}

func pickDim(c *C) uint32 {
	switch c.R.Intn(5) {
	case 0:
		return c.R.Uint32()
	case 1:
		return 1 << uint(c.R.Intn(32))
	case 2:
		return 1<<32 - 1 - uint32(c.R.Intn(4))
	}
	return uint32(c.R.Intn(5))
}

// byteReader delivers the same stream whatever the sizes of the reads.
type byteReader struct{ r *mrand.Rand }

func (b byteReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(b.r.Intn(256))
	}
	return len(p), nil
}
