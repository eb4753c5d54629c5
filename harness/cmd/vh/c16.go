package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"

	"github.com/cloudflare/circl/group"
)

func init() {
	register("C16", &propDef{
		rule:     "a value of one of the encodings (matrices of both moduli of every small shape, lists of matrices, Merkle proofs of every length, integer and field vectors, bit strings, group elements with the identity, aggregate queries, key shares, padded records) encoded and decoded, whose sizes and contents have to agree, or a corrupted encoding (every prefix, extensions, every header bit, dimensions with overflowing products, random bytes), which has to be refused or to decode to an object whose encoding it is; distinct by encoding, shape and corruption",
		minEvals: 20000,
		build:    buildC16,
	})
}

// corruptions of an encoding with a header of hdr bytes.
func corruptions(c *C, b []byte, hdr, n int, f func(what string, x []byte)) {
	if hdr > len(b) {
		hdr = len(b)
	}
	step := 1
	if len(b) > 300 {
		step = len(b)/300 + 1
	}
	for l := 0; l < len(b); l += step {
		f(fmt.Sprintf("prefix of %d of %d", l, len(b)), append([]byte{}, b[:l]...))
	}
	for _, e := range []int{1, 2, 3, 4, 7, 8, 15, 16, 32, 33, len(b)} {
		f(fmt.Sprintf("%d zeros appended to %d", e, len(b)), append(append([]byte{}, b...), make([]byte, e)...))
		f(fmt.Sprintf("%d bytes appended to %d", e, len(b)), append(append([]byte{}, b...), c.Bytes(e)...))
	}
	for i := 0; i < 8*hdr; i++ {
		x := append([]byte{}, b...)
		x[i/8] ^= 1 << uint(i%8)
		f(fmt.Sprintf("bit %d of the header of %d", i, len(b)), x)
	}
	for k := 0; k < n; k++ {
		x := append([]byte{}, b...)
		for r := 1 + c.R.Intn(3); r > 0 && len(x) > 0; r-- {
			switch c.R.Intn(4) {
			case 0:
				x[c.R.Intn(len(x))] = byte(c.R.Intn(256))
			case 1: // drop some
				i := c.R.Intn(len(x))
				j := i + c.R.Intn(len(x)-i) + 1
				x = append(x[:i], x[j:]...)
			case 2: // repeat some
				i := c.R.Intn(len(x))
				j := i + c.R.Intn(len(x)-i) + 1
				x = append(x, x[i:j]...)
			case 3: // an extreme number
				if len(x) >= 4 {
					i := c.R.Intn(len(x)/4) * 4
					binary.BigEndian.PutUint32(x[i:], pickDim(c))
				}
			}
		}
		f(fmt.Sprintf("random change %d of %d", k, len(b)), x)
	}
}

func buildC16(t *T) {
	// ---- matrices
	sane := func(c *C, what string, m *matrix.Matrix, x []byte) {
		if m == nil {
			c.Obs("refused", 1)
			c.Eval(what)
			return
		}
		c.Check(m.Rows() >= 0 && m.Cols() >= 0 && m.Rows()*m.Cols() == m.Len(), "%s decodes to a matrix of %dx%d with %d elements", what, m.Rows(), m.Cols(), m.Len())
		c.Check(bytes.Equal(matrix.MatrixToBytes(m), x), "%s decodes to a matrix of %dx%d with another encoding", what, m.Rows(), m.Cols())
		c.Obs("accepted", 1)
		c.Eval(what)
	}
	sane128 := func(c *C, what string, m *matrix.Matrix128, x []byte) {
		if m == nil {
			c.Obs("refused", 1)
			c.Eval(what)
			return
		}
		if n := m.Rows() * m.Cols(); n > 0 && n < 1<<20 {
			m.Get(m.Rows()-1, m.Cols()-1)
		}
		c.Check(len(x) == 8+16*m.Rows()*m.Cols(), "%s of %d bytes decodes to a matrix of %dx%d", what, len(x), m.Rows(), m.Cols())
		c.Check(bytes.Equal(matrix.Matrix128ToBytes(m), x), "%s decodes to a matrix of %dx%d with another encoding", what, m.Rows(), m.Cols())
		c.Obs("accepted", 1)
		c.Eval(what)
	}
	saneList := func(c *C, what string, l []*matrix.Matrix, x []byte) {
		if l == nil {
			c.Obs("refused", 1)
			c.Eval(what)
			return
		}
		for i, m := range l {
			c.Check(m != nil && m.Rows()*m.Cols() == m.Len() && m.Rows() == l[0].Rows() && m.Cols() == l[0].Cols(), "%s: matrix %d disagrees with its dimensions", what, i)
		}
		c.Check(bytes.Equal(matrix.MatricesToBytes(l), x), "%s decodes to %d matrices with another encoding", what, len(l))
		c.Obs("accepted", 1)
		c.Eval(what)
	}
	shapes := [][2]int{}
	for r := 0; r <= 6; r++ {
		for k := 0; k <= 6; k++ {
			shapes = append(shapes, [2]int{r, k})
		}
	}
	rng := t.Rng("shapes")
	for i := t.N(12, 60); i > 0; i-- {
		shapes = append(shapes, [2]int{1 + rng.Intn(90), 1 + rng.Intn(90)})
	}
	shapes = append(shapes, [2]int{1, 5000}, [2]int{5000, 1}, [2]int{300, 257}, [2]int{1, 70000}, [2]int{70001, 1}, [2]int{1, 1<<20 + 3}, [2]int{1100, 1000})
	for _, s := range shapes {
		s := s
		t.Addf(func(c *C) {
			r, k := s[0], s[1]
			a := matrix.New(r, k)
			w := matrix.New128(r, k)
			for round := 0; round < 3; round++ {
				for i := 0; i < r; i++ {
					for j := 0; j < k; j++ {
						v, x := c.R.Uint32(), rnd128(c)
						switch round {
						case 0:
							v, x = 1<<32-1, uint128.Max
						case 1:
							v, x = uint32(i*k+j), uint128.New(uint64(i*k+j), uint64(i)<<40)
						}
						a.Set(i, j, v)
						w.Set(i, j, x)
					}
				}
				ea, ew := matrix.MatrixToBytes(a), matrix.Matrix128ToBytes(w)
				c.Check(len(ea) == 8+4*r*k && len(ew) == 8+16*r*k, "%dx%d: encodings of %d and %d bytes", r, k, len(ea), len(ew))
				c.Check(a.BytesSize() == float64(4*r*k) && w.BytesSize() == float64(16*r*k), "%dx%d: sizes of %v and %v bytes", r, k, a.BytesSize(), w.BytesSize())
				da, dw := matrix.BytesToMatrix(ea), matrix.BytesToMatrix128(ew)
				c.Check(da != nil && dw != nil, "%dx%d: does not decode", r, k)
				c.Check(da.Rows() == r && da.Cols() == k && da.Len() == r*k && dw.Rows() == r && dw.Cols() == k,
					"%dx%d decodes to %dx%d and %dx%d", r, k, da.Rows(), da.Cols(), dw.Rows(), dw.Cols())
				for i := 0; i < r; i++ {
					for j := 0; j < k; j++ {
						c.Check(da.Get(i, j) == a.Get(i, j), "%dx%d: element %d,%d decodes to %d instead of %d", r, k, i, j, da.Get(i, j), a.Get(i, j))
						c.Check(dw.Get(i, j) == w.Get(i, j), "%dx%d: element %d,%d decodes to %v instead of %v", r, k, i, j, dw.Get(i, j), w.Get(i, j))
					}
				}
				// what was decoded does not share the memory of its encoding
				if r*k > 0 {
					for i := range ea {
						ea[i], ew[i] = ^ea[i], ^ew[i]
					}
					c.Check(da.Get(r-1, k-1) == a.Get(r-1, k-1) && dw.Get(r-1, k-1) == w.Get(r-1, k-1), "%dx%d: a decoded matrix changes with its encoding", r, k)
				}
				c.Evalf("round %d", round)
			}
			n := 40
			if r*k > 2000 {
				n = 6
			}
			corruptions(c, matrix.MatrixToBytes(a), 8, n, func(what string, x []byte) { sane(c, what, matrix.BytesToMatrix(x), x) })
			corruptions(c, matrix.Matrix128ToBytes(w), 8, n, func(what string, x []byte) { sane128(c, "128 bits: "+what, matrix.BytesToMatrix128(x), x) })
		}, "matrices of %dx%d", s[0], s[1])
	}
	t.Addf(func(c *C) {
		// every pair of extreme dimensions
		ds := []uint32{0, 1, 2, 3, 4, 255, 256, 65535, 65536, 65537, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 1}
		for _, a := range ds {
			for _, b := range ds {
				for _, l := range []int{0, 4, 8, 12, 16, 32, 48, 64, 1024, 4096} {
					x := make([]byte, 8+l)
					c.R.Read(x)
					binary.BigEndian.PutUint32(x, a)
					binary.BigEndian.PutUint32(x[4:], b)
					what := fmt.Sprintf("%d bytes with dimensions %dx%d", len(x), a, b)
					if uint64(a)*uint64(b) != uint64(l/4) {
						c.Check(matrix.BytesToMatrix(x) == nil, "%s: decodes", what)
					}
					if uint64(a)*uint64(b) != uint64(l/16) || l%16 != 0 {
						c.Check(matrix.BytesToMatrix128(x) == nil, "%s: decodes with 128 bits", what)
					}
					sane(c, what, matrix.BytesToMatrix(x), x)
					if l%16 == 0 {
						sane128(c, "128: "+what, matrix.BytesToMatrix128(x), x)
					}
				}
			}
		}
	}, "matrices with extreme dimensions")
	for k := 0; k < t.N(4, 16); k++ {
		t.Addf(func(c *C) {
			for i := 0; i < t.N(60, 200); i++ {
				n, r, k := c.R.Intn(8), c.R.Intn(6), c.R.Intn(6)
				if i%10 == 0 {
					n, r, k = 1+c.R.Intn(40), 1, 1+c.R.Intn(300)
				}
				if i == 5 {
					n, r, k = 2+c.R.Intn(4), 100+c.R.Intn(200), 200+c.R.Intn(200)
				}
				if i == 11 {
					n, r, k = 260+c.R.Intn(300), 1, 1+c.R.Intn(3)
				}
				if i == 13 {
					n, r, k = 65530+c.R.Intn(3000), 1, 1
				}
				if i == 7 {
					n, r, k = 5, 1, 20000+c.R.Intn(30000)
				}
				l := make([]*matrix.Matrix, n)
				for j := range l {
					l[j] = rndMatrix(c, r, k)
				}
				b := matrix.MatricesToBytes(l)
				want := 4
				if n > 0 {
					want = 4 + n*(8+4*r*k)
				}
				c.Check(len(b) == want, "%d matrices of %dx%d take %d bytes instead of %d", n, r, k, len(b), want)
				d := matrix.BytesToMatrices(b)
				c.Check(len(d) == n && d != nil, "%d matrices of %dx%d decode to %d", n, r, k, len(d))
				for j := range d {
					c.Check(bytes.Equal(matrix.MatrixToBytes(d[j]), matrix.MatrixToBytes(l[j])), "%d matrices of %dx%d: number %d changes", n, r, k, j)
				}
				c.Evalf("%d of %dx%d", n, r, k)
				corruptions(c, b, 12, 30, func(what string, x []byte) {
					saneList(c, fmt.Sprintf("%d of %dx%d: %s", n, r, k, what), matrix.BytesToMatrices(x), x)
				})
				if n > 1 && r*k > 0 {
					// same size, other shape
					x := append([]byte{}, b...)
					at := 4 + (8+4*r*k)*(1+c.R.Intn(n-1))
					binary.BigEndian.PutUint32(x[at:], uint32(r*k))
					binary.BigEndian.PutUint32(x[at+4:], 1)
					if k != 1 {
						c.Check(matrix.BytesToMatrices(x) == nil, "a list of matrices of different dimensions decodes")
					}
				}
			}
		}, "lists of matrices, batch %d", k)
	}

	// ---- Merkle proofs
	t.Addf(func(c *C) {
		for n := 0; n <= 40; n++ {
			for rep := 0; rep < t.N(4, 20); rep++ {
				p := &merkle.Proof{Index: c.R.Uint32()}
				switch rep {
				case 0:
					p.Index = 0
				case 1:
					p.Index = 1<<32 - 1
				}
				for i := 0; i < n; i++ {
					h := c.Bytes(32)
					if c.R.Intn(8) == 0 {
						h = make([]byte, 32)
					}
					p.Hashes = append(p.Hashes, h)
				}
				b := merkle.EncodeProof(p)
				c.Check(len(b) == 4+32*n+4, "a proof of %d hashes takes %d bytes", n, len(b))
				d := merkle.DecodeProof(b)
				c.Check(d != nil && d.Index == p.Index && len(d.Hashes) == n, "a proof of %d hashes and index %d does not decode to itself", n, p.Index)
				for i := range d.Hashes {
					c.Check(bytes.Equal(d.Hashes[i], p.Hashes[i]), "hash %d of %d changes", i, n)
				}
				c.Evalf("%d hashes, %d", n, rep)
				corruptions(c, b, 4, 20, func(what string, x []byte) {
					d := merkle.DecodeProof(x)
					if d == nil {
						c.Obs("refused", 1)
					} else {
						c.Check(bytes.Equal(merkle.EncodeProof(d), x), "a proof of %d hashes, %s: decodes to a proof with another encoding", n, what)
						c.Obs("accepted", 1)
					}
					c.Evalf("%d hashes, %d, %s", n, rep, what)
				})
			}
		}
	}, "Merkle proofs")
	t.Addf(func(c *C) {
		for k := 0; k < t.N(5000, 40000); k++ {
			x := c.Bytes(c.R.Intn(150))
			if len(x) >= 4 && k%2 == 0 {
				binary.LittleEndian.PutUint32(x, uint32(c.R.Intn(6)))
			}
			if d := merkle.DecodeProof(x); d != nil {
				c.Check(bytes.Equal(merkle.EncodeProof(d), x), "%x decodes to a proof with another encoding", x)
				c.Obs("accepted", 1)
			} else {
				c.Obs("refused", 1)
			}
			c.Evalf("%x", x)
		}
	}, "Merkle proofs from random bytes")

	// ---- integers, field elements, bits
	lengths := []int{}
	for n := 0; n <= 260; n++ {
		lengths = append(lengths, n)
	}
	// long ones
	lengths = append(lengths, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4099, 10007, 65535, 65536, 65537, 131073, 300001, 1<<20+5, 1<<22+3)
	t.Addf(func(c *C) {
		for _, n := range lengths {
			in := make([]uint32, n)
			for i := range in {
				in[i] = c.R.Uint32()
				switch c.R.Intn(6) {
				case 0:
					in[i] = 1<<32 - 1
				case 1:
					in[i] = 0
				case 2:
					in[i] = 1 << uint(c.R.Intn(32))
				}
			}
			keep := append([]uint32{}, in...)
			b := utils.Uint32SliceToByteSlice(in)
			c.Check(len(b) == 4*n, "%d integers take %d bytes", n, len(b))
			d := utils.ByteSliceToUint32Slice(b)
			c.Check(len(d) == n, "%d integers decode to %d", n, len(d))
			for i := range d {
				c.Check(d[i] == keep[i] && in[i] == keep[i], "integer %d of %d: %d becomes %d", i, n, keep[i], d[i])
			}
			for e := 1; e < 4; e++ {
				c.Check(len(utils.ByteSliceToUint32Slice(append(append([]byte{}, b...), make([]byte, e)...))) == n, "%d bytes decode to other than %d integers", len(b)+e, n)
			}
			c.Evalf("integers %d", n)

			// field elements that hold three bytes of data
			data := c.Bytes(3 * n)
			el := make([]uint32, n)
			for i := range el {
				el[i] = uint32(data[3*i])<<16 | uint32(data[3*i+1])<<8 | uint32(data[3*i+2])
			}
			out := field.VectorToBytes(el)
			c.Check(bytes.Equal(out, data), "%d elements become %x instead of %x", n, out, data)
			c.Check(field.VectorToBytes(append([]uint32{}, el...)) != nil, "a vector of %d elements is not converted", n)
			c.Check(field.VectorToBytes("x") == nil && field.VectorToBytes(nil) == nil && field.VectorToBytes([]int{1}) == nil, "a value that is no vector is converted")
			// and that were encoded with all their bytes
			for i := range el {
				el[i] = uint32(c.R.Int63n(int64(field.ModP)))
				switch c.R.Intn(5) {
				case 0:
					el[i] = field.ModP - 1
				case 1:
					el[i] = 0
				}
			}
			back := make([]uint32, n)
			field.BytesToElements(back, utils.Uint32SliceToByteSlice(el))
			c.Check(reflect.DeepEqual(back, el) || n == 0, "%d field elements: %v become %v", n, el, back)
			c.Evalf("elements %d", n)

			// bits
			x := c.Bytes(n)
			bits := utils.ByteToBits(x)
			c.Check(len(bits) == 8*n, "%d bytes become %d bits", n, len(bits))
			y := make([]byte, n)
			for i, v := range bits {
				if v {
					y[i/8] |= 1 << uint(7-i%8)
				}
			}
			c.Check(bytes.Equal(x, y), "%x becomes the bits of %x", x, y)
			c.Evalf("bits %d", n)
		}
		for v := 0; v < 256; v++ {
			bits := utils.ByteToBits([]byte{byte(v)})
			for i := 0; i < 8; i++ {
				c.Check(bits[i] == (v>>uint(7-i)&1 == 1), "bit %d of byte %d", i, v)
			}
			c.Evalf("byte %d", v)
		}
	}, "integers, field elements and bits")

	// ---- group elements
	for _, d := range dhGroups {
		d := d
		t.Addf(func(c *C) {
			g := d.g
			probe, err := g.RandomElement(detReader{c.R}).MarshalBinaryCompress()
			c.Must(err, "size")
			size := len(probe)
			// as the databases tell it
			db := database.CreateRandomEllipticWithDigest(detReader{c.R}, 4, g, true)
			c.Check(db.ElementSize == size, "%s: elements of %d bytes instead of %d", d.name, db.ElementSize, size)
			for n := 0; n <= t.N(24, 40)/(1+d.slow/4); n++ {
				var els []group.Element
				for i := 0; i < n; i++ {
					e := g.RandomElement(detReader{c.R})
					switch c.R.Intn(5) {
					case 0:
						e = g.Identity()
					case 1:
						e = g.NewElement().Neg(e)
					case 2:
						e = g.NewElement().Add(e, g.NewElement().Neg(e)) // identity after computations
					case 3:
						e = g.Generator()
					}
					els = append(els, e)
				}
				b, err := database.MarshalGroupElements(els, size)
				c.Must(err, d.name)
				c.Check(len(b) == n*size, "%s: %d elements take %d bytes", d.name, n, len(b))
				out, err := database.UnmarshalGroupElements(b, g, size)
				c.Must(err, d.name)
				c.Check(len(out) == n, "%s: %d elements decode to %d", d.name, n, len(out))
				for i := range out {
					c.Check(out[i].IsEqual(els[i]) && out[i].IsIdentity() == els[i].IsIdentity(), "%s: element %d of %d changes", d.name, i, n)
				}
				c.Evalf("%d elements", n)
				if n > 6 {
					continue
				}
				corruptions(c, b, 3, t.N(30, 60), func(what string, x []byte) {
					out, err := database.UnmarshalGroupElements(x, g, size)
					if err != nil {
						c.Obs("refused", 1)
					} else {
						c.Check(len(x)%size == 0 && len(out) == len(x)/size, "%s: %d bytes decode to %d elements", d.name, len(x), len(out))
						y, err := database.MarshalGroupElements(out, size)
						c.Must(err, d.name)
						c.Check(bytes.Equal(x, y), "%s: %d elements, %s: decode to elements with another encoding", d.name, n, what)
						c.Obs("accepted", 1)
					}
					c.Evalf("%d elements, %s", n, what)
				})
			}
		}, "elements of %s", d.name)
	}

	// ---- aggregate queries
	t.Addf(func(c *C) {
		one := func(q *query.ClientFSS) {
			b, err := q.Encode()
			c.Must(err, "encode")
			d, err := query.DecodeClientFSS(b)
			c.Must(err, "decode")
			c.Check(d != nil && d.Info != nil, "the description of the query %+v is lost", *q.Info)
			same := d.Target == q.Target && d.FromStart == q.FromStart && d.FromEnd == q.FromEnd && d.And == q.And &&
				d.Avg == q.Avg && d.Sum == q.Sum && len(d.Targets) == len(q.Targets) && len(d.Input) == len(q.Input)
			for i := range d.Targets {
				same = same && d.Targets[i] == q.Targets[i]
			}
			for i := range d.Input {
				same = same && d.Input[i] == q.Input[i]
			}
			c.Check(same, "%+v %v becomes %+v %v", *q.Info, q.Input, *d.Info, d.Input)
			c.Evalf("%+v %v", *q.Info, bitsString(q.Input))
			for l := 0; l < len(b); l++ {
				if _, err := query.DecodeClientFSS(b[:l]); err == nil {
					c.Failf("the first %d of %d bytes of an encoding decode", l, len(b))
				}
				c.Evalf("%+v prefix %d", *q.Info, l)
			}
		}
		one(&query.ClientFSS{Info: &query.Info{}})
		one(&query.ClientFSS{Info: &query.Info{}, Input: []bool{false}})
		for k := 0; k < t.N(150, 1000); k++ {
			i := &query.Info{Target: query.Target(c.R.Intn(3)), FromStart: c.R.Intn(4) * c.R.Intn(40), FromEnd: c.R.Intn(4) * c.R.Intn(40),
				And: c.R.Intn(2) == 0, Avg: c.R.Intn(2) == 0, Sum: c.R.Intn(2) == 0}
			for j := c.R.Intn(4); j > 0; j-- {
				i.Targets = append(i.Targets, query.Target(c.R.Intn(3)))
			}
			n := c.R.Intn(200)
			if k%15 == 0 {
				n = c.R.Intn(2600)
			}
			one(&query.ClientFSS{Info: i, Input: randomBits(c, n)})
		}
		for k := 0; k < t.N(2000, 20000); k++ {
			if p := Panics(func() { query.DecodeClientFSS(c.Bytes(c.R.Intn(120))) }); p != nil {
				c.Failf("decoding of random bytes: %v", p)
			}
			c.Evalf("random %d", k)
		}
	}, "aggregate queries")
	t.Addf(func(c *C) {
		// what clients send and servers answer is the encoding of the values
		for k := 0; k < t.N(40, 200); k++ {
			keys := randomKeys(c.R, 1+c.R.Intn(12))
			db := keysDB(keys)
			for _, auth := range []bool{false, true} {
				p := randomPredicate(c, keys)
				ss := predServers(db, auth)
				in, err := p.q.Encode()
				c.Must(err, "encode")
				qs, err := newPredClient(detReader{c.R}, &db.Info, auth).QueryBytes(in, 2)
				c.Must(err, "query")
				for j, q := range qs {
					f := decodeFSS(c, q)
					c.Check(f.Info != nil && reflect.DeepEqual(*f.Info, *p.q.Info), "%s: a server receives %+v instead of %+v", p.what, f.Info, p.q.Info)
					c.Check(len(f.FssKey.CW) == len(p.q.Input), "%s: %d levels for %d bits", p.what, len(f.FssKey.CW), len(p.q.Input))
					again := decodeFSS(c, encodeFSS(c, f))
					c.Check(reflect.DeepEqual(f, again), "%s: a share changes when it is encoded again", p.what)
					a, err := ss[j].AnswerBytes(q)
					c.Must(err, "answer")
					v := append([]uint32{}, ss[j].Answer(f)...)
					c.Check(bytes.Equal(a, utils.Uint32SliceToByteSlice(v)), "%s auth=%v: the encoded answer %x is not the one of %v", p.what, auth, a, v)
					c.Evalf("%d %v %d %s", k, auth, j, p.what)
				}
			}
		}
	}, "key shares and answers")
	// ---- padded records
	t.Addf(func(c *C) {
		for l := 0; l <= 200; l++ {
			for kind := 0; kind < 7; kind++ {
				b := c.Bytes(l)
				switch kind {
				case 1:
					b = make([]byte, l)
				case 2:
					b = bytes.Repeat([]byte{0x80}, l)
				case 3:
					if l > 0 {
						b[l-1] = 0
					}
				case 4:
					if l > 1 {
						b[l-2], b[l-1] = 0x80, 0
					}
				case 5:
					b = bytes.Repeat([]byte{0xff}, l)
				case 6: // bytes that are no text
					b = bytes.Repeat([]byte{0xc0, 0x80}, l)[:l]
				}
				keep := append([]byte{}, b...)
				s := database.PadWithSignalByte(append([]byte{}, b...))
				c.Check(len(s) == l+1, "a record of %d bytes takes %d with its signal byte", l, len(s))
				c.Check(bytes.Equal(database.UnPadBlock(append([]byte{}, s...)), keep), "record %x becomes %x", keep, database.UnPadBlock(s))
				c.Check(bytes.Equal(database.UnPadBlock(append(append([]byte{}, s...), make([]byte, c.R.Intn(70))...)), keep), "record %x with zeros changes", keep)
				for _, bl := range []int{1, 2, 3, 7, 8, 16, 31, 32, 64, l + 1, l + 2, 2*l + 1, 300} {
					p := database.PadBlock(append([]byte{}, b...), bl)
					c.Check(len(p) > l && len(p)%bl == 0, "a record of %d bytes is padded to %d with blocks of %d", l, len(p), bl)
					c.Check(bytes.HasPrefix(p, keep), "padding to %d changes the record %x", bl, keep)
					u := database.UnPadBlock(p)
					c.Check(bytes.Equal(u, keep), "record %x padded to %d becomes %x", keep, bl, u)
					c.Evalf("%d %d %d", l, kind, bl)
				}
			}
		}
		for l := 0; l < 40; l++ { // nothing but zeros is no record
			c.Check(len(database.UnPadBlock(make([]byte, l))) == 0, "%d zeros unpad to something", l)
		}
	}, "padded records")

}
