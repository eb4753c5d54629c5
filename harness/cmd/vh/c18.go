package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/bits"
	"reflect"
	"sync"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C18", &propDef{
		rule:     "a way to make field elements (single element, vector, fresh generator, decoding of bytes, random database) from a stream (uniform, boundary encodings at every position, constant bytes, delivered a few bytes at a time), whose results have to be below the modulus, equal when made again and, over a large sample, uniform (frequencies of the bits, of pairs of bits, of the residues modulo small numbers, of the top and bottom bytes); negation of boundary and random elements. Distinct by way, stream and length, or by sample",
		minEvals: 20000,
		build:    buildC18,
	})
}

const modP = uint32(1<<31 - 1)

// fieldLab collects the statistics of elements.
type fieldLab struct {
	n   int
	mod map[uint32][]int
	top []int
	low []int
}

func newFieldLab() *fieldLab {
	l := &fieldLab{mod: map[uint32][]int{}, top: make([]int, 256), low: make([]int, 256)}
	for _, m := range []uint32{3, 5, 7, 11, 13, 31, 127, 251} {
		l.mod[m] = make([]int, m)
	}
	return l
}

func (l *fieldLab) add(v uint32) {
	l.n++
	for m, c := range l.mod {
		c[v%m]++
	}
	l.top[v>>23]++
	l.low[v&255]++
}

func (l *fieldLab) judge() string {
	one := func(what string, obs []int, exp func(i int) float64) string {
		e := make([]float64, len(obs))
		for i := range e {
			e[i] = exp(i) * float64(l.n)
		}
		if z := chi2z(obs, e); math.Abs(z) > zLimit {
			return fmt.Sprintf("%s of %d elements deviate by %.1f standard deviations: %v", what, l.n, z, clipInts(obs))
		}
		return ""
	}
	p := float64(modP)
	for m, c := range l.mod {
		m := m
		if s := one(fmt.Sprintf("the residues modulo %d", m), c, func(i int) float64 {
			return float64((modP-1-uint32(i))/m+1) / p
		}); s != "" {
			return s
		}
	}
	if s := one("the top bytes", l.top, func(i int) float64 {
		if i == 255 {
			return (float64(1<<23) - 1) / p
		}
		return float64(1<<23) / p
	}); s != "" {
		return s
	}
	return one("the bottom bytes", l.low, func(i int) float64 {
		if i == 255 {
			return (float64(1<<23) - 1) / p
		}
		return float64(1<<23) / p
	})
}

func clipInts(v []int) []int {
	if len(v) > 12 {
		return v[:12]
	}
	return v
}

// boundaries are encodings around the modulus, in both byte orders.
func boundary(c *C) []byte {
	b := make([]byte, 4)
	v := []uint32{modP, modP - 1, 1 << 31, 1<<31 + modP, 0, 1, 1<<32 - 1, 1<<32 - 2, 0xfffffeff, 0xffffff7f, 0x7fffff7f, modP + 2}[c.R.Intn(12)]
	if c.R.Intn(4) == 0 {
		binary.LittleEndian.PutUint32(b, v)
	} else {
		binary.BigEndian.PutUint32(b, v)
	}
	return b
}

func canonical(c *C, what string, v []uint32) {
	for i, e := range v {
		c.Check(e < modP, "%s: element %d of %d is %d", what, i, len(v), e)
	}
}

func buildC18(t *T) {
	ways := []struct {
		name string
		f    func(rnd io.Reader, n int) []uint32
	}{
		{"single elements", func(rnd io.Reader, n int) []uint32 {
			out := make([]uint32, n)
			for i := range out {
				out[i] = field.RandElementWithPRG(rnd)
			}
			return out
		}},
		{"vector", func(rnd io.Reader, n int) []uint32 { return field.RandVectorWithPRG(n, rnd) }},
		{"decoding", func(rnd io.Reader, n int) []uint32 {
			b := make([]byte, 4*n)
			if _, err := io.ReadFull(rnd, b); err != nil {
				panic(err)
			}
			out := make([]uint32, n)
			field.BytesToElements(out, b)
			return out
		}},
		{"database", func(rnd io.Reader, n int) []uint32 {
			if n == 0 {
				return nil
			}
			d, err := database.CreateRandomBitsDB(rnd, 32*n, 1, 1)
			if err != nil {
				panic(err)
			}
			return d.Entries
		}},
	}
	for _, w := range ways {
		w := w
		t.Addf(func(c *C) {
			for i := 0; i < t.N(1500, 10000); i++ {
				n := c.R.Intn(40)
				if i%50 == 0 {
					n = c.R.Intn(2000)
				}
				// a stream with boundary encodings
				var stream []byte
				dense := c.R.Intn(4)
				for j := 0; j < n; j++ {
					switch {
					case dense == 0 || dense == 1 && c.R.Intn(4) == 0:
						stream = append(stream, boundary(c)...)
					default:
						stream = append(stream, c.Bytes(4)...)
					}
				}
				seed := c.R.Int63()
				src := func() io.Reader { return io.MultiReader(bytes.NewReader(stream), byteReader{newRand(seed)}) }
				a := w.f(src(), n)
				c.Check(len(a) == n, "%s: %d elements instead of %d", w.name, len(a), n)
				canonical(c, w.name, a)
				for again := 0; again < 3; again++ {
					b := w.f(src(), n)
					c.Check(reflect.DeepEqual(a, b) || n == 0, "%s of %d: %v, then %v from the same bytes", w.name, n, a, b)
				}
				b := w.f(&shortReader{src(), newRand(seed), 1 + int(seed%9)}, n)
				c.Check(reflect.DeepEqual(a, b) || n == 0, "%s of %d: %v, but %v when the bytes are delivered a few at a time", w.name, n, a, b)
				c.Evalf("%d %x", n, stream)
			}
		}, "canonical and deterministic: %s", w.name)
		t.Addf(func(c *C) {
			lab := newFieldLab()
			const width = 12
			bl := newLab(c.R, (31*width+7)/8, 1500)
			for i := 0; i < t.N(40000, 400000); i++ {
				n := width
				v := w.f(byteReader{c.R}, n)
				canonical(c, w.name, v)
				b := make([]byte, (31*width+7)/8)
				for j, e := range v {
					lab.add(e)
					for k := 0; k < 31; k++ {
						p := 31*j + k
						b[p/8] |= byte(e>>uint(k)&1) << uint(p%8)
					}
				}
				for p := 31 * width; p < 8*len(b); p++ {
					b[p/8] |= byte(c.R.Intn(2)) << uint(p%8)
				}
				bl.add(b)
				c.Evalf("%d", i)
			}
			c.Obs("elements_in_statistics", lab.n)
			if s := lab.judge(); s != "" {
				c.Failf("%s: %s", w.name, s)
			}
			if s := bl.judge(false); s != "" {
				c.Failf("%s, vectors of %d elements of 31 bits: %s", w.name, width, s)
			}
		}, "uniform: %s", w.name)
		t.Addf(func(c *C) {
			// every place of one boundary in vectors of all small lengths
			for n := 1; n <= 24; n++ {
				for at := 0; at < n; at++ {
					for _, e := range [][]byte{{0x7f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f}, {0x80, 0, 0, 0}} {
						s := c.Bytes(4 * n)
						copy(s[4*at:], e)
						seed := c.R.Int63()
						a := w.f(io.MultiReader(bytes.NewReader(s), byteReader{newRand(seed)}), n)
						canonical(c, w.name, a)
						b := w.f(io.MultiReader(bytes.NewReader(s), byteReader{newRand(seed)}), n)
						c.Check(reflect.DeepEqual(a, b), "%s of %d with %x at %d: %v, then %v", w.name, n, e, at, a, b)
						// what is elsewhere in the stream still counts
						s2 := append([]byte{}, s...)
						other := c.R.Intn(n)
						s2[4*other+3] ^= 1
						d := w.f(io.MultiReader(bytes.NewReader(s2), byteReader{newRand(seed)}), n)
						canonical(c, w.name, d)
						c.Evalf("%d %d %x", n, at, e)
					}
				}
			}
			// constant streams
			for v := 0; v < 256; v++ {
				rest := byteReader{newRand(1)}
				for _, n := range []int{1, 2, 5} {
					a := w.f(io.MultiReader(bytes.NewReader(bytes.Repeat([]byte{byte(v)}, 4*n)), rest), n)
					canonical(c, w.name, a)
					c.Evalf("constant %d %d", v, n)
				}
			}
		}, "boundaries: %s", w.name)
		t.Addf(func(c *C) {
			// distinct bytes below the modulus give distinct elements, bit by bit
			for i := 0; i < t.N(3000, 20000); i++ {
				a := c.R.Uint32() & modP
				if a >= modP-1 {
					a = 5
				}
				b := a ^ 1<<uint(c.R.Intn(31))
				if b >= modP {
					continue
				}
				enc := func(v uint32) io.Reader {
					x := make([]byte, 4)
					binary.BigEndian.PutUint32(x, v)
					return io.MultiReader(bytes.NewReader(x), byteReader{newRand(3)})
				}
				c.Check(w.f(enc(a), 1)[0] != w.f(enc(b), 1)[0], "%s: the bytes of %d and of %d give the same element", w.name, a, b)
				c.Evalf("%d %d", a, b)
			}
		}, "injective: %s", w.name)
		t.Addf(func(c *C) {
			sizes := []int{1023, 1024, 1025, 4095, 4097, 8192, 16383, 16384, 16385, 16390, 32771, 65535, 65537, 100003, 262147}
			if t.Thorough {
				sizes = append(sizes, 1<<20-1, 1<<20+1, 1<<22+3, 6000017)
			}
			for _, n := range sizes {
				if w.name == "single elements" && n > 1<<20 {
					continue
				}
				seed := c.R.Int63()
				a, b := w.f(byteReader{newRand(seed)}, n), w.f(&shortReader{byteReader{newRand(seed)}, newRand(1), 70001}, n)
				d := w.f(byteReader{newRand(seed + 1)}, n)
				c.Check(len(a) == n && len(d) == n, "%s: %d elements instead of %d", w.name, len(a), n)
				c.Check(reflect.DeepEqual(a, b), "%s: %d elements differ when the same bytes are delivered in other parts", w.name, n)
				canonical(c, w.name, a)
				// no part of a long vector is less random than another: windows
				// of 32 elements have 496 +- 15.7 random bits, and a window does
				// not repeat another or depend on nothing
				seen := map[uint32]bool{}
				repeated, fixed := 0, 0
				for i := 0; i < n; i++ {
					if seen[a[i]] {
						repeated++
					}
					seen[a[i]] = true
					if a[i] == d[i] {
						fixed++
					}
				}
				if f := float64(n); float64(repeated) > 40+2*f*f/(1<<32) || fixed > 12 {
					c.Failf("%s: of %d elements, %d are repeated and %d do not depend on the random bytes", w.name, n, repeated, fixed)
				}
				for i := 0; i+32 <= n; i++ {
					if i%32 != 0 && i != n-32 {
						continue
					}
					ones := 0
					for _, e := range a[i : i+32] {
						ones += bits.OnesCount32(e)
					}
					c.Check(ones > 496-142 && ones < 496+142, "%s: elements %d to %d of %d have %d of 992 bits set", w.name, i, i+31, n, ones)
				}
				c.Evalf("long %d", n)
				c.Obs("elements_of_long_vectors", n)
			}
		}, "long vectors: %s", w.name)
	}
	t.Addf(func(c *C) {
		// the whole buffer of the decoder counts, and no more
		for i := 0; i < t.N(3000, 20000); i++ {
			n := 1 + c.R.Intn(20)
			b := c.Bytes(4*n + c.R.Intn(9))
			if c.R.Intn(2) == 0 {
				copy(b[4*c.R.Intn(n):], boundary(c))
			}
			a, d := make([]uint32, n), make([]uint32, n)
			for j := range d {
				d[j] = c.R.Uint32()
			}
			keep := append([]byte{}, b...)
			field.BytesToElements(a, b)
			field.BytesToElements(d, b[:4*n])
			c.Check(reflect.DeepEqual(a, d), "decoding %x gives %v and %v", b, a, d)
			c.Check(bytes.Equal(keep, b), "decoding modifies its input")
			// an element does not depend on its neighbours
			j := c.R.Intn(n)
			one := make([]uint32, 1)
			field.BytesToElements(one, b[4*j:4*j+4])
			c.Check(one[0] == a[j], "element %d is %d among others and %d alone", j, a[j], one[0])
			c.Evalf("%x", b)
		}
	}, "decoding element by element")
	t.Addf(func(c *C) {
		for i := 0; i < t.N(20000, 100000); i++ {
			n := c.R.Intn(12)
			v := make([]uint32, n)
			for j := range v {
				switch c.R.Intn(5) {
				case 0:
					v[j] = []uint32{0, 1, modP - 1, modP - 2, modP / 2, modP/2 + 1, 1 << 30}[c.R.Intn(7)]
				default:
					v[j] = uint32(c.R.Int63n(int64(modP)))
				}
			}
			keep := append([]uint32{}, v...)
			m := field.NegateVector(v)
			c.Check(len(m) == n, "the negation of %d elements has %d", n, len(m))
			for j := range m {
				c.Check(m[j] < modP, "the negation of %d is %d", keep[j], m[j])
				c.Check((uint64(m[j])+uint64(keep[j]))%uint64(modP) == 0, "the negation of %d is %d", keep[j], m[j])
			}
			c.Evalf("%v", keep)
			back := field.NegateVector(append([]uint32{}, m...))
			c.Check(reflect.DeepEqual(back, keep) || n == 0, "negating %v twice gives %v", keep, back)
		}
		c.Check(field.ModP == modP, "the modulus is %d", field.ModP)
	}, "negation")
	t.Addf(func(c *C) {
		// fresh generators
		lab := newFieldLab()
		seen := map[string]bool{}
		for i := 0; i < t.N(20000, 100000); i++ {
			v := field.RandVector(3)
			v = append(v, field.RandElement())
			canonical(c, "fresh", v)
			c.Check(len(v) == 4, "%d elements", len(v))
			for _, e := range v {
				lab.add(e)
			}
			k := fmt.Sprint(v[:3])
			c.Check(!seen[k], "two fresh vectors are the same: %s", k)
			seen[k] = true
			c.Evalf("%d", i)
		}
		// long vectors do not repeat themselves
		big := field.RandVector(t.N(3<<20, 40<<20) + 5)
		windows := make(map[[3]uint32]bool, len(big)/3)
		for i := 0; i+3 <= len(big); i += 3 {
			w := [3]uint32{big[i], big[i+1], big[i+2]}
			if windows[w] {
				c.Failf("a vector of %d elements repeats %v at %d", len(big), w, i)
			}
			windows[w] = true
		}
		c.Check(len(field.RandVector(0)) == 0, "a vector of no elements has some")
		if s := lab.judge(); s != "" {
			c.Failf("fresh elements: %s", s)
		}
	}, "fresh elements")
	t.Addf(func(c *C) {
		// a source that fails gives no elements
		for i := 0; i < 300; i++ {
			n := 1 + c.R.Intn(20)
			left := c.R.Intn(4 * n)
			for _, w := range ways[:2] {
				var v []uint32
				p := Panics(func() { v = w.f(&failReader{src: detReader{c.R}, left: left}, n) })
				c.Check(p != nil, "%s: %v is made from %d bytes", w.name, v, left)
				c.Evalf("%s %d %d", w.name, n, left)
			}
		}
	}, "failing source")
	t.Addf(func(c *C) {
		// the same from many goroutines
		key := seedKey("c18")
		want := field.RandVectorWithPRG(500, utils.NewPRG(key))
		var wg sync.WaitGroup
		bad := make(chan string, 64)
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50; i++ {
					if got := field.RandVectorWithPRG(500, utils.NewPRG(key)); !reflect.DeepEqual(got, want) {
						select {
						case bad <- "a vector differs when made concurrently":
						default:
						}
					}
				}
			}()
		}
		wg.Wait()
		select {
		case s := <-bad:
			c.Failf("%s", s)
		default:
		}
		c.Evalf("concurrent")
	}, "concurrent")
}
