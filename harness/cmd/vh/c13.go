package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
)

func init() {
	register("C13", &propDef{
		rule:     "an input length (every input for lengths of up to 10 bits; every single-bit change and random inputs for lengths up to 2400 bits), a point (including all zeros and all ones), a payload vector (1 to 40 elements; zeros, ones, the largest element, random ones); both servers evaluate their key. An evaluation is one input for which the sum of the shares is compared with the function; the monitor also checks that shares are canonical and counts their bits and the exclusive or of pairs of their bits against fair coins, over keys and over inputs; distinct by length, payload and input",
		minEvals: 20000,
		build:    buildC13,
	})
}

type fssPair struct {
	keys []fss.FssKeyEq2P
	pt   []bool
	pay  []uint32
	s    [2]*fss.Fss
	out  [2][]uint32
}

func newPair(c *C, cl *fss.Fss, s [2]*fss.Fss, pt []bool, pay []uint32) *fssPair {
	p := &fssPair{pt: pt, pay: pay, s: s}
	ptc := append([]bool{}, pt...)
	payc := append([]uint32{}, pay...)
	p.keys = cl.GenerateTreePF(pt, pay)
	c.Check(reflect.DeepEqual(ptc, pt) && reflect.DeepEqual(payc, pay), "key generation modifies its inputs")
	c.Check(len(p.keys) == 2, "%d keys", len(p.keys))
	for i := range p.out {
		p.out[i] = make([]uint32, len(pay))
		for _, f := range p.keys[i].FinalCW {
			c.Check(f < field.ModP, "the final word %d is not canonical", f)
		}
	}
	return p
}

func bitsString(x []bool) string {
	b := make([]byte, (len(x)+7)/8)
	for i, v := range x {
		if v {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return fmt.Sprintf("%d bits %x", len(x), b)
}

func sameBits(a, b []bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// eval checks the function at one input.
func (p *fssPair) eval(c *C, x []bool) {
	for i := range p.s {
		for j := range p.out[i] {
			p.out[i][j] = c.R.Uint32() // what was there does not matter
		}
		p.s[i].EvaluatePF(byte(i), p.keys[i], x, p.out[i])
	}
	at := sameBits(x, p.pt)
	for j := range p.pay {
		a, b := p.out[0][j], p.out[1][j]
		if a >= field.ModP || b >= field.ModP {
			c.Failf("point %s, payload %v, input %s: shares %d and %d of element %d are not canonical", bitsString(p.pt), p.pay, bitsString(x), a, b, j)
		}
		want := uint32(0)
		if at {
			want = p.pay[j]
		}
		if got := uint32((uint64(a) + uint64(b)) % uint64(field.ModP)); got != want {
			c.Failf("point %s, payload %v, input %s: shares %d and %d of element %d add up to %d instead of %d", bitsString(p.pt), p.pay, bitsString(x), a, b, j, got, want)
		}
	}
	if at {
		c.Obs("evaluations_at_the_point", 1)
	} else {
		c.Obs("evaluations_elsewhere", 1)
	}
}

func randomBits(c *C, n int) []bool {
	x := make([]bool, n)
	kind := c.R.Intn(6)
	for i := range x {
		switch kind {
		case 0:
		case 1:
			x[i] = true
		default:
			x[i] = c.R.Intn(2) == 1
		}
	}
	return x
}

func randomPayload(c *C, n int) []uint32 {
	p := make([]uint32, n)
	kind := c.R.Intn(6)
	for i := range p {
		switch kind {
		case 0:
			p[i] = 0
		case 1:
			p[i] = field.ModP - 1
		case 2:
			p[i] = 1
		default:
			p[i] = uint32(c.R.Int63n(int64(field.ModP)))
		}
	}
	if c.R.Intn(2) == 0 {
		p[0] = 1
	}
	return p
}

func buildC13(t *T) {
	plens := []int{1, 2, 3, 4, 5, 6, 8, 9, 12, 13, 15, 16, 17, 18, 20, 31, 32, 33, 40}
	servers := func(n int) [2]*fss.Fss { return [2]*fss.Fss{fss.ServerInitialize(n), fss.ServerInitialize(n)} }
	// all the inputs of short lengths
	for n := 1; n <= t.N(10, 13); n++ {
		n := n
		t.Addf(func(c *C) {
			for _, pl := range []int{1, 2, 5} {
				cl, s := fss.ClientInitialize(pl), servers(pl)
				pts := 1 << uint(n)
				if pts > 32 {
					pts = 32
				}
				for k := 0; k < pts; k++ {
					pv := k
					if pts == 32 {
						pv = c.R.Intn(1 << uint(n))
					}
					if k == pts-1 {
						pv = 1<<uint(n) - 1
					}
					at := func(v int) []bool {
						x := make([]bool, n)
						for i := range x {
							x[i] = v>>uint(n-1-i)&1 == 1
						}
						return x
					}
					p := newPair(c, cl, s, at(pv), randomPayload(c, pl))
					for v := 0; v < 1<<uint(n); v++ {
						p.eval(c, at(v))
						c.Evalf("%d/%d/%d", pl, pv, v)
					}
				}
			}
		}, "all inputs/%d bits", n)
	}
	// every change of a single bit; one client and one evaluator for many keys
	lens := []int{}
	for n := 11; n <= 140; n += t.N(3, 1) {
		lens = append(lens, n)
	}
	lens = append(lens, 160, 192, 200, 247, 248, 255, 256, 257, 263, 264, 265, 288, 300, 320, 383, 384, 400, 500, 511, 512, 513, 600, 768, 1000, 1024, 1600, 2040, 2048, 2056, 2400)
	for _, n := range lens {
		n := n
		t.Addf(func(c *C) {
			for r := 0; r < t.N(2, 12); r++ {
				pl := plens[c.R.Intn(len(plens))]
				if r == 0 {
					pl = 5
				}
				cl, s := fss.ClientInitialize(pl), servers(pl)
				p := newPair(c, cl, s, randomBits(c, n), randomPayload(c, pl))
				x := append([]bool{}, p.pt...)
				p.eval(c, x)
				step := 1
				if n > 600 && !t.Thorough {
					step = 1 + c.R.Intn(4)
				}
				for i := 0; i < n; i += step {
					x[i] = !x[i]
					p.eval(c, x)
					x[i] = !x[i]
					c.Evalf("%d/%d", r, i)
				}
				for i := 0; i < 20; i++ {
					// several bits
					for k := 0; k < 2+c.R.Intn(4); k++ {
						j := c.R.Intn(n)
						x[j] = !x[j]
					}
					p.eval(c, x)
					p.eval(c, randomBits(c, n))
					c.Evalf("%d/several/%d", r, i)
				}
				p.eval(c, p.pt)
			}
		}, "single bits/%d", n)
	}
	// payload vectors of all lengths, clients and evaluators that are reused
	for _, pl := range plens {
		pl := pl
		t.Addf(func(c *C) {
			cl, s := fss.ClientInitialize(pl), servers(pl)
			var old []*fssPair
			for r := 0; r < t.N(60, 600); r++ {
				n := 1 + c.R.Intn(300)
				p := newPair(c, cl, s, randomBits(c, n), randomPayload(c, pl))
				k0 := fmt.Sprint(p.keys)
				p.eval(c, p.pt)
				for i := 0; i < 5; i++ {
					p.eval(c, randomBits(c, n))
				}
				c.Check(k0 == fmt.Sprint(p.keys), "an evaluation modifies the key")
				old = append(old, p)
				// former keys still work
				q := old[c.R.Intn(len(old))]
				q.eval(c, q.pt)
				q.eval(c, randomBits(c, len(q.pt)))
				c.Evalf("%d", r)
			}
		}, "payload/%d", pl)
	}
	// shares look random
	for _, cs := range []struct{ n, pl int }{{1, 5}, {8, 1}, {8, 5}, {32, 2}, {120, 5}, {300, 20}, {64, 40}} {
		cs := cs
		t.Addf(func(c *C) {
			n, pl := cs.n, cs.pl
			cl, s := fss.ClientInitialize(pl), servers(pl)
			pt, pay := randomBits(c, n), randomPayload(c, pl)
			elsewhere := append([]bool{}, pt...)
			elsewhere[n-1] = !elsewhere[n-1]
			flat := func(v []uint32) []byte {
				var b []byte
				for _, e := range v {
					b = binary.BigEndian.AppendUint32(b, e)
				}
				return b
			}
			var labs [2][2]*bitLab
			same := 0
			for i := range labs {
				for j := range labs[i] {
					labs[i][j] = newLab(c.R, 4*pl, 2500)
				}
			}
			samples := t.N(2000, 40000)
			for k := 0; k < samples; k++ {
				p := newPair(c, cl, s, pt, pay)
				for j, x := range [][]bool{pt, elsewhere} {
					p.eval(c, x)
					for i := range p.out {
						labs[i][j].add(flat(p.out[i]))
						for a := range p.out[i] {
							if p.out[i][a] == 0 {
								same++
							}
							for b := 0; b < a; b++ {
								if p.out[i][a] == p.out[i][b] {
									same++
								}
							}
						}
					}
				}
				c.Evalf("%d", k)
			}
			for i := range labs {
				for j := range labs[i] {
					if bad := labs[i][j].judge(true); bad != "" {
						c.Failf("%d bits, %d elements: the share of server %d (input %d) does not look random: %s", n, pl, i, j, bad)
					}
					for bit, cnt := range labs[i][j].cnt {
						if (cnt == 0 || cnt == samples) && bit%32 != 7 { // the top bit of an element
							c.Failf("%d bits, %d elements: bit %d of the share of server %d is constant", n, pl, bit, i)
						}
					}
				}
				if bad := labs[i][0].differs(labs[i][1]); bad != "" {
					c.Failf("%d bits, %d elements: the share of server %d tells the point apart: %s", n, pl, i, bad)
				}
			}
			limit := 8 + float64(samples*4*pl*(pl+1)/2)/math.Pow(2, 31)*4
			if float64(same) > limit {
				c.Failf("%d bits, %d elements: %d shares are zero or equal to others of the vector", n, pl, same)
			}
			// the shares of one key at many inputs
			if n >= 32 {
				lab := newLab(c.R, 4*pl, 800)
				p := newPair(c, cl, s, pt, pay)
				seen := map[uint32]int{}
				rep := 0
				m := 1500
				for k := 0; k < m; k++ {
					x := append([]bool{}, pt...)
					for i := range x {
						x[i] = c.R.Intn(2) == 1
					}
					p.eval(c, x)
					lab.add(flat(p.out[0]))
					for _, e := range p.out[0] {
						if seen[e] > 0 {
							rep++
						}
						seen[e]++
					}
				}
				if bad := lab.judge(true); bad != "" {
					c.Failf("%d bits, %d elements: the shares of a server at many inputs do not look random: %s", n, pl, bad)
				}
				if e := float64(m*pl) * float64(m*pl) / math.Pow(2, 32); float64(rep) > 8+4*e {
					c.Failf("%d bits, %d elements: %d shares of a server repeat", n, pl, rep)
				}
			}
		}, "random shares/%d/%d", cs.n, cs.pl)
	}
}
