package main

import (
	"fmt"
	"math"
	"math/rand"
)

// bitLab counts the bits, and the exclusive or of pairs of bits, of a sample
// of byte strings of one length.
type bitLab struct {
	n, size int
	cnt     []int
	pairs   [][2]int
	pcnt    []int
	ncorr   int
}

func newLab(r *rand.Rand, size, npairs int) *bitLab {
	l := &bitLab{size: size, cnt: make([]int, 8*size)}
	if size == 0 {
		return l
	}
	if all := 8 * size * (8*size - 1) / 2; all <= npairs {
		for i := 0; i < 8*size; i++ {
			for j := 0; j < i; j++ {
				l.pairs = append(l.pairs, [2]int{i, j})
			}
		}
	} else {
		for len(l.pairs) < npairs {
			i, j := r.Intn(8*size), r.Intn(8*size)
			if len(l.pairs)%4 == 0 { // the same bit of two bytes
				j = j/8*8 + i%8
			}
			if len(l.pairs)%4 == 1 { // neighbours
				j = (i + 8*[]int{1, 2, 4, 8, 16, 18, 32}[r.Intn(7)]) % (8 * size)
			}
			if i != j {
				l.pairs = append(l.pairs, [2]int{i, j})
			}
		}
	}
	l.pcnt = make([]int, len(l.pairs))
	return l
}

func bitAt(b []byte, i int) byte { return b[i/8] >> uint(i%8) & 1 }

func (l *bitLab) add(b []byte) {
	l.n++
	for i, v := range b {
		for k := 0; v != 0; k, v = k+1, v>>1 {
			if v&1 == 1 {
				l.cnt[8*i+k]++
			}
		}
	}
	for i, p := range l.pairs {
		if bitAt(b, p[0]) != bitAt(b, p[1]) {
			l.pcnt[i]++
		}
	}
}

// zLimit is exceeded by a fair coin with a probability of 10^-13 or so.
const zLimit = 7.5

func fairZ(cnt, n int) float64 {
	return (float64(cnt) - float64(n)/2) / math.Sqrt(float64(n)/4)
}

// judge returns what distinguishes a sample from fair bits. Bits and pairs may
// also be constant if allowed.
func (l *bitLab) judge(constants bool) string {
	for i, cnt := range l.cnt {
		if constants && (cnt == 0 || cnt == l.n) {
			continue
		}
		if math.Abs(fairZ(cnt, l.n)) > zLimit {
			return fmt.Sprintf("bit %d of byte %d is set in %d of %d queries", i%8, i/8, cnt, l.n)
		}
	}
	for i, cnt := range l.pcnt {
		p := l.pairs[i]
		if constants {
			a, b := l.cnt[p[0]], l.cnt[p[1]]
			if a == 0 || a == l.n || b == 0 || b == l.n {
				continue
			}
		}
		if math.Abs(fairZ(cnt, l.n)) > zLimit {
			return fmt.Sprintf("bit %d of byte %d and bit %d of byte %d differ in %d of %d queries", p[0]%8, p[0]/8, p[1]%8, p[1]/8, cnt, l.n)
		}
	}
	return ""
}

// differs returns what distinguishes two samples.
func (l *bitLab) differs(o *bitLab) string {
	if l.size != o.size {
		return fmt.Sprintf("sizes of %d and %d bytes", l.size, o.size)
	}
	two := func(a, b int) bool {
		p := float64(a+b) / float64(l.n+o.n)
		v := p * (1 - p) * (1/float64(l.n) + 1/float64(o.n))
		if v == 0 {
			return false
		}
		return math.Abs(float64(a)/float64(l.n)-float64(b)/float64(o.n))/math.Sqrt(v) > zLimit
	}
	for i := range l.cnt {
		if two(l.cnt[i], o.cnt[i]) {
			return fmt.Sprintf("bit %d of byte %d is set in %d of %d and in %d of %d queries", i%8, i/8, l.cnt[i], l.n, o.cnt[i], o.n)
		}
	}
	return ""
}

func xorBytes(a, b []byte) []byte {
	out := make([]byte, len(a))
	for i := range a {
		out[i] = a[i] ^ b[i]
	}
	return out
}

// chi2 of observed counts against expected ones, as a normal deviate.
func chi2z(obs []int, exp []float64) float64 {
	x, df := 0.0, -1.0
	for i := range obs {
		if exp[i] < 5 {
			continue
		}
		d := float64(obs[i]) - exp[i]
		x += d * d / exp[i]
		df++
	}
	if df < 1 {
		return 0
	}
	// Wilson-Hilferty
	return (math.Cbrt(x/df) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
}
