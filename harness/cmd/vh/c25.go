package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"sync"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"
)

func init() {
	register("C25", &propDef{
		build: buildC25,
		jobs:  3, // they all wait for the same generator
		rule: "samples of the noise: of the sampler, of noise matrices of both moduli and many shapes, made by one or many goroutines and processes, and as it is in " +
			"real queries (recovered as the difference of two queries with the same secret, and from queries with a zero secret). Each sample is judged by a chi-square against the " +
			"discrete Gaussian of width 6.4 computed here, and for its mean, width, symmetry and the independence of coordinates. An evaluation is one noise value; distinct ones are counted by kind of sample, value and coordinate",
		assume:   []string{"the limit of every statistical test is a deviation with a probability of about 10^-12", "tails beyond about 5 widths are merged"},
		minEvals: 100000,
	})
}

const gaussSigma = 6.4
const gaussMax = 200

// gaussPMF of the discrete Gaussian, for -gaussMax..gaussMax.
var gaussPMF = func() []float64 {
	p := make([]float64, 2*gaussMax+1)
	s := 0.0
	for i := range p {
		x := float64(i - gaussMax)
		p[i] = math.Exp(-x * x / (2 * gaussSigma * gaussSigma))
		s += p[i]
	}
	for i := range p {
		p[i] /= s
	}
	return p
}()

// gaussDiffPMF is that of the difference of two.
var gaussDiffPMF = func() []float64 {
	p := make([]float64, 4*gaussMax+1)
	for i, a := range gaussPMF {
		for j, b := range gaussPMF {
			p[i-j+2*gaussMax] += a * b
		}
	}
	return p
}()

// noiseLab judges a sample of noise. Values of one vector are given together.
type noiseLab struct {
	what   string
	pmf    []float64
	max    int
	counts []int
	n      int
	sum    float64
	sq     float64
	byCo   map[int][3]float64 // coordinate: count, sum, squares
	joint  map[int][]int      // lag: counts of pairs of classes
	prev   []int64
	vecs   map[string]bool
}

// the classes of values for joint distributions
const noiseClasses = 8

func newNoiseLab(what string, pmf []float64) *noiseLab {
	return &noiseLab{what: what, pmf: pmf, max: (len(pmf) - 1) / 2, counts: make([]int, len(pmf)),
		byCo: map[int][3]float64{}, joint: map[int][]int{}, vecs: map[string]bool{}}
}

// class: sign and size of a value, roughly equally likely
func (l *noiseLab) class(v int64) int {
	s := gaussSigma
	if l.max != gaussMax {
		s *= math.Sqrt2
	}
	a := math.Abs(float64(v)) / s
	k := 0
	switch {
	case a < 0.33:
	case a < 0.7:
		k = 1
	case a < 1.2:
		k = 2
	default:
		k = 3
	}
	if v < 0 {
		return 4 + k
	}
	return k
}

func (l *noiseLab) pair(lag int, a, b int64) {
	m := l.joint[lag]
	if m == nil {
		m = make([]int, noiseClasses*noiseClasses)
		l.joint[lag] = m
	}
	m[l.class(a)*noiseClasses+l.class(b)]++
}

func (l *noiseLab) add(c *C, v []int64) {
	for i, x := range v {
		if x < -int64(l.max) || x > int64(l.max) {
			c.Failf("%s: a noise of %d", l.what, x)
		}
		l.counts[x+int64(l.max)]++
		l.n++
		l.sum += float64(x)
		l.sq += float64(x) * float64(x)
		e := l.byCo[i]
		e[0]++
		e[1] += float64(x)
		e[2] += float64(x) * float64(x)
		l.byCo[i] = e
		for _, lag := range []int{1, 2, 3} {
			if i >= lag {
				l.pair(lag, v[i-lag], x)
			}
		}
		if i < len(l.prev) { // the same coordinate of the previous vector
			l.pair(0, l.prev[i], x)
		}
	}
	if len(v) >= 16 {
		k := fmt.Sprint(v)
		c.Check(!l.vecs[k], "%s: the same noise twice: %s", l.what, clip(k, 200))
		l.vecs[k] = true
	}
	l.prev = v
}

func (l *noiseLab) judge(c *C) {
	n := float64(l.n)
	va, m4 := 0.0, 0.0
	classP := make([]float64, noiseClasses)
	for i, p := range l.pmf {
		x := float64(i - l.max)
		va += p * x * x
		m4 += p * x * x * x * x
		classP[l.class(int64(i-l.max))] += p
	}
	check := func(z float64, format string, a ...interface{}) {
		if math.Abs(z) > zLimit {
			c.Failf("%s: %s, %.1f standard deviations away in %d values", l.what, fmt.Sprintf(format, a...), z, l.n)
		}
	}
	check(l.sum/n/math.Sqrt(va/n), "mean %.4f", l.sum/n)
	check((l.sq/n-va)/math.Sqrt((m4-va*va)/n), "mean square %.4f instead of %.4f", l.sq/n, va)
	for co, e := range l.byCo {
		check(e[1]/math.Sqrt(va*e[0]), "mean %.4f of coordinate %d", e[1]/e[0], co)
		if e[0] > 100 {
			check((e[2]/e[0]-va)/math.Sqrt((m4-va*va)/e[0]), "mean square %.4f of coordinate %d instead of %.4f", e[2]/e[0], co, va)
		}
	}
	// the whole distribution, with the tails merged
	var obs []int
	var exp []float64
	lo, hi := 0, len(l.pmf)-1
	for l.pmf[lo]*n < 25 {
		lo++
	}
	for l.pmf[hi]*n < 25 {
		hi--
	}
	to, te := [2]int{}, [2]float64{}
	for i := range l.pmf {
		switch {
		case i < lo:
			to[0] += l.counts[i]
			te[0] += l.pmf[i] * n
		case i > hi:
			to[1] += l.counts[i]
			te[1] += l.pmf[i] * n
		default:
			obs = append(obs, l.counts[i])
			exp = append(exp, l.pmf[i]*n)
		}
	}
	obs = append(obs, to[0], to[1])
	exp = append(exp, te[0], te[1])
	if z := chi2z(obs, exp); z > zLimit {
		worst, at := 0.0, 0
		for i := lo; i <= hi; i++ {
			if d := math.Abs(float64(l.counts[i])-l.pmf[i]*n) / math.Sqrt(l.pmf[i]*n); d > worst {
				worst, at = d, i
			}
		}
		c.Failf("%s: the distribution of %d values is not the discrete Gaussian (deviation %.1f), most at %d: %d values instead of %.1f", l.what, l.n, z, at-l.max, l.counts[at], l.pmf[at]*n)
	}
	// how many values are far from zero
	far, p := 0, 0.0
	for k := l.max; k > 0; k-- {
		far += l.counts[l.max+k] + l.counts[l.max-k]
		p += l.pmf[l.max+k] + l.pmf[l.max-k]
		if e := p * n; e > 1e-6 && poissonTail(far, e) < 1e-14 {
			c.Failf("%s: %d of %d values are %d or more away from zero, instead of %.2f", l.what, far, l.n, k, e)
		}
	}
	for k := 1; k <= l.max; k++ { // symmetry
		a, b := l.counts[l.max+k], l.counts[l.max-k]
		if a+b > 100 {
			check(fairZ(a, a+b), "%d times %d but %d times %d", a, k, b, -k)
		}
	}
	for lag, m := range l.joint {
		tot := 0
		for _, x := range m {
			tot += x
		}
		if tot < 2000 {
			continue
		}
		// in the differences of three consecutive queries neighbours share a term
		if lag == 0 && l.max != gaussMax {
			continue
		}
		exp := make([]float64, len(m))
		for i := range exp {
			exp[i] = classP[i/noiseClasses] * classP[i%noiseClasses] * float64(tot)
		}
		if z := chi2z(m, exp); z > zLimit {
			c.Failf("%s: values %d coordinates apart (0: of successive vectors) are not independent (deviation %.1f in %d pairs)", l.what, lag, z, tot)
		}
	}
	for i, x := range l.counts {
		if x > 0 {
			c.Evalf("%s|%d", l.what, i-l.max)
		}
	}
	for co := range l.byCo {
		c.Evalf("%s|coordinate %d", l.what, co)
	}
	c.t.mu.Lock()
	c.t.evals += int64(l.n)
	c.t.mu.Unlock()
	c.Obs("noise_values", l.n)
	c.Sample("%s: %d values, mean %.4f, width %.4f", l.what, l.n, l.sum/n, math.Sqrt(l.sq/n))
}

// poissonTail bounds the probability of a Poisson variable to be as far from its
// mean as k is.
func poissonTail(k int, mean float64) float64 {
	x := float64(k)
	if k == 0 {
		return math.Exp(-mean)
	}
	// Chernoff
	return math.Exp(x - mean - x*math.Log(x/mean))
}

// signed32 and signed128 of an element.
func signed128(c *C, v uint128.Uint128) int64 {
	if v.Hi == 0 && v.Lo < 1<<62 {
		return int64(v.Lo)
	}
	w := uint128.Zero.SubWrap(v)
	if w.Hi != 0 || w.Lo >= 1<<62 {
		c.Failf("a noise of %v", v)
	}
	return -int64(w.Lo)
}

// zeroSecret delivers zeros when asked for much, as for a secret.
type zeroSecret struct{ src io.Reader }

func (z zeroSecret) Read(p []byte) (int, error) {
	if len(p) > 64 {
		for i := range p {
			p[i] = 0
		}
		return len(p), nil
	}
	return z.src.Read(p)
}

// rewindReader delivers the same bytes again after reset.
type rewindReader struct {
	seed int64
	src  io.Reader
}

func (r *rewindReader) reset()                     { r.src = detReader{newRand(r.seed)} }
func (r *rewindReader) Read(p []byte) (int, error) { return r.src.Read(p) }

func init() {
	// the noise of another process
	helpers["gauss"] = func(args []string) {
		n, _ := strconv.Atoi(args[0])
		w := bufio.NewWriter(os.Stdout)
		for i := 0; i < n; i++ {
			binary.Write(w, binary.LittleEndian, utils.GaussSample())
		}
		w.Flush()
	}
}

func buildC25(t *T) {
	total := t.N(900000, 6000000)

	for w := 0; w < t.N(1, 2); w++ {
		t.Addf(func(c *C) {
			l := newNoiseLab("sampler", gaussPMF)
			v := make([]int64, 0, 64)
			for l.n < 3*total {
				v = make([]int64, 64)
				for i := range v {
					v[i] = utils.GaussSample()
				}
				l.add(c, v)
				l.vecs = map[string]bool{} // too many to remember
			}
			l.judge(c)
		}, "the sampler, part %d", w)
	}

	t.Addf(func(c *C) {
		l := newNoiseLab("sampler in many goroutines", gaussPMF)
		const par = 16
		per := total / 4 / par
		got := make([][]int64, par)
		var wg sync.WaitGroup
		for g := 0; g < par; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				v := make([]int64, per)
				for i := range v {
					v[i] = utils.GaussSample()
				}
				got[g] = v
			}(g)
		}
		wg.Wait()
		// at most by chance the same sequence
		seen := map[string]bool{}
		for _, v := range got {
			for i := 0; i+20 <= len(v); i += 20 {
				k := fmt.Sprint(v[i : i+20])
				c.Check(!seen[k], "the goroutines get the same noise: %s", k)
				seen[k] = true
			}
		}
		for i := 0; i < per; i++ {
			row := make([]int64, par)
			for g := range row {
				row[g] = got[g][i]
			}
			l.add(c, row)
			l.vecs = map[string]bool{}
		}
		l.judge(c)
	}, "the sampler in many goroutines")

	t.Addf(func(c *C) {
		exe, err := os.Executable()
		must(err)
		const procs = 6
		n := 20000
		got := make([][]int64, procs)
		var wg sync.WaitGroup
		for p := 0; p < procs; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				b, err := exec.Command(exe, "-helper", "gauss", strconv.Itoa(n)).Output()
				if err != nil || len(b) != 8*n {
					return
				}
				v := make([]int64, n)
				for i := range v {
					v[i] = int64(binary.LittleEndian.Uint64(b[8*i:]))
				}
				got[p] = v
			}(p)
		}
		wg.Wait()
		l := newNoiseLab("sampler in other processes", gaussPMF)
		for i := 0; i < n; i++ {
			row := make([]int64, procs)
			for p := range row {
				if got[p] == nil {
					c.Inconclusive("a process gave no noise")
				}
				row[p] = got[p][i]
			}
			l.add(c, row)
		}
		for p := range got {
			for q := 0; q < p; q++ {
				same := 0
				for i := 0; i < 200; i++ {
					if got[p][i] == got[q][i] {
						same++
					}
				}
				c.Check(same < 100, "two processes have the same noise")
			}
		}
		l.judge(c)
	}, "the sampler in several processes")

	shapes := [][2]int{{1, 1}, {1, 2}, {1, 17}, {1, 64}, {1, 1000}, {2, 1}, {3, 5}, {40, 40}, {64, 1}}
	for _, sh := range shapes {
		r, co := sh[0], sh[1]
		for _, bits := range []int{32, 128} {
			bits := bits
			t.Addf(func(c *C) {
				l := newNoiseLab(fmt.Sprintf("%d-bit noise matrices of %dx%d", bits, r, co), gaussPMF)
				for l.n < total/12 {
					v := make([]int64, 0, r*co)
					if bits == 32 {
						m := matrix.NewGauss(r, co)
						c.Check(m.Rows() == r && m.Cols() == co, "a noise matrix of %dx%d instead of %dx%d", m.Rows(), m.Cols(), r, co)
						for i := 0; i < r; i++ {
							for j := 0; j < co; j++ {
								v = append(v, int64(int32(m.Get(i, j))))
							}
						}
					} else {
						m := matrix.NewGauss128(r, co)
						c.Check(m.Rows() == r && m.Cols() == co, "a noise matrix of %dx%d instead of %dx%d", m.Rows(), m.Cols(), r, co)
						for i := 0; i < r; i++ {
							for j := 0; j < co; j++ {
								v = append(v, signed128(c, m.Get(i, j)))
							}
						}
					}
					l.add(c, v)
					if r*co < 40 {
						l.vecs = map[string]bool{}
					}
				}
				l.judge(c)
			}, "%d-bit noise matrices of %dx%d", bits, r, co)
		}
	}

	// large matrices, whose ends are watched on their own
	large := [][2]int{{1, 4099}, {7, 1153}, {1, 16421}, {1031, 67}}
	if t.Thorough {
		large = append(large, [2]int{1, 300007}, [2]int{2049, 1025}, [2]int{1, 1<<20 + 13})
	}
	for _, sh := range large {
		r, co := sh[0], sh[1]
		for _, width := range []int{32, 128} {
			width := width
			t.Addf(func(c *C) {
				ends := newNoiseLab(fmt.Sprintf("ends of %d-bit noise matrices of %dx%d", width, r, co), gaussPMF)
				all := newNoiseLab(fmt.Sprintf("%d-bit noise matrices of %dx%d", width, r, co), gaussPMF)
				n := r * co
				for k, m := 0, 1+t.N(900000, 8000000)/n; k < m; k++ {
					var get func(i, j int) int64
					if width == 32 {
						m := matrix.NewGauss(r, co)
						get = func(i, j int) int64 { return int64(int32(m.Get(i, j))) }
					} else {
						m := matrix.NewGauss128(r, co)
						get = func(i, j int) int64 { return signed128(c, m.Get(i, j)) }
					}
					zeros, first := 0, make([]int64, 0, 32)
					for p := 0; p < n; p++ {
						x := get(p/co, p%co)
						if zeros++; x != 0 {
							zeros = 0
						}
						c.Check(zeros < 15, "a %d-bit noise matrix of %dx%d: no noise up to element %d", width, r, co, p)
						if p < 16 || p >= n-16 {
							first = append(first, x)
						}
					}
					ends.add(c, first)
					for p := 0; p+64 <= n && p < 64*40; p += 64 {
						v, o := make([]int64, 64), 0
						if k%4 != 0 { // anywhere
							o = c.R.Intn(n-63) - p
						}
						for i := range v {
							v[i] = get((p+o+i)/co, (p+o+i)%co)
						}
						if k%4 == 0 {
							all.add(c, v)
							all.vecs = map[string]bool{}
						} else if p == 0 {
							all.add(c, v)
						}
					}
				}
				if ends.n > 600 {
					ends.judge(c)
					all.judge(c)
				}
			}, "large %d-bit noise matrices of %dx%d", width, r, co)
		}
	}

	// the noise of real queries
	type lq struct {
		kind  string
		rows  int
		quick int
	}
	for _, q := range []lq{{"lwe", 40, 1500}, {"lwe", 3, 4000}, {"amplify", 40, 300}, {"lwe128", 12, 60}} {
		q := q
		for _, zero := range []bool{false, true} {
			zero := zero
			t.Addf(func(c *C) {
				n := q.quick * t.N(1, 8)
				info := &database.Info{NumRows: q.rows, NumColumns: 2, BlockSize: 1, Auth: &database.Auth{}}
				rw := &rewindReader{seed: c.R.Int63()}
				rw.reset()
				var rnd io.Reader = rw
				if zero {
					rnd = zeroSecret{detReader{newRand(c.R.Int63())}}
				}
				var query func(pos int) [][]uint128.Uint128
				row32 := func(m *matrix.Matrix) []uint128.Uint128 {
					var v []uint128.Uint128
					for i := 0; i < m.Cols(); i++ {
						v = append(v, uint128.From64(uint64(m.Get(0, i))))
					}
					return v
				}
				switch q.kind {
				case "lwe":
					cl := client.NewLWE(rnd, info, utils.ParamsWithDatabaseSize(q.rows, 2))
					query = func(pos int) [][]uint128.Uint128 {
						b, err := cl.QueryBytes(pos)
						c.Must(err, "query")
						return [][]uint128.Uint128{row32(matrix.BytesToMatrix(b))}
					}
				case "amplify":
					cl := client.NewAmplify(rnd, info, utils.ParamsWithDatabaseSize(q.rows, 2), 2)
					query = func(pos int) (out [][]uint128.Uint128) {
						b, err := cl.QueryBytes(pos)
						c.Must(err, "query")
						for _, m := range matrix.BytesToMatrices(b) {
							out = append(out, row32(m))
						}
						return
					}
				default:
					cl := client.NewLWE128(rnd, info, utils.ParamsWithDatabaseSize128(q.rows, 2))
					query = func(pos int) [][]uint128.Uint128 {
						b, err := cl.QueryBytes(pos)
						c.Must(err, "query")
						m := matrix.BytesToMatrix128(b)
						var v []uint128.Uint128
						for i := 0; i < m.Cols(); i++ {
							v = append(v, m.Get(0, i))
						}
						return [][]uint128.Uint128{v}
					}
				}
				diff := func(a, b uint128.Uint128) int64 {
					d := a.SubWrap(b)
					if q.kind == "lwe128" {
						return signed128(c, d)
					}
					return int64(int32(uint32(d.Lo)))
				}
				if zero {
					// the secret is zero: the query is the noise, but in the row that was asked for
					l := newNoiseLab(q.kind+" queries with a zero secret", gaussPMF)
					for k := 0; k < n; k++ {
						row := c.R.Intn(q.rows)
						for _, v := range query(2 * row) {
							var e []int64
							for i := range v {
								if i == row {
									continue
								}
								x := v[i]
								if q.kind != "lwe128" {
									x = uint128.From64(x.Lo) // sign below
									e = append(e, int64(int32(uint32(x.Lo))))
									continue
								}
								if !(x.Hi == 0 || x.Hi == math.MaxUint64) {
									c.Obs("secrets_not_zeroed", 1)
									return // the randomness is used in another way: nothing to observe
								}
								e = append(e, signed128(c, x))
							}
							for _, x := range e {
								if x > 1<<20 || x < -(1<<20) {
									c.Obs("secrets_not_zeroed", 1)
									return
								}
							}
							l.add(c, e)
							if q.rows < 16 {
								l.vecs = map[string]bool{}
							}
						}
						c.Obs("queries_observed", 1)
					}
					l.judge(c)
					return
				}
				l := newNoiseLab("differences of "+q.kind+" queries with the same secret", gaussDiffPMF)
				for k := 0; k < n; k++ {
					pos := c.R.Intn(2 * q.rows)
					rw.seed = c.R.Int63()
					rw.reset()
					a := query(pos)
					rw.reset()
					b := query(pos)
					c.Check(len(a) == len(b), "%d repetitions, then %d", len(a), len(b))
					for j := range a {
						c.Check(len(a[j]) == q.rows && len(b[j]) == q.rows, "queries of %d and %d elements", len(a[j]), len(b[j]))
						e := make([]int64, q.rows)
						for i := range e {
							e[i] = diff(a[j][i], b[j][i])
						}
						l.add(c, e)
						l.prev = nil
						if q.rows < 16 {
							l.vecs = map[string]bool{}
						}
					}
					c.Obs("queries_observed", 2)
				}
				l.judge(c)
			}, "noise of %s queries of %d rows, secret zero: %v", q.kind, q.rows, zero)
		}
	}
}
