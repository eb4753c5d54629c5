package main

import (
	"fmt"
	mrand "math/rand"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/ecc"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C14", &propDef{
		rule:     "every received word of up to 7 symbols over a small alphabet (exhaustively), every pattern of at most t altered positions for t up to 4 and random ones for t up to 50, with altered symbols that agree, differ, or imitate other values, compared with counting; and amplified lookups in which up to t repetitions are answered from a database with another content, which return the majority. An evaluation is one decoded word; distinct by word",
		minEvals: 50000,
		build:    buildC14,
	})
}

// majority counts.
func majority(w []uint32) (uint32, bool) {
	n := map[uint32]int{}
	for _, s := range w {
		n[s]++
		if 2*n[s] > len(w) {
			return s, true
		}
	}
	return 0, false
}

func decodeCheck(c *C, code *ecc.ECC, w []uint32) {
	orig := append([]uint32{}, w...)
	want, ok := majority(w)
	got, err := code.Decode(w)
	if ok && (err != nil || got != want) {
		c.Failf("%v decodes to %d, %v instead of %d", orig, got, err, want)
	}
	if !ok && err == nil {
		c.Failf("%v has no majority, but decodes to %d", orig, got)
	}
	c.Check(fmt.Sprint(orig) == fmt.Sprint(w), "decoding modifies the word %v", orig)
	c.Evalf("%v", orig)
	if ok {
		c.Obs("words_with_a_majority", 1)
	} else {
		c.Obs("words_without", 1)
	}
}

func buildC14(t *T) {
	// every word
	for tt := 0; tt <= 3; tt++ {
		for alpha := 2; alpha <= 5; alpha++ {
			tt, alpha := tt, alpha
			n := 2*tt + 1
			t.Addf(func(c *C) {
				code := ecc.New(tt)
				sets := [][]uint32{{0, 1, 2, 3, 4}, {1, 0, 1 << 31, 1<<32 - 1, 1 << 16}, {7, 8, 9, 0, 1}}
				for _, set := range sets {
					total := 1
					for i := 0; i < n; i++ {
						total *= alpha
					}
					for v := 0; v < total; v++ {
						w := make([]uint32, n)
						for i, x := 0, v; i < n; i, x = i+1, x/alpha {
							w[i] = set[x%alpha]
						}
						decodeCheck(c, code, w)
					}
				}
			}, "all words/%d/%d", n, alpha)
		}
	}
	// encoded, altered, decoded
	ts := []int{63, 64, 65, 100, 126, 127, 128, 129, 150, 200, 255, 256, 257, 500, 1000, 5000, 32767, 32768, 40000, 70000}
	for tt := 0; tt <= 50; tt++ {
		ts = append(ts, tt)
	}
	for _, tt := range ts {
		tt := tt
		t.Addf(func(c *C) {
			code := ecc.New(tt)
			n := 2*tt + 1
			symbols := []uint32{0, 1, 2, 1<<32 - 1, 1 << 31, c.R.Uint32()}
			for _, s := range symbols {
				w := code.Encode(s)
				c.Check(len(w) == n, "the code word of %d for t=%d has %d symbols", s, tt, len(w))
				for _, x := range w {
					c.Check(x == s, "the code word of %d for t=%d is %v", s, tt, w)
				}
				alter := func(pos []int, how int) {
					v := append([]uint32{}, w...)
					other := symbols[c.R.Intn(len(symbols))]
					if other == s {
						other++
					}
					for i, p := range pos {
						switch how {
						case 0:
							v[p] = other
						case 1:
							v[p] = s + 1 + uint32(i)
						case 2:
							v[p] = s ^ 1<<uint(c.R.Intn(32))
						case 3:
							v[p] = c.R.Uint32()
						}
					}
					decodeCheck(c, code, v)
				}
				if tt <= 4 {
					for m := 0; m < 1<<uint(n); m++ {
						var pos []int
						for i := 0; i < n; i++ {
							if m>>uint(i)&1 == 1 {
								pos = append(pos, i)
							}
						}
						if len(pos) <= tt+1 {
							for how := 0; how < 4; how++ {
								alter(pos, how)
							}
						}
					}
				} else {
					rounds := t.N(30, 500)
					if tt > 1000 {
						rounds = t.N(8, 30)
					}
					for r := 0; r < rounds; r++ {
						k := c.R.Intn(tt + 3)
						if r%3 == 0 {
							k = tt
						}
						perm := c.R.Perm(n)
						pos := perm[:k]
						if r%5 == 0 { // the first ones
							for i := range pos {
								pos[i] = i
							}
						}
						if r%5 == 1 { // the last ones
							for i := range pos {
								pos[i] = n - 1 - i
							}
						}
						alter(pos, r%4)
					}
				}
			}
		}, "altered/%d", tt)
	}
	// words of other lengths
	t.Addf(func(c *C) {
		for n := 0; n < 12; n++ {
			for r := 0; r < 300; r++ {
				w := make([]uint32, n)
				for i := range w {
					w[i] = uint32(c.R.Intn(3))
				}
				decodeCheck(c, ecc.New(c.R.Intn(5)), w)
			}
		}
	}, "other lengths")
	// the amplified lookup returns the majority of its repetitions
	for _, tt := range []int{0, 1, 2, 3, 8, 40, 130} {
		for r := 0; r < t.N(6, 60); r++ {
			if tt > 3 && r >= t.N(1, 6) {
				break
			}
			tt, r := tt, r
			t.Addf(func(c *C) {
				rows, cols := 2+c.R.Intn(6), 1+c.R.Intn(6)
				n := 2*tt + 1
				cells := randomCells(c, rows*cols, "random")
				db := lweDB(rows, cols, cells)
				params := utils.ParamsWithDatabaseSize(rows, cols)
				cl := client.NewAmplify(detReader{c.R}, &db.Info, params, tt)
				honest := server.NewAmplify(db)
				for i := range cells {
					qs := cl.Query(i/cols, i%cols)
					c.Check(len(qs) == n, "%d repetitions instead of %d", len(qs), n)
					as := honest.Answer(qs)
					// the masks: the difference between the answers to a query with
					// and without the column is the mask, which the monitor gets from
					// the client's acceptance only
					v, err := cl.Reconstruct(as)
					c.Must(err, "reconstruct")
					c.Check(v == uint32(cells[i]), "position %d: %d instead of %d", i, v, cells[i])
					c.Evalf("honest/%d", i)
					c.Obs("amplified_lookups", 1)
				}
				// some repetitions return the other bit: the monitor knows the
				// masks, because a client with the same randomness asks for
				// another row
				for k := 0; k < 8; k++ {
					seed := c.R.Int63()
					row, col := c.R.Intn(rows), c.R.Intn(cols)
					mk := func() *client.Amplify {
						return client.NewAmplify(detReader{mrand.New(mrand.NewSource(seed))}, &db.Info, params, tt)
					}
					cl := mk()
					qs := cl.Query(row, col)
					ref := mk().Query((row+1)%rows, col)
					as := honest.Answer(qs)
					perm := c.R.Perm(n)
					altered := c.R.Intn(n + 1)
					if k%2 == 0 {
						altered = tt + k/2%2
					}
					known := true
					for _, rep := range perm[:altered] {
						mask := qs[rep].Get(0, row) - ref[rep].Get(0, row)
						for o := 0; o < rows; o++ {
							if d := int32(qs[rep].Get(0, o) - ref[rep].Get(0, o)); o != row && o != (row+1)%rows && (d > 200 || d < -200) {
								known = false
							}
						}
						if d := int32(mask + qs[rep].Get(0, (row+1)%rows) - ref[rep].Get(0, (row+1)%rows)); d > 400 || d < -400 {
							known = false
						}
						if cells[row*cols+col] == 1 {
							mask = -mask
						}
						as[rep].Set(0, col, as[rep].Get(0, col)+mask)
					}
					if !known {
						c.Obs("masks_not_recovered", 1)
						continue
					}
					want := uint32(cells[row*cols+col])
					if altered > tt {
						want = 1 - want
					}
					v, err := cl.Reconstruct(as)
					if err != nil {
						c.Failf("%dx%d, %d of %d repetitions return the other bit: %v", rows, cols, altered, n, err)
					}
					c.Check(v == want, "%dx%d, %d of %d repetitions (%v) return the other bit than %d: the lookup returns %d", rows, cols, altered, n, perm[:altered], cells[row*cols+col], v)
					c.Evalf("outvoted/%d/%d", k, altered)
					c.Obs("amplified_votes", 1)
				}
				// repetitions that are missing or too many
				qs := cl.Query(0, 0)
				for _, k := range []int{0, n - 1, n + 1} {
					as := honest.Answer(qs)
					for len(as) < k {
						as = append(as, honest.Answer(qs)[0])
					}
					_, err := cl.Reconstruct(as[:k])
					c.Check(err != nil, "%d answers to %d repetitions are accepted", k, n)
					c.Evalf("count/%d", k)
				}
			}, "amplified/%d/%d", tt, r)
		}
	}
}
