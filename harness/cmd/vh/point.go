package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"math/rand"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/server"
)

// pointDB is a directory of records together with what it was made from.
type pointDB struct {
	db      *database.Bytes
	records [][]byte // bare records
	merkle  bool
	what    string
}

func (p *pointDB) n() int { return len(p.records) }

// want is what an honest lookup of position i returns.
func (p *pointDB) want(i int) []byte {
	if p.merkle {
		return p.records[i]
	}
	out := make([]byte, p.db.BlockSize)
	copy(out, p.records[i])
	return out
}

// fixedDB has records of the same length, made by the generator of the library
// from recorded randomness.
func fixedDB(r *rand.Rand, rows, cols, blockLen int, auth bool) *pointDB {
	rec := &recReader{src: detReader{r}}
	return fixedDBFrom(rec, rows, cols, blockLen, auth)
}

func fixedDBFrom(rec *recReader, rows, cols, blockLen int, auth bool) *pointDB {
	n := rows * cols
	p := &pointDB{merkle: auth, what: fmt.Sprintf("fixed %dx%d records of %d bytes auth=%v", rows, cols, blockLen, auth)}
	if auth {
		p.db = database.CreateRandomMerkle(rec, 8*n*blockLen, rows, blockLen)
	} else {
		p.db = database.CreateRandomBytes(rec, 8*n*blockLen, rows, blockLen)
	}
	p.records = make([][]byte, n)
	for i := range p.records {
		p.records[i] = append([]byte{}, rec.buf[i*blockLen:(i+1)*blockLen]...)
	}
	return p
}

// variableDB has records of different lengths.
func variableDB(r *rand.Rand, rows, cols, maxLen int, auth bool) *pointDB {
	n := rows * cols
	p := &pointDB{merkle: auth, records: make([][]byte, n),
		what: fmt.Sprintf("variable %dx%d records of up to %d bytes auth=%v", rows, cols, maxLen, auth)}
	for i := range p.records {
		l := r.Intn(maxLen + 1)
		switch r.Intn(6) {
		case 0:
			l = 0
		case 1:
			l = maxLen
		}
		if auth && l < 8 {
			l = 8 // distinct records
		}
		p.records[i] = make([]byte, l)
		r.Read(p.records[i])
		if l > 2 {
			switch r.Intn(5) {
			case 0: // looks like padding
				p.records[i][l-1] = 0x80
			case 1:
				p.records[i][l-1] = 0
			case 2:
				p.records[i][l-1] = 0
				p.records[i][l-2] = 0x80
			}
		}
		if auth {
			binary.BigEndian.PutUint32(p.records[i], uint32(i))
		}
	}
	p.db = packRecords(p.records, rows, cols, auth)
	return p
}

// packRecords makes a database from records as the key directories do.
func packRecords(records [][]byte, rows, cols int, auth bool) *database.Bytes {
	blocks := make([][]byte, len(records))
	max := 1
	var tree *merkle.MerkleTree
	if auth {
		var err error
		tree, err = merkle.New(records)
		if err != nil {
			panic(err)
		}
	}
	for i := range records {
		blocks[i] = append([]byte{}, records[i]...)
		if auth {
			proof, err := tree.GenerateProof(records[i])
			if err != nil {
				panic(err)
			}
			blocks[i] = database.PadWithSignalByte(append(blocks[i], merkle.EncodeProof(proof)...))
		}
		if len(blocks[i]) > max {
			max = len(blocks[i])
		}
	}
	db := database.InitBytes(rows, cols, max)
	for i, b := range blocks {
		db.BlockLengths[i] = len(b)
		db.Entries = append(db.Entries, b...)
	}
	if auth {
		db.PIRType = "merkle"
		db.Merkle = &database.Merkle{Root: tree.Root(), ProofLen: tree.EncodedProofLength()}
	}
	return db
}

func newPointServer(db *database.Bytes, k int, cores ...int) *server.PIR {
	if k == 2 {
		return server.NewPIRTwo(db, cores...)
	}
	return server.NewPIR(db, cores...)
}

func idxBytes(i int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(i))
	return b
}

// pointAnswers queries k servers for the position.
func pointAnswers(c *C, cl *client.PIR, s *server.PIR, i, k int) [][]byte {
	var qs [][]byte
	var err error
	if c.R.Intn(3) == 0 {
		qs = cl.Query(i, k)
	} else {
		qs, err = cl.QueryBytes(idxBytes(i), k)
	}
	c.Must(err, "query")
	c.Check(len(qs) == k, "%d queries for %d servers", len(qs), k)
	as := make([][]byte, k)
	for j := range qs {
		as[j], err = s.AnswerBytes(qs[j])
		c.Must(err, "answer")
	}
	return as
}

func asBytes(c *C, v interface{}) []byte {
	b, ok := v.([]byte)
	if !ok && v != nil {
		c.Failf("reconstruction returned a %T", v)
	}
	return b
}

// positions chooses positions of a database of n records.
func positions(r *rand.Rand, n, max int) []int {
	if n <= max {
		l := make([]int, n)
		for i := range l {
			l[i] = i
		}
		return l
	}
	seen := map[int]bool{}
	var l []int
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			l = append(l, i)
		}
	}
	for _, i := range []int{0, n - 1, 1, 7, 8, 63, 64, 127, 128, 255, 256, n - 2, n / 2} {
		if len(l) < max-max/3 { // the others at random
			add(i)
		}
	}
	for len(l) < max {
		i := r.Intn(n)
		if r.Intn(4) == 0 { // where something may be full
			i = 1<<uint(r.Intn(bits.Len(uint(n)))) + r.Intn(3) - 1
		}
		add(i)
	}
	return l
}

func init() {
	register("C01", &propDef{
		rule:     "a database (rows, columns, record lengths, contents from the seed, records kept aside), a number of servers and a sequence of positions looked up with one client; an evaluation is one lookup compared byte for byte with the record kept aside, or one invalid request that has to be refused; distinct by database, servers and position",
		assume:   []string{"the records kept aside are the bytes that the generator of the database read, or that were packed into it"},
		minEvals: 1000,
		build:    buildC01,
	})
}

func buildC01(t *T) {
	lookups := func(c *C, p *pointDB, k, maxPos int) {
		s := newPointServer(p.db, k)
		cl := client.NewPIR(detReader{c.R}, &p.db.Info)
		pos := positions(c.R, p.n(), maxPos)
		c.R.Shuffle(len(pos), func(a, b int) { pos[a], pos[b] = pos[b], pos[a] })
		if len(pos) > 0 {
			pos = append(pos, pos[0], pos[0], pos[len(pos)-1]) // again
		}
		before := append([]byte{}, p.db.Entries...)
		for _, i := range pos {
			if c.R.Intn(10) == 0 {
				// a lookup that is given up
				_, err := cl.QueryBytes(idxBytes(c.R.Intn(p.n())), k)
				c.Must(err, "query")
			}
			if c.R.Intn(10) == 0 {
				// a request that is refused in between
				if _, err := cl.QueryBytes(idxBytes(p.n()), k); err == nil {
					c.Failf("%s: position %d of %d was not refused", p.what, p.n(), p.n())
				}
			}
			as := pointAnswers(c, cl, s, i, k)
			v, err := cl.ReconstructBytes(as)
			c.Must(err, fmt.Sprintf("%s, %d servers: lookup of %d", p.what, k, i))
			got := asBytes(c, v)
			if !bytes.Equal(got, p.want(i)) {
				c.Failf("%s, %d servers: lookup of %d returned %x instead of %x", p.what, k, i, got, p.want(i))
			}
			c.Evalf("%d/%d", k, i)
			c.Obs("records_returned", 1)
			c.Obs("answers", k)
		}
		c.Check(bytes.Equal(before, p.db.Entries), "the database changed")
	}

	// small shapes, every position, every number of servers
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 7}, {1, 8}, {1, 9}, {3, 5}, {4, 4}, {5, 3}, {7, 8}, {8, 7}, {8, 8}, {9, 16}, {16, 1}, {1, 33}, {13, 11}}
	lens := []int{1, 2, 3, 5, 8, 16, 31, 32, 33, 64, 100, 257}
	for si, sh := range shapes {
		sh := sh
		for _, auth := range []bool{false, true} {
			auth := auth
			for _, k := range []int{2, 3, 4, 5, 6, 9} {
				k := k
				reps := t.N(1, 6)
				for rep := 0; rep < reps; rep++ {
					l := lens[(si+k+rep*5)%len(lens)]
					if auth && l < 4 {
						l = 4 + l
					}
					t.Addf(func(c *C) {
						lookups(c, fixedDB(c.R, sh[0], sh[1], l, auth), k, 64)
					}, "fixed/%dx%d/len%d/auth=%v/k%d/%d", sh[0], sh[1], l, auth, k, rep)
					t.Addf(func(c *C) {
						lookups(c, variableDB(c.R, sh[0], sh[1], l+20, auth), k, 64)
					}, "variable/%dx%d/len%d/auth=%v/k%d/%d", sh[0], sh[1], l+20, auth, k, rep)
				}
			}
		}
	}
	// a great many servers
	for _, k := range []int{16, 17, 33, 64, 65, 128, 255, 256, 257, 300} {
		k := k
		for _, auth := range []bool{false, true} {
			auth := auth
			t.Addf(func(c *C) {
				lookups(c, fixedDB(c.R, 5, 9, 9, auth), k, t.N(24, 45))
				lookups(c, variableDB(c.R, 3, 35, 30, auth), k, t.N(24, 105))
			}, "servers/auth=%v/k%d", auth, k)
		}
	}
	// wide databases: the two-server queries change shape with the width
	wide := []int{31, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049}
	if t.Thorough {
		wide = append(wide, 4095, 4096, 4097, 10000, 16383, 16384, 16385, 65535, 65536, 65537, 100001)
	}
	for _, w := range wide {
		w := w
		for _, rows := range []int{1, 2, 5} {
			rows := rows
			if rows*w > 200000 {
				continue
			}
			for _, auth := range []bool{false, true} {
				auth := auth
				if auth && rows != 2 {
					continue
				}
				for _, k := range []int{2, 3} {
					k := k
					t.Addf(func(c *C) {
						lookups(c, fixedDB(c.R, rows, w, 9, auth), k, t.N(24, 96))
					}, "wide/%dx%d/auth=%v/k%d", rows, w, auth, k)
				}
			}
		}
	}
	// databases with more records than a float32, or with larger ones than
	// usual, can number
	huge := [][3]int{{1, 1<<24 + 5, 1}, {1<<24 + 3, 1, 1}, {4099, 4097, 1}, {3, 5, 1<<20 + 1}}
	if t.Thorough {
		huge = append(huge, [3]int{2, 70001, 3}, [3]int{1, 1<<26 + 1, 1}, [3]int{8193, 8209, 1}, [3]int{33, 65, 1<<20 + 7}, [3]int{1 << 25, 2, 1})
	}
	for _, h := range huge {
		h := h
		for _, k := range []int{2, 3} {
			k := k
			t.Addf(func(c *C) {
				defer c.Exclusive()()
				rows, cols, l := h[0], h[1], h[2]
				n := rows * cols
				rec := &recReader{src: detReader{c.R}}
				db := database.CreateRandomBytes(rec, 8*n*l, rows, l)
				s := newPointServer(db, k)
				cl := client.NewPIR(detReader{c.R}, &db.Info)
				for _, i := range []int{0, n / 2, n/2 + 1, n - 2, n - 1, cols - 1, n - cols, c.R.Intn(n)} {
					v, err := cl.ReconstructBytes(pointAnswers(c, cl, s, i, k))
					c.Must(err, fmt.Sprintf("%dx%d records of %d bytes, %d servers: lookup of %d", rows, cols, l, k, i))
					if got, want := asBytes(c, v), rec.buf[i*l:(i+1)*l]; !bytes.Equal(got, want) {
						c.Failf("%dx%d records of %d bytes, %d servers: lookup of %d returned another record", rows, cols, l, k, i)
					}
					c.Evalf("huge/%v/%d/%d", h, k, i)
					c.Obs("records_returned", 1)
				}
			}, "huge/%v/k%d", h, k)
		}
	}
	// contents that are equal, empty or all zero
	for _, k := range []int{2, 3} {
		k := k
		for _, b := range []byte{0, 0x80, 0xff} {
			b := b
			t.Addf(func(c *C) {
				for _, sh := range [][2]int{{1, 5}, {4, 4}, {3, 7}} {
					rec := &recReader{src: constReader(b)}
					lookups(c, fixedDBFrom(rec, sh[0], sh[1], 40, false), k, 64)
					rec = &recReader{src: constReader(b)}
					lookups(c, fixedDBFrom(rec, sh[0], sh[1], 40, true), k, 64)
				}
			}, "equal records/%x/k%d", b, k)
		}
		t.Addf(func(c *C) {
			for _, n := range []int{1, 2, 9} {
				p := &pointDB{records: make([][]byte, n), what: "empty records"}
				for i := range p.records {
					p.records[i] = []byte{}
				}
				p.records[n/2] = c.Bytes(10)
				p.db = packRecords(p.records, 1, n, false)
				lookups(c, p, k, 64)
			}
		}, "empty records/k%d", k)
		// a client serves the same description with other randomness sources
		t.Addf(func(c *C) {
			p := fixedDB(c.R, 6, 21, 33, k == 3)
			s := newPointServer(p.db, k)
			for _, max := range []int{1, 3, 17} {
				cl := client.NewPIR(&shortReader{detReader{c.R}, c.R, max}, &p.db.Info)
				for _, i := range positions(c.R, p.n(), 30) {
					v, err := cl.ReconstructBytes(pointAnswers(c, cl, s, i, k))
					c.Must(err, "lookup with a slow source of randomness")
					c.Check(bytes.Equal(asBytes(c, v), p.want(i)), "lookup of %d with a slow source of randomness", i)
					c.Evalf("slow/%d/%d", max, i)
				}
			}
		}, "slow randomness/k%d", k)
	}
	// random shapes
	for i := 0; i < t.N(60, 1500); i++ {
		t.Addf(func(c *C) {
			rows, cols := 1+c.R.Intn(20), 1+c.R.Intn(60)
			auth := c.R.Intn(2) == 0
			k := 2 + c.R.Intn(6)
			if c.R.Intn(2) == 0 {
				k = 2
			}
			if c.R.Intn(2) == 0 {
				lookups(c, fixedDB(c.R, rows, cols, 4+c.R.Intn(300), auth), k, 16)
			} else {
				lookups(c, variableDB(c.R, rows, cols, 9+c.R.Intn(300), auth), k, 16)
			}
		}, "random/%d", i)
	}
	// the server with different numbers of cores gives the same answers
	t.Addf(func(c *C) {
		for _, k := range []int{2, 3} {
			p := variableDB(c.R, 5, 40, 50, false)
			s0 := newPointServer(p.db, k)
			cl := client.NewPIR(detReader{c.R}, &p.db.Info)
			for _, i := range positions(c.R, p.n(), 20) {
				qs, err := cl.QueryBytes(idxBytes(i), k)
				c.Must(err, "query")
				for cores := 1; cores <= 9; cores++ {
					s := newPointServer(p.db, k, cores)
					for _, q := range qs {
						a0, e0 := s0.AnswerBytes(q)
						a, e := s.AnswerBytes(q)
						c.Check(e0 == nil && e == nil && bytes.Equal(a, a0), "answers differ with %d cores", cores)
					}
				}
				c.Evalf("cores/%d/%d", k, i)
			}
		}
	}, "number of cores")
	// refusals
	t.Addf(func(c *C) {
		for _, auth := range []bool{false, true} {
			for _, sh := range [][2]int{{1, 1}, {1, 10}, {4, 5}, {3, 128}} {
				p := fixedDB(c.R, sh[0], sh[1], 12, auth)
				n := p.n()
				for _, k := range []int{2, 3, 5} {
					for _, i := range []int{n, n + 1, 2*n + 3, 1 << 20, 1 << 31, 1<<32 - 1} {
						cl := client.NewPIR(detReader{c.R}, &p.db.Info)
						qs, err := cl.QueryBytes(idxBytes(i), k)
						if err == nil || len(qs) != 0 {
							c.Failf("%s: lookup of %d with %d servers was not refused", p.what, i, k)
						}
						c.Evalf("outside/%v/%v/%d/%d", auth, sh, k, i)
						c.Obs("refusals", 1)
					}
				}
				for _, k := range []int{1, 0, -1} {
					for _, i := range []int{0, n - 1} {
						cl := client.NewPIR(detReader{c.R}, &p.db.Info)
						qs, err := cl.QueryBytes(idxBytes(i), k)
						if err == nil || len(qs) != 0 {
							c.Failf("%s: lookup of %d with %d servers was not refused", p.what, i, k)
						}
						c.Evalf("servers/%v/%v/%d/%d", auth, sh, k, i)
						c.Obs("refusals", 1)
					}
				}
				for l := 0; l < 4; l++ {
					cl := client.NewPIR(detReader{c.R}, &p.db.Info)
					if _, err := cl.QueryBytes(make([]byte, l), 2); err == nil {
						c.Failf("a position of %d bytes was not refused", l)
					}
				}
			}
		}
	}, "refusals")
}

type constReader byte

func (b constReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(b)
	}
	return len(p), nil
}
