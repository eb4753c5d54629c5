package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
)

func init() {
	register("C02", &propDef{
		rule:     "an authenticated directory, a number of servers of which one is honest, a position, and a block chosen by the adversary (genuine records of other positions and of stale directories, recombined records and proofs, records made of internal tree nodes, proofs of other lengths and positions, every single-bit alteration, padding and length games), imposed on the client by altering the answers of the dishonest servers; an evaluation is one reconstruction, which has to give the record of the position or an error; non-trivial if the block differs from the genuine one",
		assume:   []string{"collision resistance of the hash function", "the adversary controls the XOR of the answers completely, as a set of all servers but one that guesses the position does"},
		minEvals: 5000,
		build:    buildC02,
	})
}

// forgedBlocks returns the adversary's choices for the block of position i.
func forgedBlocks(c *C, p *pointDB, stale *pointDB, i int, bitflips bool) map[string][]byte {
	bs := p.db.BlockSize
	out := map[string][]byte{}
	pos := 0
	blockOf := func(q *pointDB, j int) []byte {
		pos = 0
		for x := 0; x < j; x++ {
			pos += q.db.BlockLengths[x]
		}
		return append([]byte{}, q.db.Entries[pos:pos+q.db.BlockLengths[j]]...)
	}
	pl := p.db.ProofLen
	genuine := blockOf(p, i)
	split := func(b []byte, pl int) (data, proof []byte) {
		b = b[:len(b)-1] // signal byte
		return append([]byte{}, b[:len(b)-pl]...), append([]byte{}, b[len(b)-pl:]...)
	}
	join := func(data, proof []byte) []byte {
		return append(append(append([]byte{}, data...), proof...), 0x80)
	}
	data, proof := split(genuine, pl)
	n := p.n()
	others := positions(c.R, n, 12)
	if n > 1 {
		others = append(others, (i+1)%n, (i+n-1)%n, i^1)
	}
	if p.db.NumColumns > 1 && p.db.NumRows > 1 {
		others = append(others, (i+p.db.NumColumns)%n, (i%p.db.NumColumns)*p.db.NumRows%n)
	}
	for _, j := range others {
		if j == i || j < 0 || j >= n {
			continue
		}
		b := blockOf(p, j)
		dj, pj := split(b, pl)
		out[fmt.Sprintf("record %d", j)] = b
		out[fmt.Sprintf("record %d with proof of the position", j)] = join(dj, proof)
		out[fmt.Sprintf("record with proof of %d", j)] = join(data, pj)
		// proof of j claiming to be for the position
		q := append([]byte{}, pj...)
		copy(q[len(q)-4:], proof[len(proof)-4:])
		out[fmt.Sprintf("record %d, renumbered proof", j)] = join(dj, q)
		// hashes of the position, number of j
		q = append([]byte{}, proof...)
		copy(q[len(q)-4:], pj[len(pj)-4:])
		out[fmt.Sprintf("record %d, proof renumbered to it", j)] = join(dj, q)
		out[fmt.Sprintf("genuine record, proof renumbered to %d", j)] = join(data, q)
		// both records
		out[fmt.Sprintf("records glued %d", j)] = join(append(append([]byte{}, dj...), data...), proof)
		x := join(dj, pj)
		out[fmt.Sprintf("record %d in front of genuine block", j)] = append(x, genuine...)
	}
	if stale != nil {
		for _, j := range []int{i, others[0]} {
			b := blockOf(stale, j)
			out[fmt.Sprintf("stale record %d", j)] = b
			sd, sp := split(b, stale.db.ProofLen)
			out[fmt.Sprintf("stale record %d with genuine proof", j)] = join(sd, proof)
			out[fmt.Sprintf("genuine record with stale proof %d", j)] = join(data, sp)
		}
	}
	// the position counted beyond the leaves
	dp := merkle.DecodeProof(proof)
	if dp == nil {
		c.Failf("the stored proof does not decode")
	}
	h := uint(len(dp.Hashes))
	for _, add := range []uint32{1 << h, 1 << (h + 1), 1 << 31, ^uint32(0) - dp.Index} {
		for _, d := range [][]byte{data, append(append([]byte{}, data...), 1)} {
			q := append([]byte{}, proof...)
			binary.LittleEndian.PutUint32(q[len(q)-4:], dp.Index+add)
			out[fmt.Sprintf("index plus %d, %d bytes", add, len(d))] = join(d, q)
		}
	}
	// internal nodes as records: a leaf is the hash of the data and of the
	// index in four bytes, a node the hash of its 64 bytes of children
	enc := func(hashes [][]byte, idx uint32) []byte {
		return merkle.EncodeProof(&merkle.Proof{Hashes: hashes, Index: idx})
	}
	nodes := map[[2]int][]byte{}
	for j := 0; j < n; j++ {
		_, pj := split(blockOf(p, j), pl)
		d := merkle.DecodeProof(pj)
		if d == nil {
			c.Failf("the stored proof of %d does not decode", j)
		}
		for l, hh := range d.Hashes {
			nodes[[2]int{l, (j >> uint(l)) ^ 1}] = hh
		}
	}
	for l := 0; l < len(dp.Hashes); l++ {
		x := i >> uint(l)
		lft, rgt := nodes[[2]int{l, x &^ 1}], nodes[[2]int{l, x | 1}]
		if lft == nil || rgt == nil {
			continue
		}
		kids := append(append([]byte{}, lft...), rgt...)
		tail := binary.LittleEndian.Uint32(kids[60:])
		path := dp.Hashes[l+1:]
		for _, idx := range []uint32{tail, dp.Index, uint32(i >> uint(l+1))} {
			out[fmt.Sprintf("node at level %d index %x", l, idx)] = join(kids[:60], enc(path, idx))
			// filled up to the length of a proof
			fill := append(append([][]byte{}, path...), dp.Hashes[:l+1]...)
			out[fmt.Sprintf("node at level %d index %x filled", l, idx)] = join(kids[:60], enc(fill, idx))
			out[fmt.Sprintf("node at level %d index %x bytes", l, idx)] = join(append(append([]byte{}, kids[:60]...), c.Bytes(32*(l+1))...), enc(path, idx))
		}
		out[fmt.Sprintf("children at level %d", l)] = join(kids, proof)
		// fewer or more hashes
		out[fmt.Sprintf("path cut at %d", l)] = join(data, enc(dp.Hashes[:l], dp.Index))
		out[fmt.Sprintf("path from %d", l)] = join(data, enc(dp.Hashes[l:], dp.Index>>uint(l)))
		out[fmt.Sprintf("path extended %d", l)] = join(data, enc(append(append([][]byte{}, dp.Hashes...), dp.Hashes[l]), dp.Index))
		sw := append([][]byte{}, dp.Hashes...)
		sw[0], sw[l] = sw[l], sw[0]
		if l > 0 {
			out[fmt.Sprintf("path swapped %d", l)] = join(data, enc(sw, dp.Index))
		}
	}
	out["root as record"] = join(p.db.Root, proof)
	out["root alone"] = join(nil, enc(nil, 0))
	out["no path"] = join(data, enc(nil, dp.Index))
	// padding and lengths
	out["empty"] = []byte{}
	out["signal only"] = []byte{0x80}
	out["no data"] = join(nil, proof)
	out["no proof"] = append(append([]byte{}, data...), 0x80)
	out["two signals"] = append(append([]byte{}, genuine...), 0x80)
	out["signal in the data"] = join(append(append([]byte{}, data...), 0x80), proof)
	out["zero in the data"] = join(append(append([]byte{}, data...), 0), proof)
	out["zero before the data"] = join(append([]byte{0}, data...), proof)
	out["data repeated"] = join(append(append([]byte{}, data...), data...), proof)
	if len(data) > 0 {
		out["data cut"] = join(data[:len(data)-1], proof)
		out["data cut at the front"] = join(data[1:], proof)
		out["data halved"] = join(data[:len(data)/2], proof)
	}
	out["other signal"] = append(append(append([]byte{}, data...), proof...), 0x01)
	out["proof twice"] = join(append(append([]byte{}, data...), proof...), proof)
	out["zeros"] = make([]byte, bs)
	out["random"] = c.Bytes(bs)
	ones := make([]byte, bs)
	for x := range ones {
		ones[x] = 0xff
	}
	out["ones"] = ones
	for x := 0; x < 8; x++ {
		out[fmt.Sprintf("random %d", x)] = c.Bytes(bs)
		out[fmt.Sprintf("random data %d", x)] = join(c.Bytes(len(data)), proof)
		out[fmt.Sprintf("number of hashes %d", x)] = func() []byte {
			q := append([]byte{}, proof...)
			binary.LittleEndian.PutUint32(q, []uint32{0, 1, 2, uint32(h) + 1, 1 << 27, 1<<27 + uint32(h), 1<<32 - 1, 1 << 31}[x])
			return join(data, q)
		}()
	}
	if bitflips {
		step := 1
		if len(genuine) > 2000 {
			step = 8 * len(genuine) / 400 // of a long record some of the bits
		}
		for b := 0; b < 8*len(genuine); b++ {
			if near := b < 64 || b >= 8*len(genuine)-64; !near && b%step != step-1 {
				continue
			}
			f := append([]byte{}, genuine...)
			f[b/8] ^= 1 << uint(b%8)
			out[fmt.Sprintf("bit %d", b)] = f
		}
	}
	return out
}

func buildC02(t *T) {
	attack := func(c *C, p, stale *pointDB, k int, pos []int, bitflips bool) {
		s := newPointServer(p.db, k)
		cl := client.NewPIR(detReader{c.R}, &p.db.Info)
		bs := p.db.BlockSize
		for pi, i := range pos {
			forged := forgedBlocks(c, p, stale, i, bitflips && pi < 2)
			var names []string
			for n := range forged {
				names = append(names, n)
			}
			sortStrings(names)
			as := pointAnswers(c, cl, s, i, k)
			v, err := cl.ReconstructBytes(as)
			c.Must(err, "honest lookup")
			c.Check(bytes.Equal(asBytes(c, v), p.records[i]), "honest lookup of %d", i)
			ix := i / p.db.NumColumns
			truth := make([]byte, bs)
			for _, a := range as {
				for x := range truth {
					truth[x] ^= a[ix*bs+x]
				}
			}
			for ni, name := range names {
				f := forged[name]
				if len(f) > bs {
					// does not fit the block: its end only
					f = f[len(f)-bs:]
				}
				want := make([]byte, bs)
				copy(want, f)
				if bytes.Equal(want, truth) {
					continue
				}
				// spread over the dishonest servers, all but one
				bad := make([][]byte, k)
				for j := range as {
					bad[j] = append([]byte{}, as[j]...)
				}
				honest := ni % k
				delta := make([]byte, bs)
				for x := range delta {
					delta[x] = truth[x] ^ want[x]
				}
				for j := 0; j < k; j++ {
					if j == honest {
						continue
					}
					part := delta
					if last := (honest + k - 1) % k; j != last {
						part = c.Bytes(bs)
						for x := range delta {
							delta[x] ^= part[x]
						}
					}
					for x := range part {
						bad[j][ix*bs+x] ^= part[x]
					}
					if ni%3 == 0 {
						// the other rows are not looked at
						for x := range bad[j] {
							if x < ix*bs || x >= (ix+1)*bs {
								bad[j][x] = byte(c.R.Intn(256))
							}
						}
					}
				}
				v, err := cl.ReconstructBytes(bad)
				c.Evalf("%d/%d/%s", k, i, name)
				if err != nil {
					c.Obs("rejections", 1)
					continue
				}
				c.Obs("accepted_with_the_right_record", 1)
				if !bytes.Equal(asBytes(c, v), p.records[i]) {
					c.Failf("%s, %d servers, position %d, the dishonest servers impose %q: the client accepts %x instead of %x",
						p.what, k, i, name, asBytes(c, v), p.records[i])
				}
			}
			// the answers for another position, replayed
			j := c.R.Intn(p.n())
			if p.n() > 1 && j != i {
				old := pointAnswers(c, cl, s, j, k)
				pointAnswers(c, cl, s, i, k)
				if v, err := cl.ReconstructBytes(old); err == nil && !bytes.Equal(asBytes(c, v), p.records[i]) {
					c.Failf("%s: the answers for %d are accepted for %d", p.what, j, i)
				}
				c.Evalf("replay/%d/%d/%d", k, i, j)
			}
			// rows swapped in all the answers but one
			if p.db.NumRows > 1 {
				as := pointAnswers(c, cl, s, i, k)
				for r := 0; r < p.db.NumRows; r++ {
					bad := make([][]byte, k)
					copy(bad, as)
					for j := 1; j < k; j++ {
						b := append([]byte{}, as[j]...)
						copy(b[ix*bs:(ix+1)*bs], as[j][r*bs:(r+1)*bs])
						bad[j] = b
					}
					if v, err := cl.ReconstructBytes(bad); err == nil && !bytes.Equal(asBytes(c, v), p.records[i]) {
						c.Failf("%s: row %d is accepted for row %d", p.what, r, ix)
					}
					c.Evalf("row/%d/%d/%d", k, i, r)
				}
			}
		}
	}
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {2, 2}, {1, 5}, {4, 4}, {3, 7}, {1, 16}, {1, 17}, {8, 8}, {5, 1}, {16, 2}, {2, 130}}
	for _, sh := range shapes {
		sh := sh
		for _, k := range []int{2, 3, 4} {
			k := k
			for _, kind := range []string{"fixed", "variable", "60"} {
				kind := kind
				t.Addf(func(c *C) {
					var p, stale *pointDB
					switch kind {
					case "fixed":
						p = fixedDB(c.R, sh[0], sh[1], 24, true)
						stale = fixedDB(c.R, sh[0], sh[1], 24, true)
					case "60":
						// records as long as what an internal node needs
						p = fixedDB(c.R, sh[0], sh[1], 60, true)
						stale = fixedDB(c.R, sh[0], sh[1], 60, true)
					default:
						p = variableDB(c.R, sh[0], sh[1], 120, true)
						stale = variableDB(c.R, sh[0], sh[1], 120, true)
					}
					attack(c, p, stale, k, positions(c.R, p.n(), t.N(5, 40)), kind != "variable" || t.Thorough)
				}, "%s/%dx%d/k%d", kind, sh[0], sh[1], k)
			}
		}
	}
	for i := 0; i < t.N(12, 200); i++ {
		many := i%4 == 3
		t.Addf(func(c *C) {
			rows, cols := 1+c.R.Intn(12), 1+c.R.Intn(30)
			p := variableDB(c.R, rows, cols, 10+c.R.Intn(200), true)
			k := 2 + c.R.Intn(4)
			if many {
				k = 6 + c.R.Intn(60)
			}
			attack(c, p, nil, k, positions(c.R, p.n(), 4), false)
		}, "random/%d", i)
	}
	// many records, and long ones
	for _, d := range []struct{ rows, cols, size int }{{64, 64, 24}, {1, 5000, 40}, {4, 4097, 24}, {20, 500, 24},
		{2, 3, 1 << 16}, {1, 2, 1<<18 + 1}, {3, 3, 5000}} {
		d := d
		t.Addf(func(c *C) {
			var p *pointDB
			if d.size > 1000 {
				p = variableDB(c.R, d.rows, d.cols, d.size, true)
			} else {
				p = fixedDB(c.R, d.rows, d.cols, d.size, true)
			}
			n := p.n()
			pos := []int{n - 1, c.R.Intn(n), c.R.Intn(n)}
			if n > 4096 {
				pos[1] = 4096 + c.R.Intn(n-4096)
			}
			attack(c, p, nil, 2+c.R.Intn(2), append(pos, positions(c.R, n, t.N(2, 10))...), true)
			c.Obs("large_databases", 1)
		}, "large/%dx%d of %d", d.rows, d.cols, d.size)
	}
	// equal records: the proof of another position is not one of the requested
	t.Addf(func(c *C) {
		for _, n := range []int{2, 3, 8, 9} {
			rec := &recReader{src: constReader(7)}
			p := fixedDBFrom(rec, 1, n, 50, true)
			attack(c, p, nil, 2, positions(c.R, n, 10), true)
		}
	}, "equal records")
	// a description that is inconsistent with the records never gives a record
	t.Addf(func(c *C) {
		p := fixedDB(c.R, 2, 9, 40, true)
		s := newPointServer(p.db, 2)
		for x := 0; x < 60; x++ {
			info := p.db.Info
			m := *p.db.Merkle
			info.Merkle = &m
			switch x % 6 {
			case 0:
				m.Root = c.Bytes(32)
			case 1:
				m.Root = append([]byte{}, m.Root...)
				m.Root[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
			case 2:
				m.Root = m.Root[:c.R.Intn(32)]
			case 3:
				m.Root = nil
			case 4:
				m.ProofLen = c.R.Intn(2 * m.ProofLen)
			case 5:
				m.ProofLen = -c.R.Intn(100)
			}
			if m.ProofLen == p.db.ProofLen && bytes.Equal(m.Root, p.db.Root) {
				continue
			}
			cl := client.NewPIR(detReader{c.R}, &info)
			i := c.R.Intn(p.n())
			as := pointAnswers(c, cl, s, i, 2)
			v, err := cl.ReconstructBytes(as)
			if err == nil {
				c.Failf("record %x accepted with root %x and proofs of %d bytes", asBytes(c, v), m.Root, m.ProofLen)
			}
			c.Evalf("info/%d", x)
		}
	}, "other root")
	_ = database.UnPadBlock
}
