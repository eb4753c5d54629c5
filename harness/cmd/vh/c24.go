package main

import (
	"bytes"
	"fmt"
	"math"
	"path/filepath"
	"sort"
	"strings"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/pgp"
)

func init() {
	register("C24", &propDef{
		build: buildC24,
		rule: "sets of generated OpenPGP keys (from none to some hundred, spread over files, with chosen collisions of buckets) are built into every kind of directory; " +
			"the monitor reads the table with its recorded lengths and offsets, looks every bucket up with real clients and servers and recovers every key by its address, " +
			"and addresses without a key; the oracle is the generator's list. An evaluation is one bucket, key or address compared; distinct by directory and address",
		assume:   []string{"the bucket of an address is the one that HashToIndex, which clients use, tells"},
		minEvals: 4000,
	})
}

// primaryID is the identity the attributes of a key are taken from.
func (k *genKey) primaryID() genID {
	best := -1
	for pass := 0; pass < 2 && best < 0; pass++ {
		for i, id := range k.ids {
			if pass == 0 && !id.primary {
				continue
			}
			if best < 0 || id.signedAfter > k.ids[best].signedAfter ||
				id.signedAfter == k.ids[best].signedAfter && id.id() < k.ids[best].id() {
				best = i
			}
		}
	}
	return k.ids[best]
}

// keysInBuckets makes keys whose addresses are in the wanted buckets of a table
// of n.
func keysInBuckets(c *C, buckets []int, n int) []*genKey {
	var out []*genKey
	x := 0
	for _, b := range buckets {
		for {
			x++
			e := fmt.Sprintf("u%d@b%d.org", x, n)
			if int(database.HashToIndex(e, n)) == b {
				out = append(out, (&genKey{ids: []genID{{name: strings.Repeat("k", c.R.Intn(30)), email: e}}, created: genTime(c.R), algo: 19}).make(c.R))
				break
			}
		}
	}
	return out
}

func buildC24(t *T) {
	quietStdout()
	type gen struct {
		what string
		keys func(c *C) []*genKey
	}
	var gens []gen
	for _, n := range []int{0, 1, 2, 3, 5, 9, 10, 11, 19, 20, 21, 29, 30, 39, 40, 41, 49, 50, 59, 60, 89, 90, 99, 100, 101} {
		n := n
		gens = append(gens, gen{fmt.Sprintf("%d keys", n), func(c *C) []*genKey { return genKeys(c.R, n) }})
	}
	for i := 0; i < t.N(3, 40); i++ {
		gens = append(gens, gen{fmt.Sprintf("many keys %d", i), func(c *C) []*genKey { return genKeys(c.R, 120+c.R.Intn(t.N(150, 900))) }})
	}
	gens = append(gens, gen{"a great many keys", func(c *C) []*genKey { return genKeys(c.R, t.N(2500, 6000)) }})
	// all in the first, the last or one bucket; the others are empty and equal
	for _, sz := range []struct{ keys, table int }{{30, 3}, {30, 4}, {40, 4}, {50, 5}, {50, 9}, {90, 9}, {100, 16}} {
		sz := sz
		for _, where := range []string{"first", "last", "first and last", "all but one"} {
			where := where
			gens = append(gens, gen{fmt.Sprintf("%d keys, %s of %d buckets", sz.keys, where, sz.table), func(c *C) []*genKey {
				b := make([]int, sz.keys)
				hole := c.R.Intn(sz.table)
				for i := range b {
					switch where {
					case "last":
						b[i] = sz.table - 1
					case "first and last":
						b[i] = i % 2 * (sz.table - 1)
					case "all but one":
						b[i] = c.R.Intn(sz.table)
						if b[i] == hole {
							b[i] = (hole + 1) % sz.table
						}
					}
				}
				return keysInBuckets(c, b, sz.table)
			}})
		}
	}
	// keys of very different sizes
	gens = append(gens, gen{"keys of very different sizes", func(c *C) []*genKey {
		ks := genKeys(c.R, 40)
		for i := 0; i < 6; i++ {
			ks = append(ks, (&genKey{ids: []genID{{name: strings.Repeat("s", 1200*i), email: fmt.Sprintf("size%d@x.org", i)}}, created: genTime(c.R)}).make(c.R))
		}
		return ks
	}})
	// buckets of many kilobytes
	for _, sz := range []struct{ keys, len int }{{30, 7000}, {60, 5000}, {100, 3000}} {
		sz := sz
		gens = append(gens, gen{fmt.Sprintf("%d large keys", sz.keys), func(c *C) []*genKey {
			var ks []*genKey
			for i := 0; i < sz.keys; i++ {
				ks = append(ks, (&genKey{ids: []genID{{name: strings.Repeat("L", sz.len+c.R.Intn(800)), email: fmt.Sprintf("large%d@x.org", i)}}, created: genTime(c.R)}).make(c.R))
			}
			return ks
		}})
	}

	// one bucket is far longer than the others
	gens = append(gens, gen{"a bucket of 100 kilobytes", func(c *C) []*genKey {
		ks := genKeys(c.R, 27)
		for x := 0; len(ks) < 40; x++ {
			if e := fmt.Sprintf("long%d@x.org", x); database.HashToIndex(e, 4) == 2 {
				ks = append(ks, (&genKey{ids: []genID{{name: strings.Repeat("L", 7000+c.R.Intn(900)), email: e}}, created: genTime(c.R)}).make(c.R))
			}
		}
		return ks
	}})

	for _, g := range gens {
		g := g
		t.Addf(func(c *C) {
			keys := g.keys(c)
			dir := scratch(c)
			for _, auth := range []bool{false, true} {
				for _, square := range []bool{false, true} {
					files := writeKeyFiles(filepath.Join(dir, fmt.Sprintf("%v%v", auth, square)), keys, 1+c.R.Intn(4))
					checkDirectory(c, keys, files, auth, square)
				}
			}
			checkStatistics(c, keys, writeKeyFiles(filepath.Join(dir, "s"), keys, 1+c.R.Intn(3)))
		}, "%s", g.what)
	}

	t.Addf(func(c *C) {
		for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 10, 99, 100, 101, 1023, 1024, 1025, 12345, 70000, 1 << 20, 5000001} {
			r, co := database.CalculateNumRowsAndColumns(n, false)
			c.Check(r == 1 && co == n, "a table of %d blocks as vector is %dx%d", n, r, co)
			r, co = database.CalculateNumRowsAndColumns(n, true)
			k := int(math.Ceil(math.Sqrt(float64(n))))
			c.Check(r == k && co == k, "a table of %d blocks as square is %dx%d", n, r, co)
			hit := map[uint32]bool{}
			var top uint32
			for i := 0; i < 400; i++ {
				e := genEmail(c.R, i)
				if h := database.HashToIndex(e, n); h > top {
					top = h
				}
				h := database.HashToIndex(e, n)
				c.Check(int(h) < n, "the bucket of %q in a table of %d is %d", e, n, h)
				c.Check(h == database.HashToIndex(e, n), "the bucket of %q changes", e)
				hit[h] = true
				c.Evalf("%d|%s", n, e)
			}
			// the whole of the table is used
			c.Check(n <= 10 || int(top) >= n-n/8, "no one of 400 addresses is beyond bucket %d of %d", top, n)
			if n <= 10 {
				c.Check(len(hit) == n, "400 addresses are in %d of %d buckets", len(hit), n)
			}
		}
	}, "buckets and layouts")
}

func checkDirectory(c *C, keys []*genKey, files []string, auth, square bool) {
	what := fmt.Sprintf("directory of %d keys auth=%v square=%v", len(keys), auth, square)
	var db *database.Bytes
	var err error
	if auth {
		db, err = database.GenerateRealKeyMerkle(files, square)
	} else {
		db, err = database.GenerateRealKeyBytes(files, square)
	}
	c.Must(err, what)
	n := db.NumRows * db.NumColumns
	blocks := len(keys) / 10
	if blocks == 0 {
		blocks = 1
	}
	if square {
		k := int(math.Ceil(math.Sqrt(float64(blocks))))
		c.Check(db.NumRows == k && db.NumColumns == k, "%s: %dx%d buckets for %d", what, db.NumRows, db.NumColumns, blocks)
	} else {
		c.Check(db.NumRows == 1 && db.NumColumns == blocks, "%s: %dx%d buckets for %d", what, db.NumRows, db.NumColumns, blocks)
	}
	if auth {
		c.Check(db.PIRType == "merkle" && db.Merkle != nil, "%s: type %q", what, db.PIRType)
	} else {
		c.Check(db.PIRType != "merkle", "%s: type %q", what, db.PIRType)
	}

	// what has to be in every bucket
	bucket := make([][]*genKey, n)
	for _, k := range keys {
		h := database.HashToIndex(k.email(), n)
		bucket[h] = append(bucket[h], k)
	}
	judge := func(b int, got []byte, how string) {
		// the keys in any order, then the end mark
		left := map[string]int{}
		total := 0
		for _, k := range bucket[b] {
			left[string(k.bare)]++
			total += len(k.bare)
		}
		if len(got) != total {
			c.Failf("%s: bucket %d has %d bytes %s instead of %d of %d keys", what, b, len(got), how, total, len(bucket[b]))
		}
		for len(got) > 0 {
			found := false
			for s, cnt := range left {
				if cnt > 0 && bytes.HasPrefix(got, []byte(s)) {
					left[s]--
					got = got[len(s):]
					found = true
					break
				}
			}
			if !found {
				c.Failf("%s: bucket %d %s has something else than its %d keys", what, b, how, len(bucket[b]))
			}
		}
		c.Evalf("%s|bucket %d %s", what, b, how)
	}

	// the table itself
	c.Check(len(db.BlockLengths) == n, "%s: %d recorded lengths for %d buckets", what, len(db.BlockLengths), n)
	off, max := 0, 0
	sizes := map[int]bool{}
	var leaves [][]byte
	for b := 0; b < n; b++ {
		l := db.BlockLengths[b]
		if off+l > len(db.Entries) {
			c.Failf("%s: bucket %d ends at %d of %d bytes", what, b, off+l, len(db.Entries))
		}
		blk := append([]byte{}, db.Entries[off:off+l]...)
		off += l
		if l > max {
			max = l
		}
		sizes[l] = true
		if auth {
			blk = trimMark(c, what, b, blk)
			p := db.Merkle.ProofLen
			c.Check(len(blk) >= p, "%s: bucket %d has no place for a proof", what, b)
			leaf := blk[:len(blk)-p]
			proof := merkle.DecodeProof(blk[len(blk)-p:])
			ok, err := merkle.VerifyProof(leaf, proof, db.Merkle.Root)
			c.Check(ok && err == nil, "%s: the proof of bucket %d does not verify: %v", what, b, err)
			leaves = append(leaves, leaf)
			blk = leaf
		}
		if len(blk) > 0 || len(bucket[b]) > 0 { // an empty bucket needs no mark
			blk = trimMark(c, what, b, blk)
		}
		judge(b, blk, "in the table")
	}
	c.Check(off == len(db.Entries), "%s: %d bytes recorded of %d", what, off, len(db.Entries))
	if max == 0 {
		max = db.BlockSize // nothing is stored
	}
	c.Check(db.BlockSize == max, "%s: block size %d, the longest block has %d", what, db.BlockSize, max)
	if auth {
		tree, err := merkle.New(leaves)
		c.Must(err, "tree")
		c.Check(bytes.Equal(tree.Root(), db.Merkle.Root), "%s: the root is not that of the buckets", what)
	}

	// through lookups, two and more servers
	for _, k := range []int{2, 3} {
		s := newPointServer(db, k)
		info := database.Info{NumRows: db.NumRows, NumColumns: db.NumColumns, BlockSize: db.BlockSize, PIRType: db.PIRType, Merkle: db.Merkle}
		cl := client.NewPIR(detReader{newRand(c.R.Int63())}, &info)
		look := func(b int) []byte {
			qs, err := cl.QueryBytes(idxBytes(b), k)
			c.Must(err, "query")
			as := make([][]byte, k)
			for i := range qs {
				as[i], err = s.AnswerBytes(qs[i])
				c.Must(err, "answer")
			}
			v, err := cl.ReconstructBytes(as)
			c.Must(err, fmt.Sprintf("%s: lookup of bucket %d", what, b))
			return database.UnPadBlock(v.([]byte))
		}
		perm := c.R.Perm(n)
		if len(perm) > 60 {
			perm = perm[:60]
		}
		for _, b := range perm {
			got := look(b)
			judge(b, got, fmt.Sprintf("looked up at %d servers", k))
			for x, ki := range c.R.Perm(len(bucket[b])) {
				if x == 12 {
					break
				}
				key := bucket[b][ki]
				e, err := pgp.RecoverKeyFromBlock(got, key.email())
				c.Must(err, fmt.Sprintf("%s: recovering %q from bucket %d", what, key.email(), b))
				var w bytes.Buffer
				must(e.Serialize(&w))
				c.Check(canonKey(w.Bytes()) == canonKey(key.bare), "%s: another key than that of %q is recovered", what, key.email())
				c.Evalf("%s|key %s", what, key.email())
				c.Obs("keys_recovered", 1)
			}
			for _, e := range []string{"nobody@nowhere.org", "", fmt.Sprintf("absent%d@x.org", c.R.Intn(1000))} {
				_, err := pgp.RecoverKeyFromBlock(got, e)
				c.Check(err != nil, "%s: a key for %q in bucket %d", what, e, b)
				c.Evalf("%s|absent %s %d", what, e, b)
			}
			if len(bucket[b]) > 0 {
				e := bucket[b][0].email()
				for _, f := range []string{e + "x", e[1:], "x" + e, e[:len(e)-1]} {
					_, err := pgp.RecoverKeyFromBlock(got, f)
					c.Check(err != nil, "%s: a key for %q in bucket %d", what, f, b)
				}
			}
		}
	}
	c.Obs("directories_built", 1)
}

// trimMark removes the mark that ends a block.
func trimMark(c *C, what string, b int, blk []byte) []byte {
	if len(blk) == 0 || blk[len(blk)-1] != 0x80 {
		c.Failf("%s: bucket %d does not end with the mark", what, b)
	}
	return blk[:len(blk)-1]
}

func checkStatistics(c *C, keys []*genKey, files []string) {
	what := fmt.Sprintf("statistics table of %d keys", len(keys))
	db, err := database.GenerateRealKeyDB(files)
	c.Must(err, what)
	c.Check(db.NumColumns == len(keys), "%s: %d columns", what, db.NumColumns)
	c.Check(len(db.KeysInfo) == len(keys), "%s: %d keys", what, len(db.KeysInfo))
	var got, want []string
	for i, k := range db.KeysInfo {
		c.Check(k != nil && k.UserId != nil, "%s: nothing about key %d", what, i)
		got = append(got, fmt.Sprintf("%q %q %q %q created %d algorithm %d bits %d", k.UserId.Id, k.UserId.Name, k.UserId.Comment, k.UserId.Email, k.CreationTime.Unix(), k.PubKeyAlgo, k.BitLength))
	}
	for _, k := range keys {
		id := k.primaryID()
		e := id.email
		if id.bare {
			e = ""
		}
		want = append(want, fmt.Sprintf("%q %q %q %q created %d algorithm %d bits %d", id.id(), id.name, id.comment, e, k.created.Unix(), k.algo, k.bits))
		c.Evalf("%s|%s", what, id.id())
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := range want {
		c.Check(got[i] == want[i], "%s: %s instead of %s", what, got[i], want[i])
	}
	c.Obs("statistics_tables_built", 1)
}
