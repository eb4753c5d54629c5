package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"

	"github.com/si-co/vpir-code/lib/merkle"
)

func init() {
	register("C03", &propDef{
		rule:     "a list of byte strings (lengths 1..70 and around powers of two; distinct, equal, empty, prefixes of each other, colliding under the FNV digest), for which every element is proved, encoded, decoded and verified, and then every part of the proof, the content, the position, the root and the list is changed; an evaluation is one verification or one comparison of roots; non-trivial are those with a changed part, distinct by list and change",
		assume:   []string{"collision resistance of the hash function"},
		minEvals: 20000,
		build:    buildC03,
	})
}

func verifies(data []byte, p *merkle.Proof, root []byte) bool {
	ok, _ := merkle.VerifyProof(data, p, root)
	return ok
}

func buildC03(t *T) {
	mkList := func(c *C, n int, kind string) [][]byte {
		l := make([][]byte, n)
		for i := range l {
			switch kind {
			case "distinct":
				l[i] = append([]byte{byte(i >> 8), byte(i)}, c.Bytes(c.R.Intn(50))...)
			case "equal":
				l[i] = []byte("the same element")
			case "empty":
				l[i] = []byte{}
			case "nil":
				l[i] = nil
			case "few":
				l[i] = []byte{byte(c.R.Intn(3))}
			case "prefix":
				l[i] = bytes.Repeat([]byte{1}, i%7)
			case "zeros":
				l[i] = make([]byte, i)
			case "long":
				l[i] = append([]byte{byte(i >> 8), byte(i)}, c.Bytes(1000+c.R.Intn(2000))...)
			case "huge":
				// beyond what a buffer would hold
				l[i] = append([]byte{byte(i)}, c.Bytes([]int{40000, 66000, 70001, 140003, 300007, 65536, 65535}[c.R.Intn(7)])...)
			case "fnv":
				// FNV-1a reaches zero after these bytes, and stays there
				l[i] = append([]byte{0xd5, 0x6b, 0xb9, 0x53, 0x42, 0x87, 0x08, 0x36}, make([]byte, i)...)
			case "tree":
				// as long as what is hashed into a node
				l[i] = c.Bytes(60 + i%3*2)
			}
		}
		return l
	}
	check := func(c *C, n int, kind string, deep bool) {
		list := mkList(c, n, kind)
		saved := make([][]byte, n)
		for i := range list {
			saved[i] = append([]byte{}, list[i]...)
		}
		tree, err := merkle.New(list)
		c.Must(err, "tree")
		root := append([]byte{}, tree.Root()...)
		tree2, err := merkle.New(saved)
		c.Must(err, "tree")
		c.Check(bytes.Equal(root, tree2.Root()), "two trees over the same list have different roots")
		height := bits.Len(uint(n - 1))
		encLen := tree.EncodedProofLength()
		pos := positions(c.R, n, t.N(24, 80))
		for _, i := range pos {
			p, err := tree.GenerateProof(list[i])
			if err != nil {
				c.Failf("%s/%d: no proof for element %d: %v", kind, n, i, err)
			}
			at := int(p.Index)
			c.Check(at < n && bytes.Equal(list[at], list[i]), "%s/%d: the proof of element %d is for position %d", kind, n, i, at)
			c.Check(verifies(list[i], p, root), "%s/%d: the proof of element %d does not verify", kind, n, i)
			c.Check(len(p.Hashes) == height, "%s/%d: %d hashes in a tree of height %d", kind, n, len(p.Hashes), height)
			e := merkle.EncodeProof(p)
			c.Check(len(e) == encLen, "%s/%d: proof of %d bytes, %d advertised", kind, n, len(e), encLen)
			d := merkle.DecodeProof(append([]byte{}, e...))
			if d == nil || d.Index != p.Index || len(d.Hashes) != len(p.Hashes) {
				c.Failf("%s/%d: proof of %d does not survive encoding", kind, n, i)
			}
			for x := range d.Hashes {
				c.Check(bytes.Equal(d.Hashes[x], p.Hashes[x]), "hash %d of proof %d does not survive encoding", x, i)
			}
			c.Check(verifies(list[i], d, root), "%s/%d: the decoded proof of %d does not verify", kind, n, i)
			c.Evalf("")
			c.Obs("proofs_verified", 1)

			rejected := func(what string, data []byte, q *merkle.Proof, root []byte) {
				if verifies(data, q, root) {
					c.Failf("%s list of %d, element %d: verifies after changing %s", kind, n, i, what)
				}
				c.Evalf("%s/%d/%d/%s", kind, n, i, what)
				c.Obs("changes_rejected", 1)
			}
			clone := func() *merkle.Proof {
				q := &merkle.Proof{Index: p.Index}
				for _, h := range p.Hashes {
					q.Hashes = append(q.Hashes, append([]byte{}, h...))
				}
				return q
			}
			// content
			for x := 0; x < 8*len(list[i]) && (deep || x < 64); x++ {
				b := append([]byte{}, list[i]...)
				b[x/8] ^= 1 << uint(x%8)
				rejected(fmt.Sprintf("content bit %d", x), b, p, root)
			}
			if l := len(list[i]); l > 8 {
				for _, x := range []int{8*l - 1, 8 * (l - 1), 4 * l, 6 * l, 8*l - 8*l/16, 8*c.R.Intn(l) + 3, 8*(l/2+c.R.Intn(l-l/2)) + 5} {
					b := append([]byte{}, list[i]...)
					b[x/8] ^= 1 << uint(x%8)
					rejected(fmt.Sprintf("content bit %d", x), b, p, root)
				}
			}
			rejected("content extended by zero", append(append([]byte{}, list[i]...), 0), p, root)
			rejected("content extended", append(append([]byte{}, list[i]...), 0x80), p, root)
			rejected("content prefixed", append([]byte{0}, list[i]...), p, root)
			if l := len(list[i]); l > 0 {
				rejected("content cut", list[i][:l-1], p, root)
				rejected("content cut at the front", list[i][1:], p, root)
				rejected("content emptied", nil, p, root)
			}
			// the index is hashed after the content
			ib := make([]byte, 4)
			binary.LittleEndian.PutUint32(ib, p.Index)
			rejected("content with the index", append(append([]byte{}, list[i]...), ib...), p, root)
			for j := 0; j < n && j < 10; j++ {
				if !bytes.Equal(list[j], list[i]) {
					rejected(fmt.Sprintf("content to that of %d", j), list[j], p, root)
				}
			}
			// position
			for x := uint(0); x < 32; x++ {
				q := clone()
				q.Index ^= 1 << x
				rejected(fmt.Sprintf("position bit %d", x), list[i], q, root)
			}
			for _, idx := range []uint32{p.Index + 1, p.Index - 1, p.Index + uint32(1)<<uint(height), p.Index + uint32(n), ^uint32(0), 0, uint32(n)} {
				if idx != p.Index {
					q := clone()
					q.Index = idx
					rejected(fmt.Sprintf("position to %d", idx), list[i], q, root)
				}
			}
			// path
			for x := range p.Hashes {
				nb := 256
				if !deep {
					nb = 16
				}
				for b := 0; b < nb; b++ {
					bb := b
					if !deep {
						bb = c.R.Intn(256)
					}
					q := clone()
					q.Hashes[x][bb/8] ^= 1 << uint(bb%8)
					rejected(fmt.Sprintf("hash %d bit %d", x, bb), list[i], q, root)
				}
				q := clone()
				q.Hashes = append(q.Hashes[:x:x], q.Hashes[x+1:]...)
				rejected(fmt.Sprintf("path without hash %d", x), list[i], q, root)
				q = clone()
				q.Hashes[x] = q.Hashes[x][:31]
				rejected(fmt.Sprintf("hash %d cut", x), list[i], q, root)
				q = clone()
				q.Hashes[x] = append(q.Hashes[x], 0)
				rejected(fmt.Sprintf("hash %d extended", x), list[i], q, root)
				q = clone()
				q.Hashes[x] = nil
				rejected(fmt.Sprintf("hash %d removed", x), list[i], q, root)
				q = clone()
				q.Hashes = append(q.Hashes, q.Hashes[x])
				rejected(fmt.Sprintf("path with hash %d again", x), list[i], q, root)
				for y := range p.Hashes[:x] {
					if !bytes.Equal(p.Hashes[x], p.Hashes[y]) {
						q = clone()
						q.Hashes[x], q.Hashes[y] = q.Hashes[y], q.Hashes[x]
						rejected(fmt.Sprintf("hashes %d and %d swapped", x, y), list[i], q, root)
					}
				}
			}
			q := clone()
			q.Hashes = append(q.Hashes, make([]byte, 32))
			rejected("path extended by zeros", list[i], q, root)
			q = clone()
			q.Hashes = append(q.Hashes, []byte{})
			rejected("path extended by nothing", list[i], q, root)
			q = clone()
			q.Hashes = append(q.Hashes, root)
			rejected("path extended by the root", list[i], q, root)
			// root
			for b := 0; b < 256; b += 1 + c.R.Intn(13) {
				r := append([]byte{}, root...)
				r[b/8] ^= 1 << uint(b%8)
				rejected(fmt.Sprintf("root bit %d", b), list[i], p, r)
			}
			rejected("root cut", list[i], p, root[:31])
			rejected("root emptied", list[i], p, nil)
			rejected("root emptied", list[i], p, []byte{})
			rejected("root extended", list[i], p, append(append([]byte{}, root...), 0))
			if len(p.Hashes) > 0 {
				rejected("root to a hash of the path", list[i], p, p.Hashes[len(p.Hashes)-1])
			}
			rejected("nothing but an empty proof", list[i], &merkle.Proof{}, func() []byte {
				if n == 1 {
					return append([]byte{1}, root[1:]...)
				}
				return root
			}())
			if verifies(list[i], nil, root) {
				c.Failf("no proof at all verifies")
			}
		}
		// what is not in the list has no proof
		for x := 0; x < 20; x++ {
			b := c.Bytes(40 + x)
			if x%3 == 0 {
				b = append(append([]byte{}, list[c.R.Intn(n)]...), 0x55, byte(x))
			}
			if p, err := tree.GenerateProof(b); err == nil {
				c.Failf("%s/%d: a proof for an element that is not in the list, at %d", kind, n, p.Index)
			}
			c.Evalf("absent %d %d", n, x)
		}
		// changes of the list change the root
		changed := func(what string, l [][]byte) {
			t2, err := merkle.New(l)
			c.Must(err, "tree")
			if bytes.Equal(t2.Root(), root) {
				c.Failf("%s list of %d: the root is the same after %s", kind, n, what)
			}
			c.Evalf("%s/%d/list/%s", kind, n, what)
			c.Obs("lists_changed", 1)
		}
		cp := func() [][]byte { return append([][]byte{}, list...) }
		for _, i := range positions(c.R, n, 12) {
			l := cp()
			l[i] = append(append([]byte{}, list[i]...), 0)
			changed(fmt.Sprintf("extending element %d", i), l)
			if len(list[i]) > 0 {
				l = cp()
				b := append([]byte{}, list[i]...)
				b[c.R.Intn(len(b))] ^= 1 << uint(c.R.Intn(8))
				l[i] = b
				changed(fmt.Sprintf("changing element %d", i), l)
				l = cp()
				b = append([]byte{}, list[i]...)
				b[len(b)-1] ^= 0x10
				l[i] = b
				changed(fmt.Sprintf("changing the end of element %d", i), l)
				l = cp()
				l[i] = nil
				changed(fmt.Sprintf("emptying element %d", i), l)
			}
			j := c.R.Intn(n)
			if !bytes.Equal(list[i], list[j]) {
				l = cp()
				l[i], l[j] = l[j], l[i]
				changed(fmt.Sprintf("swapping elements %d and %d", i, j), l)
				l = cp()
				l[i] = list[j]
				changed(fmt.Sprintf("repeating element %d at %d", j, i), l)
			}
			if n > 1 {
				l = append(append([][]byte{}, list[:i]...), list[i+1:]...)
				changed(fmt.Sprintf("removing element %d", i), l)
			}
			// a byte moved between neighbours
			if i+1 < n && len(list[i]) > 0 {
				l = cp()
				k := len(list[i]) - 1
				l[i] = list[i][:k]
				l[i+1] = append([]byte{list[i][k]}, list[i+1]...)
				changed(fmt.Sprintf("moving a byte from %d", i), l)
			}
		}
		changed("appending an element", append(cp(), []byte("x")))
		changed("appending an empty element", append(cp(), []byte{}))
		changed("appending the last element again", append(cp(), list[n-1]))
		changed("appending zeros", append(cp(), make([]byte, 32)))
		changed("appending two empty elements", append(cp(), nil, nil))
		changed("putting an element in front", append([][]byte{[]byte("x")}, list...))
		for i := range list {
			c.Check(bytes.Equal(list[i], saved[i]), "the list was modified")
		}
	}
	kinds := []string{"distinct", "equal", "empty", "few", "prefix", "zeros", "fnv", "tree", "nil", "long"}
	for n := 1; n <= 70; n++ {
		n := n
		for ki, kind := range kinds {
			kind := kind
			if !t.Thorough && n > 20 && (n+ki)%5 != 0 && kind != "distinct" {
				continue
			}
			t.Addf(func(c *C) { check(c, n, kind, n <= 9 || t.Thorough) }, "%s/%d", kind, n)
		}
	}
	big := []int{127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025}
	if t.Thorough {
		big = append(big, 4095, 4096, 4097, 65535, 65536, 65537, 100000)
	}
	for _, n := range big {
		n := n
		for _, kind := range []string{"distinct", "equal", "few", "fnv"} {
			kind := kind
			if n > 10000 && kind == "fnv" {
				continue
			}
			t.Addf(func(c *C) { check(c, n, kind, false) }, "%s/%d", kind, n)
		}
	}
	for n := 1; n <= t.N(6, 20); n++ {
		n := n
		t.Addf(func(c *C) { check(c, n, "huge", false) }, "huge/%d", n)
	}
	// every element of large lists, whose trees may be made in other ways
	whole := []int{2047, 5000, 16385, 32771, 65537, 100003}
	if t.Thorough {
		whole = append(whole, 131071, 300007, 1<<20+1, 1500001)
	}
	for _, n := range whole {
		n := n
		t.Addf(func(c *C) {
			list := make([][]byte, n)
			buf := c.Bytes(12 * n)
			for i := range list {
				list[i] = buf[12*i : 12*i+12]
				binary.BigEndian.PutUint32(list[i], uint32(i))
			}
			tree, err := merkle.New(list)
			c.Must(err, "tree")
			root := tree.Root()
			height := bits.Len(uint(n - 1))
			for i := range list {
				p, err := tree.GenerateProof(list[i])
				if err != nil || int(p.Index) != i || len(p.Hashes) != height || !verifies(list[i], p, root) {
					c.Failf("the proof of element %d of %d is not valid (%v)", i, n, err)
				}
				if i%97 == 0 || i > n-20 {
					q := merkle.DecodeProof(merkle.EncodeProof(p))
					c.Check(q != nil && verifies(list[i], q, root), "the proof of element %d of %d does not survive encoding", i, n)
					q.Index ^= 1 << uint(c.R.Intn(height+1))
					c.Check(!verifies(list[i], q, root), "element %d of %d verifies at %d", i, n, q.Index)
					q.Index = uint32(i)
					c.Check(!verifies(list[(i+1)%n], q, root), "element %d of %d verifies at %d", (i+1)%n, n, i)
					b := append([]byte{}, list[i]...)
					b[c.R.Intn(12)] ^= 1
					c.Check(!verifies(b, q, root), "a change of element %d of %d verifies", i, n)
					q.Hashes[c.R.Intn(height)][c.R.Intn(32)] ^= 2
					c.Check(!verifies(list[i], q, root), "a change of the path of element %d of %d verifies", i, n)
					c.Obs("changes_rejected", 4)
					c.Evalf("whole/%d/%d", n, i)
				}
			}
			c.Obs("proofs_verified", n)
			for _, i := range []int{0, n / 2, n - 1, n - 2, n - n%8} {
				if i == n {
					continue
				}
				l := append([][]byte{}, list...)
				l[i] = c.Bytes(12)
				t2, err := merkle.New(l)
				c.Must(err, "tree")
				c.Check(!bytes.Equal(t2.Root(), root), "the root of a list of %d is the same after changing element %d", n, i)
				c.Evalf("whole/%d/list/%d", n, i)
			}
		}, "whole/%d", n)
	}
	// an internal node is not an element: the two children of the root are
	// hashed as 60 bytes of content and 4 of position would be
	t.Addf(func(c *C) {
		for rep := 0; rep < t.N(300, 20000); rep++ {
			n := 2 + c.R.Intn(9)
			l := make([][]byte, n)
			for i := range l {
				l[i] = c.Bytes(1 + c.R.Intn(20))
			}
			tree, err := merkle.New(l)
			c.Must(err, "tree")
			p0, err := tree.GenerateProof(l[0])
			c.Must(err, "proof")
			pl, err := tree.GenerateProof(l[n-1])
			c.Must(err, "proof")
			h := len(p0.Hashes)
			// the top hash of the first proof is the right child of the
			// root, that of the last the left child, if it is on the right
			if pl.Index>>uint(h-1) == 0 {
				continue
			}
			kids := append(append([]byte{}, pl.Hashes[h-1]...), p0.Hashes[h-1]...)
			idx := binary.LittleEndian.Uint32(kids[60:])
			for _, q := range []*merkle.Proof{{Index: idx}, {Index: idx, Hashes: [][]byte{}}} {
				if verifies(kids[:60], q, tree.Root()) {
					c.Failf("the children of the root verify as an element at position %d of a tree of %d", idx, n)
				}
			}
			c.Evalf("node %d", rep)
			c.Obs("internal_nodes_tried", 1)
		}
	}, "internal nodes")
	// one proof does not serve in another tree
	t.Addf(func(c *C) {
		for rep := 0; rep < t.N(60, 2000); rep++ {
			n := 1 + c.R.Intn(40)
			a, b := mkList(c, n, "distinct"), mkList(c, n, "distinct")
			i := c.R.Intn(n)
			b[i] = a[i]
			if n == 1 {
				continue
			}
			ta, err := merkle.New(a)
			c.Must(err, "tree")
			tb, err := merkle.New(b)
			c.Must(err, "tree")
			pa, err := ta.GenerateProof(a[i])
			c.Must(err, "proof")
			c.Check(!verifies(a[i], pa, tb.Root()), "a proof of another tree verifies")
			pb, err := tb.GenerateProof(b[i])
			c.Must(err, "proof")
			c.Check(verifies(b[i], pb, tb.Root()) && verifies(a[i], pa, ta.Root()), "proofs of two trees interfere")
			c.Evalf("two trees %d", rep)
		}
	}, "two trees")
	t.Addf(func(c *C) {
		if _, err := merkle.New(nil); err == nil {
			c.Failf("a tree over nothing")
		}
		if _, err := merkle.New([][]byte{}); err == nil {
			c.Failf("a tree over nothing")
		}
		c.Evalf("empty list")
	}, "empty list")
}
