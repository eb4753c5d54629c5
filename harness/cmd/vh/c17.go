package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C17", &propDef{
		rule:     "a database (random bytes, Merkle tree, field elements, keys, both lattice databases, group-based ones, the three key directories) of some shape and seed, built several times in this process and in other processes with another number of processors, environment and order of the key files, whose contents, dimensions, digests and roots have to be identical; a sequence of reads of the generator with clean and dirty buffers; the statistics of the cells over many seeds. Distinct by database, shape, seed and process, or by sequence of reads",
		minEvals: 600,
		build:    buildC17,
	})
	helpers["dbdump"] = func(a []string) {
		tier, _ := strconv.ParseInt(a[1], 10, 64)
		order, _ := strconv.ParseInt(a[2], 10, 64)
		for _, l := range dumpAll(a[0], tier, order) {
			fmt.Println(l)
		}
	}
}

// keysDBMu: random tables of keys are drawn from the global generator.
var keysDBMu sync.Mutex

func seedKey(s string) *utils.PRGKey {
	h := sha256.Sum256([]byte(s))
	var k utils.PRGKey
	copy(k[:], h[:])
	return &k
}

func dumpInfo(i *database.Info) string {
	s := fmt.Sprintf("%dx%d size=%d type=%q lens=%v", i.NumRows, i.NumColumns, i.BlockSize, i.PIRType, sha256.Sum256([]byte(fmt.Sprint(i.BlockLengths))))
	if i.Auth != nil {
		s += fmt.Sprintf(" digest=%x sub=%x", i.Digest, sha256.Sum256(i.SubDigests))
		if i.DigestLWE != nil {
			s += fmt.Sprintf(" lwe=%x", sha256.Sum256(matrix.MatrixToBytes(i.DigestLWE)))
		}
		if i.DigestLWE128 != nil {
			s += fmt.Sprintf(" lwe128=%x", sha256.Sum256(matrix.Matrix128ToBytes(i.DigestLWE128)))
		}
		s += fmt.Sprintf(" elem=%d hash=%v", i.ElementSize, i.Hash)
	}
	if i.Merkle != nil {
		s += fmt.Sprintf(" root=%x proof=%d", i.Merkle.Root, i.Merkle.ProofLen)
	}
	return s
}

func dumpCells(m *matrix.MatrixBytes, rows, cols int) string {
	b := make([]byte, 0, rows*cols)
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			b = append(b, m.Get(i, j))
		}
	}
	return fmt.Sprintf("%d cells %x", m.Len(), sha256.Sum256(b))
}

func dumpDB(d *database.DB) string {
	h := sha256.New()
	for _, k := range d.KeysInfo {
		email := ""
		if k.UserId != nil {
			email = k.UserId.Id + "|" + k.UserId.Email
		}
		fmt.Fprintf(h, "%s %d %d %d\n", email, k.CreationTime.UnixNano(), k.PubKeyAlgo, k.BitLength)
	}
	return fmt.Sprintf("%s keys=%d %x entries=%d %x", dumpInfo(&d.Info), len(d.KeysInfo), h.Sum(nil), len(d.Entries),
		sha256.Sum256(utils.Uint32SliceToByteSlice(d.Entries)))
}

func dumpBytes(d *database.Bytes) string {
	return fmt.Sprintf("%s entries=%d %x", dumpInfo(&d.Info), len(d.Entries), sha256.Sum256(d.Entries))
}

// dumpAll describes a set of databases; the key files below dir are given in
// the order chosen.
func dumpAll(dir string, tier, order int64) []string {
	var out []string
	add := func(label, s string) { out = append(out, label+": "+s) }
	r := newRand(order)
	shapes := []int64{1, 2, 3}
	if tier > 1 {
		shapes = []int64{1, 2, 3, 4, 5, 6, 7, 8}
	}
	for _, s := range shapes {
		sr := newRand(s) // the shapes do not depend on the order
		prg := func(what string) *utils.PRGReader { return utils.NewPRG(seedKey(fmt.Sprintf("%s %d", what, s))) }
		rows, cols, bl := 1+sr.Intn(20), 1+sr.Intn(60), 1+sr.Intn(40)
		add(fmt.Sprintf("bytes %d", s), dumpBytes(database.CreateRandomBytes(prg("b"), 8*rows*cols*bl, rows, bl)))
		add(fmt.Sprintf("merkle %d", s), dumpBytes(database.CreateRandomMerkle(prg("m"), 8*rows*cols*bl, rows, bl)))
		bits, err := database.CreateRandomBitsDB(prg("f"), 32*rows*cols*bl, rows, bl)
		must(err)
		add(fmt.Sprintf("field %d", s), dumpDB(bits))
		keysDBMu.Lock()
		keys, err := database.CreateRandomKeysDB(prg("k"), rows*cols)
		keysDBMu.Unlock()
		must(err)
		add(fmt.Sprintf("keys %d", s), dumpDB(keys))
		l := database.CreateRandomBinaryLWE(prg("l"), rows, cols)
		add(fmt.Sprintf("lwe %d", s), dumpInfo(&l.Info)+dumpCells(l.Matrix, rows, cols))
		n := 1 + sr.Intn(300)
		l = database.CreateRandomBinaryLWEWithLength(prg("l"), n)
		add(fmt.Sprintf("lwe of length %d", n), dumpInfo(&l.Info)+dumpCells(l.Matrix, l.NumRows, l.NumColumns))
		rows, cols = 1+sr.Intn(5), 1+sr.Intn(8)
		w := database.CreateRandomBinaryLWE128(prg("w"), rows, cols)
		add(fmt.Sprintf("lwe128 %d", s), dumpInfo(&w.Info)+dumpCells(w.Matrix, rows, cols))
		w = database.CreateRandomBinaryLWEWithLength128(prg("w"), rows*cols)
		add(fmt.Sprintf("lwe128 of length %d", rows*cols), dumpInfo(&w.Info)+dumpCells(w.Matrix, w.NumRows, w.NumColumns))
		for i, g := range []group.Group{group.P256, group.Ristretto255} {
			n := 1 + sr.Intn(120)
			e := database.CreateRandomEllipticWithDigest(prg("e"), n, g, s%2 == 0)
			add(fmt.Sprintf("group %d of %d, %d", i, n, s), dumpInfo(&e.Info)+fmt.Sprintf("%d cells %x", len(e.Entries), sha256.Sum256(e.Entries)))
		}
	}
	// larger ones
	prg := func(what string) *utils.PRGReader { return utils.NewPRG(seedKey("large " + what)) }
	add("large bytes", dumpBytes(database.CreateRandomBytes(prg("b"), 8*3*40009*5, 3, 5)))
	add("large bytes in one row", dumpBytes(database.CreateRandomBytes(prg("r"), 8*300007, 1, 1)))
	add("large merkle", dumpBytes(database.CreateRandomMerkle(prg("m"), 8*3*1337*61, 3, 61)))
	lbits, err := database.CreateRandomBitsDB(prg("f"), 32*5*20011, 5, 1)
	must(err)
	add("large field", dumpDB(lbits))
	keysDBMu.Lock()
	lkeys, err := database.CreateRandomKeysDB(prg("k"), 7001)
	keysDBMu.Unlock()
	must(err)
	add("large keys", dumpDB(lkeys))
	for _, d := range [][2]int{{37, 2500}, {1501, 61}} {
		l := database.CreateRandomBinaryLWE(prg("l"), d[0], d[1])
		add(fmt.Sprintf("large lwe %v", d), dumpInfo(&l.Info)+dumpCells(l.Matrix, d[0], d[1]))
	}
	lw := database.CreateRandomBinaryLWE128(prg("w"), 11, 61)
	add("large lwe128", dumpInfo(&lw.Info)+dumpCells(lw.Matrix, 11, 61))
	le := database.CreateRandomEllipticWithDigest(prg("e"), 2503, group.Ristretto255, true)
	add("large group", dumpInfo(&le.Info)+fmt.Sprintf("%d cells %x", len(le.Entries), sha256.Sum256(le.Entries)))
	// key directories
	sets, _ := filepath.Glob(filepath.Join(dir, "*"))
	sortStrings(sets)
	for _, set := range sets {
		files, _ := filepath.Glob(filepath.Join(set, "*"))
		sortStrings(files)
		// the sets of one group hold the same keys in different files
		label := strings.SplitN(filepath.Base(set), "-", 2)[0]
		if order > 0 {
			r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
		}
		for _, square := range []bool{false, true} {
			b, err := database.GenerateRealKeyBytes(files, square)
			must(err)
			add(fmt.Sprintf("directory %s square=%v", label, square), dumpBytes(b))
			b, err = database.GenerateRealKeyMerkle(files, square)
			must(err)
			add(fmt.Sprintf("authenticated directory %s square=%v", label, square), dumpBytes(b))
		}
		d, err := database.GenerateRealKeyDB(files)
		must(err)
		add(fmt.Sprintf("table %s", label), dumpDB(d))
	}
	return out
}

// onCPUs runs f on a thread that may use only the first n of the processors this
// process may use; the processes f starts inherit that.
func onCPUs(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		runtime.LockOSThread() // and never unlocked: the thread ends here
		var all, some [128]uint64
		syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, 1024, uintptr(unsafe.Pointer(&all)))
		for i, w := range all {
			for b := uint(0); b < 64; b++ {
				if n > 0 && w&(1<<b) != 0 {
					some[i] |= 1 << b
					n--
				}
			}
		}
		syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 1024, uintptr(unsafe.Pointer(&some)))
		f()
	}()
	<-done
}

func runDump(c *C, env []string, cpus int, args ...string) []string {
	exe, err := os.Executable()
	c.Must(err, "executable")
	cmd := exec.Command(exe, append([]string{"-helper", "dbdump"}, args...)...)
	cmd.Env = append(os.Environ(), env...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	var b []byte
	onCPUs(cpus, func() { b, err = cmd.Output() })
	if err != nil {
		c.Failf("building the databases fails: %v\n%s", err, clip(stderr.String(), 1500))
	}
	return strings.Split(strings.TrimSpace(string(b)), "\n")
}

func buildC17(t *T) {
	// ---- the same in every process
	tier := "1"
	if t.Thorough {
		tier = "2"
	}
	t.Addf(func(c *C) {
		dir := filepath.Join(t.Work, "keys")
		r := t.Rng("keys")
		for set, n := range []int{1, 7, 64, t.N(150, 600)} {
			keys := genKeys(r, n)
			if n > 50 {
				// addresses that have much in common
				for i := 0; i < n/2; i++ {
					k := *keys[i]
					id := k.ids[0]
					id.email = strings.Repeat("same", i%30) + fmt.Sprintf("%d%s@example.org", i, strings.Repeat("same", i%7))
					k.ids = []genID{id}
					keys = append(keys, k.make(r))
				}
			}
			for _, files := range []int{1, 2, 5} {
				shuffled := append([]*genKey{}, keys...)
				r.Shuffle(len(keys), func(i, j int) { shuffled[i], shuffled[j] = shuffled[j], shuffled[i] })
				writeKeyFiles(filepath.Join(dir, fmt.Sprintf("set%d-%d", set, files)), shuffled, files)
			}
		}
		first := map[string]string{}
		check := func(lines []string, who string) {
			c.Check(len(lines) > 30, "only %d databases were built", len(lines))
			for _, l := range lines {
				i := strings.Index(l, ": ")
				c.Check(i > 0, "unexpected output %q", l)
				label, v := l[:i], l[i+2:]
				if old, ok := first[label]; ok {
					c.Check(v == old, "%s, %s: %s instead of %s", label, who, v, old)
					c.Evalf("%s %s", label, who)
				} else {
					first[label] = v
				}
			}
		}
		for run, env := range [][]string{{"GOMAXPROCS=1"}, {"GOMAXPROCS=8", "TZ=Asia/Tokyo"}, {"GOMAXPROCS=3", "TZ=UTC", "LANG=C"}, {"GOGC=5"}, {"GOMAXPROCS=2"}} {
			if run > t.N(2, 4) {
				break
			}
			// the same databases on machines with 1, 2 and 5 processors, too
			cpus := []int{1, 0, 2, 5, 0}[run]
			check(runDump(c, env, cpus, dir, tier, strconv.Itoa(run)), fmt.Sprintf("process %d with %v on %d processors (0: all)", run, env, cpus))
			c.Obs("processes", 1)
		}
		check(dumpAll(dir, int64(t.N(1, 2)), 11), "in one process")
		check(dumpAll(dir, int64(t.N(1, 2)), 12), "again in the same process")
		// different databases are different
		byValue := map[string]string{}
		for _, l := range sortedStrings(first) {
			v := first[l]
			if !strings.Contains(l, "directory") && !strings.HasPrefix(l, "table") {
				if o, ok := byValue[v]; ok && !small(v) {
					c.Failf("%s and %s are the same database: %s", l, o, v)
				}
				byValue[v] = l
			}
		}
		c.Obs("databases", len(first))
	}, "databases in several processes")

	// ---- the generator
	for k := 0; k < t.N(12, 60); k++ {
		t.Addf(func(c *C) {
			for i := 0; i < t.N(60, 300); i++ {
				key := utils.PRGKey{}
				c.R.Read(key[:])
				var sizes []int
				for j := 1 + c.R.Intn(12); j > 0; j-- {
					sizes = append(sizes, []int{1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33, 64, 100, 1000, 4096, 8192, 8193, 20000}[c.R.Intn(18)])
				}
				read := func(kind int) []byte {
					prg := utils.NewPRG(&key)
					var out []byte
					for _, n := range sizes {
						b := make([]byte, n, n+c.R.Intn(40))
						switch kind {
						case 1:
							for x := range b {
								b[x] = 0xff
							}
						case 2, 3:
							c.R.Read(b)
						}
						m, err := prg.Read(b)
						c.Must(err, "read")
						c.Check(m == n, "a read of %d bytes delivers %d", n, m)
						out = append(out, b...)
					}
					return out
				}
				clean := read(0)
				for kind := 0; kind < 4; kind++ {
					got := read(kind)
					c.Check(bytes.Equal(clean, got), "reads of %v bytes: other bytes with buffers of kind %d", sizes, kind)
					c.Evalf("%x %v %d", key, sizes, kind)
				}
				// no part of the stream is constant or repeats
				seen := map[string]bool{}
				for x := 0; x+16 <= len(clean); x += 16 {
					s := string(clean[x : x+16])
					if len(sizes) == 1 || allMultiples(sizes) {
						c.Check(!seen[s], "reads of %v bytes: the block at %d appears twice", sizes, x)
					}
					seen[s] = true
				}
				// another key gives something else
				other := key
				other[c.R.Intn(16)] ^= 1 << uint(c.R.Intn(8))
				a, b := make([]byte, 32), make([]byte, 32)
				utils.NewPRG(&key).Read(a)
				utils.NewPRG(&other).Read(b)
				c.Check(!bytes.Equal(a[:16], b[:16]) && !bytes.Equal(a[16:], b[16:]), "seeds that differ in a bit give the same stream")
				// the key that was given does not change, and does not matter afterwards
				mine := key
				prg := utils.NewPRG(&mine)
				for x := range mine {
					mine[x] = 0
				}
				got := make([]byte, 32)
				prg.Read(got)
				c.Check(bytes.Equal(got, a), "the stream changes with the buffer of the seed")
				c.Evalf("%x other", key)
			}
		}, "generator, batch %d", k)
	}
	t.Addf(func(c *C) {
		// buffered
		for i := 0; i < t.N(200, 1000); i++ {
			key := seedKey(fmt.Sprint(c.R.Int63()))
			a, b := utils.NewBufPRG(utils.NewPRG(key)), utils.NewBufPRG(utils.NewPRG(key))
			o := utils.NewBufPRG(utils.NewPRG(seedKey(fmt.Sprint(c.R.Int63()))))
			same := 0
			for j := 0; j < 40; j++ {
				switch c.R.Intn(3) {
				case 0:
					x, y := a.Uint64(), b.Uint64()
					c.Check(x == y, "two buffered generators of one seed differ")
					if x == o.Uint64() {
						same++
					}
				case 1:
					x, y := a.Int63(), b.Int63()
					c.Check(x == y && x >= 0, "two buffered generators of one seed differ: %d and %d", x, y)
				case 2:
					mod := new(big.Int).SetBytes(append([]byte{1}, c.Bytes(c.R.Intn(40))...))
					x, y := a.RandInt(mod), b.RandInt(mod)
					c.Check(x.Cmp(y) == 0 && x.Sign() >= 0 && x.Cmp(mod) < 0, "two buffered generators of one seed: %v and %v below %v", x, y, mod)
				}
			}
			c.Check(same == 0, "two buffered generators of different seeds agree")
			c.Evalf("buffered %d", i)
		}
		// unseeded generators are all different
		seen := map[string]bool{}
		for i := 0; i < 2000; i++ {
			b := make([]byte, 16)
			utils.RandomPRG().Read(b)
			k := utils.RandomPRGKey()
			c.Check(!seen[string(b)] && !seen[string(k[:])], "two fresh generators have the same seed")
			seen[string(b)], seen[string(k[:])] = true, true
			c.Evalf("fresh %d", i)
		}
		mr := utils.MathRand()
		m := map[uint64]bool{}
		for i := 0; i < 20000; i++ {
			v := mr.Uint64()
			c.Check(!m[v], "the shared generator repeats itself")
			m[v] = true
		}
	}, "buffered and fresh generators")

	// ---- dimensions and use of the cells
	samples := t.N(420, 2000)
	cellCase := func(name string, rows, cols int, build func(rnd *utils.PRGReader) (cells []byte, note string)) {
		t.Addf(func(c *C) {
			lab := newLab(c.R, (rows*cols+7)/8, 1500)
			nbits := rows * cols
			for i := 0; i < samples; i++ {
				cells, note := build(utils.NewPRG(seedKey(fmt.Sprintf("%s %d %d", name, c.t.Seed, i))))
				c.Check(note == "", "%s %dx%d: %s", name, rows, cols, note)
				c.Check(len(cells) == nbits, "%s: %d cells instead of %dx%d", name, len(cells), rows, cols)
				b := make([]byte, (nbits+7)/8)
				for j, v := range cells {
					c.Check(v <= 1, "%s: a cell of value %d", name, v)
					b[j/8] |= v << uint(j%8)
				}
				for j := nbits; j < 8*len(b); j++ { // filler
					b[j/8] |= byte(c.R.Intn(2)) << uint(j%8)
				}
				lab.add(b)
				c.Evalf("%d", i)
			}
			if w := lab.judge(false); w != "" {
				c.Failf("%s %dx%d over %d seeds, one bit per cell: %s", name, rows, cols, samples, w)
			}
		}, "cells of %s %dx%d", name, rows, cols)
	}
	for _, s := range [][2]int{{1, 1}, {1, 9}, {9, 1}, {3, 7}, {8, 8}, {5, 13}, {2, 64}, {16, 31}} {
		s := s
		cellCase("lwe", s[0], s[1], func(rnd *utils.PRGReader) ([]byte, string) {
			d := database.CreateRandomBinaryLWE(rnd, s[0], s[1])
			return flatCells(d.Matrix, d.NumRows, d.NumColumns, s, d.BlockSize)
		})
		if s[0]*s[1] <= 21 { // its digest takes long
			cellCase("lwe128", s[0], s[1], func(rnd *utils.PRGReader) ([]byte, string) {
				d := database.CreateRandomBinaryLWE128(rnd, s[0], s[1])
				return flatCells(d.Matrix, d.NumRows, d.NumColumns, s, d.BlockSize)
			})
		}
	}
	for _, s := range [][3]int{{1, 1, 1}, {1, 5, 3}, {4, 1, 2}, {3, 4, 5}, {1, 16, 4}} {
		s := s
		n := s[0] * s[1] * s[2] * 8
		cellCase(fmt.Sprintf("bytes in blocks of %d,", s[2]), s[0]*s[1], 8*s[2], func(rnd *utils.PRGReader) ([]byte, string) {
			d := database.CreateRandomBytes(rnd, n, s[0], s[2])
			return byteCells(d, s, s[2], false)
		})
		cellCase(fmt.Sprintf("records with proofs in blocks of %d,", s[2]), s[0]*s[1], 8*s[2], func(rnd *utils.PRGReader) ([]byte, string) {
			d := database.CreateRandomMerkle(rnd, n, s[0], s[2])
			return byteCells(d, s, s[2], true)
		})
		cellCase(fmt.Sprintf("field elements in blocks of %d,", s[2]), s[0]*s[1], 31*s[2], func(rnd *utils.PRGReader) ([]byte, string) {
			d, err := database.CreateRandomBitsDB(rnd, 4*n, s[0], s[2])
			if err != nil {
				return nil, err.Error()
			}
			if d.NumRows != s[0] || d.NumColumns != s[1] || d.BlockSize != s[2] || len(d.Entries) != n/8 || len(d.BlockLengths) != s[0]*s[1] {
				return nil, fmt.Sprintf("%dx%d blocks of %d with %d entries", d.NumRows, d.NumColumns, d.BlockSize, len(d.Entries))
			}
			for i, l := range d.BlockLengths {
				if l != s[2] {
					return nil, fmt.Sprintf("block %d has the length %d", i, l)
				}
			}
			var out []byte
			for _, e := range d.Entries {
				for b := 0; b < 31; b++ {
					out = append(out, byte(e>>uint(b))&1)
				}
			}
			return out, ""
		})
	}
	for _, n := range []int{1, 2, 5, 9, 16, 40} {
		for _, square := range []bool{false, true} {
			n, square := n, square
			rows, cols := 1, n
			if square {
				rows = 1
				for rows*rows < n {
					rows++
				}
				cols = rows
			}
			cellCase(fmt.Sprintf("group database of %d,", n), rows, cols, func(rnd *utils.PRGReader) ([]byte, string) {
				d := database.CreateRandomEllipticWithDigest(rnd, n, group.Ristretto255, square)
				if d.NumRows != rows || d.NumColumns != cols || d.BlockSize != 1 {
					return nil, fmt.Sprintf("%dx%d blocks of %d", d.NumRows, d.NumColumns, d.BlockSize)
				}
				return d.Entries, ""
			})
		}
	}
	t.Addf(func(c *C) {
		for n := 1; n <= t.N(2000, 20000); n++ {
			rows, cols := database.CalculateNumRowsAndColumns(n, true)
			c.Check(rows == cols && rows*cols >= n && (rows-1)*(rows-1) < n, "%d blocks in a square: %dx%d", n, rows, cols)
			rows, cols = database.CalculateNumRowsAndColumns(n, false)
			c.Check(rows == 1 && cols == n, "%d blocks in a vector: %dx%d", n, rows, cols)
			i := c.R.Intn(n)
			w := 1 + c.R.Intn(n)
			a, b := utils.VectorToMatrixIndices(i, w)
			c.Check(a*w+b == i && b >= 0 && b < w, "position %d of rows of %d is %d,%d", i, w, a, b)
			c.Evalf("%d", n)
		}
		for _, n := range []int{1, 2, 3, 10, 16, 17, 99, 100, 101, 255, 1000} {
			d := database.CreateRandomBinaryLWEWithLength(utils.RandomPRG(), n)
			c.Check(d.NumRows == d.NumColumns && d.NumRows*d.NumColumns >= n && d.Matrix.Len() == d.NumRows*d.NumColumns, "a lattice database of %d cells is %dx%d", n, d.NumRows, d.NumColumns)
			c.Evalf("length %d", n)
		}
		for _, n := range []int{0, 1, 2, 17, 300} {
			keysDBMu.Lock()
			d, err := database.CreateRandomKeysDB(utils.RandomPRG(), n)
			keysDBMu.Unlock()
			c.Must(err, "keys")
			c.Check(len(d.KeysInfo) == n && d.NumColumns == n, "a table of %d keys has %d", n, len(d.KeysInfo))
			seen := map[string]bool{}
			for _, k := range d.KeysInfo {
				c.Check(k != nil && k.UserId != nil && len(k.UserId.Email) == 32 && !seen[k.UserId.Email], "an invalid key in the table")
				seen[k.UserId.Email] = true
			}
			c.Evalf("keys %d", n)
		}
		// what the generator cannot read is not made up
		fr := &failReader{src: detReader{c.R}, left: 10}
		if d, err := database.CreateRandomBitsDB(fr, 4096, 1, 1); err == nil {
			c.Failf("a database of %d elements is made from 10 bytes", len(d.Entries))
		}
	}, "dimensions")
	// a generator that delivers a few bytes at a time gives the same
	t.Addf(func(c *C) {
		for i := 0; i < t.N(40, 200); i++ {
			rows, cols, bl := 1+c.R.Intn(6), 1+c.R.Intn(9), 1+c.R.Intn(9)
			seed := c.R.Int63()
			n := 8 * rows * cols * bl
			two := func(what string, f func(rnd io.Reader) string) {
				a := f(byteReader{newRand(seed)})
				b := f(&shortReader{byteReader{newRand(seed)}, newRand(seed + 1), 1 + int(seed%7)})
				c.Check(a == b, "%s %dx%d: another database when the generator delivers a few bytes at a time", what, rows, cols)
				c.Evalf("%s %d", what, i)
			}
			two("bytes", func(rnd io.Reader) string { return dumpBytes(database.CreateRandomBytes(rnd, n, rows, bl)) })
			two("merkle", func(rnd io.Reader) string { return dumpBytes(database.CreateRandomMerkle(rnd, n, rows, bl)) })
			two("field", func(rnd io.Reader) string {
				d, err := database.CreateRandomBitsDB(rnd, 4*n, rows, bl)
				c.Must(err, "field")
				return dumpDB(d)
			})
			two("lwe", func(rnd io.Reader) string {
				d := database.CreateRandomBinaryLWE(rnd, rows, cols)
				return dumpInfo(&d.Info) + dumpCells(d.Matrix, rows, cols)
			})
			if i < 6 {
				two("lwe128", func(rnd io.Reader) string {
					d := database.CreateRandomBinaryLWE128(rnd, rows, cols)
					return dumpInfo(&d.Info) + dumpCells(d.Matrix, rows, cols)
				})
			}
			two("group", func(rnd io.Reader) string {
				d := database.CreateRandomEllipticWithDigest(rnd, rows*cols, group.Ristretto255, true)
				return dumpInfo(&d.Info) + fmt.Sprintf("%x", d.Entries)
			})
		}
	}, "slow sources of randomness")
}

func sortedStrings(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

// small databases can coincide.
func small(v string) bool {
	for _, k := range []string{"entries=", " keys="} {
		if i := strings.Index(v, k); i >= 0 {
			n, _ := strconv.Atoi(strings.SplitN(v[i+len(k):], " ", 2)[0])
			if n >= 16 {
				return false
			}
		}
	}
	return true
}

func allMultiples(sizes []int) bool {
	for _, s := range sizes {
		if s%16 != 0 {
			return false
		}
	}
	return true
}

func flatCells(m *matrix.MatrixBytes, rows, cols int, s [2]int, bs int) ([]byte, string) {
	if rows != s[0] || cols != s[1] || m.Len() != rows*cols || bs != 1 {
		return nil, fmt.Sprintf("%dx%d cells of %d, %d in all", rows, cols, bs, m.Len())
	}
	var out []byte
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			out = append(out, m.Get(i, j))
		}
	}
	return out, ""
}

func byteCells(d *database.Bytes, s [3]int, bl int, auth bool) ([]byte, string) {
	want := bl
	if auth {
		want = d.BlockSize
		if d.Merkle == nil || d.Merkle.ProofLen+bl+1 != want || len(d.Merkle.Root) != 32 {
			return nil, fmt.Sprintf("blocks of %d for records of %d", want, bl)
		}
	}
	n := s[0] * s[1]
	if d.NumRows != s[0] || d.NumColumns != s[1] || d.BlockSize != want || len(d.Entries) != n*want || len(d.BlockLengths) != n {
		return nil, fmt.Sprintf("%dx%d blocks of %d with %d bytes", d.NumRows, d.NumColumns, d.BlockSize, len(d.Entries))
	}
	var out []byte
	for i := 0; i < n; i++ {
		if d.BlockLengths[i] != want {
			return nil, fmt.Sprintf("block %d has length %d instead of %d", i, d.BlockLengths[i], want)
		}
		rec := d.Entries[i*want : i*want+bl]
		if auth {
			rest := d.Entries[i*want+bl : (i+1)*want]
			if rest[len(rest)-1] != 0x80 {
				return nil, fmt.Sprintf("block %d does not end with the signal byte", i)
			}
			p := merkle.DecodeProof(rest[:len(rest)-1])
			if p == nil || !verifies(rec, p, d.Merkle.Root) {
				return nil, fmt.Sprintf("the proof of block %d does not verify", i)
			}
		}
		for _, b := range rec {
			for k := 0; k < 8; k++ {
				out = append(out, b>>uint(k)&1)
			}
		}
	}
	return out, ""
}
