package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/armor"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/pgp"
)

func init() {
	register("C23", &propDef{
		build: buildC23,
		progs: []string{"data"},
		rule: "sets of OpenPGP keys are generated with real signatures (several identities, revoked, without address, oversized, duplicated, " +
			"damaged, of several algorithms), spread over dump files, ingested in process and with the data program; the oracle selects per " +
			"address from the generator's plaintext description. Non-trivial: the set has at least two candidates for an address, or a key that has to be left out",
		assume:   []string{"ties of creation times within one address are not generated"},
		minEvals: 1000,
	})
}

// splitPackets returns the packets of b, each with its tag.
func splitPackets(b []byte) (tags []byte, bodies []string, err error) {
	for len(b) > 0 {
		if b[0]&0x80 == 0 {
			return nil, nil, fmt.Errorf("no packet")
		}
		var tag byte
		var head, n int
		need := func(k int) bool { return len(b) >= k }
		if b[0]&0x40 != 0 {
			tag = b[0] & 0x3f
			switch {
			case !need(2):
				return nil, nil, io.ErrUnexpectedEOF
			case b[1] < 192:
				head, n = 2, int(b[1])
			case b[1] < 224 && need(3):
				head, n = 3, (int(b[1])-192)<<8+int(b[2])+192
			case b[1] == 255 && need(6):
				head, n = 6, int(b[2])<<24|int(b[3])<<16|int(b[4])<<8|int(b[5])
			default:
				return nil, nil, fmt.Errorf("length of a packet")
			}
		} else {
			tag = (b[0] & 0x3f) >> 2
			switch {
			case b[0]&3 == 0 && need(2):
				head, n = 2, int(b[1])
			case b[0]&3 == 1 && need(3):
				head, n = 3, int(b[1])<<8|int(b[2])
			case b[0]&3 == 2 && need(5):
				head, n = 5, int(b[1])<<24|int(b[2])<<16|int(b[3])<<8|int(b[4])
			default:
				return nil, nil, fmt.Errorf("length of a packet")
			}
		}
		if n < 0 || !need(head+n) {
			return nil, nil, io.ErrUnexpectedEOF
		}
		tags = append(tags, tag)
		bodies = append(bodies, string(b[head:head+n]))
		b = b[head+n:]
	}
	return
}

// canonKey describes one key independently of the order of its identities and
// of the signatures on them, which carries no meaning.
func canonKey(b []byte) string {
	tags, bodies, err := splitPackets(b)
	if err != nil {
		return "not packets: " + err.Error()
	}
	var head string
	var groups []string
	var cur []string
	flush := func() {
		if cur != nil {
			sort.Strings(cur[1:])
			groups = append(groups, strings.Join(cur, "|"))
		}
		cur = nil
	}
	for i := range tags {
		s := fmt.Sprintf("%d:%x", tags[i], bodies[i])
		switch {
		case tags[i] == 2 && cur != nil:
			cur = append(cur, s)
		case tags[i] == 13 || tags[i] == 14:
			flush()
			cur = []string{s}
		default:
			flush()
			head += s + "\n"
		}
	}
	flush()
	sort.Strings(groups)
	return head + strings.Join(groups, "\n")
}

// keySet is a set of keys as they come in dumps.
type keySet struct {
	what string
	keys []*genKey
	junk map[int][]byte // what is written before some keys
}

// want is the outcome of the ingestion: the address to the key.
func (s *keySet) want() map[string]*genKey {
	best := map[string]*genKey{}
	for _, k := range s.keys {
		e := k.email()
		if k.revoked || e == "" {
			continue
		}
		if b := best[e]; b == nil || k.created.After(b.created) {
			best[e] = k
		}
	}
	for e, k := range best {
		if len(k.bare) > 8192 {
			delete(best, e)
		}
	}
	return best
}

func (s *keySet) write(dir string, order []int, files int, r *rand.Rand) {
	must(os.MkdirAll(dir, 0o755))
	parts := make([]bytes.Buffer, files)
	for i, j := range order {
		f := i * files / len(order)
		parts[f].Write(s.junk[j])
		parts[f].Write(s.keys[j].dump)
	}
	perm := r.Perm(files)
	for f := range parts {
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("sks-dump-%04d.pgp", perm[f])), parts[f].Bytes(), 0o644))
	}
}

// checkKeys compares what was ingested with what had to be.
func checkKeys(c *C, what string, got []*pgp.Key, want map[string]*genKey, all []*genKey) {
	seen := map[string]bool{}
	byCanon := map[string]*genKey{}
	for _, k := range all {
		byCanon[canonKey(k.bare)] = k
	}
	describe := func(b []byte) string {
		if k := byCanon[canonKey(b)]; k != nil {
			return fmt.Sprintf("the key of %q created %v (revoked=%v, %d bytes)", k.email(), k.created, k.revoked, len(k.bare))
		}
		return fmt.Sprintf("no key of the dumps: %d bytes", len(b))
	}
	for _, g := range got {
		c.Check(!seen[g.ID], "%s: the address %q has more than one key", what, g.ID)
		seen[g.ID] = true
		w := want[g.ID]
		if w == nil {
			c.Failf("%s: a key for %q, which has none: %s", what, g.ID, describe(g.Packet))
		}
		if canonKey(g.Packet) != canonKey(w.bare) {
			c.Failf("%s: for %q instead of the key created %v: %s", what, g.ID, w.created, describe(g.Packet))
		}
		c.Evalf("%s|%s|%d", what, g.ID, len(g.Packet))
	}
	for e, w := range want {
		c.Check(seen[e], "%s: the key of %q created %v (%d bytes) is missing; %d of %d are there", what, e, w.created, len(w.bare), len(seen), len(want))
	}
	c.Obs("keys_compared", len(got))
}

// fatKey makes a key whose bare form has exactly n bytes.
func fatKey(r *rand.Rand, n int, algo packet.PublicKeyAlgorithm, email string) *genKey {
	created := genTime(r)
	base := (&genKey{ids: []genID{{email: email}}, created: created, algo: algo}).make(r)
	name := n - len(base.bare)
	for try := 0; try < 40; try++ {
		k := &genKey{ids: []genID{{name: strings.Repeat("x", name), email: email}}, created: created, algo: algo}
		k.make(r)
		if len(k.bare) == n {
			return k
		}
		// the signature and the header have lengths of their own
		name += n - len(k.bare)
	}
	return nil
}

func randomKeySet(r *rand.Rand, n int) *keySet {
	s := &keySet{what: fmt.Sprintf("%d random keys", n), junk: map[int][]byte{}}
	naddr := 1 + r.Intn(n)
	addr := make([]string, naddr)
	for i := range addr {
		addr[i] = genEmail(r, i)
	}
	algos := []packet.PublicKeyAlgorithm{packet.PubKeyAlgoRSA, packet.PubKeyAlgoRSA, packet.PubKeyAlgoECDSA, packet.PubKeyAlgoDSA, packet.PubKeyAlgoRSASignOnly}
	cases := func(e string) string {
		switch r.Intn(4) {
		case 0:
			return strings.ToUpper(e)
		case 1:
			return strings.ToLower(e)
		}
		return e
	}
	times := map[int64]bool{}
	for len(s.keys) < n {
		t := genTime(r)
		if len(s.keys) > 0 && r.Intn(3) == 0 { // a second apart
			t = s.keys[r.Intn(len(s.keys))].created.Add(time.Second)
		}
		if times[t.Unix()] {
			continue
		}
		times[t.Unix()] = true
		k := &genKey{created: t, algo: algos[r.Intn(len(algos))], revoked: r.Intn(5) == 0, subkeys: r.Intn(6) / 4}
		if r.Intn(6) == 0 {
			k.expires = 1 + uint32(r.Intn(1000000000))
		}
		if r.Intn(6) == 0 {
			k.pieces = 1 + r.Intn(3)
		}
		e := addr[r.Intn(naddr)]
		switch r.Intn(9) {
		case 8: // several addresses, none of them in the primary identity
			l := strings.ToLower(e)
			k.ids = []genID{{name: "me", primary: true}}
			for i, p := range r.Perm(5)[:1+r.Intn(5)] {
				k.ids = append(k.ids, genID{name: fmt.Sprint("id", i), email: []string{"", "zz.", "zzy.", "zzz.", "zzzz."}[p] + l})
			}
		case 0: // no address
			k.ids = []genID{{name: "nobody", comment: "none"}}
		case 1: // an address in the second identity only
			k.ids = []genID{{name: "me", primary: true}, {name: "me", email: cases(e)}}
		case 2: // several, one of them primary
			k.ids = []genID{{name: "a", email: "other." + e}, {name: "b", email: cases(e), primary: true}, {name: "c", email: "aaa." + e}}
		case 3: // several, the one signed last
			k.ids = []genID{{name: "a", email: cases(e), signedAfter: time.Hour}, {name: "b", email: "other." + e}, {name: "c", email: "aaa." + e}}
		case 4:
			k.ids = []genID{{name: "with others", comment: "c", email: cases(e), others: 1 + r.Intn(4)}}
		case 5: // around the limit of the size
			if f := fatKey(r, 8192+[]int{-1, 0, 1, 2, 40, 3000}[r.Intn(6)], k.algo, cases(e)); f != nil {
				k.ids = f.ids
			} else {
				k.ids = []genID{{name: strings.Repeat("y", 8000+r.Intn(300)), email: cases(e)}}
			}
		default:
			k.ids = []genID{{name: strings.Repeat("n", r.Intn(300)), email: cases(e), primary: r.Intn(2) == 0}}
		}
		s.keys = append(s.keys, k.make(r))
	}
	for i := range s.keys {
		if r.Intn(10) == 0 {
			s.junk[i] = junkKey(r)
		}
	}
	return s
}

// junkKey is a key that cannot be used, as dumps have many.
func junkKey(r *rand.Rand) []byte {
	k := &genKey{ids: []genID{{name: "junk", email: "junk@junk.org"}}, created: genTime(r), algo: packet.PubKeyAlgoRSA}
	k.make(r)
	switch r.Intn(4) {
	case 3: // no packets at all
		b := make([]byte, 1+r.Intn(30))
		r.Read(b)
		for i := range b {
			b[i] &= 0x7f
		}
		return b
	case 0: // an unknown version
		b := append([]byte{}, k.dump...)
		b[packetHeader(b)] = 3
		return b
	case 1: // an unknown algorithm
		b := append([]byte{}, k.dump...)
		b[packetHeader(b)+5] = 99
		return b
	}
	// the self-signature is of something else
	o := &genKey{ids: []genID{{name: "yunk", email: "yunk@yunk.org"}}, created: k.created, algo: packet.PubKeyAlgoRSA}
	o.make(r)
	return bytes.Replace(append([]byte{}, k.dump...), []byte("junk <junk@junk.org>"), []byte("hunk <hunk@hunk.org>"), 1)
}

func armored(c *C, text string) []byte {
	blk, err := armor.Decode(strings.NewReader(text))
	c.Must(err, "armored key")
	c.Check(blk.Type == openpgp.PublicKeyType, "armored key: a %s", blk.Type)
	b, err := io.ReadAll(blk.Body)
	c.Must(err, "armored key")
	return b
}

func ingestInProcess(c *C, dir, out string, s *keySet, files []string) []*pgp.Key {
	m, err := pgp.AnalyzeKeyDump(files)
	c.Must(err, "analysing the dumps")
	must(os.MkdirAll(out, 0o755))
	c.Must(pgp.WriteKeysOnDisk(out, m), "writing the keys")
	keys, err := pgp.LoadKeysFromDisk([]string{filepath.Join(out, pgp.SksParsedFullFileName)})
	c.Must(err, "reading the keys back")
	es, err := pgp.LoadAndParseKeys([]string{filepath.Join(out, pgp.SksParsedFullFileName)})
	c.Must(err, "parsing the keys")
	c.Check(len(es) == len(keys), "%d keys are parsed of %d", len(es), len(keys))
	for i, e := range es {
		var w bytes.Buffer
		must(e.Serialize(&w))
		c.Check(canonKey(w.Bytes()) == canonKey(keys[i].Packet), "%s: another key is parsed than %d", s.what, i)
	}
	return keys
}

func scratch(c *C) string {
	dir, err := os.MkdirTemp(c.t.Work, "case")
	must(err)
	c.Defer(func() { os.RemoveAll(dir) })
	return dir
}

func quietStdout() {
	// the ingestion prints its progress
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
}

func buildC23(t *T) {
	quietStdout()
	sets := func(c *C) *keySet {
		n := 1 + c.R.Intn(8)
		if c.R.Intn(3) == 0 {
			n = 10 + c.R.Intn(60)
		}
		return randomKeySet(c.R, n)
	}

	for i := 0; i < t.N(48, 500); i++ {
		t.Addf(func(c *C) {
			s := sets(c)
			dir := scratch(c)
			want := s.want()
			nf := 1 + c.R.Intn(4)
			in := filepath.Join(dir, "in")
			s.write(in, c.R.Perm(len(s.keys)), nf, c.R)
			files, err := pgp.GetSksOriginalDumpFiles(in)
			c.Must(err, "listing the dumps")
			c.Check(len(files) == nf, "%d dump files listed of %d", len(files), nf)
			got := ingestInProcess(c, in, filepath.Join(dir, "out"), s, files)
			checkKeys(c, s.what, got, want, s.keys)

			// another order of the files and of the keys
			c.R.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
			checkKeys(c, s.what+", other file order", ingestInProcess(c, in, filepath.Join(dir, "out2"), s, files), want, s.keys)
			in3 := filepath.Join(dir, "in3")
			s.write(in3, c.R.Perm(len(s.keys)), 1+c.R.Intn(3), c.R)
			files, _ = pgp.GetSksOriginalDumpFiles(in3)
			// over the earlier, maybe longer, file
			got = ingestInProcess(c, in3, filepath.Join(dir, "out"), s, files)
			checkKeys(c, s.what+", other key order", got, want, s.keys)

			// every key: parsed, armored and found again
			el, err := pgp.LoadAndParseKeys([]string{filepath.Join(dir, "out", pgp.SksParsedFullFileName)})
			c.Must(err, "parsing the keys")
			c.Check(len(el) == len(got), "%d parsed keys of %d", len(el), len(got))
			for i, e := range el {
				w := want[got[i].ID]
				c.Check(pgp.PrimaryEmail(e) == got[i].ID, "the address of the key of %q is %q", got[i].ID, pgp.PrimaryEmail(e))
				text, err := pgp.ArmorKey(e)
				c.Must(err, "armoring")
				c.Check(canonKey(armored(c, text)) == canonKey(w.bare), "the armored key of %q is not the ingested one", got[i].ID)
				c.Evalf("armor|%s", got[i].ID)
			}
			// a block of several keys, in any order
			if len(got) > 0 {
				var block []byte
				perm := c.R.Perm(len(got))
				in := 1 + c.R.Intn(len(got))
				for _, j := range perm[:in] {
					block = append(block, got[j].Packet...)
				}
				for x, j := range perm {
					e, err := pgp.RecoverKeyFromBlock(block, got[j].ID)
					if x >= in {
						c.Check(err != nil, "the key of %q is found in a block without it", got[j].ID)
						continue
					}
					c.Must(err, "recovering "+got[j].ID)
					var b bytes.Buffer
					must(e.Serialize(&b))
					c.Check(canonKey(b.Bytes()) == canonKey(want[got[j].ID].bare), "another key than that of %q is recovered from a block", got[j].ID)
					c.Evalf("block|%s|%d", got[j].ID, in)
				}
			}
			c.Obs("sets_ingested", 3)
		}, "random keys, set %d", i)
	}

	// the limit of the size, exactly
	for _, algo := range []packet.PublicKeyAlgorithm{packet.PubKeyAlgoRSA} {
		algo := algo
		for _, n := range []int{8000, 8190, 8191, 8192, 8193, 8194, 8200, 16384, 20000} {
			n := n
			t.Addf(func(c *C) {
				k := fatKey(c.R, n, algo, "fat@example.org")
				if k == nil {
					c.Failf("no key of %d bytes", n)
				}
				small := (&genKey{ids: []genID{{email: "Small@Example.org"}}, created: genTime(c.R)}).make(c.R)
				older := (&genKey{ids: []genID{{email: "older@example.org"}}, created: k.created.Add(-time.Hour)}).make(c.R)
				s := &keySet{what: fmt.Sprintf("a key of %d bytes", n), keys: []*genKey{k, small, older}}
				dir := scratch(c)
				for i := 0; i < 6; i++ {
					in := filepath.Join(dir, fmt.Sprint(i))
					s.write(in, c.R.Perm(3), 1, c.R)
					files, _ := pgp.GetSksOriginalDumpFiles(in)
					checkKeys(c, s.what, ingestInProcess(c, in, filepath.Join(dir, "out"), s, files), s.want(), s.keys)
				}
			}, "a key of %d bytes, algorithm %d", n, algo)
		}
	}

	// two keys of one address, every combination
	t.Addf(func(c *C) {
		now := genTime(c.R)
		mk := func(d time.Duration, revoked bool, e string, fat bool) *genKey {
			id := genID{email: e}
			if fat {
				id.name = strings.Repeat("f", 9000)
			}
			return (&genKey{ids: []genID{id}, created: now.Add(d), revoked: revoked}).make(c.R)
		}
		dir := scratch(c)
		n := 0
		for _, d := range []time.Duration{time.Second, 24 * time.Hour, 30 * 365 * 24 * time.Hour} {
			for bits := 0; bits < 16; bits++ {
				a := mk(0, bits&1 != 0, "A.b@C.org", bits&4 != 0)
				b := mk(d, bits&2 != 0, []string{"a.B@c.org", "A.b@C.org"}[bits>>1&1], bits&8 != 0)
				s := &keySet{what: fmt.Sprintf("two keys %v apart, combination %d", d, bits), keys: []*genKey{a, b}}
				for _, order := range [][]int{{0, 1}, {1, 0}} {
					for nf := 1; nf <= 2; nf++ {
						in := filepath.Join(dir, fmt.Sprint(n))
						n++
						s.write(in, order, nf, c.R)
						files, _ := pgp.GetSksOriginalDumpFiles(in)
						checkKeys(c, s.what, ingestInProcess(c, in, filepath.Join(dir, "out"), s, files), s.want(), s.keys)
						c.Evalf("%s %v %d", s.what, order, nf)
					}
				}
			}
		}
	}, "two keys of one address in every combination")

	t.Addf(func(c *C) {
		dir := scratch(c)
		keys := ingestInProcess(c, dir, filepath.Join(dir, "out"), nil, nil)
		c.Check(len(keys) == 0, "no dumps give %d keys", len(keys))
		empty := filepath.Join(dir, "sks-dump-0000.pgp")
		must(os.WriteFile(empty, nil, 0o644))
		keys = ingestInProcess(c, dir, filepath.Join(dir, "out"), nil, []string{empty, empty})
		c.Check(len(keys) == 0, "empty dumps give %d keys", len(keys))
		_, err := pgp.AnalyzeKeyDump([]string{filepath.Join(dir, "none.pgp")})
		c.Check(err != nil, "a missing dump is no error")
		_, err = pgp.LoadKeysFromDisk([]string{filepath.Join(dir, "none.pgp")})
		c.Check(err != nil, "a missing file of keys is no error")
		c.Eval("")
		// a truncated file of keys is no complete one
		ks := genKeys(c.R, 5)
		f := writeKeyFiles(dir, ks, 1)[0]
		b, _ := os.ReadFile(f)
		for i := 0; i < 60; i++ {
			cut := 1 + c.R.Intn(len(b)-1)
			must(os.WriteFile(f, b[:cut], 0o644))
			got, err := pgp.LoadKeysFromDisk([]string{f})
			if err == nil {
				// only if it ends between two keys
				for j, g := range got {
					c.Check(g.ID == ks[j].email() && bytes.Equal(g.Packet, ks[j].bare), "a file cut at %d of %d gives another key %d", cut, len(b), j)
				}
				var w bytes.Buffer
				enc := gob.NewEncoder(&w)
				for j := range got {
					must(enc.Encode(&pgp.Key{ID: ks[j].email(), Packet: ks[j].bare}))
				}
				c.Check(w.Len() >= cut, "a file cut at %d of %d bytes is read as %d whole keys of %d bytes", cut, len(b), len(got), w.Len())
			}
			c.Evalf("cut %d", cut)
		}
	}, "no dumps, empty and truncated files")

	// ---- the program
	runData := func(c *C, args ...string) {
		cmd := exec.Command(filepath.Join(c.t.Bin, "data"), args...)
		cmd.Dir = c.t.Work
		b, err := cmd.CombinedOutput()
		if err != nil {
			c.Failf("data %v: %v\n%s", args, err, clip(string(b), 800))
		}
	}
	for i := 0; i < t.N(6, 40); i++ {
		t.Addf(func(c *C) {
			s := sets(c)
			dir := scratch(c)
			in, out, chunks := filepath.Join(dir, "in"), filepath.Join(dir, "out"), filepath.Join(dir, "chunks")
			must(os.MkdirAll(out, 0o755))
			must(os.MkdirAll(chunks, 0o755))
			s.write(in, c.R.Perm(len(s.keys)), 1+c.R.Intn(4), c.R)
			must(os.WriteFile(filepath.Join(in, "README.md"), []byte("not a dump"), 0o644))
			must(os.WriteFile(filepath.Join(in, "metadata.txt"), []byte("not a dump"), 0o644))
			if c.R.Intn(2) == 0 { // from an earlier, longer run
				junk := make([]byte, 300000)
				must(os.WriteFile(filepath.Join(out, pgp.SksParsedFullFileName), junk, 0o644))
				must(os.WriteFile(filepath.Join(chunks, "sks-000.pgp"), junk, 0o644))
			}
			runData(c, "-cmd", "parseDump", "-path", in, "-out", out)
			full := filepath.Join(out, pgp.SksParsedFullFileName)
			keys, err := pgp.LoadKeysFromDisk([]string{full})
			c.Must(err, "reading what the program wrote")
			checkKeys(c, "data -cmd parseDump, "+s.what, keys, s.want(), s.keys)
			runData(c, "-cmd", "genChunks", "-path", full, "-out", chunks)
			files, err := pgp.GetAllFiles(chunks)
			c.Must(err, "listing the chunks")
			again, err := pgp.LoadKeysFromDisk(files)
			c.Must(err, "reading the chunks")
			checkKeys(c, "data -cmd genChunks, "+s.what, again, s.want(), s.keys)
			c.Obs("program_runs", 2)
		}, "the program, set %d", i)
	}

	sizes := []struct{ total, max int }{{1 << 20, 5000}, {104857600 + 50000, 8192}}
	if t.Thorough {
		sizes = append(sizes, []struct{ total, max int }{{230 << 20, 8192}, {330 << 20, 6 << 20}, {110 << 20, 80}, {520 << 20, 8192}}...)
	} else {
		sizes = append(sizes, struct{ total, max int }{215 << 20, 3 << 20})
	}
	for _, z := range sizes {
		z := z
		t.Addf(func(c *C) {
			dir := scratch(c)
			full, chunks := filepath.Join(dir, "sks-full.pgp"), filepath.Join(dir, "chunks")
			must(os.MkdirAll(chunks, 0o755))
			seed := c.R.Int63()
			next := func() func() *pgp.Key { // the same keys every time
				r := newRand(seed)
				left := z.total
				i := 0
				return func() *pgp.Key {
					if left <= 0 {
						return nil
					}
					p := make([]byte, 1+r.Intn(z.max))
					r.Read(p)
					k := &pgp.Key{ID: fmt.Sprintf("%d@example.org", i), Packet: p}
					left -= len(k.ID) + len(p)
					i++
					return k
				}
			}
			f, err := os.Create(full)
			must(err)
			enc := gob.NewEncoder(f)
			n := 0
			for g := next(); ; n++ {
				k := g()
				if k == nil {
					break
				}
				must(enc.Encode(k))
			}
			must(f.Close())
			runData(c, "-cmd", "genChunks", "-path", full, "-out", chunks)
			os.Remove(full)
			files, err := pgp.GetAllFiles(chunks)
			c.Must(err, "listing the chunks")
			g := next()
			i := 0
			for _, name := range files {
				st, _ := os.Stat(name)
				c.Check(st.Size() < 104857600+int64(z.max)+1<<20+int64(40*n), "the chunk %s has %d bytes", name, st.Size())
				keys, err := pgp.LoadKeysFromDisk([]string{name})
				c.Must(err, "reading "+name)
				for _, k := range keys {
					w := g()
					c.Check(w != nil, "the chunks have more than the %d keys of the file", n)
					c.Check(k.ID == w.ID && bytes.Equal(k.Packet, w.Packet), "key %d of %d is %q in the chunks, with %d bytes, instead of %q with %d", i, n, k.ID, len(k.Packet), w.ID, len(w.Packet))
					i++
				}
				os.Remove(name)
			}
			c.Check(i == n, "%d keys of %d are in the chunks", i, n)
			c.Check(z.total < 104857600 || len(files) > 1, "%d bytes give %d chunks", z.total, len(files))
			c.Obs("chunks_read", len(files))
			c.Evalf("%d keys in %d chunks", n, len(files))
		}, "splitting %d bytes of keys of up to %d", z.total, z.max)
	}
}
