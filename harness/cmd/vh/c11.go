package main

import (
	"bytes"
	"crypto/aes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"golang.org/x/crypto/blake2b"
	"lukechampine.com/blake3"
)

func init() {
	register("C11", &propDef{
		rule:     "a kind of predicate (e-mail equality, prefix, suffix, algorithm, instant, year with e-mail, average) with several searched values of the same declared kind and length, and a scheme; many queries each. For each server and value the monitor counts every bit and the exclusive or of pairs of bits of the key it receives (seed, flags, correction words, final word), and of the final word with the payload, against fair coins, compares values with each other, and checks sizes, freshness, that the public part does not depend on the value, and that the final word is not the payload; requests for other numbers of servers are refused. An evaluation is one query observed or one distribution judged; distinct by kind, scheme, value and server",
		assume:   []string{"a distribution that differs in other ways than in bits and pairs of bits, or by less than about 7.5 standard deviations of the sample, is not noticed"},
		minEvals: 20000,
		build:    buildC11,
	})
}

// flatKey writes the key that one server receives with a fixed layout.
func flatKey(c *C, k *fss.FssKeyEq2P) []byte {
	b := append([]byte{}, k.SInit...)
	b = append(b, k.TInit)
	for _, cw := range k.CW {
		b = append(b, cw...)
	}
	for _, f := range k.FinalCW {
		c.Check(f < field.ModP, "the final word %d is not a field element", f)
		b = binary.BigEndian.AppendUint32(b, f)
	}
	return b
}

func keyShape(k *fss.FssKeyEq2P) string {
	s := fmt.Sprintf("seed %d, final %d, words", len(k.SInit), len(k.FinalCW))
	for _, cw := range k.CW {
		s += fmt.Sprintf(" %d", len(cw))
	}
	return s
}

func buildC11(t *T) {
	kinds := map[string]func(c *C) []*predicate{
		"equality": func(c *C) []*predicate {
			return []*predicate{emailPredicate(0, 0, "alice@epfl.ch"), emailPredicate(0, 0, ""), emailPredicate(0, 0, strings.Repeat("z", 200)), emailPredicate(0, 0, "bob@epfl.ch")}
		},
		"prefix 1":  func(c *C) []*predicate { return emails(c, 1, 0) },
		"prefix 5":  func(c *C) []*predicate { return emails(c, 5, 0) },
		"suffix 4":  func(c *C) []*predicate { return emails(c, 0, 4) },
		"suffix 33": func(c *C) []*predicate { return emails(c, 0, 33) },
		"algorithm": func(c *C) []*predicate {
			return []*predicate{algoPredicate("RSA"), algoPredicate("DSA"), algoNumberPredicate(255), algoNumberPredicate(0)}
		},
		"instant": func(c *C) []*predicate {
			return []*predicate{instantPredicate(c, time.Unix(0, 0)), instantPredicate(c, time.Unix(1600000000, 0)), instantPredicate(c, time.Date(2019, 1, 1, 0, 0, 0, 0, zones[2]))}
		},
		"year and suffix": func(c *C) []*predicate {
			return []*predicate{andPredicate(c, 0, 3, "edu", time.Unix(0, 0)), andPredicate(c, 0, 3, ".ch", time.Unix(1600000000, 0)), andPredicate(c, 0, 3, "\x00\x00\x00", time.Unix(1600000000, 0))}
		},
		"average": func(c *C) []*predicate {
			return []*predicate{avgPredicate(0, 4, ".edu"), avgPredicate(0, 4, "\xff\xff\xff\xff"), avgPredicate(0, 4, "\x00\x00\x00\x00")}
		},
	}
	names := []string{"equality", "prefix 1", "prefix 5", "suffix 4", "suffix 33", "algorithm", "instant", "year and suffix", "average"}
	for _, name := range names {
		for _, auth := range []bool{true, false} {
			for _, src := range []string{"deterministic", "short"} {
				name, auth, src := name, auth, src
				if src == "short" && !auth {
					continue
				}
				t.Addf(func(c *C) {
					preds := kinds[name](c)
					info := &database.Info{}
					rnd := pointSource(c, src)
					samples := t.N(500, 10000)
					if name == "equality" || name == "algorithm" {
						samples *= 2
					}
					n := 1
					if auth {
						n = 1 + tags
					}
					labs := map[string]*bitLab{}
					mixed, summed := newLab(c.R, 4*n, 500), newLab(c.R, 4*n, 500)
					sizes := map[string][]float64{}
					seen := map[string]bool{}
					plain := 0
					var shape, public string
					var cl predClient
					var prev [2][]byte
					var succ [2]*bitLab
					for s := 0; s < samples; s++ {
						if s%40 == 0 {
							cl = newPredClient(rnd, info, auth)
						}
						for _, pi := range order(s, len(preds)) {
							p := preds[pi]
							var ks [2]*query.FSS
							if s%3 == 0 {
								qs := cl.Query(p.q, 2)
								ks[0], ks[1] = qs[0], qs[1]
							} else {
								in, err := p.q.Encode()
								c.Must(err, "encoding")
								qs, err := cl.QueryBytes(in, 2)
								c.Must(err, "query")
								c.Check(len(qs) == 2, "%d queries", len(qs))
								for i := range ks {
									ks[i] = decodeFSS(c, qs[i])
									k := fmt.Sprintf("%d/%d", i, pi)
									sizes[k] = append(sizes[k], float64(len(qs[i])))
								}
							}
							for i := range ks {
								sh := keyShape(&ks[i].FssKey)
								pub := fmt.Sprintf("%+v", *ks[i].Info)
								if shape == "" {
									shape, public = sh, pub
									c.Check(len(ks[i].FssKey.SInit) == 16 && len(ks[i].FssKey.CW) == len(p.q.Input) && len(ks[i].FssKey.FinalCW) == n, "a key has %s", sh)
								}
								c.Check(sh == shape, "the key for %s has %s, others %s", p.what, sh, shape)
								c.Check(pub == public, "the public part for %s is %s, of others %s", p.what, pub, public)
								c.Check(ks[i].FssKey.TInit <= 1, "flag %d", ks[i].FssKey.TInit)
								seed := string(ks[i].FssKey.SInit)
								c.Check(!seen[seed], "a seed for %s repeats", p.what)
								seen[seed] = true
								if i == 0 && s < 1500 {
									for x, cw := range ks[i].FssKey.CW {
										w := string(cw)
										c.Check(!seen[w], "correction word %d for %s repeats", x, p.what)
										seen[w] = true
									}
								}
								flat := flatKey(c, &ks[i].FssKey)
								k := fmt.Sprintf("%d/%d", i, pi)
								if labs[k] == nil {
									labs[k] = newLab(c.R, len(flat), 1500)
								}
								labs[k].add(flat)
								if prev[i] != nil {
									if succ[i] == nil {
										succ[i] = newLab(c.R, len(flat), 500)
									}
									succ[i].add(xorBytes(prev[i], flat))
								}
								prev[i] = flat
							}
							// the seed of a server against that of the other
							if s0, s1 := ks[0].FssKey.SInit, ks[1].FssKey.SInit; len(s0) == 16 && len(s1) == 16 {
								for how, d := range seedRelations(s0, s1) {
									d = how + d
									c.Check(!seen[d], "%s of the seeds of the servers repeats for %s", how, p.what)
									seen[d] = true
								}
								if s < 100 {
									if how := derived(s0, s1); how != "" {
										c.Failf("for %s, server 0 can compute the seed of server 1 from its own: %s", p.what, how)
									}
									if how := derived(s1, s0); how != "" {
										c.Failf("for %s, server 1 can compute the seed of server 0 from its own: %s", p.what, how)
									}
									c.Obs("seed_pairs_tried", 2)
								}
							}
							// the final word against the payload
							if s%2 == 0 {
								pay := payload(c, ks[0], ks[1], p.q.Input, n)
								var b, b2 []byte
								for x, f := range ks[0].FssKey.FinalCW {
									if f == pay[x] || f == (field.ModP-pay[x])%field.ModP {
										plain++
									}
									// alone and with the key
									b = binary.BigEndian.AppendUint32(b, f^pay[x])
									b2 = binary.BigEndian.AppendUint32(b2, uint32((uint64(f)+uint64(pay[x]))%uint64(field.ModP)))
								}
								mixed.add(b)
								summed.add(b2)
								// what one server computes alone
								for i := range ks {
									out := make([]uint32, n)
									fss.ServerInitialize(n).EvaluatePF(byte(i), ks[i].FssKey, p.q.Input, out)
									for x := range out {
										if out[x] == pay[x] || out[x] == 0 || out[x] == (field.ModP-pay[x])%field.ModP {
											plain++
										}
									}
								}
							}
							predAftermath(c, cl, n, p.avg)
							c.Evalf("%d/%d", pi, s)
						}
					}
					if plain > 3 {
						c.Failf("%s: the payload shows in the final word or in the share of one server %d times", name, plain)
					}
					for i := 0; i < 2; i++ {
						for pi, p := range preds {
							l := labs[fmt.Sprintf("%d/%d", i, pi)]
							if bad := l.judge(true); bad != "" {
								c.Failf("authenticated=%v: the key of server %d for %s is not uniform: %s", auth, i, p.what, bad)
							}
							if bad := l.differs(labs[fmt.Sprintf("%d/0", i)]); pi > 0 && bad != "" {
								c.Failf("authenticated=%v: the key of server %d tells %s and %s apart: %s", auth, i, p.what, preds[0].what, bad)
							}
							varies := 0
							for _, cnt := range l.cnt {
								if cnt != 0 && cnt != l.n {
									varies++
								}
							}
							// seed and flag, sixteen bytes and two flags per bit, and elements
							want := 129 + 130*len(p.q.Input) + 31*n
							c.Check(varies >= want, "authenticated=%v: only %d of %d bits of the key of server %d for %s vary", auth, varies, want, i, p.what)
							// sizes on the wire
							a, b := sizes[fmt.Sprintf("%d/%d", i, pi)], sizes[fmt.Sprintf("%d/0", i)]
							if d, z := meansDiffer(a, b); z > zLimit {
								c.Failf("authenticated=%v: the size of the key of server %d tells %s and %s apart by %.1f bytes", auth, i, p.what, preds[0].what, d)
							}
							c.Evalf("judged/%d/%d", i, pi)
						}
						if bad := succ[i].judge(true); bad != "" {
							c.Failf("authenticated=%v: consecutive keys of server %d are related: %s", auth, i, bad)
						}
					}
					for _, l := range []*bitLab{mixed, summed} {
						if bad := l.judge(true); bad != "" {
							c.Failf("authenticated=%v: the final word is related to the payload: %s", auth, bad)
						}
					}
					c.Obs("queries", samples*len(preds))
				}, "%s/%v/%s", name, auth, src)
			}
		}
	}
	t.Addf(func(c *C) {
		info := &database.Info{}
		for _, auth := range []bool{true, false} {
			for i := 0; i < 40; i++ {
				p := randomPredicate(c, randomKeys(c.R, 3))
				in, err := p.q.Encode()
				c.Must(err, "encoding")
				for _, k := range []int{-1, 0, 1, 3, 4, 10} {
					cl := newPredClient(detReader{c.R}, info, auth)
					qs, err := cl.QueryBytes(in, k)
					c.Check(err != nil, "a query for %d servers is sent as %d messages", k, len(qs))
					c.Evalf("%v/%d/%d", auth, i, k)
					c.Obs("refusals", 1)
				}
			}
		}
	}, "refused")
	_ = client.BlockLength
}

// predAftermath is what may follow a query: nothing, or answers that are
// accepted or not.
func predAftermath(c *C, cl predClient, n int, avg bool) {
	if avg {
		n *= 2
	}
	as := [][]uint32{make([]uint32, n), make([]uint32, n)}
	switch c.R.Intn(6) {
	case 0:
		// nothing is selected
	case 1, 2:
		for i := range as[0] {
			as[0][i], as[1][i] = uint32(c.R.Int63n(int64(field.ModP))), uint32(c.R.Int63n(int64(field.ModP)))
		}
	case 3:
		as = as[:1]
	default:
		return
	}
	var err error
	if c.R.Intn(2) == 0 {
		_, err = cl.Reconstruct(as)
	} else {
		var bs [][]byte
		for _, a := range as {
			bs = append(bs, utils.Uint32SliceToByteSlice(a))
		}
		_, err = cl.ReconstructBytes(bs)
	}
	if err != nil {
		c.Obs("answers_rejected", 1)
	} else {
		c.Obs("answers_accepted", 1)
	}
}

// seedRelations are relations of two seeds that do not repeat if the seeds are
// independent.
func seedRelations(a, b []byte) map[string]string {
	x, s, d := make([]byte, 16), make([]byte, 16), make([]byte, 16)
	for i := range a {
		x[i], s[i], d[i] = a[i]^b[i], a[i]+b[i], a[i]-b[i]
	}
	rev := make([]byte, 16)
	for i := range a {
		rev[i] = a[15-i] ^ b[i]
	}
	return map[string]string{"the exclusive or": string(x), "the sum": string(s), "the difference": string(d), "the mirrored exclusive or": string(rev)}
}

// derived tells if the seed b is one of the usual functions of the seed a.
func derived(a, b []byte) string {
	is := func(o []byte) bool {
		for i := 0; i+16 <= len(o); i += 16 {
			if bytes.Equal(o[i:i+16], b) {
				return true
			}
		}
		return false
	}
	h1, h2, h3, h4 := md5.Sum(a), sha1.Sum(a), sha256.Sum256(a), sha512.Sum512(a)
	for what, h := range map[string][]byte{"md5": h1[:], "sha1": h2[:], "sha256": h3[:], "sha512": h4[:]} {
		if is(h) {
			return what
		}
	}
	if h := blake2b.Sum256(a); is(h[:]) {
		return "blake2b"
	}
	if h := blake2b.Sum512(a); is(h[:]) {
		return "blake2b-512"
	}
	if h := blake3.Sum256(a); is(h[:]) {
		return "blake3"
	}
	if h := blake3.Sum512(a); is(h[:]) {
		return "blake3"
	}
	out := make([]byte, 256)
	var k utils.PRGKey
	copy(k[:], a)
	utils.NewPRG(&k).Read(out)
	if is(out) {
		return "the generator"
	}
	keys := append([][]byte{a, make([]byte, 16), bytes.Repeat([]byte{0xff}, 16)}, fss.PrfKeys...)
	for _, key := range keys {
		blk, err := aes.NewCipher(key)
		if err != nil {
			continue
		}
		for _, in := range append([][]byte{a, bytes.Repeat([]byte{1}, 16)}, keys[1:]...) {
			o := make([]byte, 16)
			blk.Encrypt(o, in)
			if is(o) || is(xorBytes(o, a)) {
				return "a block cipher"
			}
			blk.Decrypt(o, in)
			if is(o) || is(xorBytes(o, a)) {
				return "a block cipher"
			}
		}
	}
	return ""
}

func emails(c *C, fromStart, fromEnd int) []*predicate {
	var out []*predicate
	for i := 0; i < 4; i++ {
		b := make([]byte, 40)
		for x := range b {
			switch i {
			case 0:
				b[x] = 'a'
			case 1:
				b[x] = 0
			case 2:
				b[x] = 255
			default:
				b[x] = byte(c.R.Intn(256))
			}
		}
		out = append(out, emailPredicate(fromStart, fromEnd, string(b)))
	}
	return out
}

// meansDiffer returns the difference of the means and how many standard
// deviations that is.
func meansDiffer(a, b []float64) (d, z float64) {
	mean := func(v []float64) (m, s float64) {
		for _, x := range v {
			m += x
		}
		m /= float64(len(v))
		for _, x := range v {
			s += (x - m) * (x - m)
		}
		return m, s / float64(len(v)) / float64(len(v))
	}
	ma, va := mean(a)
	mb, vb := mean(b)
	d = math.Abs(ma - mb)
	if d == 0 {
		return 0, 0
	}
	return d, d / math.Sqrt(va+vb+1e-12)
}
