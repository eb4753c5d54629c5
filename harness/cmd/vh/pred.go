package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
)

// ---- the key list and the aggregates computed in the clear

type plainKey struct {
	email string
	when  time.Time
	algo  packet.PublicKeyAlgorithm
}

func keysDB(keys []plainKey) *database.DB {
	db := database.NewKeysDB(database.Info{NumColumns: len(keys)})
	for _, k := range keys {
		db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{
			UserId: &packet.UserId{Id: k.email, Email: k.email}, CreationTime: k.when, PubKeyAlgo: k.algo})
	}
	return db
}

// predicate is a query together with its meaning.
type predicate struct {
	what  string
	q     *query.ClientFSS
	match func(k plainKey) bool
	avg   bool
}

func (p *predicate) count(keys []plainKey) (n uint32) {
	for _, k := range keys {
		if p.match(k) {
			n++
		}
	}
	return
}

// average age in years, and whether there is one
func (p *predicate) average(keys []plainKey, now int) (uint32, bool) {
	n, sum := 0, 0
	for _, k := range keys {
		d := now - k.when.UTC().Year()
		if p.match(k) && d >= 0 {
			n++
			sum += d
		}
	}
	if n == 0 {
		return 0, false
	}
	return uint32(sum / n), true
}

func emailMatch(fromStart, fromEnd int, in string) func(e string) bool {
	switch {
	case fromStart != 0:
		return func(e string) bool { return len(e) >= fromStart && strings.HasPrefix(e, in[:fromStart]) }
	case fromEnd != 0:
		return func(e string) bool { return len(e) >= fromEnd && strings.HasSuffix(e, in[len(in)-fromEnd:]) }
	}
	return func(e string) bool { return e == in }
}

func emailPredicate(fromStart, fromEnd int, in string) *predicate {
	info := &query.Info{Target: query.UserId, FromStart: fromStart, FromEnd: fromEnd}
	m := emailMatch(fromStart, fromEnd, in)
	return &predicate{what: fmt.Sprintf("email %q from start %d from end %d", in, fromStart, fromEnd),
		q: info.ToEmailClientFSS(in), match: func(k plainKey) bool { return m(k.email) }}
}

var algoNames = map[string]packet.PublicKeyAlgorithm{"RSA": packet.PubKeyAlgoRSA, "ElGamal": packet.PubKeyAlgoElGamal,
	"DSA": packet.PubKeyAlgoDSA, "ECDH": packet.PubKeyAlgoECDH, "ECDSA": packet.PubKeyAlgoECDSA}

func algoPredicate(name string) *predicate {
	info := &query.Info{Target: query.PubKeyAlgo}
	return &predicate{what: "algorithm " + name, q: info.ToPKAClientFSS(name),
		match: func(k plainKey) bool { return k.algo == algoNames[name] }}
}

func algoNumberPredicate(a packet.PublicKeyAlgorithm) *predicate {
	info := &query.Info{Target: query.PubKeyAlgo}
	return &predicate{what: fmt.Sprintf("algorithm %d", a),
		q:     &query.ClientFSS{Info: info, Input: info.IdForPubKeyAlgo(a)},
		match: func(k plainKey) bool { return k.algo == a }}
}

func instantPredicate(c *C, when time.Time) *predicate {
	info := &query.Info{Target: query.CreationTime}
	in, err := info.IdForCreationTime(when)
	c.Must(err, "encoding of an instant")
	return &predicate{what: "creation " + when.String(), q: &query.ClientFSS{Info: info, Input: in},
		match: func(k plainKey) bool { return k.when.Equal(when) }}
}

func andPredicate(c *C, fromStart, fromEnd int, in string, year time.Time) *predicate {
	info := &query.Info{And: true, Targets: []query.Target{query.UserId, query.CreationTime}, FromStart: fromStart, FromEnd: fromEnd}
	y, err := info.IdForYearCreationTime(year)
	c.Must(err, "encoding of a year")
	id, ok := info.IdForEmail(in)
	c.Check(ok, "encoding of an address")
	m := emailMatch(fromStart, fromEnd, in)
	return &predicate{what: fmt.Sprintf("year of %v and email %q from start %d from end %d", year, in, fromStart, fromEnd),
		q:     &query.ClientFSS{Info: info, Input: append(append([]bool{}, y...), id...)},
		match: func(k plainKey) bool { return m(k.email) && k.when.UTC().Year() == year.UTC().Year() }}
}

func avgPredicate(fromStart, fromEnd int, in string) *predicate {
	info := &query.Info{And: true, Avg: true, Targets: []query.Target{query.UserId, query.CreationTime}, FromStart: fromStart, FromEnd: fromEnd}
	m := emailMatch(fromStart, fromEnd, in)
	return &predicate{what: fmt.Sprintf("average age of email %q from start %d from end %d", in, fromStart, fromEnd),
		q: info.ToAvgClientFSS(in), match: func(k plainKey) bool { return m(k.email) }, avg: true}
}

// ---- the two schemes behind one interface

type predServer interface {
	AnswerBytes(q []byte) ([]byte, error)
	Answer(q *query.FSS) []uint32
}
type predClient interface {
	QueryBytes(in []byte, numServers int) ([][]byte, error)
	Query(q *query.ClientFSS, numServers int) []*query.FSS
	ReconstructBytes(a [][]byte) (interface{}, error)
	Reconstruct(a [][]uint32) (uint32, error)
}

func predServers(db *database.DB, auth bool) []predServer {
	if auth {
		return []predServer{server.NewPredicateAPIR(db, 0), server.NewPredicateAPIR(db, 1)}
	}
	return []predServer{server.NewPredicatePIR(db, 0), server.NewPredicatePIR(db, 1)}
}
func newPredClient(rnd io.Reader, info *database.Info, auth bool) predClient {
	if auth {
		return client.NewPredicateAPIR(rnd, info)
	}
	return client.NewPredicatePIR(rnd, info)
}

// predAnswers queries both servers over the encoded interface.
func predAnswers(c *C, cl predClient, ss []predServer, q *query.ClientFSS) [][]byte {
	in, err := q.Encode()
	c.Must(err, "encoding of the query")
	qs, err := cl.QueryBytes(in, 2)
	c.Must(err, "query")
	c.Check(len(qs) == 2, "%d queries", len(qs))
	as := make([][]byte, 2)
	for i := range as {
		as[i], err = ss[i].AnswerBytes(qs[i])
		c.Must(err, "answer")
	}
	return as
}

func asNumber(c *C, v interface{}) uint32 {
	n, ok := v.(uint32)
	if !ok {
		c.Failf("the result is a %T", v)
	}
	return n
}

// aggregate runs the query over one of the interfaces.
func aggregate(c *C, cl predClient, ss []predServer, q *query.ClientFSS, encoded bool) (uint32, error) {
	if encoded {
		v, err := cl.ReconstructBytes(predAnswers(c, cl, ss, q))
		if err != nil {
			return 0, err
		}
		return asNumber(c, v), nil
	}
	qs := cl.Query(q, 2)
	return cl.Reconstruct([][]uint32{ss[0].Answer(qs[0]), ss[1].Answer(qs[1])})
}

// judge compares the result of a predicate with the clear one.
func (p *predicate) judge(c *C, keys []plainKey, how string, run func() (uint32, error)) {
	if !p.avg {
		got, err := run()
		if err != nil {
			c.Failf("%s, %s over %d keys: %v", how, p.what, len(keys), err)
		}
		want := p.count(keys)
		c.Check(got == want, "%s, %s over %d keys: %d instead of %d", how, p.what, len(keys), got, want)
		if want > 0 {
			c.Obs("counts_above_zero", 1)
		}
		return
	}
	for try := 0; ; try++ {
		y0 := time.Now().UTC().Year()
		got, err := run()
		if y1 := time.Now().UTC().Year(); y1 != y0 && try < 3 {
			continue // the year changed in between
		}
		want, ok := p.average(keys, y0)
		if !ok {
			c.Check(err != nil, "%s, %s over %d keys: %d for an empty selection", how, p.what, len(keys), got)
			c.Obs("averages_over_nothing", 1)
			return
		}
		if err != nil {
			c.Failf("%s, %s over %d keys: %v", how, p.what, len(keys), err)
		}
		c.Check(got == want, "%s, %s over %d keys: %d instead of %d", how, p.what, len(keys), got, want)
		c.Obs("averages", 1)
		return
	}
}

// ---- workload

var zones = []*time.Location{time.UTC, time.FixedZone("a", 3600), time.FixedZone("b", -5*3600-1800),
	time.FixedZone("c", 14*3600), time.FixedZone("d", -12*3600), time.FixedZone("e", 1172), time.Local}

func randomWhen(r *rand.Rand) time.Time {
	z := zones[r.Intn(len(zones))]
	switch r.Intn(8) {
	case 0: // around new year
		y := 1995 + r.Intn(35)
		return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(r.Intn(3)-1) * time.Second).In(z)
	case 1:
		y := 1995 + r.Intn(35)
		return time.Date(y, 1, 1, 0, 0, 0, 0, z)
	case 2: // malformed keys
		return time.Date([]int{2031, 2040, 2106, 2100}[r.Intn(4)], 6, 1, 0, 0, 0, 0, time.UTC).In(z)
	case 3:
		return time.Unix(0, 0).In(z)
	case 4:
		y := 2016 + r.Intn(4)
		return time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, z)
	}
	return time.Unix(r.Int63n(1700000000), 0).In(z)
}

var emailParts = []string{"alice", "bob", "al", "epflch", "x", "müller", "日本語", "A.Very.Long.Name.That.Goes.On.And.On.And.On", "", "a"}
var emailHosts = []string{"epfl.ch", "edu", "mit.edu", "example.com", "bücher.example", "sub.sub.sub.sub.sub.sub.sub.sub.sub.sub.sub.sub.example.org", "h.edu", "ch"}

func randomEmail(r *rand.Rand) string {
	switch r.Intn(20) {
	case 0:
		return ""
	case 1:
		b := make([]byte, r.Intn(300))
		r.Read(b)
		return string(b)
	case 2:
		return strings.Repeat("a", r.Intn(70))
	}
	return emailParts[r.Intn(len(emailParts))] + "@" + emailHosts[r.Intn(len(emailHosts))]
}

func randomKeys(r *rand.Rand, n int) []plainKey {
	algos := []packet.PublicKeyAlgorithm{1, 2, 3, 16, 17, 18, 19, 22, 0, 255}
	keys := make([]plainKey, n)
	for i := range keys {
		keys[i] = plainKey{randomEmail(r), randomWhen(r), algos[r.Intn(len(algos))]}
		if i > 0 && r.Intn(6) == 0 {
			j := r.Intn(i)
			// the same instant elsewhere, a neighbouring address
			keys[i].when = keys[j].when.In(zones[r.Intn(len(zones))])
			if e := []byte(keys[j].email); len(e) > 0 {
				e[r.Intn(len(e))] ^= 1 << uint(r.Intn(8))
				keys[i].email = string(e)
			}
		}
		if i > 0 && r.Intn(8) == 0 {
			keys[i].email = keys[r.Intn(i)].email
		}
	}
	return keys
}

func randomPredicate(c *C, keys []plainKey) *predicate {
	r := c.R
	email := randomEmail(r)
	when := randomWhen(r)
	if len(keys) > 0 && r.Intn(5) != 0 {
		k := keys[r.Intn(len(keys))]
		email, when = k.email, k.when.In(zones[r.Intn(len(zones))])
	}
	fs, fe := 0, 0
	if len(email) > 0 {
		switch r.Intn(3) {
		case 0:
			fs = 1 + r.Intn(len(email))
		case 1:
			fe = 1 + r.Intn(len(email))
		}
		if r.Intn(8) == 0 {
			if fs > 0 {
				fs = len(email)
			} else if fe > 0 {
				fe = len(email)
			}
		}
	}
	switch r.Intn(7) {
	case 0, 1:
		return emailPredicate(fs, fe, email)
	case 2:
		if r.Intn(2) == 0 {
			return algoPredicate([]string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}[r.Intn(5)])
		}
		return algoNumberPredicate(packet.PublicKeyAlgorithm(r.Intn(256)))
	case 3:
		return instantPredicate(c, when)
	case 4, 5:
		return andPredicate(c, fs, fe, email, when)
	}
	return avgPredicate(fs, fe, email)
}

func init() {
	register("C08", &propDef{
		rule:     "a list of keys (0 to 200; addresses of any bytes and length, instants in several zones and around new year, malformed years, equal and neighbouring values) and a sequence of predicates of every kind whose values occur in the list or not, run with the authenticated and the unauthenticated scheme over both interfaces; an evaluation is one result compared with the aggregate over the plaintext list; distinct by list, predicate and scheme",
		minEvals: 1000,
		build:    buildC08,
	})
}

func buildC08(t *T) {
	both := func(c *C, keys []plainKey, preds []*predicate) {
		db := keysDB(keys)
		for _, auth := range []bool{true, false} {
			ss := predServers(db, auth)
			cl := newPredClient(detReader{c.R}, &db.Info, auth)
			for pi, p := range preds {
				for _, enc := range []bool{true, false} {
					if !enc && pi%3 != 0 {
						continue
					}
					p.judge(c, keys, fmt.Sprintf("authenticated=%v encoded=%v", auth, enc), func() (uint32, error) {
						return aggregate(c, cl, ss, p.q, enc)
					})
					c.Evalf("%v/%v/%s", auth, enc, p.what)
				}
			}
		}
	}
	for i := 0; i < t.N(160, 4000); i++ {
		t.Addf(func(c *C) {
			n := c.R.Intn(40)
			if c.R.Intn(8) == 0 {
				n = c.R.Intn(3)
			}
			keys := randomKeys(c.R, n)
			var preds []*predicate
			for x := 0; x < 12; x++ {
				preds = append(preds, randomPredicate(c, keys))
			}
			both(c, keys, preds)
		}, "random/%d", i)
	}
	for _, n := range []int{0, 1, 2, 3, 100, 200} {
		n := n
		t.Addf(func(c *C) {
			keys := randomKeys(c.R, n)
			var preds []*predicate
			for x := 0; x < 10; x++ {
				preds = append(preds, randomPredicate(c, keys))
			}
			preds = append(preds, emailPredicate(0, 0, "nobody@nowhere"), avgPredicate(0, 0, "nobody@nowhere"), avgPredicate(0, 3, "edu"), algoPredicate("RSA"))
			both(c, keys, preds)
		}, "size/%d", n)
	}
	// prefixes and suffixes of every length
	for _, part := range []int{0, 1} {
		part := part
		t.Addf(func(c *C) {
			long := "averyveryverylongaddressofapersonwithalongname.and.more@subdomain.of.a.longdomain.example.edu"
			keys := []plainKey{{long, time.Unix(1e9, 0), 1}, {"x" + long[1:], time.Unix(1e9, 0), 1}, {long[:len(long)-1] + "x", time.Unix(1e9, 0), 1},
				{long + "u", time.Unix(1e9, 0), 1}, {"u" + long, time.Unix(1e9, 0), 1}, {long[:33], time.Unix(1e9, 0), 1}, {long[60:], time.Unix(1e9, 0), 1}}
			var preds []*predicate
			for l := 1; l <= len(long); l++ {
				if part == 0 {
					preds = append(preds, emailPredicate(l, 0, long))
				} else {
					preds = append(preds, emailPredicate(0, l, long))
				}
			}
			both(c, keys, preds)
		}, "every length/%d", part)
		t.Addf(func(c *C) {
			// one byte decides, anywhere
			base := strings.Repeat("q", 64)
			var keys []plainKey
			for i := 0; i < 64; i++ {
				b := []byte(base)
				b[i] ^= 1 << uint(c.R.Intn(8))
				keys = append(keys, plainKey{string(b), time.Date(2018, 5, 5, 0, 0, 0, 0, time.UTC), 1})
			}
			keys = append(keys, plainKey{base, time.Date(2018, 5, 5, 0, 0, 0, 0, time.UTC), 1})
			var preds []*predicate
			for _, l := range []int{1, 2, 16, 31, 32, 33, 40, 63, 64} {
				fs, fe := l, 0
				if part == 1 {
					fs, fe = 0, l
				}
				preds = append(preds, emailPredicate(fs, fe, base), andPredicate(c, fs, fe, base, keys[0].when), avgPredicate(fs, fe, base))
			}
			both(c, keys, preds)
		}, "one byte/%d", part)
	}
	// years and instants around the new year, in all the zones
	for y := 1999; y < 2024; y += t.N(6, 1) {
		y := y
		t.Addf(func(c *C) {
			var keys []plainKey
			for _, z := range zones {
				for _, d := range []time.Duration{-time.Second, 0, time.Second, -time.Hour, time.Hour, -14 * time.Hour, 14 * time.Hour, 200 * 24 * time.Hour} {
					keys = append(keys, plainKey{"a@b.c", time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Add(d).In(z), 1})
				}
			}
			var preds []*predicate
			for _, k := range keys {
				if c.R.Intn(4) == 0 {
					preds = append(preds, instantPredicate(c, k.when.In(zones[c.R.Intn(len(zones))])))
				}
			}
			for d := -1; d <= 1; d++ {
				preds = append(preds, andPredicate(c, 0, 0, "a@b.c", time.Date(y+d, 6, 1, 0, 0, 0, 0, time.UTC)),
					andPredicate(c, 0, 1, "a@b.c", time.Date(y+d, 1, 1, 0, 0, 0, 0, time.UTC)))
			}
			preds = append(preds, avgPredicate(0, 3, "b.c"))
			both(c, keys, preds)
		}, "years/%d", y)
	}
	// directories with more keys than 16 bits can count
	for i, n := range []int{70001, 66000} {
		i, n := i, n
		t.Addf(func(c *C) {
			keys := randomKeys(c.R, n)
			for x := range keys {
				if x%50 != 0 {
					keys[x].algo, keys[x].email = packet.PubKeyAlgoRSA, fmt.Sprintf("%d@x.edu", x)
				}
			}
			db := keysDB(keys)
			year := time.Date(2019, 6, 1, 0, 0, 0, 0, time.UTC)
			for x := range keys {
				if x%3 == 0 {
					keys[x].when = year
					db.KeysInfo[x].CreationTime = year
				}
			}
			preds := []*predicate{algoPredicate("RSA"), emailPredicate(0, 3, "edu"), algoPredicate("DSA")}
			if i == 1 {
				preds = []*predicate{avgPredicate(0, 3, "edu"), emailPredicate(1, 0, "6"), andPredicate(c, 0, 3, "edu", year), instantPredicate(c, year), emailPredicate(0, 0, keys[n-1].email)}
			}
			for _, auth := range []bool{true, false} {
				ss := predServers(db, auth)
				cl := newPredClient(detReader{c.R}, &db.Info, auth)
				for _, p := range preds {
					p.judge(c, keys, fmt.Sprintf("%d keys, authenticated=%v", n, auth), func() (uint32, error) {
						return aggregate(c, cl, ss, p.q, true)
					})
					c.Evalf("many/%v/%s", auth, p.what)
					c.Obs("keys_in_large_directories", n)
				}
				if !t.Thorough {
					break
				}
			}
		}, "many/%d", n)
	}
	// interleaved queries of many clients on the same servers
	t.Addf(func(c *C) {
		keys := randomKeys(c.R, 30)
		db := keysDB(keys)
		ss := predServers(db, true)
		for round := 0; round < t.N(8, 60); round++ {
			type run struct {
				p  *predicate
				cl predClient
				qs [][]byte
				as [][]byte
			}
			var runs []*run
			for i := 0; i < 6; i++ {
				x := &run{p: randomPredicate(c, keys), cl: newPredClient(detReader{c.R}, &db.Info, true), as: make([][]byte, 2)}
				in, err := x.p.q.Encode()
				c.Must(err, "encoding")
				x.qs, err = x.cl.QueryBytes(in, 2)
				c.Must(err, "query")
				runs = append(runs, x)
			}
			for _, o := range c.R.Perm(12) {
				x := runs[o/2]
				a, err := ss[o%2].AnswerBytes(x.qs[o%2])
				c.Must(err, "answer")
				x.as[o%2] = a
			}
			for _, o := range c.R.Perm(6) {
				x := runs[o]
				x.p.judge(c, keys, "interleaved", func() (uint32, error) {
					v, err := x.cl.ReconstructBytes(x.as)
					if err != nil {
						return 0, err
					}
					return asNumber(c, v), nil
				})
				c.Evalf("interleaved/%d/%d", round, o)
			}
		}
	}, "interleaved")
	// the randomly generated table
	t.Addf(func(c *C) {
		db, err := database.CreateRandomKeysDB(detReader{c.R}, 60)
		c.Must(err, "table")
		var keys []plainKey
		for _, k := range db.KeysInfo {
			keys = append(keys, plainKey{k.UserId.Email, k.CreationTime, k.PubKeyAlgo})
		}
		c.Check(len(keys) == 60 && db.NumColumns == 60, "%d keys", len(keys))
		var preds []*predicate
		for i := 0; i < 20; i++ {
			preds = append(preds, randomPredicate(c, keys))
		}
		both(c, keys, preds)
	}, "generated table")
}

// decodeFSS decodes what one server receives.
func decodeFSS(c *C, b []byte) *query.FSS {
	q := new(query.FSS)
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&q); err != nil {
		c.Failf("a query does not decode: %v", err)
	}
	return q
}

func encodeFSS(c *C, q *query.FSS) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(q); err != nil {
		c.Failf("a query does not encode: %v", err)
	}
	return b.Bytes()
}

var _ = utils.ByteToBits
