package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/encoding/gzip"
)

func init() {
	register("C20", &propDef{
		build:    buildC20,
		variants: []string{"", "race"},
		progs:    []string{"server", "client", "interactive", "data"},
		rule: "generated key directories are served by the shipped server programs (2 to 5 of them, every scheme, TLS over loopback); the shipped command-line client, the interactive client (on terminals of its own) and the session library, one after another and many at once, " +
			"look up addresses that are and are not in the directory and ask for statistics; the armored keys and numbers are compared with the generator's list. An evaluation is one answer; distinct by scheme, number of servers, client and request",
		assume: []string{"a conjunction on the command line is about keys of 2018 or 2019, and a creation year about its instant or year, as the program's fixed dates leave it open"},
		jobs:   4, minEvals: 300,
	})
}

// directory is what is served.
type directory struct {
	dir   string
	files int
	keys  map[string]*genKey // by lower-case address
	plain []plainKey
}

func lowerKeys(keys []*genKey) map[string]*genKey {
	m := map[string]*genKey{}
	for _, k := range keys {
		m[strings.ToLower(k.email())] = k
	}
	return m
}

func plainKeys(keys []*genKey) []plainKey {
	var out []plainKey
	for _, k := range keys {
		id := k.primaryID()
		e := id.email
		if id.bare {
			e = ""
		}
		out = append(out, plainKey{email: e, when: k.created, algo: k.algo})
	}
	return out
}

func newDirectory(c *C, keys []*genKey) *directory {
	d := &directory{dir: filepath.Join(scratch(c), "keys"), files: 1 + c.R.Intn(4)}
	if d.files > len(keys) {
		d.files = 1
	}
	writeKeyFiles(d.dir, keys, d.files)
	// only some of the files may be taken
	if d.files > 1 && c.R.Intn(2) == 0 {
		n := 1 + c.R.Intn(d.files)
		var some []*genKey
		for i, k := range keys {
			if i%d.files < n {
				some = append(some, k)
			}
		}
		keys, d.files = some, n
	}
	d.keys, d.plain = lowerKeys(keys), plainKeys(keys)
	return d
}

// largeDirectory is one whose answers are of several megabytes: many large keys
// are in one bucket of the table.
func largeDirectory(c *C) *directory {
	n := 100 + c.R.Intn(40)
	dir := filepath.Join(scratch(c), "small")
	plainBytes, err := database.GenerateRealKeyBytes(writeKeyFiles(dir, genKeys(c.R, n), 1), true)
	c.Must(err, "a small table")
	table := plainBytes.NumRows * plainBytes.NumColumns
	at := c.R.Intn(table)
	b := make([]int, n)
	for i := range b {
		if b[i] = at; i%20 == 19 {
			b[i] = c.R.Intn(table)
		}
	}
	keys := keysInBuckets(c, b, table)
	for i, k := range keys {
		k.ids[0].name = strings.Repeat("L", 14000+c.R.Intn(1000))
		keys[i] = (&genKey{ids: k.ids, created: k.created, algo: k.algo}).make(c.R)
	}
	d := &directory{dir: filepath.Join(scratch(c), "keys"), files: 1 + c.R.Intn(4), keys: lowerKeys(keys), plain: plainKeys(keys)}
	writeKeyFiles(d.dir, keys, d.files)
	return d
}

// largest is the size of the largest answer of a server.
func (cl *cluster) largest() int {
	max := 0
	for _, s := range cl.servers {
		for _, m := range answerSizeRe.FindAllStringSubmatch(s.output(), -1) {
			if n, _ := strconv.Atoi(m[1]); n > max {
				max = n
			}
		}
	}
	return max
}

var answerSizeRe = regexp.MustCompile(`answer size in bytes: ([0-9]+)`)

// ingested runs dumps through the shipped ingestion.
func ingestedDirectory(c *C, n int) *directory {
	s := randomKeySet(c.R, n)
	dir := scratch(c)
	s.write(filepath.Join(dir, "sks-original"), c.R.Perm(len(s.keys)), 1+c.R.Intn(3), c.R)
	d := &directory{dir: filepath.Join(dir, "out"), files: 1, keys: map[string]*genKey{}}
	must(mkdir(d.dir))
	out, st := runProg(c, "data", dir, nil, 60*time.Second, "-cmd", "parseDump", "-path", filepath.Join(dir, "sks-original"), "-out", d.dir)
	c.Check(st == 0, "ingestion ends with status %d: %s", st, tail(out, 1000))
	var keys []*genKey
	for e, k := range s.want() {
		d.keys[strings.ToLower(e)] = k
		keys = append(keys, k)
	}
	d.plain = plainKeys(keys)
	return d
}

func statKeys(c *C, n int) []*genKey {
	keys := genKeys(c.R, n)
	// what the fixed dates of the command line are about
	for i, when := range []time.Time{time.Date(2018, 11, 30, 0, 0, 0, 0, time.UTC), time.Date(2018, 3, 1, 5, 6, 7, 0, time.UTC),
		time.Date(2019, 7, 1, 0, 0, 0, 0, time.UTC), time.Date(2010, 11, 30, 0, 0, 0, 0, time.UTC), time.Date(2011, 2, 3, 0, 0, 0, 0, time.UTC)} {
		k := &genKey{created: when, algo: packet.PubKeyAlgoDSA, ids: []genID{{name: "d", email: fmt.Sprintf("alice.dated%d@epfl.ch", i)}}}
		keys = append(keys, k.make(c.R))
	}
	for i, e := range []string{"bücher.ch", "zücher.ch", "xbücher.ch", "müllerstraße.ch", "xüllerstraße.ch", "例え.テスト", "あい.テスト", "EPFL.ch"} {
		// in both years, so that nothing is not a possible answer
		for j := 0; j < 4+i%3; j++ {
			k := &genKey{created: time.Date(2018+j%4/3, 5, 1+j, 0, 0, 0, 0, time.UTC), algo: packet.PubKeyAlgoRSA, ids: []genID{{name: "o", email: fmt.Sprintf("o%d@%s", j, e)}}}
			keys = append(keys, k.make(c.R))
		}
	}
	return keys
}

func mixCase(c *C, e string) string {
	switch c.R.Intn(3) {
	case 0:
		return strings.ToUpper(e)
	case 1:
		b := []byte(e)
		for i := range b {
			if c.R.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 'a' - 'A'
			}
		}
		return string(b)
	}
	return e
}

var armorRe = regexp.MustCompile(`(?s)-----BEGIN PGP PUBLIC KEY BLOCK-----.*-----END PGP PUBLIC KEY BLOCK-----`)

// judgeKey compares what is printed for an address with the directory.
func (d *directory) judgeKey(c *C, how, e, out string, ok bool) {
	k := d.keys[strings.ToLower(e)]
	text := armorRe.FindString(out)
	if strings.Contains(out, "panic:") || strings.Contains(out, "goroutine ") {
		c.Failf("%s: %q: crashes: %s", how, e, tail(out, 1500))
	}
	if k == nil {
		c.Check(!ok && text == "", "%s: there is no key for %q, but it gets one: %s", how, e, clip(out, 600))
		c.Obs("absent_addresses", 1)
	} else {
		c.Check(ok && text != "", "%s: no key for %q: %s", how, e, tail(out, 1000))
		c.Check(canonKey(armored(c, text)) == canonKey(k.bare), "%s: another key than that of %q: %s", how, e, text)
		c.Obs("keys_retrieved", 1)
	}
}

// pickAddress is one that is in the directory, or not.
func (d *directory) pickAddress(c *C) string {
	if len(d.keys) > 0 && c.R.Intn(4) != 0 {
		l := make([]string, 0, len(d.keys))
		for e := range d.keys {
			l = append(l, e)
		}
		sortStrings(l)
		e := l[c.R.Intn(len(l))]
		if c.R.Intn(6) == 0 {
			return e + "x" // close to one
		}
		return mixCase(c, e)
	}
	return genEmail(c.R, 1000+c.R.Intn(1000))
}

// statistic is a request of the command line with its possible results.
type statistic struct {
	args []string
	want []uint32
	fail bool // there is no result
}

func (d *directory) pickStatistic(c *C) *statistic {
	var e string
	for len(e) < 2 {
		e = d.plain[c.R.Intn(len(d.plain))].email
		if c.R.Intn(6) == 0 {
			e = genEmail(c.R, c.R.Intn(1000))
		}
	}
	fs, fe := 0, 0
	switch c.R.Intn(4) {
	case 0, 1:
		fs = 1 + c.R.Intn(len(e))
		if c.R.Intn(3) > 0 && fs > 4 {
			fs = 1 + c.R.Intn(4)
		}
	case 2:
		fe = 1 + c.R.Intn(len(e))
		if c.R.Intn(3) > 0 && fe > 4 {
			fe = 1 + c.R.Intn(4)
		}
	}
	part := func() []string {
		var a []string
		if fs > 0 {
			a = append(a, "-from-start", fmt.Sprint(fs))
		}
		if fe > 0 {
			a = append(a, "-from-end", fmt.Sprint(fe))
		}
		return a
	}
	year := func(y int) func(k plainKey) bool { return func(k plainKey) bool { return k.when.UTC().Year() == y } }
	count := func(f func(k plainKey) bool) uint32 { return (&predicate{match: f}).count(d.plain) }
	m := emailMatch(fs, fe, e)
	match := func(k plainKey) bool { return m(k.email) }
	switch c.R.Intn(6) {
	case 0, 1:
		return &statistic{args: append([]string{"-target", "email", "-id", e}, part()...), want: []uint32{count(match)}}
	case 2:
		name := []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}[c.R.Intn(5)]
		return &statistic{args: []string{"-target", "algo", "-id", name}, want: []uint32{count(func(k plainKey) bool { return k.algo == algoNames[name] })}}
	case 3:
		y := []int{2011, 2019, 2018, 2000 + c.R.Intn(20)}[c.R.Intn(4)]
		at := time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
		return &statistic{args: []string{"-target", "creation", "-id", strconv.Itoa(y)},
			want: []uint32{count(func(k plainKey) bool { return k.when.Equal(at) }), count(year(y)), count(year(y - 1))}}
	case 4:
		if k := d.plain[c.R.Intn(len(d.plain))]; c.R.Intn(4) > 0 {
			for i := 0; k.when.UTC().Year()/2 != 2018/2 && i < 1000; i++ {
				k = d.plain[c.R.Intn(len(d.plain))]
			}
			if len(k.email) >= 2 {
				e = k.email
			}
		}
		n := 1 + c.R.Intn(5)
		if at := strings.IndexByte(e, '@'); at >= 0 && c.R.Intn(2) == 0 {
			n = len(e) - at - c.R.Intn(2)
		}
		if n > len(e) || n < 1 {
			n = len(e)
		}
		m := emailMatch(0, n, e) // an organization: the end of the address
		w := []uint32{}
		for _, y := range []int{2018, 2019} {
			f := year(y)
			w = append(w, count(func(k plainKey) bool { return m(k.email) && f(k) }))
		}
		return &statistic{args: []string{"-and", "-id", e[len(e)-n:]}, want: w}
	}
	p := &predicate{match: match}
	a, ok := p.average(d.plain, time.Now().UTC().Year())
	return &statistic{args: append([]string{"-and", "-avg", "-id", e}, part()...), want: []uint32{a}, fail: !ok}
}

var numberRe = regexp.MustCompile(`(?m)^([0-9]+)$`)

func (s *statistic) judge(c *C, how, out string, ok bool) {
	if strings.Contains(out, "panic:") {
		c.Failf("%s: %v: crashes: %s", how, s.args, tail(out, 1500))
	}
	l := numberRe.FindAllString(out, -1)
	if s.fail {
		c.Check(!ok && len(l) == 0, "%s: %v of nothing gives %v", how, s.args, l)
		return
	}
	c.Check(ok && len(l) == 1, "%s: %v gives no number: %s", how, s.args, tail(out, 1000))
	for _, w := range s.want {
		if l[0] == fmt.Sprint(w) {
			if w > 0 {
				c.Obs("statistics_above_zero", 1)
			}
			return
		}
	}
	c.Failf("%s: %v gives %s instead of %v", how, s.args, l[0], s.want)
}

func (cl *cluster) ask(c *C, d *directory, how string) func() {
	// options that do not matter
	var more []string
	if c.R.Intn(6) == 0 {
		more = append(more, "-prof")
	}
	if c.R.Intn(6) == 0 {
		more = append(more, "-experiment", fmt.Sprintf("-cores=%d", c.R.Intn(5)-1))
	}
	if strings.HasPrefix(cl.scheme, "point") {
		e := d.pickAddress(c)
		id := []string{"-id", e}
		if strings.Join(strings.Fields(e), "") == e && c.R.Intn(4) == 0 {
			// the program asks for it
			id = []string{typed + e + []string{"\n", "\r\n", "", "\nx@y.org\n"}[c.R.Intn(4)]}
			c.Obs("addresses_typed", 1)
		}
		return func() {
			out, st := cl.client(c, append(more, id...)...)
			d.judgeKey(c, how, e, out, st == 0)
			c.Evalf("%s key %q", how, e)
		}
	}
	s := d.pickStatistic(c)
	return func() {
		out, st := cl.client(c, append(more, s.args...)...)
		s.judge(c, how, out, st == 0)
		c.Evalf("%s statistic %v", how, s.args)
	}
}

// together runs work in parallel and passes on what went wrong.
func together(c *C, jobs []func()) {
	errs := make(chan interface{}, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			defer func() { errs <- recover() }()
			j()
		}()
	}
	var first interface{}
	for range jobs {
		if e := <-errs; e != nil && first == nil {
			first = e
		}
	}
	if first != nil {
		panic(first)
	}
}

func (cl *cluster) session(c *C) manager.Actor {
	cfg, err := utils.LoadConfig(cl.config)
	c.Must(err, "configuration")
	m := manager.NewManager(*cfg, []grpc.CallOption{grpc.UseCompressor(gzip.Name),
		grpc.MaxCallRecvMsgSize(1 << 30), grpc.MaxCallSendMsgSize(1 << 30)})
	a, err := m.Connect()
	c.Must(err, "connecting to the servers")
	return a
}

// sessionWork is a list of requests over one session.
func (cl *cluster) sessionWork(c *C, d *directory, a *manager.Actor, how string, n int) func() {
	var reqs []func(infos []database.Info)
	for i := 0; i < n; i++ {
		if strings.HasPrefix(cl.scheme, "point") {
			e := d.pickAddress(c)
			fresh := c.R.Intn(2) == 0
			var keep *client.PIR
			reqs = append(reqs, func(infos []database.Info) {
				if keep == nil || fresh {
					keep = client.NewPIR(utils.RandomPRG(), &infos[0])
				}
				text, err := a.GetKey(e, infos[0], keep)
				if err != nil {
					text = err.Error()
				}
				d.judgeKey(c, how, e, text, err == nil)
				c.Evalf("%s key %q", how, e)
			})
			continue
		}
		p := randomPredicate(c, d.plain)
		reqs = append(reqs, func(infos []database.Info) {
			var cli client.Client = client.NewPredicatePIR(utils.RandomPRG(), &infos[0])
			if cl.scheme == "complexVPIR" {
				cli = client.NewPredicateAPIR(utils.RandomPRG(), &infos[0])
			}
			p.judge(c, d.plain, how, func() (uint32, error) {
				in, err := (&query.ClientFSS{Info: p.q.Info, Input: p.q.Input}).Encode()
				c.Must(err, "encoding")
				qs, err := cli.QueryBytes(in, len(cl.addrs))
				c.Must(err, how+": query")
				as, err := a.RunQueries(qs)
				c.Must(err, how+": running "+p.what)
				v, err := cli.ReconstructBytes(as)
				if err != nil {
					return 0, err
				}
				return asNumber(c, v), nil
			})
			c.Evalf("%s statistic %s", how, p.what)
		})
	}
	return func() {
		infos, err := a.GetDBInfos()
		c.Must(err, how+": descriptions of the servers")
		c.Check(len(infos) == len(cl.addrs), "%s: %d descriptions of %d servers", how, len(infos), len(cl.addrs))
		for _, r := range reqs {
			r(infos)
		}
	}
}

func buildC20(t *T) {
	quietStdout()
	buildInteractive(t)
	type setup struct {
		scheme string
		n      int
	}
	setups := []setup{{"pointPIR", 2}, {"pointVPIR", 2}, {"pointPIR", 3}, {"pointVPIR", 3}, {"complexPIR", 2}, {"complexVPIR", 2}, {"pointPIR", 5}, {"pointVPIR", 4}}
	if t.Thorough {
		setups = append(setups, setup{"pointPIR", 4}, setup{"pointVPIR", 5})
	}
	// a large database takes a server long: all clients wait for it, here
	// longer than it takes them to give up connecting
	for _, s := range []setup{{"pointVPIR", 2}, {"complexVPIR", 2}, {"pointPIR", 3}} {
		s := s
		t.Addf(func(c *C) {
			d := newDirectory(c, statKeys(c, 20))
			cl := startCluster(c, s.scheme, s.n, d.dir, d.files)
			front := recorders(c, cl.addrs)
			wait := time.Duration(t.N(11, 75)) * time.Second
			slow := front[c.R.Intn(len(front))]
			slow.set(func(f *fake) { f.delay, f.late = wait, wait })
			far := *cl
			far.config, far.addrs, far.slow = writeConfig(c, addrsOf(front)), addrsOf(front), 3*wait
			far.env = []string{"VPIR_CONFIG=" + far.config}
			how := fmt.Sprintf("%s, a slow server among %d", s.scheme, s.n)
			a := far.session(c)
			together(c, []func(){far.ask(c, d, how+", command line"), far.ask(c, d, how+", command line"), far.sessionWork(c, d, &a, how+", session", 1)})
			cl.healthy(c, how)
			c.Obs("answers_of_slow_servers", 3)
		}, "a slow server, %s", s.scheme)
	}
	for rep := 0; rep < t.N(5, 25); rep++ {
		for _, s := range setups {
			s, rep := s, rep
			t.Addf(func(c *C) {
				n := []int{1 + c.R.Intn(12), 20 + c.R.Intn(60), 90 + c.R.Intn(200)}[c.R.Intn(3)]
				point := strings.HasPrefix(s.scheme, "point")
				var d *directory
				if point {
					d = newDirectory(c, genKeys(c.R, n))
				} else {
					d = newDirectory(c, statKeys(c, n))
				}
				cl := startCluster(c, s.scheme, s.n, d.dir, d.files, "@?")
				how := fmt.Sprintf("%s, %d servers, command line", s.scheme, s.n)
				// one after another, then many at once
				for i := 0; i < t.N(16, 40); i++ {
					cl.ask(c, d, how)()
				}
				cl.healthy(c, how)
				var jobs []func()
				for i := 0; i < 8; i++ {
					jobs = append(jobs, cl.ask(c, d, how+" at once"))
				}
				a := cl.session(c)
				for i := 0; i < 6; i++ {
					jobs = append(jobs, cl.sessionWork(c, d, &a, fmt.Sprintf("%s, %d servers, session", s.scheme, s.n), t.N(10, 40)))
				}
				together(c, jobs)
				b := cl.session(c)
				cl.sessionWork(c, d, &b, fmt.Sprintf("%s, %d servers, new session", s.scheme, s.n), 5)()
				cl.healthy(c, how)
				for _, srv := range cl.servers {
					c.Obs("server_answers", strings.Count(srv.output(), "answer size in bytes"))
				}
			}, "%s with %d servers, round %d", s.scheme, s.n, rep)
		}
		rep := rep
		t.Addf(func(c *C) {
			// answers of several megabytes, to all clients
			s := setups[[]int{0, 1, 2, 3, 6, 7}[rep%6]]
			d := largeDirectory(c)
			cl := startCluster(c, s.scheme, s.n, d.dir, d.files)
			how := fmt.Sprintf("large answers, %s, %d servers", s.scheme, s.n)
			a := cl.session(c)
			jobs := []func(){cl.sessionWork(c, d, &a, how+", session", 8)}
			for i := 0; i < 4; i++ {
				jobs = append(jobs, cl.ask(c, d, how))
			}
			together(c, jobs)
			if haveTerminals() {
				interact(c, cl, cl, d, nil, t.N(6, 20), how+", interactive", nil)
			}
			cl.healthy(c, how)
			if cl.largest() > 4<<20 {
				c.Obs("clusters_with_answers_above_4MB", 1)
			}
		}, "large answers, round %d", rep)
		t.Addf(func(c *C) {
			// sessions go on when the servers are replaced
			s := setups[rep*3%len(setups)]
			fill := func() *directory {
				if strings.HasPrefix(s.scheme, "point") {
					return newDirectory(c, genKeys(c.R, 1+c.R.Intn(130)))
				}
				return newDirectory(c, statKeys(c, 1+c.R.Intn(60)))
			}
			d := fill()
			cl := startCluster(c, s.scheme, s.n, d.dir, d.files)
			a := cl.session(c)
			for i := 0; i < t.N(3, 6); i++ {
				if i > 0 {
					d = fill()
					cl.restart(c, d.dir, d.files)
					// the session connects again
					var err error
					for end := time.Now().Add(90 * time.Second); ; time.Sleep(20 * time.Millisecond) {
						if _, err = a.GetDBInfos(); err == nil || time.Now().After(end) {
							break
						}
					}
					c.Must(err, "a session after the servers were replaced")
					c.Obs("servers_replaced", s.n)
				}
				how := fmt.Sprintf("%s, %d servers, started for the time %d", s.scheme, s.n, i+1)
				cl.sessionWork(c, d, &a, how+", session", 8)()
				cl.ask(c, d, how+", command line")()
			}
			cl.healthy(c, "replaced servers")
		}, "replaced servers, round %d", rep)
		t.Addf(func(c *C) {
			d := ingestedDirectory(c, 20+c.R.Intn(60))
			for _, scheme := range []string{"pointPIR", "pointVPIR"} {
				cl := startCluster(c, scheme, 2+c.R.Intn(2), d.dir, 1)
				for i := 0; i < 8; i++ {
					cl.ask(c, d, "ingested dump, "+scheme)()
				}
			}
			if len(d.plain) > 0 {
				cl := startCluster(c, "complexVPIR", 2, d.dir, 1)
				a := cl.session(c)
				cl.sessionWork(c, d, &a, "ingested dump, complexVPIR", 20)()
			}
		}, "from a dump to the client, round %d", rep)
	}
}
