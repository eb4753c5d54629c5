package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register("C22", &propDef{
		build: buildC22,
		progs: []string{"client", "simclient", "web", "interactive"},
		rule: "2 to 5 servers of the harness that speak the protocol over TLS and record every request describe their databases; one of them (each position) describes it differently in one field or more, fails, or presents a certificate that is not pinned; " +
			"the session library, the command-line client, the evaluation client and the web front-end have to give an error and no server may have been sent a query (nor anything at all without a pinned certificate). When they agree, the queries have to fit the description. " +
			"An evaluation is one client run; distinct by client, scheme, number of servers and difference",
		assume: []string{"the servers that have the private key of a pinned certificate are authentic"},
		jobs:   8, minEvals: 500,
	})
}

// served is a database with its servers.
type served struct {
	scheme string
	d      *directory
	info   *database.Info
	models []server.Server
}

func newServed(c *C, scheme string, n int) *served {
	return newServedOf(c, scheme, n, newDirectory(c, genKeys(c.R, 10+c.R.Intn(60))))
}

func newServedOf(c *C, scheme string, n int, d *directory) *served {
	s := &served{scheme: scheme, d: d}
	files, err := filesOf(s.d)
	must(err)
	switch scheme {
	case "pointPIR", "pointVPIR":
		gen := database.GenerateRealKeyBytes
		if scheme == "pointVPIR" {
			gen = database.GenerateRealKeyMerkle
		}
		db, err := gen(files, true)
		c.Must(err, "directory")
		s.info = &db.Info
		for i := 0; i < n; i++ {
			s.models = append(s.models, newPointServer(db, n))
		}
	default:
		db, err := database.GenerateRealKeyDB(files)
		c.Must(err, "directory")
		s.info = &db.Info
		for i := 0; i < n; i++ {
			if scheme == "complexVPIR" {
				s.models = append(s.models, server.NewPredicateAPIR(db, byte(i)))
			} else {
				s.models = append(s.models, server.NewPredicatePIR(db, byte(i)))
			}
		}
	}
	return s
}

// fakes starts authentic servers, in any assignment of the pinned certificates.
func (s *served) fakes(c *C) []*fake {
	var out []*fake
	p := c.R.Perm(len(utils.ServerCertificates))
	for i, m := range s.models {
		out = append(out, startFake(c, &fake{info: describe(s.info), answer: modelAnswer(m)}, &utils.ServerCertificates[p[i]]))
	}
	return out
}

// replace lets the servers serve this directory from now on.
func (s *served) replace(fs []*fake) {
	for i := range fs {
		i := i
		fs[i].set(func(f *fake) { f.info, f.answer = describe(s.info), modelAnswer(s.models[i]) })
	}
}

func addrsOf(fs []*fake) []string {
	var l []string
	for _, f := range fs {
		l = append(l, f.addr)
	}
	return l
}

type difference struct {
	what string
	info *proto.DatabaseInfoResponse
}

// differences are descriptions that are not the given one.
func differences(c *C, base *proto.DatabaseInfoResponse) []difference {
	var out []difference
	add := func(what string, f func(i *proto.DatabaseInfoResponse)) {
		i := &proto.DatabaseInfoResponse{NumRows: base.NumRows, NumColumns: base.NumColumns, BlockLength: base.BlockLength, PirType: base.PirType,
			Root: append([]byte{}, base.Root...), ProofLen: base.ProofLen}
		f(i)
		if i.NumRows == base.NumRows && i.NumColumns == base.NumColumns && i.BlockLength == base.BlockLength && i.PirType == base.PirType &&
			bytes.Equal(i.Root, base.Root) && i.ProofLen == base.ProofLen {
			return
		}
		out = append(out, difference{what, i})
	}
	type info = proto.DatabaseInfoResponse
	add("one row more", func(i *info) { i.NumRows++ })
	add("no rows", func(i *info) { i.NumRows = 0 })
	add("one column more", func(i *info) { i.NumColumns++ })
	add("one column less", func(i *info) { i.NumColumns-- })
	add("transposed", func(i *info) { i.NumRows, i.NumColumns = i.NumColumns, i.NumRows })
	add("same cells in one row", func(i *info) { i.NumRows, i.NumColumns = 1, i.NumRows*i.NumColumns })
	add("blocks longer", func(i *info) { i.BlockLength++ })
	add("blocks shorter", func(i *info) { i.BlockLength-- })
	add("other scheme", func(i *info) {
		if i.PirType == "merkle" {
			i.PirType = "classical"
		} else {
			i.PirType = "merkle"
		}
	})
	add("no scheme", func(i *info) { i.PirType = "" })
	add("scheme in other case", func(i *info) { i.PirType = strings.ToUpper(i.PirType) })
	add("root: first bit", func(i *info) {
		if len(i.Root) > 0 {
			i.Root[0] ^= 0x80
		}
	})
	add("root: last bit", func(i *info) {
		if l := len(i.Root); l > 0 {
			i.Root[l-1] ^= 1
		}
	})
	add("root: random bit", func(i *info) {
		if l := len(i.Root); l > 0 {
			i.Root[c.R.Intn(l)] ^= 1 << uint(c.R.Intn(8))
		}
	})
	add("root: byte less", func(i *info) {
		if l := len(i.Root); l > 0 {
			i.Root = i.Root[:l-1]
		}
	})
	add("root: byte more", func(i *info) { i.Root = append(i.Root, 0) })
	add("root: none", func(i *info) { i.Root = nil })
	add("proof longer", func(i *info) { i.ProofLen++ })
	add("proof shorter", func(i *info) { i.ProofLen-- })
	add("everything", func(i *info) {
		*i = info{NumRows: i.NumRows + 2, NumColumns: i.NumColumns + 2, BlockLength: i.BlockLength + 2, PirType: i.PirType + "x", Root: append(i.Root, 1, 2), ProofLen: i.ProofLen + 2}
	})
	add("nothing set", func(i *info) { *i = info{} })
	return out
}

// asker is a client that is run against servers.
type asker struct {
	name string
	// run makes one request and tells whether it was refused, and what it gave
	run func(c *C) (refused bool, out string)
}

func askManager(c *C, s *served, config string, fresh bool) *asker {
	var a *manager.Actor
	return &asker{"session", func(c *C) (bool, string) {
		if a == nil || fresh {
			cfg, err := utils.LoadConfig(config)
			c.Must(err, "configuration")
			m := manager.NewManager(*cfg, rpcOptions)
			x, err := m.Connect()
			if err != nil {
				return true, "connect: " + err.Error()
			}
			a = &x
		}
		infos, err := a.GetDBInfos()
		if err != nil {
			return true, err.Error()
		}
		return false, fmt.Sprintf("%d descriptions", len(infos))
	}}
}

func askCommand(s *served, config string) *asker {
	return &asker{"command line", func(c *C) (bool, string) {
		args := []string{"-scheme", s.scheme}
		if strings.HasPrefix(s.scheme, "point") {
			args = append(args, "-id", s.d.pickAddress(c))
		} else {
			args = append(args, "-target", "email", "-from-start", "1", "-id", "a@b.c")
		}
		out, st := runProg(c, "client", scratch(c), []string{"VPIR_CONFIG=" + config}, 90*time.Second, args...)
		return st != 0, out
	}}
}

var simSchemes = map[string]string{"pointPIR": "pir-classic", "pointVPIR": "pir-merkle", "complexPIR": "fss-classic", "complexVPIR": "fss-auth"}

func askSimulation(s *served, config string) *asker {
	return &asker{"evaluation client", func(c *C) (bool, string) {
		out, st := runProg(c, "simclient", scratch(c), []string{"VPIR_CONFIG=" + config}, 90*time.Second,
			"-scheme", simSchemes[s.scheme], "-repetitions", "1", "-numServers", fmt.Sprint(len(s.models)), "-elemBitSize", "8", "-bitsToRetrieve", "8", "-inputSize", "3")
		return st != 0, out
	}}
}

// webServer is the running front-end.
type webServer struct {
	p    *prog
	base string
}

func startWeb(c *C, pointConfig, complexConfig string) *webServer {
	return startWebNamed(c, "web", pointConfig, complexConfig)
}

func startWebNamed(c *C, name, pointConfig, complexConfig string) *webServer {
	for try := 0; ; try++ {
		addr := fmt.Sprintf("127.0.0.1:%d", freePorts(1)[0])
		w := &webServer{base: "http://" + addr}
		w.p = startProg(c, name, scratch(c), []string{"VPIR_CONFIG_POINT=" + pointConfig, "VPIR_CONFIG_COMPLEX=" + complexConfig}, "-listen-addr", addr)
		w.p.listening(c, addr)
		if w.p.ended() && strings.Contains(w.p.output(), "address already in use") && try < 5 {
			continue
		}
		if w.p.ended() {
			c.Failf("the web front-end does not start: %v %s", w.p.err, tail(w.p.output(), 1000))
		}
		return w
	}
}

func (w *webServer) post(c *C, path string, form url.Values) (int, string) {
	cl := &http.Client{Timeout: 100 * time.Second}
	r, err := cl.PostForm(w.base+path, form)
	if err != nil {
		if w.p.ended() {
			c.Failf("web: %s %v: the front-end went down: %v\n%s", path, form, w.p.err, tail(w.p.output(), 1500))
		}
		c.Failf("web: %s %v: %v\n%s", path, form, err, tail(w.p.output(), 800))
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	c.Must(err, "web: reading the response")
	return r.StatusCode, string(b)
}

func askWeb(c *C, s *served, w *webServer) *asker {
	return &asker{"web", func(c *C) (bool, string) {
		var st int
		var out string
		if strings.HasPrefix(s.scheme, "point") {
			st, out = w.post(c, "/retrieve", url.Values{"email": {s.d.pickAddress(c)}})
		} else {
			st, out = w.post(c, "/count/email", url.Values{"position": {"begin"}, "text": {"a"}})
		}
		c.Check(st == 200 || st >= 400, "web: status %d", st)
		return st != 200, fmt.Sprintf("status %d: %s", st, out)
	}}
}

// expect runs a client once; refused, no server may have been queried.
func (s *served) expect(c *C, a *asker, fs []*fake, refuse bool, how string) {
	for _, f := range fs {
		f.reset()
	}
	refused, out := a.run(c)
	if strings.Contains(out, "panic:") || strings.Contains(out, "goroutine ") {
		c.Failf("%s, %s: crashes: %s", a.name, how, tail(out, 1200))
	}
	c.Evalf("%s %s, %d servers, %s", a.name, s.scheme, len(fs), how)
	for i, f := range fs {
		infos, queries := f.counts()
		if refuse {
			c.Check(refused, "%s, %s, %d servers, %s: no error: %s", a.name, s.scheme, len(fs), how, tail(out, 1200))
			c.Check(queries == 0, "%s, %s, %d servers, %s: server %d was sent a query", a.name, s.scheme, len(fs), how, i)
			c.Obs("refusals", 1)
			continue
		}
		c.Check(infos > 0, "%s, %s, %d servers, %s: server %d was not asked for its description", a.name, s.scheme, len(fs), how, i)
	}
	if !refuse {
		c.Obs("agreements", 1)
	}
}

// accepted checks a run with servers that agree.
func (s *served) accepted(c *C, a *asker, fs []*fake, how string) {
	s.expect(c, a, fs, false, how)
	for i, f := range fs {
		if _, q := f.counts(); a.name != "session" {
			c.Check(q > 0, "%s, %s, %d servers, %s: server %d was not queried although all agree", a.name, s.scheme, len(fs), how, i)
		}
	}
}

func (s *served) run(c *C, a *asker, fs []*fake, sample int) {
	delays := func() {
		for _, f := range fs {
			d := time.Duration(c.R.Intn(3)) * time.Duration(c.R.Intn(5)) * time.Millisecond
			f.set(func(f *fake) { f.delay = d })
		}
	}
	agree := func(how string) {
		for _, f := range fs {
			f.set(func(f *fake) { f.info, f.infoErr = describe(s.info), nil })
		}
		s.accepted(c, a, fs, how)
	}
	agree("agreement")
	type variant struct {
		d  difference
		at int
	}
	var all []variant
	for _, d := range differences(c, describe(s.info)) {
		for at := range fs {
			all = append(all, variant{d, at})
		}
	}
	p := c.R.Perm(len(all))
	if sample > 0 && sample < len(p) {
		p = p[:sample]
	}
	for j, k := range p {
		v := all[k]
		delays()
		for i, f := range fs {
			f.set(func(f *fake) {
				f.info, f.infoErr = describe(s.info), nil
				if i == v.at {
					f.info = v.d.info
				}
			})
		}
		s.expect(c, a, fs, true, fmt.Sprintf("%s at server %d", v.d.what, v.at))
		if j%17 == 16 {
			agree("agreement again")
		}
	}
	// all but one of them agree on something else, or all differ
	ds := differences(c, describe(s.info))
	for i := 0; i < 3; i++ {
		x := c.R.Perm(len(ds))
		odd := c.R.Intn(len(fs))
		delays()
		for j, f := range fs {
			info := ds[x[0]].info
			if i == 1 {
				info = ds[x[j]].info
			} else if j == odd {
				info = describe(s.info)
			}
			f.set(func(f *fake) { f.info = info })
		}
		same := true
		for _, f := range fs {
			same = same && f.info.String() == fs[0].info.String()
		}
		if !same {
			s.expect(c, a, fs, true, fmt.Sprintf("mixed descriptions %d", i))
		}
	}
	// groups of servers agree with one another, and not with the other group
	masks := c.R.Perm(1<<uint(len(fs)-1) - 1)
	if sample > 0 && len(masks) > 9 {
		masks = masks[:9]
	}
	for _, m := range masks {
		d := ds[c.R.Intn(len(ds))]
		delays()
		for j, f := range fs {
			f.set(func(f *fake) {
				f.info = describe(s.info)
				if (m+1)>>uint(j)&1 == 1 {
					f.info = d.info
				}
			})
		}
		s.expect(c, a, fs, true, fmt.Sprintf("%s at the servers of group %b", d.what, m+1))
	}
	// a server that does not describe its database
	for at := range fs {
		delays()
		for i, f := range fs {
			e := error(nil)
			if i == at {
				e = status.Error([]codes.Code{codes.Internal, codes.Unimplemented, codes.NotFound, codes.PermissionDenied, codes.Unknown}[c.R.Intn(5)], "no description")
			}
			f.set(func(f *fake) { f.info, f.infoErr = describe(s.info), e })
		}
		s.expect(c, a, fs, true, fmt.Sprintf("no description from server %d", at))
	}
	agree("agreement at the end")
}

func buildC22(t *T) {
	quietStdout()
	type setup struct {
		scheme string
		n      int
	}
	setups := []setup{{"pointPIR", 2}, {"pointVPIR", 2}, {"pointPIR", 3}, {"pointVPIR", 3}, {"pointPIR", 4}, {"pointVPIR", 5}, {"complexPIR", 2}, {"complexVPIR", 2}}
	for rep := 0; rep < t.N(1, 10); rep++ {
		for _, x := range setups {
			x, rep := x, rep
			t.Addf(func(c *C) {
				s := newServed(c, x.scheme, x.n)
				fs := s.fakes(c)
				s.run(c, askManager(c, s, writeConfig(c, addrsOf(fs)), false), fs, 0)
				s.run(c, askManager(c, s, writeConfig(c, addrsOf(fs)), true), fs, t.N(20, 100))
			}, "session, %s, %d servers, round %d", x.scheme, x.n, rep)
			t.Addf(func(c *C) {
				s := newServed(c, x.scheme, x.n)
				fs := s.fakes(c)
				s.run(c, askCommand(s, writeConfig(c, addrsOf(fs))), fs, t.N(30, 120))
			}, "command line, %s, %d servers, round %d", x.scheme, x.n, rep)
			t.Addf(func(c *C) {
				s := newServed(c, x.scheme, x.n)
				fs := s.fakes(c)
				s.run(c, askSimulation(s, writeConfig(c, addrsOf(fs))), fs, t.N(30, 120))
			}, "evaluation client, %s, %d servers, round %d", x.scheme, x.n, rep)
			if x.scheme == "complexPIR" {
				continue
			}
			t.Addf(func(c *C) {
				s := newServed(c, x.scheme, x.n)
				other := "pointVPIR"
				if strings.HasPrefix(x.scheme, "point") {
					other = "complexVPIR"
				}
				o := newServed(c, other, 2)
				fs, os := s.fakes(c), o.fakes(c)
				cfg, ocfg := writeConfig(c, addrsOf(fs)), writeConfig(c, addrsOf(os))
				if strings.HasPrefix(other, "point") {
					cfg, ocfg = ocfg, cfg
				}
				w := startWeb(c, cfg, ocfg)
				s.run(c, askWeb(c, s, w), fs, 0)
				c.Check(!w.p.ended(), "web: went down: %s", tail(w.p.output(), 1000))
				if haveTerminals() {
					s.run(c, askInteractive(s, cfg, ocfg), fs, t.N(6, 60))
				}
			}, "web and interactive client, %s, %d servers, round %d", x.scheme, x.n, rep)
		}
		rep := rep
		t.Addf(func(c *C) { agreedDescriptions(c, t.N(150, 600)) }, "agreed descriptions are used, session, round %d", rep)
		for _, scheme := range []string{"pointPIR", "pointVPIR"} {
			scheme := scheme
			t.Addf(func(c *C) { agreedQueries(c, scheme, t.N(12, 40)) }, "agreed descriptions are used, %s, round %d", scheme, rep)
		}
		for _, kind := range []string{"own certificate", "copied names", "pinned issuer", "pinned appended", "another authority", "authority of the system", "no TLS"} {
			kind := kind
			t.Addf(func(c *C) { impostors(c, kind) }, "%s, round %d", kind, rep)
		}
	}
}

// agreedDescriptions lets all servers describe the same arbitrary database.
func agreedDescriptions(c *C, n int) {
	for i := 0; i < n; i++ {
		k := 1 + c.R.Intn(5)
		number := func() uint32 {
			return []uint32{0, 1, uint32(c.R.Intn(1000)), c.R.Uint32(), 1<<31 - 1, 1 << 31, 1<<32 - 1}[c.R.Intn(7)]
		}
		info := &proto.DatabaseInfoResponse{NumRows: number(), NumColumns: number(), BlockLength: number(), ProofLen: number(),
			PirType: []string{"merkle", "classical", "", "x y"}[c.R.Intn(4)], Root: c.Bytes([]int{0, 1, 16, 32, 64, 300}[c.R.Intn(6)])}
		var fs []*fake
		for j := 0; j < k; j++ {
			fs = append(fs, startFake(c, &fake{info: info, delay: time.Duration(c.R.Intn(3)) * time.Millisecond}, &utils.ServerCertificates[c.R.Intn(5)]))
		}
		cfg, err := utils.LoadConfig(writeConfig(c, addrsOf(fs)))
		c.Must(err, "configuration")
		m := manager.NewManager(*cfg, callOptions(c.R.Intn(2) == 0))
		a, err := m.Connect()
		c.Must(err, "connecting to authentic servers")
		got, err := a.GetDBInfos()
		c.Must(err, "descriptions that agree")
		c.Check(len(got) == k, "%d descriptions of %d servers", len(got), k)
		want := described(info)
		for _, g := range got {
			root, proof := []byte(nil), 0
			if g.Merkle != nil {
				root, proof = g.Root, g.ProofLen
			}
			c.Check(g.NumRows == want.NumRows && g.NumColumns == want.NumColumns && g.BlockSize == want.BlockSize && g.PIRType == want.PIRType &&
				bytes.Equal(root, info.Root) && proof == want.ProofLen, "the servers describe %v, the session says %+v %x %d", info, g, root, proof)
		}
		c.Evalf("agreed %v %d", info, k)
		c.Obs("descriptions_used", 1)
	}
}

// agreedQueries compares the queries of the programs with those for the
// description.
func agreedQueries(c *C, scheme string, n int) {
	for i := 0; i < n; i++ {
		k := 2 + c.R.Intn(3)
		s := newServed(c, scheme, k)
		fs := s.fakes(c)
		info := describe(s.info)
		info.NumRows, info.NumColumns = uint32(1+c.R.Intn(60)), uint32(1+c.R.Intn(200))
		info.BlockLength += uint32(c.R.Intn(100))
		for _, f := range fs {
			f.set(func(f *fake) {
				f.info = info
				f.answer = func(q []byte) ([]byte, error) { return make([]byte, info.BlockLength), nil }
			})
		}
		d := described(info)
		qs, err := client.NewPIR(utils.RandomPRG(), &d).QueryBytes(idxBytes(0), k)
		c.Must(err, "query")
		for _, a := range []*asker{askCommand(s, writeConfig(c, addrsOf(fs))), askSimulation(s, writeConfig(c, addrsOf(fs)))} {
			s.accepted(c, a, fs, fmt.Sprintf("description %v", info))
			for j, f := range fs {
				for _, q := range f.queries {
					c.Check(len(q) == len(qs[j]), "%s: server %d of %d gets a query of %d bytes instead of %d for %v", a.name, j, k, len(q), len(qs[j]), info)
					c.Obs("queries_of_the_described_size", 1)
				}
			}
		}
	}
}

// impostors replaces one server by one that is not authentic.
func impostors(c *C, kind string) {
	var jobs []func()
	var mu sync.Mutex
	for _, scheme := range []string{"pointVPIR", "pointPIR", "complexVPIR"} {
		n := 2
		if scheme == "pointPIR" {
			n = 3
		}
		for at := 0; at < n; at++ {
			s := newServed(c, scheme, n)
			fs := s.fakes(c)
			var cert *tls.Certificate
			if kind != "no TLS" {
				cert = impostor(kind, c.R.Intn(5))
			}
			fs[at] = startFake(c, &fake{info: describe(s.info), answer: modelAnswer(s.models[at])}, cert)
			config := writeConfig(c, addrsOf(fs))
			bad := fs[at]
			judge := func(name string, refused bool, out string, at int) {
				mu.Lock()
				defer mu.Unlock()
				how := fmt.Sprintf("%s, %s, %d servers, %s at server %d", name, s.scheme, len(fs), kind, at)
				c.Check(!strings.Contains(out, "panic:"), "%s: crashes: %s", how, tail(out, 1000))
				c.Check(refused, "%s: no error: %s", how, tail(out, 1000))
				infos, queries := bad.counts()
				c.Check(infos == 0 && queries == 0, "%s: it is sent %d requests for a description and %d queries", how, infos, queries)
				for i, f := range fs {
					_, q := f.counts()
					c.Check(q == 0, "%s: server %d is sent a query", how, i)
				}
				c.Obs("impostors_refused", 1)
				c.Eval(how)
			}
			at := at
			askers := []*asker{askManager(c, s, config, true)}
			if at < 2 {
				askers = append(askers, askCommand(s, config), askSimulation(s, config))
			}
			for _, a := range askers {
				a, cc := a, c.child()
				jobs = append(jobs, func() {
					refused, out := a.run(cc)
					judge(a.name, refused, out, at)
				})
			}
			if scheme != "pointPIR" {
				// the front-end connects when it starts
				good := newServed(c, map[string]string{"pointVPIR": "complexVPIR", "complexVPIR": "pointVPIR"}[scheme], 2)
				gcfg := writeConfig(c, addrsOf(good.fakes(c)))
				pc, cc := config, gcfg
				if scheme == "complexVPIR" {
					pc, cc = gcfg, config
				}
				if haveTerminals() && at == 0 {
					a, ic := askInteractive(s, pc, cc), c.child()
					jobs = append(jobs, func() {
						refused, out := a.run(ic)
						judge(a.name, refused, out, at)
					})
				}
				dir := scratch(c)
				port := freePorts(1)[0]
				jobs = append(jobs, func() {
					p := startProg(c, "web", dir, []string{"VPIR_CONFIG_POINT=" + pc, "VPIR_CONFIG_COMPLEX=" + cc}, "-listen-addr", fmt.Sprintf("127.0.0.1:%d", port))
					select {
					case <-p.done:
						judge("web", p.cmd.ProcessState.ExitCode() != 0, p.output(), at)
					case <-time.After(25 * time.Second):
						// it runs: requests must not get through
						w := &webServer{p: p, base: fmt.Sprintf("http://127.0.0.1:%d", port)}
						path, form := "/retrieve", url.Values{"email": {"a@b.c"}}
						if scheme == "complexVPIR" {
							path, form = "/count/algo", url.Values{"algo": {"RSA"}}
						}
						st, out := w.post(c, path, form)
						judge("web", st != 200, out, at)
					}
				})
			}
		}
	}
	together(c, jobs)
}
