package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C30", &propDef{
		build: buildC30,
		progs: []string{"server", "client", "simserver", "simclient", "simul"},
		rule: "the evaluation servers and client are run for every scheme, 2 to 5 servers and random databases, with recording servers of the harness in between; the reported traffic is compared with the recorded messages, the same queries are sent to all servers and to servers started again, " +
			"and a server that forges its answers is put in their place. The key servers and the command-line client are run in the same way with their experiment flags. The single-machine simulator is run for every primitive and its figures are compared with the sizes of the encoded messages of the same database. " +
			"An evaluation is one figure, answer or run; distinct by scheme, number of servers and parameters",
		assume: []string{"the size of a matrix may or may not include the eight bytes of its dimensions"},
		jobs:   6, minEvals: 200,
	})
}

// simParams describe a database of the evaluation servers.
type simParams struct {
	scheme                 string
	servers                int
	bits, rows, block, sid int
	host                   string
}

func (p simParams) args() []string {
	a := []string{"-scheme", p.scheme}
	if strings.HasPrefix(p.scheme, "fss") {
		return a
	}
	return append(a, "-dbLen", fmt.Sprint(p.bits), "-elemBitSize", "8", "-nRows", fmt.Sprint(p.rows), "-blockLen", fmt.Sprint(p.block), "-servers", fmt.Sprint(p.servers))
}

func randomSim(c *C, scheme string, n int) simParams {
	p := simParams{scheme: scheme, servers: n, block: []int{1, 4, 16, 32, 100, 1024}[c.R.Intn(6)]}
	blocks := []int{1, 4, 9, 16, 25, 64, 100}[c.R.Intn(7)]
	if c.R.Intn(2) == 0 {
		p.rows, blocks = 1, 1+c.R.Intn(100)
	}
	p.bits = blocks * p.block * 8
	return p
}

// simServers are running evaluation servers.
type simServers struct {
	cluster
	logs []string
}

func (s *simServers) log(i int) string {
	b, _ := os.ReadFile(s.logs[i])
	return string(b) + s.servers[i].output()
}

func startSims(c *C, p simParams) *simServers { return startSimsNamed(c, "simserver", p) }

func startSimsNamed(c *C, name string, p simParams) *simServers {
	for try := 0; ; try++ {
		s := &simServers{cluster: cluster{scheme: p.scheme, dir: scratch(c)}}
		for _, port := range freePorts(p.servers) {
			host := p.host
			if host == "" {
				host = loopback(c)
			}
			s.addrs = append(s.addrs, net.JoinHostPort(host, fmt.Sprint(port)))
		}
		s.config = writeConfig(c, s.addrs)
		for i := range s.addrs {
			dir := filepath.Join(s.dir, fmt.Sprint(i))
			must(mkdir(dir))
			must(os.WriteFile(filepath.Join(dir, "sid"), []byte(fmt.Sprintf("%d\n", i)), 0o644))
			args := p.args()
			logFile := filepath.Join(dir, "log")
			if c.R.Intn(2) == 0 {
				args = append(args, "-logFile", logFile)
			}
			s.logs = append(s.logs, logFile)
			s.servers = append(s.servers, startProg(c, name, dir, []string{"VPIR_CONFIG=" + s.config}, args...))
		}
		taken := false
		for i, srv := range s.servers {
			srv.listening(c, s.addrs[i])
			taken = taken || srv.ended() && strings.Contains(s.log(i), "address already in use")
		}
		if taken && try < 5 {
			for _, srv := range s.servers {
				srv.stop()
			}
			continue
		}
		for i, srv := range s.servers {
			c.Check(!srv.ended(), "%+v: server %d does not start: %s", p, i, tail(s.log(i), 1500))
		}
		return s
	}
}

var statsRe = regexp.MustCompile(`stats,(-?[0-9]+),([0-9]+),([0-9.]+)`)
var serverStatsRe = regexp.MustCompile(`stats,([0-9]+)(,([0-9]+))?`)

// clientStats are the figures of the client: of each repetition, the bytes.
func clientStats(c *C, out string) (first, bw []int, secs []float64) {
	for _, m := range statsRe.FindAllStringSubmatch(out, -1) {
		a, _ := strconv.Atoi(m[1])
		b, _ := strconv.Atoi(m[2])
		t, err := strconv.ParseFloat(m[3], 64)
		c.Check(err == nil && t >= 0, "a time of %q", m[3])
		first, bw, secs = append(first, a), append(bw, b), append(secs, t)
	}
	return first, bw, secs
}

func sumLens(b [][]byte) int {
	n := 0
	for _, x := range b {
		n += len(x)
	}
	return n
}

// simClient runs the evaluation client.
func simClient(c *C, config string, p simParams, reps, bits, input int) (string, int) {
	dir := scratch(c)
	args := []string{"-scheme", p.scheme, "-repetitions", fmt.Sprint(reps), "-numServers", fmt.Sprint(p.servers), "-elemBitSize", "8", "-bitsToRetrieve", fmt.Sprint(bits), "-inputSize", fmt.Sprint(input)}
	file := filepath.Join(dir, "log")
	if c.R.Intn(2) == 0 {
		args = append(args, "-logFile", file)
	}
	out, st := runProg(c, "simclient", dir, []string{"VPIR_CONFIG=" + config}, 140*time.Second, args...)
	b, _ := os.ReadFile(file)
	return out + string(b), st
}

// askAll sends one query to several servers.
func askAll(c *C, l []proto.VPIRClient, qs [][]byte) [][]byte {
	var out [][]byte
	for i, s := range l {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		a, err := s.Query(ctx, &proto.QueryRequest{Query: qs[i]}, rpcOptions...)
		cancel()
		c.Must(err, "an honest query")
		out = append(out, a.GetAnswer())
	}
	return out
}

func descriptions(c *C, l []proto.VPIRClient) []*proto.DatabaseInfoResponse {
	var out []*proto.DatabaseInfoResponse
	for _, s := range l {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		i, err := s.DatabaseInfo(ctx, &proto.DatabaseInfoRequest{}, rpcOptions...)
		cancel()
		c.Must(err, "description")
		out = append(out, i)
	}
	return out
}

func same(c *C, what string, l []*proto.DatabaseInfoResponse) {
	for i := range l {
		c.Check(l[i].String() == l[0].String(), "%s: servers with the same parameters describe %v and %v", what, l[0], l[i])
	}
}

// evaluated runs one scheme of the evaluation with everything around it.
func evaluated(c *C, t *T, p simParams) {
	what := fmt.Sprintf("%+v", p)
	s := startSims(c, p)
	var real []proto.VPIRClient
	for _, a := range s.addrs {
		real = append(real, dial(c, a))
	}
	infos := descriptions(c, real)
	same(c, what, infos)
	info := described(infos[0])
	fss := strings.HasPrefix(p.scheme, "fss")
	authentic := p.scheme == "pir-merkle" || p.scheme == "fss-auth"

	// the client, with recorders in between
	rec := recorders(c, s.addrs)
	config := writeConfig(c, addrsOf(rec))
	served := make([]int, len(rec))
	for run := 0; run < t.N(2, 4); run++ {
		for _, f := range rec {
			f.reset()
		}
		reps, bits, input := 1+c.R.Intn(4), 1, 1+c.R.Intn(8)
		perRep := 1
		if !fss {
			cells := info.NumRows * info.NumColumns
			perRep = 1 + c.R.Intn(cells)
			if perRep > 6 {
				perRep = 6
			}
			if run == 0 && cells <= 40 {
				perRep = cells // all of it
			}
			bits = perRep*info.BlockSize*8 - c.R.Intn(info.BlockSize*8)
		} else {
			reps = 1 + c.R.Intn(2)
		}
		// every answer takes a while
		while := time.Duration(c.R.Intn(12)) * time.Millisecond
		for _, f := range rec {
			f.set(func(f *fake) { f.forged = func(a []byte) []byte { time.Sleep(while); return a } })
		}
		began := time.Now()
		out, st := simClient(c, config, p, reps, bits, input)
		c.Check(st == 0, "%s: the client fails with %d repetitions of %d bits: %s", what, reps, bits, tail(out, 1500))
		took := time.Since(began).Seconds()
		js, bw, secs := clientStats(c, out)
		c.Check(len(bw) == reps, "%s: %d repetitions, %d of them reported: %s", what, reps, len(bw), tail(out, 800))
		total, sum := 0, 0
		for i, f := range rec {
			_, q := f.counts()
			c.Check(q == reps*perRep, "%s: server %d gets %d queries for %d repetitions of %d blocks", what, i, q, reps, perRep)
			c.Check(len(f.answers) == q, "%s: server %d gives %d answers to %d queries", what, i, len(f.answers), q)
			total += sumLens(f.queries)
			served[i] += q
		}
		for j := range bw {
			c.Check(js[j] == j, "%s: repetition %d is reported as %d", what, j, js[j])
			// the j-th repetition made the j-th queries
			n := 0
			for _, f := range rec {
				n += sumLens(f.queries[j*perRep : (j+1)*perRep])
			}
			c.Check(bw[j] == n, "%s: repetition %d: %d bytes were sent, %d are reported", what, j, n, bw[j])
			sum += bw[j]
			least := while.Seconds() * float64(perRep)
			c.Check(secs[j] >= least-1e-5, "%s: repetition %d waited %v s for answers, %v s are reported", what, j, least, secs[j])
			took -= secs[j]
			c.Evalf("%s traffic %d %d", what, run, j)
		}
		c.Check(sum == total, "%s: %d bytes were sent, %d are reported", what, total, sum)
		c.Check(took >= -1e-4, "%s: the times reported, %v s, exceed that of the whole run by %v s", what, secs, -took)
		for _, f := range rec {
			f.set(func(f *fake) { f.forged = nil })
		}
		c.Obs("client_figures", len(bw))
		// the servers' figures
		for i, f := range rec {
			m := serverStatsRe.FindAllStringSubmatch(s.log(i), -1)
			c.Check(len(m) == served[i], "%s: server %d answered %d queries, %d are reported", what, i, served[i], len(m))
			m = m[len(m)-len(f.answers):]
			for j, a := range f.answers {
				c.Check(m[j][1] == fmt.Sprint(len(a)), "%s: server %d reports %s bytes for an answer of %d", what, i, m[j][1], len(a))
			}
			c.Obs("server_figures", len(m))
		}
	}

	// the servers hold the same database, and so do servers started again
	q := *newSimAsker(c, p, &info)
	again := startSims(c, p)
	var second []proto.VPIRClient
	for _, a := range again.addrs {
		second = append(second, dial(c, a))
	}
	same(c, what+", started again", append(descriptions(c, second), infos[0]))
	var cells [][]byte
	for i := 0; i < t.N(6, 30); i++ {
		if !fss {
			// the same share gives the same answer everywhere
			qs := q.query(c, c.R.Intn(info.NumRows*info.NumColumns))
			k := c.R.Intn(len(qs))
			var all [][]byte
			for range real {
				all = append(all, qs[k])
			}
			as := append(askAll(c, real, all), askAll(c, second, all)...)
			for j := range as {
				c.Check(bytes.Equal(as[j], as[0]), "%s: server %d answers a query differently than server 0", what, j)
			}
			c.Obs("equal_answers", len(as)-1)
			at := c.R.Intn(info.NumRows * info.NumColumns)
			qs = q.query(c, at)
			a, err := q.cli.ReconstructBytes(askAll(c, real, qs))
			c.Must(err, what+": reconstruction")
			b, err := q.cli.ReconstructBytes(mixed(c, real, second, qs))
			c.Must(err, what+": reconstruction")
			c.Check(bytes.Equal(a.([]byte), b.([]byte)), "%s: position %d gives %x and %x", what, at, clipb(a.([]byte)), clipb(b.([]byte)))
			cells = append(cells, a.([]byte))
			c.Evalf("%s position %d %d", what, at, i)
			continue
		}
		if i >= 3 {
			break
		}
		a, err := q.count(c, real)
		c.Must(err, what+": reconstruction")
		b, err := q.recount(c, real, second)
		c.Must(err, what+": reconstruction")
		c.Check(a == b, "%s: the same query counts %d keys, then %d", what, a, b)
		c.Evalf("%s count %d %d", what, i, a)
		if a > 0 {
			c.Obs("identifiers_counted", int(a))
		}
	}

	// a server that forges
	for i := 0; i < 2 && authentic; i++ {
		bad := rec[c.R.Intn(len(rec))]
		kind := c.R.Intn(1000)
		bad.set(func(f *fake) {
			f.forged = func(a []byte) []byte {
				if fss {
					a[kind%len(a)] ^= 1
					return a
				}
				// a byte of the data of every row
				for r := 0; r < len(a); r += info.BlockSize {
					a[r+kind%p.block] ^= 1 << uint(kind%8)
				}
				return a
			}
		})
		out, st := simClient(c, config, p, 1, 1, 2)
		c.Check(st != 0, "%s: a forged answer is not noticed by the client: %s", what, tail(out, 800))
		_, bw, _ := clientStats(c, out)
		c.Check(len(bw) == 0, "%s: a figure is reported for a forged answer: %s", what, tail(out, 800))
		bad.set(func(f *fake) { f.forged = nil })
		c.Evalf("%s forged %d", what, i)
		c.Obs("forgeries_noticed", 1)
	}

	// a malformed query does not stop the servers, a signal does
	for i, l := range real {
		for _, b := range [][]byte{nil, {1}, c.Bytes(10), c.Bytes(1000)} {
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			l.Query(ctx, &proto.QueryRequest{Query: b}, rpcOptions...)
			cancel()
		}
		c.Check(!s.servers[i].ended(), "%s: server %d went down: %s", what, i, tail(s.log(i), 1200))
	}
	out, st := simClient(c, config, p, 1, 1, 2)
	c.Check(st == 0, "%s: the client fails after malformed queries: %s", what, tail(out, 1200))
	for i, srv := range s.servers {
		srv.signal([]syscall.Signal{syscall.SIGTERM, os.Interrupt.(syscall.Signal)}[i%2])
		st := srv.exit(c, 60*time.Second)
		c.Check(st == 0, "%s: server %d ends with status %d: %s", what, i, st, tail(s.log(i), 1200))
		c.Evalf("%s end %d", what, i)
	}
}

func clipb(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// mixed sends the queries to the servers of one run or the other.
func mixed(c *C, a, b []proto.VPIRClient, qs [][]byte) [][]byte {
	var l []proto.VPIRClient
	for i := range qs {
		l = append(l, [][]proto.VPIRClient{a, b}[c.R.Intn(2)][i])
	}
	return askAll(c, l, qs)
}

// simAsker asks evaluation servers for what the harness wants to know.
type simAsker struct {
	p    simParams
	cli  client.Client
	last [][]byte
}

func newSimAsker(c *C, p simParams, info *database.Info) *simAsker {
	a := &simAsker{p: p}
	switch p.scheme {
	case "fss-classic":
		a.cli = client.NewPredicatePIR(utils.RandomPRG(), info)
	case "fss-auth":
		a.cli = client.NewPredicateAPIR(utils.RandomPRG(), info)
	default:
		a.cli = client.NewPIR(utils.RandomPRG(), info)
	}
	return a
}

func (a *simAsker) query(c *C, at int) [][]byte {
	in := make([]byte, 4)
	binary.BigEndian.PutUint32(in, uint32(at))
	qs, err := a.cli.QueryBytes(in, a.p.servers)
	c.Must(err, "query")
	return qs
}

func (a *simAsker) count(c *C, l []proto.VPIRClient) (uint32, error) {
	info := &query.Info{Target: query.UserId, FromStart: 1}
	in, err := info.ToEmailClientFSS(string("abcdefghijklmnopqrstuvwxyz0123456789"[c.R.Intn(36)])).Encode()
	c.Must(err, "encoding")
	a.last, err = a.cli.QueryBytes(in, 2)
	c.Must(err, "query")
	v, err := a.cli.ReconstructBytes(askAll(c, l, a.last))
	if err != nil {
		return 0, err
	}
	return v.(uint32), nil
}

// recount sends the last query again, to servers of either run.
func (a *simAsker) recount(c *C, x, y []proto.VPIRClient) (uint32, error) {
	v, err := a.cli.ReconstructBytes(askAll(c, []proto.VPIRClient{x[0], y[1]}, a.last))
	if err != nil {
		return 0, err
	}
	w, err := a.cli.ReconstructBytes(askAll(c, []proto.VPIRClient{y[0], x[1]}, a.last))
	if err != nil {
		return 0, err
	}
	c.Check(v.(uint32) == w.(uint32), "%+v: the same query counts %d and %d keys with servers of two runs", a.p, v, w)
	return w.(uint32), nil
}

// experiments runs the key servers and their client as the evaluation does.
func experiments(c *C, scheme string, n int, cores int) {
	what := fmt.Sprintf("%s, %d servers, %d cores", scheme, n, cores)
	d := newDirectory(c, statKeys(c, 5+c.R.Intn(60)))
	cl := startCluster(c, scheme, n, d.dir, d.files, "-experiment", fmt.Sprintf("-cores=%d", cores))
	rec := recorders(c, cl.addrs)
	front := *cl
	front.config = writeConfig(c, addrsOf(rec))
	front.env = []string{"VPIR_CONFIG=" + front.config}
	for i := 0; i < 6; i++ {
		for _, f := range rec {
			f.reset()
		}
		args := []string{"-experiment", fmt.Sprintf("-cores=%d", cores)}
		if strings.HasPrefix(scheme, "point") {
			var e string
			for e == "" || d.keys[strings.ToLower(e)] == nil {
				e = d.pickAddress(c)
			}
			args = append(args, "-id", e)
		} else {
			args = append(args, "-target", "email", "-from-start", "3", "-id", "ali")
		}
		while := time.Duration(c.R.Intn(40)) * time.Millisecond
		for _, f := range rec {
			f.set(func(f *fake) { f.forged = func(a []byte) []byte { time.Sleep(while); return a } })
		}
		began := time.Now()
		out, st := front.client(c, args...)
		c.Check(st == 0, "%s: the client fails: %s", what, tail(out, 1200))
		took := time.Since(began).Seconds()
		first, bw, secs := clientStats(c, out)
		c.Check(len(bw) == 1, "%s: %d figures: %s", what, len(bw), tail(out, 800))
		total := 0
		for _, f := range rec {
			total += sumLens(f.queries)
		}
		c.Check(secs[0] >= while.Seconds()-1e-5 && secs[0] <= took+1e-4, "%s: the client waited %v s for answers and ran for %v s, it reports %v s", what, while.Seconds(), took, secs[0])
		c.Check(bw[0] == total && first[0] == cores, "%s: %d bytes were sent, the client reports %d (with %d cores)", what, total, bw[0], first[0])
		for j, f := range rec {
			m := serverStatsRe.FindAllStringSubmatch(cl.servers[j].output(), -1)
			neg := regexp.MustCompile(`stats,-1,([0-9]+)`).FindAllStringSubmatch(cl.servers[j].output(), -1)
			var got []string
			for _, x := range m {
				got = append(got, x[3])
			}
			for _, x := range neg {
				got = append(got, x[1])
			}
			c.Check(len(f.answers) == 1 && len(got) == i+1 && got[i] == fmt.Sprint(len(f.answers[0])), "%s: server %d reports %v for %d answers, the last of %d bytes", what, j, got, i+1, len(f.answers[0]))
			c.Obs("server_figures", 1)
		}
		c.Evalf("%s experiment %d", what, i)
		c.Obs("client_figures", 1)
	}
	cl.healthy(c, what)
}

type simBlock struct {
	Query, Reconstruct float64
	Answers            []float64
}

type simChunk struct {
	CPU, Bandwidth []*simBlock
	Digest         float64
}

// simulated runs the single-machine simulator.
func simulated(c *C, primitive string, bits []int, reps int) {
	what := fmt.Sprintf("simulator %s %v", primitive, bits)
	dir := scratch(c)
	general := fmt.Sprintf("DBBitLengths = %s\nRepetitions = %d\nBitsToRetrieve = 8192\n", strings.Replace(fmt.Sprint(bits), " ", ", ", -1), reps)
	must(os.WriteFile(filepath.Join(dir, "simul.toml"), []byte(general), 0o644))
	own := fmt.Sprintf("Name = \"run\"\nPrimitive = \"%s\"\nNumRows = 0\nBlockLength = %d\nElementBitSize = 8\n", primitive, map[bool]int{true: 32, false: 1}[primitive == "preprocessing"])
	must(os.WriteFile(filepath.Join(dir, "one.toml"), []byte(own), 0o644))
	began := time.Now()
	args := []string{"-config", "one.toml"}
	if c.R.Intn(2) == 0 {
		args = append(args, "-cpuprofile", "cpu", "-memprofile", "mem")
	}
	p := startProg(c, "simul", dir, nil, args...)
	st := p.exit(c, 140*time.Second)
	out, took := p.output(), time.Since(began).Seconds()
	cpu := (p.cmd.ProcessState.UserTime() + p.cmd.ProcessState.SystemTime()).Seconds()
	c.Check(st == 0, "%s: exit status %d: %s", what, st, tail(out, 1500))
	b, err := os.ReadFile(filepath.Join(dir, "results", "run.json"))
	c.Must(err, what+": results")
	var res struct{ Results map[string][]*simChunk }
	c.Must(json.Unmarshal(b, &res), what+": results")
	c.Check(len(res.Results) == len(bits), "%s: results for %d sizes", what, len(res.Results))
	for _, n := range bits {
		l := res.Results[fmt.Sprint(n)]
		c.Check(len(l) == reps, "%s: %d repetitions of %d", what, len(l), reps)
		var q, a, d []int
		if primitive != "preprocessing" {
			q, a, d = messageSizes(c, primitive, n)
		}
		for _, r := range l {
			c.Check(r != nil && len(r.CPU) == 1 && r.CPU[0] != nil, "%s: incomplete results %s", what, b)
			c.Evalf("%s %d", what, n)
			c.Obs("simulator_repetitions", 1)
			if primitive == "preprocessing" {
				c.Check(len(r.CPU[0].Answers) == 1 && r.CPU[0].Answers[0] >= 0, "%s: no time: %s", what, b)
				cpu -= r.CPU[0].Answers[0] / 1000 // milliseconds
				continue
			}
			c.Check(r.CPU[0].Reconstruct > 0, "%s: a retrieval takes %v s", what, r.CPU[0].Reconstruct)
			took -= r.CPU[0].Reconstruct
			c.Check(len(r.Bandwidth) == 1 && len(r.Bandwidth[0].Answers) == 1, "%s: incomplete traffic %s", what, b)
			for _, x := range []struct {
				name string
				got  float64
				want []int
			}{{"query", r.Bandwidth[0].Query, q}, {"answer", r.Bandwidth[0].Answers[0], a}, {"digest", r.Digest, d}} {
				ok := false
				for _, w := range x.want {
					ok = ok || float64(w) == x.got
				}
				c.Check(ok, "%s, %d bits: a %s of %v bytes is reported, it has %v", what, n, x.name, x.got, x.want)
				c.Obs("simulator_figures", 1)
			}
		}
	}
	c.Check(took > -1e-3 && cpu > -1e-2, "%s: the times reported exceed those of the whole run: %s", what, b)
}

// messageSizes are the possible sizes of query, answer and digest.
func messageSizes(c *C, primitive string, bits int) (q, a, d []int) {
	rnd := detReader{c.R}
	sizes := func(l ...[]byte) []int { return []int{sumLens(l), sumLens(l) - 8*len(l)} }
	switch primitive {
	case "cmp-vpir-dh":
		db := database.CreateRandomEllipticWithDigest(rnd, bits, group.P256, true)
		query, err := client.NewDH(rnd, &db.Info).QueryBytes(0)
		c.Must(err, "query")
		ans, err := server.NewDH(db).AnswerBytes(query)
		c.Must(err, "answer")
		return []int{len(query)}, []int{len(ans)}, []int{len(db.SubDigests) + len(db.Digest)}
	case "cmp-vpir-lwe":
		db := database.CreateRandomBinaryLWEWithLength(rnd, bits)
		cl := client.NewAmplify(rnd, &db.Info, utils.ParamsWithDatabaseSize(db.NumRows, db.NumColumns), map[int]int{1 << 13: 3, 1 << 23: 4}[bits])
		query := cl.Query(0, 0)
		var qs, as [][]byte
		for _, m := range query {
			qs = append(qs, matrix.MatrixToBytes(m))
		}
		for _, m := range server.NewAmplify(db).Answer(query) {
			as = append(as, matrix.MatrixToBytes(m))
		}
		return sizes(qs...), sizes(as...), sizes(matrix.MatrixToBytes(db.Auth.DigestLWE))
	case "cmp-vpir-lwe-128":
		db := database.CreateRandomBinaryLWEWithLength128(rnd, bits)
		cl := client.NewLWE128(rnd, &db.Info, utils.ParamsWithDatabaseSize128(db.NumRows, db.NumColumns))
		query := cl.Query(0, 0)
		return sizes(matrix.Matrix128ToBytes(query)), sizes(matrix.Matrix128ToBytes(server.NewLWE128(db).Answer(query))), sizes(matrix.Matrix128ToBytes(db.Auth.DigestLWE128))
	}
	panic(primitive)
}

// httpStop ends an evaluation server over HTTP.
// httpStop stops servers by requests, of which there may be many at once.
func httpStop(c *C) {
	for _, host := range []string{"127.0.0.1", "::1"} {
		at := net.JoinHostPort(host, "8080")
		if l, err := net.Listen("tcp", at); err != nil {
			c.Obs("port_8080_taken", 1)
			continue
		} else {
			l.Close()
		}
		for _, n := range []int{1, 2, 12} {
			p := randomSim(c, "pir-merkle", 2)
			p.servers, p.host = 2, host
			s := startSims(c, p)
			cl := &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
			get := func() {
				if r, err := cl.Get("http://" + at + "/"); err == nil {
					r.Body.Close()
				}
			}
			// the servers share the port: the first one gets it
			for try := 0; try < 500; try++ {
				if conn, err := net.Dial("tcp", at); err == nil {
					conn.Close()
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			for i := 0; i < n; i++ {
				go get()
			}
			var first *prog
			for end := time.Now().Add(60 * time.Second); first == nil && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
				for _, srv := range s.servers {
					if srv.ended() {
						first = srv
					}
				}
			}
			if first == nil {
				c.Failf("%+v: no server ends after %d requests over HTTP to do so: %s", p, n, tail(s.log(0)+s.log(1), 1000))
			}
			c.Check(first.cmd.ProcessState.ExitCode() == 0, "%+v: stopped over HTTP, the server ends with %v: %s", p, first.err, tail(first.output(), 1000))
			for _, srv := range s.servers {
				srv.stop()
			}
			c.Obs("stopped_over_http", 1)
			c.Evalf("stopped over HTTP at %s by %d", host, n)
		}
	}
}

func buildC30(t *T) {
	quietStdout()
	for rep := 0; rep < t.N(1, 8); rep++ {
		rep := rep
		for _, scheme := range []string{"pir-classic", "pir-merkle"} {
			for n := 2; n <= 5; n++ {
				for j := 0; j < t.N(2, 4); j++ {
					scheme, n := scheme, n
					t.Addf(func(c *C) { evaluated(c, t, randomSim(c, scheme, n)) }, "%s with %d servers, round %d.%d", scheme, n, rep, j)
				}
			}
		}
		// answers of several megabytes
		for i, scheme := range []string{"pir-classic", "pir-merkle"} {
			scheme, n := scheme, 2+(i+rep)%2
			t.Addf(func(c *C) {
				block := 1500000 + c.R.Intn(100000)
				evaluated(c, t, simParams{scheme: scheme, servers: n, block: block, bits: 9 * block * 8})
			}, "%s with %d servers and large answers, round %d", scheme, n, rep)
		}
		for _, scheme := range []string{"fss-classic", "fss-auth"} {
			scheme := scheme
			t.Addf(func(c *C) { evaluated(c, t, simParams{scheme: scheme, servers: 2}) }, "%s, round %d", scheme, rep)
		}
		for _, s := range []string{"pointPIR", "pointVPIR", "complexPIR", "complexVPIR"} {
			for _, cores := range []int{-1, 1, 4} {
				s, cores := s, cores
				n := 2
				if cores > 0 && strings.HasPrefix(s, "point") {
					n = 2 + rep%2
				}
				t.Addf(func(c *C) { experiments(c, s, n, cores) }, "experiment %s with %d servers and %d cores, round %d", s, n, cores, rep)
			}
		}
		t.Addf(func(c *C) { simulated(c, "cmp-vpir-dh", []int{1 + c.R.Intn(30), 64, 100 + c.R.Intn(1000)}, 2) }, "simulator dh, round %d", rep)
		t.Addf(func(c *C) { simulated(c, "cmp-vpir-lwe", []int{8192, 1 << 23}, 2) }, "simulator lwe, round %d", rep)
		t.Addf(func(c *C) { simulated(c, "cmp-vpir-lwe-128", []int{16, 1 + c.R.Intn(4000), 8192}, 2) }, "simulator lwe-128, round %d", rep)
		t.Addf(func(c *C) { simulated(c, "preprocessing", []int{32 * 8 * 16, 32 * 8 * 100}, 2) }, "simulator preprocessing, round %d", rep)
	}
	t.post = append(t.post, httpStop) // alone: the port is always 8080
}
