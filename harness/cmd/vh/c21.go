package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/status"
)

func init() {
	register("C21", &propDef{
		build: buildC21,
		progs: []string{"server", "server-race", "simserver", "simserver-race"},
		rule: "a shipped key server (every scheme) under malformed requests, requests that are cancelled, time out or lose their connection, garbage connections and bursts beyond its queue; every answer is compared with that of a server object over the same directory in the harness; " +
			"its notifications are recorded; it is terminated when idle, under load and while requests are in flight, whose answers have to arrive, and has to exit with success; so do the servers of the evaluation. Of thousands of requests a server may keep no files, memory or goroutines. An evaluation is one request or one termination; distinct by scheme and request",
		assume: []string{"a request is accepted for sure once the server has said so in its log"},
		jobs:   4, minEvals: 1000,
	})
}

// notifications is the service manager's end of a notification socket.
type notifications struct {
	path string
	conn *net.UnixConn
	mu   sync.Mutex
	got  []string
	when []time.Time
	hook func(state string)
}

func newNotifications(c *C, hook func(state string)) *notifications {
	n := &notifications{path: filepath.Join(scratch(c), "n"), hook: hook}
	conn, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: n.path, Net: "unixgram"})
	must(err)
	n.conn = conn
	c.Defer(func() { conn.Close() })
	go func() {
		b := make([]byte, 4096)
		for {
			l, err := conn.Read(b)
			if err != nil {
				return
			}
			if n.hook != nil {
				n.hook(string(b[:l]))
			}
			n.mu.Lock()
			n.got, n.when = append(n.got, string(b[:l])), append(n.when, time.Now())
			n.mu.Unlock()
		}
	}()
	return n
}

func (n *notifications) list() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string{}, n.got...)
}

func (n *notifications) waitFor(count int, limit time.Duration) bool {
	for end := time.Now().Add(limit); ; time.Sleep(2 * time.Millisecond) {
		if len(n.list()) >= count {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// keyServer is one server program with a model of it.
type keyServer struct {
	*cluster
	p     *prog
	d     *directory
	id, n int
	addr  string
	model server.Server
	notes *notifications
	query func(r *rand.Rand) []byte // an honest query
	conns []*grpc.ClientConn
	// stopper ends the server otherwise than by a signal
	stopper func()
}

func startKeyServer(c *C, name, scheme string, n, id int, keys []*genKey, args ...string) *keyServer {
	k := &keyServer{d: newDirectory(c, keys), id: id, n: n}
	files, err := filesOf(k.d)
	must(err)
	switch scheme {
	case "pointPIR", "pointVPIR":
		gen := database.GenerateRealKeyBytes
		if scheme == "pointVPIR" {
			gen = database.GenerateRealKeyMerkle
		}
		db, err := gen(files, true)
		c.Must(err, "directory")
		k.model = newPointServer(db, n)
		k.query = func(r *rand.Rand) []byte {
			qs, err := client.NewPIR(utils.RandomPRG(), &db.Info).QueryBytes(idxBytes(r.Intn(db.NumRows*db.NumColumns)), n)
			must(err)
			return qs[id]
		}
	default:
		db, err := database.GenerateRealKeyDB(files)
		c.Must(err, "directory")
		if scheme == "complexPIR" {
			k.model = server.NewPredicatePIR(db, byte(id))
		} else {
			k.model = server.NewPredicateAPIR(db, byte(id))
		}
		k.query = func(r *rand.Rand) []byte {
			p := emailPredicate(0, 0, k.d.plain[r.Intn(len(k.d.plain))].email)
			in, err := p.q.Encode()
			must(err)
			qs, err := newPredClient(utils.RandomPRG(), &db.Info, scheme == "complexVPIR").QueryBytes(in, 2)
			must(err)
			return qs[id]
		}
	}
	k.notes = newNotifications(c, nil)
	k.cluster = startServers(c, name, scheme, n, []int{id}, k.d.dir, k.d.files, append(args, "NOTIFY_SOCKET="+k.notes.path)...)
	k.p, k.addr = k.servers[0], k.addrs[id]
	return k
}

// simKeyServer is a server of the evaluation with a model of it.
func simKeyServer(c *C, name string, p simParams) *keyServer {
	s := startSimsNamed(c, name, p)
	id := c.R.Intn(p.servers)
	infos := descriptions(c, []proto.VPIRClient{dial(c, s.addrs[id])})
	info := described(infos[0])
	prgKey := new(utils.PRGKey)
	copy(prgKey[:], "asuperstrong16db")
	gen := database.CreateRandomBytes
	if p.scheme == "pir-merkle" {
		gen = database.CreateRandomMerkle
	}
	db := gen(utils.NewPRG(prgKey), p.bits, info.NumRows, p.block)
	k := &keyServer{cluster: &s.cluster, id: id, n: p.servers, p: s.servers[id], addr: s.addrs[id], model: newPointServer(db, p.servers)}
	k.query = func(r *rand.Rand) []byte {
		qs, err := client.NewPIR(utils.RandomPRG(), &db.Info).QueryBytes(idxBytes(r.Intn(db.NumRows*db.NumColumns)), p.servers)
		must(err)
		return qs[id]
	}
	return k
}

func filesOf(d *directory) ([]string, error) {
	l, err := filepath.Glob(filepath.Join(d.dir, "*"))
	sortStrings(l)
	if len(l) > d.files {
		l = l[:d.files]
	}
	return l, err
}

func (k *keyServer) connect(c *C) proto.VPIRClient {
	creds, err := utils.LoadServersCertificates()
	c.Must(err, "certificates")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	conn, err := grpc.DialContext(ctx, k.addr, grpc.WithTransportCredentials(creds), grpc.WithBlock())
	if err != nil {
		k.healthy(c, "connecting")
		c.Failf("%s: no connection to a running server: %v", k.scheme, err)
	}
	c.Defer(func() { conn.Close() })
	k.conns = append(k.conns, conn)
	return proto.NewVPIRClient(conn)
}

var rpcOptions = []grpc.CallOption{grpc.MaxCallRecvMsgSize(1 << 30), grpc.MaxCallSendMsgSize(1 << 30)}

func callOptions(zip bool) []grpc.CallOption {
	if zip {
		return append([]grpc.CallOption{grpc.UseCompressor(gzip.Name)}, rpcOptions...)
	}
	return rpcOptions
}

const rpcLimit = 100 * time.Second

// check sends a query and compares the outcome with the model.
func (k *keyServer) check(c *C, cl proto.VPIRClient, what string, q []byte, zip bool) {
	want, werr := k.model.AnswerBytes(q)
	ctx, cancel := context.WithTimeout(context.Background(), rpcLimit)
	defer cancel()
	a, err := cl.Query(ctx, &proto.QueryRequest{Query: q}, callOptions(zip)...)
	switch code := status.Code(err); {
	case code == codes.DeadlineExceeded:
		c.Failf("%s: %s: no answer within %v\n%s", k.scheme, what, rpcLimit, tail(k.p.output(), 800))
	case code == codes.Unavailable:
		k.healthy(c, what)
		c.Failf("%s: %s: %v\n%s", k.scheme, what, err, tail(k.p.output(), 800))
	case werr != nil:
		c.Check(err != nil, "%s: %s: is answered with %d bytes instead of an error", k.scheme, what, len(a.GetAnswer()))
		c.Obs("bad_requests", 1)
	default:
		c.Must(err, k.scheme+": "+what)
		c.Check(bytes.Equal(a.GetAnswer(), want), "%s: %s: another answer (%d bytes) than the model's (%d bytes)", k.scheme, what, len(a.GetAnswer()), len(want))
		c.Obs("good_answers", 1)
	}
	c.Evalf("%s %s", k.scheme, what)
}

// stays checks the notifications before a termination.
func (k *keyServer) ready(c *C) {
	c.Check(k.notes.waitFor(1, startLimit), "%s: readiness is not announced: %s", k.scheme, tail(k.p.output(), 800))
	l := k.notes.list()
	c.Check(len(l) == 1 && l[0] == "READY=1", "%s: announces %q", k.scheme, l)
}

// terminated checks the end of a server.
func (k *keyServer) terminated(c *C, when string) {
	st := k.p.exit(c, 100*time.Second)
	c.Check(st == 0, "%s: terminated %s: exit status %d\n%s", k.scheme, when, st, tail(k.p.output(), 1500))
	c.Check(!strings.Contains(k.p.output(), "panic:"), "%s: terminated %s: crashes: %s", k.scheme, when, tail(k.p.output(), 1500))
	k.notes.waitFor(2, 5*time.Second)
	l := k.notes.list()
	c.Check(len(l) == 2 && l[0] == "READY=1" && l[1] == "STOPPING=1", "%s: terminated %s: announced %q", k.scheme, when, l)
	if conn, err := net.DialTimeout("tcp", k.addr, time.Second); err == nil {
		conn.Close()
		c.Obs("port_reused", 1)
	}
	c.Obs("terminations", 1)
	c.Evalf("%s terminated %s", k.scheme, when)
}

func (k *keyServer) noRaces(c *C) {
	if i := strings.Index(k.p.output(), "WARNING: DATA RACE"); i >= 0 {
		c.Failf("%s: data race in the server: %s", k.scheme, clip(k.p.output()[i:], 3000))
	}
}

// abuse is a series of malformed requests with good ones in between.
func (k *keyServer) malformed(c *C, cl proto.VPIRClient, n int) {
	good := 0
	ok := func() { good++; k.check(c, cl, fmt.Sprintf("good %d", good), k.query(c.R), c.R.Intn(2) == 0) }
	ok()
	q := k.query(c.R)
	k.check(c, cl, "nothing", nil, false)
	for _, l := range []int{1, 2, 7, 8, 16, 32, 33, 51, 64, 100, 1000, 1 << 16, 8 << 20} {
		k.check(c, cl, fmt.Sprintf("%d zeros", l), make([]byte, l), l%2 == 0)
		if l < 1<<20 {
			k.check(c, cl, fmt.Sprintf("%d random bytes", l), c.Bytes(l), l%2 == 0)
		}
	}
	ok()
	count := 0
	corruptions(c, q, 8, n, func(what string, x []byte) {
		if len(q) > 200 && c.R.Intn(4) > 0 && strings.HasPrefix(what, "prefix") {
			return
		}
		k.check(c, cl, what, x, false)
		if count++; count%37 == 0 {
			ok()
		}
	})
	for i := 0; i < n; i++ {
		k.check(c, cl, fmt.Sprintf("right length %d", i), c.Bytes(len(q)), false)
	}
	ok()
	k.healthy(c, "malformed requests")
}

// interrupted is a series of requests that nobody waits for.
func (k *keyServer) interrupted(c *C, n int) {
	queries := make([][]byte, n)
	delays := make([]time.Duration, n)
	modes := make([]int, n)
	for i := range queries {
		queries[i] = k.query(c.R)
		if c.R.Intn(5) == 0 {
			queries[i] = c.Bytes(c.R.Intn(100))
		}
		delays[i] = time.Duration(c.R.Intn(6000)) * time.Microsecond
		modes[i] = c.R.Intn(4)
	}
	cl := k.connect(c)
	creds, err := utils.LoadServersCertificates()
	c.Must(err, "certificates")
	var jobs []func()
	for i := range queries {
		i := i
		jobs = append(jobs, func() {
			switch modes[i] {
			case 0: // times out
				ctx, cancel := context.WithTimeout(context.Background(), delays[i])
				defer cancel()
				cl.Query(ctx, &proto.QueryRequest{Query: queries[i]}, rpcOptions...)
			case 1: // cancelled
				ctx, cancel := context.WithCancel(context.Background())
				time.AfterFunc(delays[i], cancel)
				cl.Query(ctx, &proto.QueryRequest{Query: queries[i]}, rpcOptions...)
			case 2: // loses its connection
				conn, err := grpc.Dial(k.addr, grpc.WithTransportCredentials(creds), grpc.WithBlock(), grpc.WithTimeout(30*time.Second))
				if err != nil {
					return
				}
				time.AfterFunc(delays[i], func() { conn.Close() })
				proto.NewVPIRClient(conn).Query(context.Background(), &proto.QueryRequest{Query: queries[i]}, rpcOptions...)
				conn.Close()
			case 3: // something else than requests
				raw, err := net.DialTimeout("tcp", k.addr, 10*time.Second)
				if err != nil {
					return
				}
				defer raw.Close()
				raw.SetDeadline(time.Now().Add(5 * time.Second))
				if i%2 == 0 {
					tc := tls.Client(raw, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}})
					if tc.Handshake() == nil {
						tc.Write(append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), queries[i]...))
					}
				} else {
					raw.Write(queries[i])
				}
				time.Sleep(delays[i])
			}
		})
	}
	together(c, jobs)
	c.Obs("interrupted_requests", n)
	k.check(c, k.connect(c), "good, after interrupted requests", k.query(c.R), false)
	k.check(c, cl, "good, on the connection of interrupted requests", k.query(c.R), false)
	k.healthy(c, "interrupted requests")
}

func (k *keyServer) burst(c *C, n, bad int) {
	var jobs []func()
	conns := []proto.VPIRClient{k.connect(c), k.connect(c), k.connect(c)}
	for i := 0; i < n; i++ {
		i, q := i, k.query(c.R)
		if c.R.Intn(100) < bad {
			q = c.Bytes(c.R.Intn(len(q) + 3))
		}
		jobs = append(jobs, func() { k.check(c, conns[i%3], fmt.Sprintf("%d of a burst", i), q, i%5 == 0) })
	}
	together(c, jobs)
	k.healthy(c, "burst")
}

// soak has the server handle a great many requests, honest, malformed and given
// up, and looks at what is left of them once they have ended.
func (k *keyServer) soak(c *C, n int) {
	type item struct{ q, want []byte }
	var items []item
	for len(items) < 30 {
		q := k.query(c.R)
		if len(items)%3 == 2 {
			q = c.Bytes(c.R.Intn(60))
		}
		w, err := k.model.AnswerBytes(q)
		if err != nil {
			w = nil
		}
		items = append(items, item{q, append([]byte{}, w...)})
	}
	creds, err := utils.LoadServersCertificates()
	c.Must(err, "certificates")
	round := func(n int) {
		var jobs []func()
		for g := 0; g < 8; g++ {
			g, cl, r := g, k.connect(c), newRand(c.R.Int63())
			jobs = append(jobs, func() {
				for j := 0; j < n/8; j++ {
					it := items[r.Intn(len(items))]
					if r.Intn(4) == 0 { // nobody waits for the answer
						ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.Intn(3000))*time.Microsecond)
						cl.Query(ctx, &proto.QueryRequest{Query: it.q}, rpcOptions...)
						cancel()
						continue
					}
					ctx, cancel := context.WithTimeout(context.Background(), rpcLimit)
					a, err := cl.Query(ctx, &proto.QueryRequest{Query: it.q}, rpcOptions...)
					cancel()
					if code := status.Code(err); code == codes.DeadlineExceeded || code == codes.Unavailable {
						c.Failf("%s: a request among %d: %v\n%s", k.scheme, n, err, tail(k.p.output(), 800))
					}
					if (err == nil) != (len(it.want) > 0) || !bytes.Equal(a.GetAnswer(), it.want) {
						c.Failf("%s: a request among %d: an answer of %d bytes, %v, instead of %d bytes", k.scheme, n, len(a.GetAnswer()), err, len(it.want))
					}
					if j%40 == 7 {
						ctx, cancel := context.WithTimeout(context.Background(), rpcLimit)
						_, err := cl.DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
						cancel()
						if err != nil {
							c.Failf("%s: description: %v", k.scheme, err)
						}
					}
					if j%40 == 11 { // one more connection, which ends in some way
						if conn, err := grpc.Dial(k.addr, grpc.WithTransportCredentials(creds), grpc.WithBlock(), grpc.WithTimeout(60*time.Second)); err == nil {
							if g%2 == 0 {
								time.AfterFunc(time.Millisecond, func() { conn.Close() })
								proto.NewVPIRClient(conn).Query(context.Background(), &proto.QueryRequest{Query: it.q}, rpcOptions...)
							}
							conn.Close()
						}
						if raw, err := net.Dial("tcp", k.addr); err == nil {
							raw.Write(it.q)
							raw.Close()
						}
					}
				}
			})
		}
		together(c, jobs)
		for _, conn := range k.conns {
			conn.Close()
		}
		k.conns = nil
	}
	k.p.keepsNothing(c, "a key server for "+k.scheme, n, 8, 60, round, func() { k.healthy(c, "a great many requests") })
}

// terminate signals the server while n requests are under way.
func (k *keyServer) terminate(c *C, n int, sig syscall.Signal, wait bool) {
	type item struct {
		q, want []byte
		got     []byte
		err     error
	}
	items := make([]*item, n)
	for i := range items {
		q := k.query(c.R)
		w, err := k.model.AnswerBytes(q)
		c.Must(err, "model")
		items[i] = &item{q: q, want: append([]byte{}, w...)}
	}
	cls := []proto.VPIRClient{k.connect(c), k.connect(c)}
	// requests that were cancelled before may still arrive
	base := strings.Count(k.p.output(), "got query request")
	for since := time.Now(); time.Since(since) < 250*time.Millisecond; time.Sleep(10 * time.Millisecond) {
		if now := strings.Count(k.p.output(), "got query request"); now != base {
			base, since = now, time.Now()
		}
	}
	var wg sync.WaitGroup
	for i := range items {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), rpcLimit)
			defer cancel()
			a, err := cls[i%len(cls)].Query(ctx, &proto.QueryRequest{Query: items[i].q}, rpcOptions...)
			items[i].got, items[i].err = a.GetAnswer(), err
		}(i)
	}
	if wait {
		k.p.seen("got query request", base+n, 5*time.Second)
	} else {
		time.Sleep(time.Duration(c.R.Intn(40000)) * time.Microsecond)
	}
	accepted := strings.Count(k.p.output(), "got query request") - base
	c.Check(len(k.notes.list()) == 1, "%s: announces %q before it is terminated", k.scheme, k.notes.list())
	if k.stopper != nil {
		k.stopper()
	} else {
		k.p.signal(sig)
	}
	if c.R.Intn(3) == 0 && k.stopper == nil {
		time.Sleep(time.Duration(c.R.Intn(10)) * time.Millisecond)
		k.p.signal(sig)
	}
	wg.Wait()
	right := 0
	for i, it := range items {
		if it.err == nil {
			c.Check(bytes.Equal(it.got, it.want), "%s: request %d, under way at the termination, gets a wrong answer of %d bytes", k.scheme, i, len(it.got))
			right++
		}
	}
	if right < accepted && right < n {
		var errs []string
		for _, it := range items {
			if it.err != nil && len(errs) < 3 {
				errs = append(errs, it.err.Error())
			}
		}
		c.Failf("%s: terminated with %d accepted requests, only %d are answered: %v\n%s", k.scheme, accepted, right, errs, tail(k.p.output(), 1200))
	}
	c.Obs("answered_while_terminating", right)
	k.terminated(c, fmt.Sprintf("with %d requests, %d accepted, %v", n, accepted, sig))
}

// drain signals the server while it has work for a while.
func (k *keyServer) drain(c *C, work time.Duration) {
	q := k.query(c.R)
	w, err := k.model.AnswerBytes(q)
	c.Must(err, "model")
	want := append([]byte{}, w...)
	cls := []proto.VPIRClient{k.connect(c), k.connect(c), k.connect(c)}
	send := func(n int) (*sync.WaitGroup, []error) {
		errs := make([]error, n)
		wg := new(sync.WaitGroup)
		for i := range errs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), rpcLimit)
				defer cancel()
				a, err := cls[i%len(cls)].Query(ctx, &proto.QueryRequest{Query: q}, rpcOptions...)
				if errs[i] = err; err == nil && !bytes.Equal(a.GetAnswer(), want) {
					errs[i] = fmt.Errorf("a wrong answer of %d bytes", len(a.GetAnswer()))
				}
			}(i)
		}
		return wg, errs
	}
	start := time.Now()
	wg, errs := send(16)
	wg.Wait()
	for _, err := range errs {
		c.Must(err, "a request before the termination")
	}
	n := int(16 * work / (time.Since(start) + 1))
	if n < 8 {
		n = 8
	} else if n > 1500 {
		n = 1500
	}
	count := func() int { return strings.Count(k.p.output(), "got query request") }
	base := count()
	wg, errs = send(n)
	k.p.seen("got query request", base+n, 5*time.Second)
	accepted := count() - base
	start = time.Now()
	k.p.signal(syscall.SIGTERM)
	wg.Wait()
	took := time.Since(start)
	right := 0
	var last error
	for _, err := range errs {
		if err == nil {
			right++
		} else {
			last = err
		}
	}
	if right < accepted && right < n {
		c.Failf("%s: terminated with %d accepted requests of %d and work for %v, only %d are answered: %v\n%s", k.scheme, accepted, n, took, right, last, tail(k.p.output(), 1200))
	}
	c.Obs("answered_while_terminating", right)
	if took > 4*time.Second {
		c.Obs("terminations_with_work_for_seconds", 1)
	}
	k.terminated(c, fmt.Sprintf("with %d requests", n))
}

// simUnderLoad has an evaluation server handle concurrent requests, honest,
// malformed and given up, and ends it while requests are under way.
func simUnderLoad(c *C, t *T, name string, p simParams, rounds int) {
	what := fmt.Sprintf("evaluation server (%s) %+v", name, p)
	s := startSimsNamed(c, name, p)
	defer func() {
		for _, srv := range s.servers {
			srv.stop()
		}
	}()
	var l []proto.VPIRClient
	for _, a := range s.addrs {
		l = append(l, dial(c, a))
	}
	infos := descriptions(c, l)
	same(c, what, infos)
	info := described(infos[0])
	asker := newSimAsker(c, p, &info)
	type item struct {
		to      int
		q, want []byte
	}
	fss := strings.HasPrefix(p.scheme, "fss")
	var items []item
	for i := 0; i < map[bool]int{true: 3, false: 12}[fss]; i++ {
		var qs [][]byte
		if fss {
			_, err := asker.count(c, l)
			c.Must(err, what+": reconstruction")
			qs = asker.last
		} else {
			qs = asker.query(c, c.R.Intn(info.NumRows*info.NumColumns))
		}
		as := askAll(c, l, qs)
		_, err := asker.cli.ReconstructBytes(as)
		c.Must(err, what+": reconstruction")
		for k := range qs {
			items = append(items, item{k, qs[k], as[k]})
		}
	}
	for i := 0; i < 6; i++ {
		q := [][]byte{nil, {1}, c.Bytes(10), c.Bytes(100), c.Bytes(1000)}[c.R.Intn(5)]
		items = append(items, item{to: c.R.Intn(len(l)), q: q})
	}
	honest := items[:len(items)-6]
	ask := func(it item) (wrong string, err error) {
		ctx, cancel := context.WithTimeout(context.Background(), rpcLimit)
		defer cancel()
		a, err := l[it.to].Query(ctx, &proto.QueryRequest{Query: it.q}, rpcOptions...)
		if err == nil && it.want != nil && !bytes.Equal(a.GetAnswer(), it.want) {
			wrong = fmt.Sprintf("%s: the answer to one of several concurrent requests differs from the one given before (%d and %d bytes)", what, len(a.GetAnswer()), len(it.want))
		}
		return wrong, err
	}
	for r := 0; r < rounds; r++ {
		var jobs []func()
		for i := 0; i < map[bool]int{true: 12, false: 60}[fss]; i++ {
			i, it, d := i, items[c.R.Intn(len(items))], time.Duration(c.R.Intn(5000))*time.Microsecond
			jobs = append(jobs, func() {
				if i%4 == 3 { // nobody waits for the answer
					ctx, cancel := context.WithTimeout(context.Background(), d)
					l[it.to].Query(ctx, &proto.QueryRequest{Query: it.q}, rpcOptions...)
					cancel()
					return
				}
				wrong, err := ask(it)
				c.Check(wrong == "", "%s", wrong)
				if it.want != nil {
					c.Must(err, what+": one of several concurrent requests")
				} else if k := status.Code(err); k == codes.Unavailable || k == codes.DeadlineExceeded {
					c.Failf("%s: a malformed request: %v", what, err)
				}
			})
		}
		together(c, jobs)
		for i, srv := range s.servers {
			c.Check(!srv.ended(), "%s: server %d went down: %s", what, i, tail(s.log(i), 1200))
		}
		c.Evalf("%s burst %d", what, r)
	}
	// terminated with requests under way
	for k, srv := range s.servers {
		k, srv := k, srv
		count := func() int { return strings.Count(s.log(k), "got query request") }
		base := count()
		for since := time.Now(); time.Since(since) < 250*time.Millisecond; time.Sleep(10 * time.Millisecond) {
			if now := count(); now != base {
				base, since = now, time.Now()
			}
		}
		n := []int{0, 1, 8, 30}[c.R.Intn(4)]
		var mu sync.Mutex
		var wg sync.WaitGroup
		answered, errs, wrong := 0, []string{}, ""
		for i := 0; i < n; i++ {
			it := honest[c.R.Intn(len(honest)/len(l))*len(l)+k]
			wg.Add(1)
			go func() {
				defer wg.Done()
				w, err := ask(it)
				mu.Lock()
				defer mu.Unlock()
				if wrong += w; err == nil {
					answered++
				} else {
					errs = append(errs, err.Error())
				}
			}()
		}
		time.Sleep(time.Duration(c.R.Intn(20000)) * time.Microsecond)
		accepted := count() - base
		for j := c.R.Intn(3); j >= 0; j-- {
			srv.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[c.R.Intn(2)])
		}
		wg.Wait()
		c.Check(wrong == "", "%s", wrong)
		if answered < accepted && answered < n {
			c.Failf("%s: terminated with %d accepted requests, only %d are answered: %v\n%s", what, accepted, answered, errs[:1], tail(s.log(k), 1200))
		}
		st := srv.exit(c, 60*time.Second)
		c.Check(st == 0, "%s: server %d, terminated with %d requests under way, ends with status %d: %s", what, k, n, st, tail(s.log(k), 1200))
		c.Check(!strings.Contains(srv.output(), "WARNING: DATA RACE"), "%s: server %d: %s", what, k, clip(srv.output(), 2500))
		c.Obs("answered_while_terminating", answered)
		c.Evalf("%s end %d %d", what, k, n)
	}
}

func buildC21(t *T) {
	quietStdout()
	type setup struct {
		scheme string
		n, id  int
	}
	setups := []setup{{"pointPIR", 2, 0}, {"pointPIR", 3, 2}, {"pointVPIR", 2, 1}, {"pointVPIR", 4, 3}, {"complexPIR", 2, 0}, {"complexPIR", 2, 1}, {"complexVPIR", 2, 1}, {"complexVPIR", 2, 0}}
	keysFor := func(c *C, scheme string, slow bool) []*genKey {
		n := 5 + c.R.Intn(60)
		if slow && strings.HasPrefix(scheme, "complex") {
			n = 300 + c.R.Intn(300)
		}
		return genKeys(c.R, n)
	}
	for rep := 0; rep < t.N(1, 6); rep++ {
		for i, s := range setups {
			s, rep, name := s, rep, "server"
			if (i+rep)%2 == 1 {
				name = "server-race"
			}
			t.Addf(func(c *C) {
				k := startKeyServer(c, name, s.scheme, s.n, s.id, keysFor(c, s.scheme, false))
				k.ready(c)
				k.malformed(c, k.connect(c), t.N(60, 300))
				k.burst(c, 60, 50)
				k.interrupted(c, t.N(80, 300))
				k.burst(c, 60, 0)
				k.ready(c)
				k.p.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[c.R.Intn(2)])
				k.terminated(c, "when idle")
				k.noRaces(c)
			}, "hostile requests to server %d of %d, %s, %s, round %d", s.id, s.n, s.scheme, name, rep)
			t.Addf(func(c *C) {
				keys := keysFor(c, s.scheme, true)
				for j := 0; j < t.N(5, 20); j++ {
					k := startKeyServer(c, name, s.scheme, s.n, s.id, keys)
					k.ready(c)
					if j%2 == 0 {
						k.interrupted(c, 30)
					}
					k.terminate(c, []int{0, 1, 8, 30, 60}[j%5], []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[c.R.Intn(2)], c.R.Intn(3) > 0)
					k.noRaces(c)
				}
			}, "terminations of server %d of %d, %s, %s, round %d", s.id, s.n, s.scheme, name, rep)
		}
	}
	for i, s := range []setup{{"complexVPIR", 2, 1}, {"pointVPIR", 2, 0}} {
		i, s := i, s
		t.Addf(func(c *C) {
			k := startKeyServer(c, "server", s.scheme, s.n, s.id, genKeys(c.R, []int{1500, 400}[i]))
			k.ready(c)
			k.drain(c, time.Duration(t.N(9, 30))*time.Second)
		}, "termination with work for a while, server %d of %d, %s", s.id, s.n, s.scheme)
	}
	// what the requests leave behind
	for i, s := range setups {
		if i%2 == 1 && !t.Thorough {
			continue
		}
		s := s
		t.Addf(func(c *C) {
			k := startKeyServer(c, "server", s.scheme, s.n, s.id, genKeys(c.R, 5+c.R.Intn(8)))
			k.ready(c)
			k.soak(c, t.N(4000, 60000))
		}, "a great many requests to server %d of %d, %s", s.id, s.n, s.scheme)
	}
	// the servers of the evaluation
	for rep := 0; rep < t.N(1, 8); rep++ {
		for i, p := range []simParams{{scheme: "pir-classic", servers: 2}, {scheme: "pir-merkle", servers: 3}, {scheme: "pir-classic", servers: 4}, {scheme: "pir-merkle", servers: 2}, {scheme: "fss-classic", servers: 2}, {scheme: "fss-auth", servers: 2}} {
			p, name := p, []string{"simserver", "simserver-race"}[(rep+i/2)%2]
			if strings.HasPrefix(p.scheme, "fss") {
				name = "simserver"
			}
			t.Addf(func(c *C) {
				simUnderLoad(c, t, name, randomSim(c, p.scheme, p.servers), t.N(4, 12))
			}, "%s under load, %s with %d servers, round %d", name, p.scheme, p.servers, rep)
		}
	}
	for i, scheme := range []string{"pir-classic", "pir-merkle", "pir-merkle", "pir-classic"} {
		scheme, n, name := scheme, 2+i%2, []string{"simserver-race", "simserver"}[i/2]
		t.Addf(func(c *C) {
			k := simKeyServer(c, name, randomSim(c, scheme, n))
			k.malformed(c, k.connect(c), t.N(60, 300))
			k.burst(c, 60, 50)
			k.interrupted(c, t.N(80, 300))
			k.noRaces(c)
			if name == "simserver" {
				k.soak(c, t.N(4000, 60000))
			}
		}, "hostile requests to an evaluation server, %s of %d, %s", scheme, n, name)
	}
	// with its other options
	var only6 sync.Mutex // there is one address of this kind
	for i, s := range setups {
		i, s, name := i, s, "server"
		if i%4 == 3 {
			name = "server-race"
		}
		t.Addf(func(c *C) {
			keys := keysFor(c, s.scheme, name == "server")
			for j := 0; j < t.N(5, 20); j++ {
				var args []string
				x := c.R.Intn(16)
				if j < 4 {
					x = 1 << uint(j)
				}
				if x&1 != 0 {
					args = append(args, "-prof")
				}
				if x&2 != 0 {
					args = append(args, "-mprof")
				}
				if x&4 != 0 {
					args = append(args, "-log=server.log")
				}
				ip := "127.0.0.1"
				if x&8 != 0 {
					// of its own, also among several copies of this check
					ip = fmt.Sprintf("127.%d.%d.%d", 2+os.Getpid()%200, 1+c.R.Intn(250), 1+time.Now().UnixNano()/1000%250)
					args = append(args, "-experiment", fmt.Sprintf("-cores=%d", 1+c.R.Intn(4)))
				}
				if x&8 == 0 {
					ip = loopback(c)
				} else if only6.TryLock() {
					if l, err := net.Listen("tcp", "[::1]:8080"); err == nil {
						l.Close()
						ip = "::1"
						c.Obs("experiments_at_::1", 1)
					}
					defer only6.Unlock()
				}
				k := startKeyServer(c, name, s.scheme, s.n, s.id, keys, append(args, "@"+ip)...)
				k.ready(c)
				k.malformed(c, k.connect(c), 20)
				k.burst(c, 20, 20)
				sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[j%2]
				if j < 4 && c.R.Intn(3) > 0 {
					sig = syscall.SIGINT
				}
				if x&8 != 0 && c.R.Intn(2) == 0 && !k.p.elsewhere(net.JoinHostPort(ip, "8080")) {
					// experiments are stopped by a request
					k.stopper = func() {
						for n := c.R.Intn(2) * 5; n >= 0; n-- { // perhaps by several
							go func() {
								if r, err := http.Get("http://" + net.JoinHostPort(ip, "8080") + "/"); err == nil {
									r.Body.Close()
								}
							}()
						}
					}
				}
				k.terminate(c, []int{0, 8, 30}[c.R.Intn(3)], sig, c.R.Intn(3) > 0)
				for _, f := range []struct {
					bit  int
					name string
				}{{1, fmt.Sprintf("server-%d.prof", s.id)}, {2, fmt.Sprintf("server-%d-mem.mprof", s.id)}, {4, "server.log"}} {
					if x&f.bit != 0 {
						st, err := os.Stat(filepath.Join(k.dir, f.name))
						c.Check(err == nil && st.Size() > 0, "%s %v, terminated: %s is empty or missing", s.scheme, args, f.name)
					}
				}
				k.noRaces(c)
				c.Evalf("%d %v", j, args)
			}
		}, "options of server %d of %d, %s, %s, %d", s.id, s.n, s.scheme, name, i)
	}
	t.Addf(func(c *C) {
		// readiness: a server that cannot accept requests never says so
		d := newDirectory(c, genKeys(c.R, 30))
		for _, scheme := range []string{"pointPIR", "pointVPIR", "complexPIR", "complexVPIR"} {
			for _, what := range []string{"port in use", "no keys", "wrong id", "wrong scheme", "no configuration", "too many files"} {
				n := newNotifications(c, nil)
				dir := scratch(c)
				l, err := net.Listen("tcp", "127.0.0.1:0")
				must(err)
				port := l.Addr().(*net.TCPAddr).Port
				if what != "port in use" {
					l.Close()
				}
				cfg := filepath.Join(dir, "config.toml")
				must(os.WriteFile(cfg, []byte(fmt.Sprintf("[servers.0]\nip = \"127.0.0.1\"\nport = %d\n[servers.1]\nip = \"127.0.0.1\"\nport = %d\n", port, port+1)), 0o644))
				args := map[string]string{"-id": "0", "-scheme": scheme, "-files": "1"}
				env := []string{"VPIR_CONFIG=" + cfg, "VPIR_SKS_ROOT=" + d.dir, "NOTIFY_SOCKET=" + n.path}
				switch what {
				case "no keys":
					env[1] = "VPIR_SKS_ROOT=" + filepath.Join(dir, "nothing")
				case "wrong id":
					args["-id"] = []string{"2", "-1", "7"}[c.R.Intn(3)]
				case "wrong scheme":
					args["-scheme"] = scheme + "x"
				case "no configuration":
					env[0] = "VPIR_CONFIG=" + filepath.Join(dir, "nothing.toml")
				case "too many files":
					args["-files"] = "77"
				}
				var a []string
				for _, f := range []string{"-id", "-scheme", "-files"} {
					a = append(a, f, args[f])
				}
				p := startProg(c, "server", dir, env, a...)
				st := p.exit(c, startLimit)
				c.Check(st != 0, "%s, %s: exits with success: %s", scheme, what, tail(p.output(), 800))
				time.Sleep(20 * time.Millisecond)
				for _, s := range n.list() {
					c.Check(s != "READY=1", "%s, %s: readiness is announced by a server that does not start", scheme, what)
				}
				l.Close()
				c.Evalf("%s %s", scheme, what)
			}
		}
	}, "servers that cannot start")
	t.Addf(func(c *C) {
		// requests are accepted at the moment of the announcement
		for i := 0; i < t.N(8, 40); i++ {
			scheme := []string{"pointPIR", "pointVPIR", "complexPIR", "complexVPIR"}[i%4]
			d := newDirectory(c, genKeys(c.R, 20+c.R.Intn(100)))
			dir := scratch(c)
			port := freePorts(2)
			addr := fmt.Sprintf("127.0.0.1:%d", port[0])
			cfg := filepath.Join(dir, "config.toml")
			must(os.WriteFile(cfg, []byte(fmt.Sprintf("[servers.0]\nip = \"127.0.0.1\"\nport = %d\n[servers.1]\nip = \"127.0.0.1\"\nport = %d\n", port[0], port[1])), 0o644))
			result := make(chan error, 10)
			n := newNotifications(c, func(state string) {
				conn, err := net.Dial("tcp", addr)
				if err == nil {
					conn.Close()
				}
				result <- err
			})
			p := startProg(c, "server", dir, []string{"VPIR_CONFIG=" + cfg, "VPIR_SKS_ROOT=" + d.dir, "NOTIFY_SOCKET=" + n.path}, "-id", "0", "-scheme", scheme, "-files", fmt.Sprint(d.files))
			select {
			case err := <-result:
				c.Check(err == nil, "%s: readiness is announced, but no connection is accepted: %v", scheme, err)
			case <-time.After(startLimit):
				c.Inconclusive("%s: not ready after %v", scheme, startLimit)
			case <-p.done:
				if strings.Contains(p.output(), "address already in use") {
					continue
				}
				c.Failf("%s: the server does not start: %s", scheme, tail(p.output(), 800))
			}
			c.Evalf("ready %s %d", scheme, i)
			// without a service manager
			p.stop()
			q := startProg(c, "server", dir, []string{"VPIR_CONFIG=" + cfg, "VPIR_SKS_ROOT=" + d.dir, "NOTIFY_SOCKET="}, "-id", "0", "-scheme", scheme, "-files", fmt.Sprint(d.files))
			q.listening(c, addr)
			if q.ended() && strings.Contains(q.output(), "address already in use") {
				continue
			}
			q.seen("gRPC server started", 1, 2*time.Second)
			time.Sleep(30 * time.Millisecond)
			q.signal(syscall.SIGTERM)
			st := q.exit(c, 60*time.Second)
			c.Check(st == 0, "%s: without a service manager, the exit status is %d: %s", scheme, st, tail(q.output(), 800))
		}
	}, "readiness")
}
