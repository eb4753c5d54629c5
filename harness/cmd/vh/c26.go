package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/status"
)

func init() {
	register("C26", &propDef{
		build: buildC26,
		progs: []string{"server", "web", "web-race"},
		rule: "the shipped web front-end (also built with the race detector) in front of shipped key servers and of servers of the harness that fail, forge, disagree and change their directory on demand: well-formed requests one after another and many at once, " +
			"malformed ones of every kind on every page (fields missing, empty, twice, non-numeric, in the wrong place; forms that cannot be parsed; wrong paths and methods; broken HTTP), requests that are aborted. Every response is compared with the directory; its status, the number of error bodies and its request identifier are checked. " +
			"An evaluation is one response; distinct by page, fields and outcome",
		assume: []string{"a creation year may stand for its instant, itself or the year before; an unknown algorithm may be counted as zero or refused"},
		jobs:   4, minEvals: 500,
	})
}

// webReq is a request to the front-end and what it must give.
type webReq struct {
	method, path, ctype, body string
	id                        string // the request identifier sent
	// judge checks status and body
	judge func(c *C, how string, status int, body string)
}

func (q *webReq) String() string {
	return fmt.Sprintf("%s %s %q", q.method, q.path, clip(q.body, 120))
}

// send makes a request and checks what holds for all responses; it returns
// the identifier of the response.
func (w *webServer) send(c *C, cl *http.Client, q *webReq) string {
	r, err := http.NewRequest(q.method, w.base+q.path, strings.NewReader(q.body))
	must(err)
	if q.ctype != "" {
		r.Header.Set("Content-Type", q.ctype)
	}
	if q.id != "" {
		r.Header.Set("X-Request-Id", q.id)
	}
	how := "web: " + q.String()
	resp, err := cl.Do(r)
	if err != nil {
		w.alive(c, how)
		c.Failf("%s: no response: %v\n%s", how, err, tail(w.p.output(), 1500))
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	c.Must(err, how+": reading the response")
	ids := resp.Header["X-Request-Id"]
	c.Check(len(ids) == 1 && ids[0] != "", "%s: the response carries the identifiers %q", how, ids)
	if q.id != "" {
		c.Check(ids[0] == q.id, "%s: the response to request %q carries the identifier %q", how, q.id, ids[0])
		c.Obs("identifiers_echoed", 1)
	}
	q.judge(c, how, resp.StatusCode, string(b))
	c.Evalf("%s %s %d", q, q.ctype, resp.StatusCode)
	return ids[0]
}

func (w *webServer) alive(c *C, when string) {
	if w.p.ended() {
		c.Failf("%s: the front-end went down: %v\n%s", when, w.p.err, tail(w.p.output(), 1500))
	}
}

// sound checks what the front-end said about itself.
func (w *webServer) sound(c *C) {
	w.alive(c, "after all requests")
	out := w.p.output()
	for _, s := range []string{"panic", "WARNING: DATA RACE", "superfluous response.WriteHeader"} {
		if i := strings.Index(out, s); i >= 0 {
			c.Failf("web: %s: %s", s, clip(out[i:], 2500))
		}
	}
}

const formType = "application/x-www-form-urlencoded"

func form(path string, kv ...string) *webReq {
	v := url.Values{}
	for i := 0; i < len(kv); i += 2 {
		v.Add(kv[i], kv[i+1])
	}
	return &webReq{method: "POST", path: path, ctype: formType, body: v.Encode()}
}

var countRe = regexp.MustCompile(`^count: ([0-9]+)\n?$`)

// refused: an error status and one error body.
func refused(c *C, how string, st int, body string) {
	c.Check(st >= 400, "%s: is malformed, but gets status %d: %s", how, st, clip(body, 300))
	oneError(c, how, st, body)
	c.Obs("malformed_refused", 1)
}

func oneError(c *C, how string, st int, body string) {
	t := strings.TrimSpace(body)
	c.Check(t != "" && !strings.Contains(t, "\n"), "%s: status %d with another body than one error: %q", how, st, clip(body, 400))
	c.Check(!strings.Contains(t, "count:") && !strings.Contains(t, "BEGIN PGP"), "%s: status %d with a result: %q", how, st, clip(body, 400))
}

func counted(want ...uint32) func(c *C, how string, st int, body string) {
	return func(c *C, how string, st int, body string) {
		c.Check(st == 200, "%s: status %d: %s", how, st, clip(body, 400))
		m := countRe.FindStringSubmatch(body)
		c.Check(m != nil, "%s: no count: %q", how, clip(body, 300))
		for _, w := range want {
			if m[1] == fmt.Sprint(w) {
				if w > 0 {
					c.Obs("counts_above_zero", 1)
				}
				return
			}
		}
		c.Failf("%s: counts %s instead of %v", how, m[1], want)
	}
}

// webDirs are the directories behind a front-end.
type webDirs struct{ point, stat *directory }

func (d *webDirs) count(f func(k plainKey) bool) uint32 {
	return (&predicate{match: f}).count(d.stat.plain)
}

// good is a well-formed request.
func (d *webDirs) good(c *C) *webReq {
	switch c.R.Intn(6) {
	case 0, 1, 2:
		e := d.point.pickAddress(c)
		q := form("/retrieve", "email", e)
		if c.R.Intn(4) == 0 { // other fields do not matter
			q = form("/retrieve", "year", "x", "email", e, "zz", c.hex(5))
		}
		q.judge = func(c *C, how string, st int, body string) {
			if d.point.keys[strings.ToLower(e)] == nil {
				c.Check(st == 200 || st == 404, "%s: an address without a key: status %d: %s", how, st, clip(body, 300))
			} else {
				c.Check(st == 200, "%s: status %d: %s", how, st, clip(body, 300))
			}
			d.point.judgeKey(c, how, e, body, armorRe.MatchString(body))
		}
		return q
	case 3, 4:
		e := genEmail(c.R, c.R.Intn(50))
		if c.R.Intn(5) > 0 {
			for e = ""; e == ""; {
				e = d.stat.plain[c.R.Intn(len(d.stat.plain))].email
			}
		}
		n := 1 + c.R.Intn(len(e))
		if c.R.Intn(2) == 0 && n > 3 {
			n = 1 + c.R.Intn(3)
		}
		if c.R.Intn(2) == 0 {
			q := form("/count/email", "position", "begin", "text", e[:n])
			m := emailMatch(n, 0, e[:n])
			q.judge = counted(d.count(func(k plainKey) bool { return m(k.email) }))
			return q
		}
		t := e[len(e)-n:]
		q := form("/count/email", "text", t, "position", "end")
		m := emailMatch(0, n, t)
		q.judge = counted(d.count(func(k plainKey) bool { return m(k.email) }))
		return q
	}
	if c.R.Intn(2) == 0 {
		name := []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}[c.R.Intn(5)]
		q := form("/count/algo", "algo", name)
		q.judge = counted(d.count(func(k plainKey) bool { return k.algo == algoNames[name] }))
		return q
	}
	y := []int{2011, 2019, 2018, 2012, 1990 + c.R.Intn(40)}[c.R.Intn(5)]
	at := time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
	year := func(y int) uint32 { return d.count(func(k plainKey) bool { return k.when.UTC().Year() == y }) }
	q := form("/count/timestamp", "year", strconv.Itoa(y))
	q.judge = counted(d.count(func(k plainKey) bool { return k.when.Equal(at) }), year(y), year(y-1))
	return q
}

func (c *C) hex(n int) string { return fmt.Sprintf("%x", c.Bytes(n)) }

// bad are malformed requests.
func badRequests(c *C) []*webReq {
	var out []*webReq
	add := func(q *webReq) {
		q.judge = refused
		out = append(out, q)
	}
	fields := map[string][]string{"/retrieve": {"email"}, "/count/email": {"position", "text"}, "/count/algo": {"algo"}, "/count/timestamp": {"year"}}
	fine := map[string]string{"email": "a@b.ch", "position": "begin", "text": "ab", "algo": "RSA", "year": "2018"}
	for _, path := range []string{"/retrieve", "/count/email", "/count/algo", "/count/timestamp"} {
		fs := fields[path]
		add(form(path))
		add(&webReq{method: "POST", path: path})
		add(&webReq{method: "GET", path: path})
		for i, f := range fs { // each of them missing or empty
			var kv []string
			empty := []string{f, ""}
			q := []string{}
			for j, g := range fs {
				q = append(q, g+"="+url.QueryEscape(fine[g]))
				if i != j {
					kv, empty = append(kv, g, fine[g]), append(empty, g, fine[g])
				}
			}
			add(form(path, kv...))
			add(form(path, append([]string{strings.ToUpper(f), fine[f], " " + f, fine[f]}, kv...)...))
			add(form(path, empty...))
			add(form(path, append([]string{f, ""}, append([]string{f, fine[f]}, kv...)...)...))
			// in the wrong place
			add(&webReq{method: "GET", path: path + "?" + strings.Join(q, "&")})
			add(&webReq{method: "POST", path: path + "?" + strings.Join(q, "&"), ctype: formType})
			add(&webReq{method: "POST", path: path, ctype: "text/plain", body: strings.Join(q, "&")})
			add(&webReq{method: "POST", path: path, ctype: "application/json", body: fmt.Sprintf(`{"%s": "%s"}`, f, fine[f])})
			add(&webReq{method: "DELETE", path: path, ctype: formType, body: strings.Join(q, "&")})
			var mb bytes.Buffer
			mw := multipart.NewWriter(&mb)
			mw.WriteField("other", fine[f])
			mw.Close()
			add(&webReq{method: "POST", path: path, ctype: mw.FormDataContentType(), body: mb.String()})
			// forms that cannot be parsed
			good := strings.Join(q, "&")
			for _, b := range []string{good + "&x=%zz", good + "&%=1", "%zz=1&" + good, good + ";a=b", good + "&b=%4", "a;b&" + good} {
				add(&webReq{method: "POST", path: path, ctype: formType, body: b})
			}
			add(&webReq{method: "POST", path: path + "?x=%zz", ctype: formType, body: good})
			add(&webReq{method: "POST", path: path, ctype: "not a / type; ;", body: good})
			add(&webReq{method: "POST", path: path, ctype: formType + "; x", body: good})
		}
		for _, p := range []string{path + "/", path + "/x", path + "x", strings.ToUpper(path), path + "%20", path + "%2f"} {
			q := form(p, "email", "a@b.ch", "position", "begin", "text", "a", "algo", "RSA", "year", "2018")
			add(q)
		}
	}
	for _, y := range []string{"x", "20x8", "2018 ", " 2018", "2018.0", "1e3", "0x7e2", "two", "-", "+", "--1", "٢٠١٨", "99999999999999999999", "-99999999999999999999", "2018,2019", "\x00", "NaN", c.hex(3) + "g"} {
		add(form("/count/timestamp", "year", y))
	}
	for _, p := range []string{"Begin", "BEGIN", "start", "middle", "begin ", " end", "0", "begin,end", "both", c.hex(4), "%s%d", "<script>"} {
		add(form("/count/email", "position", p, "text", "alice"))
	}
	for _, p := range []string{"/nothing", "/index.html", "/count", "/count/", "/count/key", "/static/nothing.css", "/static/../mod.go", "/%00", "/a%0ab", "/.git/config", "/static/%2e%2e/index.html", "/" + strings.Repeat("x", 3000)} {
		add(&webReq{method: "GET", path: p})
		add(&webReq{method: "POST", path: p, ctype: formType, body: "email=a%40b.ch"})
	}
	for _, q := range out {
		if c.R.Intn(2) == 0 {
			q.id = "id-" + c.hex(6)
		}
	}
	return out
}

// oddRequests may succeed or fail, but are answered once.
func oddRequests(c *C) []*webReq {
	var out []*webReq
	add := func(q *webReq) {
		q.judge = func(c *C, how string, st int, body string) {
			if st >= 400 {
				oneError(c, how, st, body)
				return
			}
			if m := countRe.FindStringSubmatch(body); m != nil {
				c.Check(m[1] == "0", "%s: counts %s keys", how, m[1])
			} else {
				c.Check(!armorRe.MatchString(body), "%s: gives a key", how)
			}
			c.Obs("odd_answered", 1)
		}
		out = append(out, q)
	}
	for _, e := range []string{" ", "@", "no address", strings.Repeat("a", 5000) + "@b.ch", "ünï@cödé.ch", "\x00\xff@x", "<a@b>", "a@b.ch\r\nX: y", c.hex(20), "%25"} {
		add(form("/retrieve", "email", e))
	}
	for _, e := range []string{"ünï", "\x01\x02", strings.Repeat("q", 300), strings.Repeat("z", 30), "\xff\xfe"} {
		add(form("/count/email", "position", "begin", "text", e))
		add(form("/count/email", "position", "end", "text", e))
	}
	for _, a := range []string{"rsa", "ed25519", "RSA ", "0", "1", "\x00", strings.Repeat("R", 3000), "DSA,RSA"} {
		add(form("/count/algo", "algo", a))
	}
	for _, y := range []string{"0", "-1", "1", "-32768", "32767", "32768", "99999", "-99999", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "+1066", "0000"} {
		add(form("/count/timestamp", "year", y))
	}
	return out
}

func page(path string, has string) *webReq {
	return &webReq{method: "GET", path: path, judge: func(c *C, how string, st int, body string) {
		c.Check(st == 200 && strings.Contains(body, has), "%s: status %d, %d bytes without %q", how, st, len(body), has)
	}}
}

// broken sends something else than HTTP, or not all of it.
func (w *webServer) broken(c *C, n int) {
	var jobs []func()
	addr := strings.TrimPrefix(w.base, "http://")
	for i := 0; i < n; i++ {
		body := "email=a%40b.ch"
		texts := []string{
			string(c.Bytes(c.R.Intn(300))), "GET", "GET / HTTP/9.9\r\n\r\n", "POST /retrieve HTTP/1.1\r\nHost: x\r\nContent-Type: " + formType + "\r\nContent-Length: 1000\r\n\r\n" + body,
			"POST /retrieve HTTP/1.1\r\nHost: x\r\nContent-Type: " + formType + "\r\nContent-Length: -5\r\n\r\n" + body,
			"POST /retrieve HTTP/1.1\r\nHost: x\r\nContent-Type: " + formType + "\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + body,
			"POST /count/algo HTTP/1.1\r\nHost: x\r\nX-Request-Id: \x01\r\n\r\n", "GET / HTTP/1.1\r\n" + strings.Repeat("A: b\r\n", c.R.Intn(3000)),
			"GET / HTTP/1.1\r\nHost: x\r\nExpect: something\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + string(c.Bytes(50)),
		}
		t, wait, half := texts[c.R.Intn(len(texts))], time.Duration(c.R.Intn(4000))*time.Microsecond, c.R.Intn(3) == 0
		jobs = append(jobs, func() {
			conn, err := net.DialTimeout("tcp", addr, 30*time.Second)
			if err != nil {
				w.alive(c, "broken connections")
				return
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(300 * time.Millisecond))
			io.WriteString(conn, t)
			if half {
				time.Sleep(wait)
				return
			}
			if tcp, ok := conn.(*net.TCPConn); ok {
				tcp.CloseWrite()
			}
			bufio.NewReader(conn).ReadString('\n')
		})
	}
	together(c, jobs)
	c.Obs("broken_connections", n)
	w.alive(c, "broken connections")
}

// aborted requests are given up by their clients.
func (w *webServer) aborted(c *C, d *webDirs, n int) {
	var jobs []func()
	for i := 0; i < n; i++ {
		q, after := d.good(c), time.Duration(c.R.Intn(30000))*time.Microsecond
		jobs = append(jobs, func() {
			ctx, cancel := context.WithTimeout(context.Background(), after)
			defer cancel()
			r, _ := http.NewRequestWithContext(ctx, q.method, w.base+q.path, strings.NewReader(q.body))
			r.Header.Set("Content-Type", q.ctype)
			if resp, err := http.DefaultClient.Do(r); err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
		})
	}
	together(c, jobs)
	c.Obs("aborted_requests", n)
	w.alive(c, "aborted requests")
}

// burst sends requests at once.
func (w *webServer) burst(c *C, d *webDirs, n int) {
	cl := &http.Client{Timeout: 150 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}
	defer cl.CloseIdleConnections()
	bad := badRequests(c)
	var jobs []func()
	for i := 0; i < n; i++ {
		q := d.good(c)
		if c.R.Intn(4) == 0 {
			q = bad[c.R.Intn(len(bad))]
		}
		if q.id = ""; c.R.Intn(4) > 0 {
			q.id = fmt.Sprintf("burst-%d-%s", i, c.hex(4))
		}
		jobs = append(jobs, func() { w.send(c, cl, q) })
	}
	together(c, jobs)
}

// sequence sends requests one after another.
func (w *webServer) sequence(c *C, l []*webReq) {
	cl := &http.Client{Timeout: 150 * time.Second}
	seen := map[string]bool{}
	for _, q := range l {
		id := w.send(c, cl, q)
		c.Check(q.id != "" || !seen[id], "%s: gets the identifier %q of an earlier request", q, id)
		seen[id] = true
	}
	cl.CloseIdleConnections()
}

func (w *webServer) all(c *C, d *webDirs, n int) {
	var l []*webReq
	l = append(l, page("/", "<html"), page("/static/style.css", "{"), page("/static/Inter.ttf", "\x00"))
	for i := 0; i < n; i++ {
		l = append(l, d.good(c))
	}
	bad := append(badRequests(c), oddRequests(c)...)
	for _, i := range c.R.Perm(len(bad)) {
		if l = append(l, bad[i]); c.R.Intn(8) == 0 {
			l = append(l, d.good(c))
		}
	}
	w.sequence(c, append(l, d.good(c)))
}

func buildC26(t *T) {
	quietStdout()
	type setup struct {
		point string
		n     int
	}
	setups := []setup{{"pointPIR", 2}, {"pointVPIR", 2}, {"pointVPIR", 3}}
	if t.Thorough {
		setups = append(setups, setup{"pointPIR", 4}, setup{"pointVPIR", 5})
	}
	for rep := 0; rep < t.N(2, 12); rep++ {
		rep := rep
		for i, s := range setups {
			s, name := s, []string{"web", "web-race"}[(rep+i)%2]
			t.Addf(func(c *C) {
				d := &webDirs{newDirectory(c, genKeys(c.R, 20+c.R.Intn(100))), newDirectory(c, statKeys(c, 20+c.R.Intn(100)))}
				p := startCluster(c, s.point, s.n, d.point.dir, d.point.files)
				k := startCluster(c, "complexVPIR", 2, d.stat.dir, d.stat.files)
				w := startWebNamed(c, name, p.config, k.config)
				w.all(c, d, t.N(40, 150))
				for i := 0; i < t.N(3, 12); i++ {
					w.burst(c, d, 40)
				}
				w.broken(c, t.N(60, 300))
				w.aborted(c, d, t.N(60, 200))
				w.burst(c, d, 40)
				w.sequence(c, []*webReq{d.good(c), d.good(c), d.good(c)})
				p.healthy(c, "web requests")
				k.healthy(c, "web requests")
				w.sound(c)
			}, "%s in front of %s with %d servers, round %d", name, s.point, s.n, rep)
		}
		name := []string{"web-race", "web"}[rep%2]
		t.Addf(func(c *C) {
			d := &webDirs{largeDirectory(c), newDirectory(c, statKeys(c, 20))}
			p := startCluster(c, setups[rep%len(setups)].point, setups[rep%len(setups)].n, d.point.dir, d.point.files)
			k := startCluster(c, "complexVPIR", 2, d.stat.dir, d.stat.files)
			w := startWebNamed(c, name, p.config, k.config)
			w.burst(c, d, 12)
			for i := 0; i < t.N(4, 20); i++ {
				w.sequence(c, []*webReq{d.good(c), d.good(c)})
			}
			p.healthy(c, "large answers")
			w.sound(c)
			if p.largest() > 4<<20 {
				c.Obs("clusters_with_answers_above_4MB", 1)
			}
		}, "%s with large answers, round %d", name, rep)
		if rep == 0 {
			t.Addf(func(c *C) {
				d := &webDirs{newDirectory(c, genKeys(c.R, 30)), newDirectory(c, statKeys(c, 20))}
				p := startCluster(c, "pointPIR", 2, d.point.dir, d.point.files)
				k := startCluster(c, "complexVPIR", 2, d.stat.dir, d.stat.files)
				w := startWebNamed(c, "web", p.config, k.config)
				w.p.keepsNothing(c, "the web front-end", t.N(1200, 12000), 12, 120, func(n int) {
					for ; n > 0; n -= 100 {
						w.burst(c, d, 40)
						w.aborted(c, d, 30)
						w.broken(c, 30)
					}
					http.DefaultClient.CloseIdleConnections()
				}, func() { w.sound(c) })
			}, "what the web front-end keeps of %d requests", t.N(1200, 12000))
		}
		if rep == 0 {
			// the servers take their time
			t.Addf(func(c *C) {
				ps, ks := newServed(c, "pointVPIR", 2), newServed(c, "complexVPIR", 2)
				d := &webDirs{ps.d, ks.d}
				pf, kf := ps.fakes(c), ks.fakes(c)
				w := startWebNamed(c, name, writeConfig(c, addrsOf(pf)), writeConfig(c, addrsOf(kf)))
				wait := time.Duration(t.N(11, 45)) * time.Second
				for _, f := range []*fake{pf[c.R.Intn(2)], kf[c.R.Intn(2)]} {
					f.set(func(f *fake) { f.delay, f.late = wait, wait })
				}
				w.burst(c, d, 24)
				w.sound(c)
				c.Obs("requests_to_slow_servers", 24)
			}, "%s in front of slow servers", name)
		}
		t.Addf(func(c *C) { webFaults(c, name, t.N(6, 30)) }, "%s in front of failing servers, round %d", name, rep)
	}
}

// webFaults puts the front-end in front of servers that fail.
func webFaults(c *C, name string, rounds int) {
	ps, ks := newServed(c, "pointVPIR", 2), newServed(c, "complexVPIR", 2)
	d := &webDirs{ps.d, ks.d}
	pf, kf := ps.fakes(c), ks.fakes(c)
	w := startWebNamed(c, name, writeConfig(c, addrsOf(pf)), writeConfig(c, addrsOf(kf)))
	calm := func() {
		for _, f := range append(append([]*fake{}, pf...), kf...) {
			f.set(func(f *fake) { f.infoErr, f.forged, f.delay, f.late = nil, nil, 0, 0 })
		}
		ps.replace(pf)
		ks.replace(kf)
	}
	faults := []struct {
		what string
		set  func(f *fake)
	}{
		{"no description", func(f *fake) { f.infoErr = status.Error(13, "out of order") }},
		{"no answers", func(f *fake) {
			f.answer = func([]byte) ([]byte, error) { return nil, status.Error(13, "out of order") }
		}},
		{"empty answers", func(f *fake) { f.forged = func([]byte) []byte { return nil } }},
		{"short answers", func(f *fake) { f.forged = func(a []byte) []byte { return a[:len(a)/2] } }},
		{"long answers", func(f *fake) { f.forged = func(a []byte) []byte { return append(a, 1, 2, 3) } }},
		{"random answers", func(f *fake) { f.forged = func(a []byte) []byte { return bytes.Repeat([]byte{0xa7}, len(a)) } }},
		{"one bit of the answers", func(f *fake) { f.forged = func(a []byte) []byte { a[len(a)/2] ^= 4; return a } }},
		{"another description", func(f *fake) {
			f.info = describe(ps.info)
			f.info.NumColumns++
			f.info.Root = []byte("other")
		}},
	}
	for r := 0; r < rounds; r++ {
		if r%2 == 1 { // the servers get another directory
			ps = newServedOf(c, "pointVPIR", 2, newDirectory(c, genKeys(c.R, 1+c.R.Intn(130))))
			ks = newServed(c, "complexVPIR", 2)
			d = &webDirs{ps.d, ks.d}
			c.Obs("directories_replaced", 1)
		}
		calm()
		w.burst(c, d, 16)
		for _, x := range faults {
			calm()
			at := c.R.Intn(2)
			pf[at].set(x.set)
			kf[at].set(x.set)
			var jobs []func()
			var mu sync.Mutex
			cl := &http.Client{Timeout: 150 * time.Second}
			for i := 0; i < 6; i++ {
				q := d.good(c)
				q.id = fmt.Sprintf("fault-%d-%d-%d", r, at, i)
				judge := q.judge
				how := fmt.Sprintf("%s from server %d: ", x.what, at)
				q.judge = func(c *C, h string, st int, body string) {
					mu.Lock()
					defer mu.Unlock()
					if st >= 400 {
						oneError(c, how+h, st, body)
						c.Obs("faults_reported", 1)
						return
					}
					// what is given must be right all the same
					judge(c, how+h, st, body)
					c.Obs("right_despite_faults", 1)
				}
				jobs = append(jobs, func() { w.send(c, cl, q) })
			}
			together(c, jobs)
			cl.CloseIdleConnections()
			w.alive(c, x.what)
		}
	}
	calm()
	w.all(c, d, 20)
	w.sound(c)
}
