package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/si-co/vpir-code/lib/utils"
)

func init() {
	register("C29", &propDef{
		build: buildC29,
		progs: []string{"server"},
		rule: "configuration files are generated from lists of addresses, with the entries in many orders, notations and spacings, and damaged in many ways; each is loaded repeatedly " +
			"and the result compared with the list; shipped servers are started with them and have to listen where their index tells. Non-trivial: at least two servers, or a damaged file",
		assume:   []string{"indices are written in decimal without sign"},
		minEvals: 5000,
	})
}

type cfgServer struct {
	key, ip string
	port    int
}

// cfgText writes the entries, in order, in one of the notations of TOML.
func cfgText(c *C, l []cfgServer, style int) string {
	var b strings.Builder
	key := func(k string) string {
		switch {
		case style&1 != 0:
			return `"` + k + `"`
		case style&2 != 0 && !strings.ContainsAny(k, "' "):
			return "'" + k + "'"
		}
		if k == "" || strings.ContainsAny(k, " .+'") {
			return `"` + k + `"`
		}
		return k
	}
	sp := func() string { return strings.Repeat(" ", c.R.Intn(4)) }
	note := func() string {
		if c.R.Intn(3) == 0 {
			return " # server 99"
		}
		return ""
	}
	switch style >> 2 % 3 {
	case 0: // a table for each
		if c.R.Intn(2) == 0 {
			b.WriteString("[servers]\n")
		}
		for _, s := range l {
			f := []string{fmt.Sprintf("%sip%s=%s%q%s\n", sp(), sp(), sp(), s.ip, note()), fmt.Sprintf("%sport =%s%d\n", sp(), sp(), s.port)}
			c.R.Shuffle(2, func(i, j int) { f[i], f[j] = f[j], f[i] })
			fmt.Fprintf(&b, "%s[servers.%s]%s\n%s%s%s", sp(), key(s.key), note(), f[0], f[1], strings.Repeat("\n", c.R.Intn(3)))
		}
	case 1: // a line for each
		b.WriteString("[servers]\n")
		for _, s := range l {
			fmt.Fprintf(&b, "%s = { ip = %q, port = %d }%s\n", key(s.key), s.ip, s.port, note())
		}
	default: // dotted keys
		b.WriteString("# configuration\n")
		for _, s := range l {
			fmt.Fprintf(&b, "[servers.%s]\nport = %d\nip = %q\n", key(s.key), s.port, s.ip)
		}
	}
	return b.String()
}

func cfgServers(c *C, n int) []cfgServer {
	var l []cfgServer
	host := func(i int) string {
		switch c.R.Intn(6) {
		case 0:
			return "127.0.0.1"
		case 4:
			return fmt.Sprintf("fd00:%x::%x", c.R.Intn(1<<16), 1+i%256)
		case 5:
			return []string{"::1", "[::1]", "::", "2001:db8::8:800:200c:417a", "[2001:db8::1]"}[c.R.Intn(5)]
		case 1:
			return fmt.Sprintf("10.%d.%d.%d", c.R.Intn(256), c.R.Intn(256), i%256)
		case 2:
			return fmt.Sprintf("host-%d.example.org", c.R.Intn(100))
		}
		return "localhost"
	}
	ports := map[string]bool{}
	for i := 0; len(l) < n; i++ {
		s := cfgServer{fmt.Sprint(len(l)), host(i), 1 + c.R.Intn(65535)}
		if a := fmt.Sprint(s.ip, s.port); !ports[a] {
			ports[a] = true
			l = append(l, s)
		}
	}
	return l
}

func buildC29(t *T) {
	save := func(c *C, text string) string {
		f := filepath.Join(scratch(c), "config.toml")
		must(os.WriteFile(f, []byte(text), 0o644))
		return f
	}
	for i := 0; i < t.N(60, 600); i++ {
		n := i%13 + 1
		if i%10 == 9 {
			n = 10 + i
		}
		t.Addf(func(c *C) {
			l := cfgServers(c, n)
			for style := 0; style < 12; style++ {
				m := append([]cfgServer{}, l...)
				switch c.R.Intn(4) {
				case 0:
				case 1:
					for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
						m[a], m[b] = m[b], m[a]
					}
				default:
					c.R.Shuffle(n, func(a, b int) { m[a], m[b] = m[b], m[a] })
				}
				if c.R.Intn(4) == 0 { // numbers of equal width
					for j := range m {
						m[j].key = fmt.Sprintf("%0*s", 2+c.R.Intn(2), m[j].key)
					}
				}
				text := cfgText(c, m, style)
				f := save(c, text)
				load := func() error {
					cfg, err := utils.LoadConfig(f)
					if err != nil {
						return err
					}
					if len(cfg.Addresses) != n {
						return fmt.Errorf("%d addresses", len(cfg.Addresses))
					}
					for j, s := range l {
						if a := net.JoinHostPort(strings.Trim(s.ip, "[]"), fmt.Sprint(s.port)); cfg.Addresses[j] != a {
							return fmt.Errorf("server %d at %s instead of %s", j, cfg.Addresses[j], a)
						}
					}
					return nil
				}
				for k := 0; k < 8; k++ {
					if err := load(); err != nil {
						c.Failf("%d servers: %v, with\n%s", n, err, text)
					}
					if n > 1 {
						c.Evalf("%s|%d", text, k)
					} else {
						c.Eval("")
					}
				}
				var wg sync.WaitGroup
				errs := make([]error, 4)
				for k := range errs {
					wg.Add(1)
					go func(k int) { defer wg.Done(); errs[k] = load() }(k)
				}
				wg.Wait()
				for _, err := range errs {
					c.Check(err == nil, "%d servers, loaded concurrently: %v", n, err)
				}
			}
		}, "configuration %d of %d servers", i, n)
	}

	damages := []struct {
		what string
		do   func(c *C, l []cfgServer) []cfgServer
	}{
		{"an index is missing", func(c *C, l []cfgServer) []cfgServer {
			i := c.R.Intn(len(l) - 1)
			return append(l[:i:i], l[i+1:]...)
		}},
		{"the first index is missing", func(c *C, l []cfgServer) []cfgServer { return l[1:] }},
		{"an index beyond", func(c *C, l []cfgServer) []cfgServer {
			l[c.R.Intn(len(l))].key = fmt.Sprint(len(l) + c.R.Intn(3))
			return l
		}},
		{"an index far beyond", func(c *C, l []cfgServer) []cfgServer {
			l[c.R.Intn(len(l))].key = "2147483648"
			return l
		}},
		{"an index too large for any integer", func(c *C, l []cfgServer) []cfgServer {
			l[c.R.Intn(len(l))].key = "99999999999999999999"
			return l
		}},
		{"indices from 1 on", func(c *C, l []cfgServer) []cfgServer {
			for i := range l {
				l[i].key = fmt.Sprint(i + 1)
			}
			return l
		}},
		{"an index twice", func(c *C, l []cfgServer) []cfgServer {
			i, j := c.R.Intn(len(l)), c.R.Intn(len(l)-1)
			if j >= i {
				j++
			}
			l[i].key = "0" + l[j].key
			return l
		}},
		{"an index twice, besides all of them", func(c *C, l []cfgServer) []cfgServer {
			j := c.R.Intn(len(l))
			return append(l, cfgServer{"00" + l[j].key, "other.org", 9})
		}},
		{"a negative index", func(c *C, l []cfgServer) []cfgServer {
			l[c.R.Intn(len(l))].key = fmt.Sprint(-1 - c.R.Intn(len(l)))
			return l
		}},
		{"a negative index besides all of them", func(c *C, l []cfgServer) []cfgServer {
			return append(l, cfgServer{"-1", "other.org", 9})
		}},
		{"an index that is no number", func(c *C, l []cfgServer) []cfgServer {
			i := c.R.Intn(len(l))
			l[i].key = []string{"a", "zero", l[i].key + "x", "x" + l[i].key, l[i].key + ".0", " " + l[i].key, l[i].key + " ", "0x" + l[i].key, "", "1e0", "_0"}[c.R.Intn(11)]
			return l
		}},
		{"an index that is no number besides all of them", func(c *C, l []cfgServer) []cfgServer {
			return append(l, cfgServer{"last", "other.org", 9})
		}},
	}
	for _, d := range damages {
		d := d
		t.Addf(func(c *C) {
			for i := 0; i < t.N(60, 600); i++ {
				l := d.do(c, cfgServers(c, 2+c.R.Intn(12)))
				c.R.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
				text := cfgText(c, l, i%12)
				f := save(c, text)
				for k := 0; k < 4; k++ {
					var cfg *utils.Config
					var err error
					p := Panics(func() { cfg, err = utils.LoadConfig(f) })
					c.Check(p == nil, "%s: panic: %v\n%s", d.what, p, text)
					if err == nil {
						c.Failf("%s, but it is loaded as %v:\n%s", d.what, cfg.Addresses, text)
					}
					c.Eval(text)
				}
			}
			c.Obs("damaged_configurations", t.N(60, 600))
		}, "%s", d.what)
	}
	t.Addf(func(c *C) {
		good := cfgText(c, cfgServers(c, 3), 0)
		for what, text := range map[string]string{
			"no TOML":                "servers: 0",
			"an unclosed table":      good + "\n[servers.3",
			"an unclosed text":       good + "\n[servers.3]\nip = \"127",
			"a port that is a text":  "[servers.0]\nip = \"127.0.0.1\"\nport = \"x\"\n",
			"an ip that is a number": "[servers.0]\nip = 127\nport = 1\n",
			"the same table twice":   "[servers.0]\nip = \"a\"\nport = 1\n[servers.0]\nip = \"b\"\nport = 2\n",
			"binary data":            string(c.Bytes(200)),
		} {
			f := save(c, text)
			p := Panics(func() {
				cfg, err := utils.LoadConfig(f)
				if err == nil {
					c.Failf("%s is loaded as %v", what, cfg.Addresses)
				}
			})
			c.Check(p == nil, "%s: panic: %v", what, p)
			c.Eval(what)
		}
		dir := scratch(c)
		for _, f := range []string{filepath.Join(dir, "none.toml"), dir, "", "\x00"} {
			p := Panics(func() {
				if _, err := utils.LoadConfig(f); err == nil {
					c.Failf("%q is loaded", f)
				}
			})
			c.Check(p == nil, "%q: panic: %v", f, p)
			c.Evalf("file %q", f)
		}
	}, "files that are no configuration")

	// the shipped server listens at the address of its index
	t.Addf(func(c *C) {
		keys := genKeys(c.R, 12)
		dir := scratch(c)
		writeKeyFiles(filepath.Join(dir, "sks"), keys, 1)
		n := 5
		ports := freePorts(n)
		var l []cfgServer
		for i, p := range ports {
			l = append(l, cfgServer{fmt.Sprint(i), loopback(c), p})
		}
		m := append([]cfgServer{}, l...)
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			m[a], m[b] = m[b], m[a]
		}
		f := filepath.Join(dir, "config.toml")
		must(os.WriteFile(f, []byte(cfgText(c, m, 0)), 0o644))
		for i := 0; i < n; i++ {
			p := startProg(c, "server", dir, []string{"VPIR_CONFIG=" + f, "VPIR_SKS_ROOT=" + filepath.Join(dir, "sks")},
				"-id", fmt.Sprint(i), "-files", "1", "-scheme", "pointPIR")
			for end, up := time.Now().Add(60*time.Second), false; !up && time.Now().Before(end) && !p.ended(); time.Sleep(20 * time.Millisecond) {
				for j := 0; j < n && !up; j++ {
					if conn, err := net.DialTimeout("tcp", net.JoinHostPort(l[j].ip, fmt.Sprint(ports[j])), 5*time.Second); err == nil {
						conn.Close()
						up = true
					}
				}
			}
			if p.ended() && strings.Contains(p.output(), "address already in use") {
				c.Inconclusive("the port of server %d was taken by another program", i)
			}
			for j := 0; j < n; j++ {
				conn, err := net.DialTimeout("tcp", net.JoinHostPort(l[j].ip, fmt.Sprint(ports[j])), 5*time.Second)
				if err == nil {
					conn.Close()
				}
				if i == j && err != nil {
					c.Failf("server %d does not listen at its address: %v", i, err)
				}
				if i != j && err == nil {
					c.Failf("server %d listens at the address of %d", i, j)
				}
				c.Evalf("server %d address %d", i, j)
			}
			p.stop()
		}
		for _, i := range []int{-1, n, n + 10} {
			p := startProg(c, "server", dir, []string{"VPIR_CONFIG=" + f, "VPIR_SKS_ROOT=" + filepath.Join(dir, "sks")},
				"-id", fmt.Sprint(i), "-files", "1", "-scheme", "pointPIR")
			st := p.exit(c, 30*time.Second)
			c.Check(st == 1 && !strings.Contains(p.output(), "panic:"), "server -id %d of %d ends with status %d: %s", i, n, st, clip(p.output(), 500))
		}
	}, "shipped servers listen at the address of their index")
}
