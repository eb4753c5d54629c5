package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// freePorts finds free ports of the loopback network.
func freePorts(n int) []int {
	var out []int
	var ls []net.Listener
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		ls = append(ls, l)
		out = append(out, l.Addr().(*net.TCPAddr).Port)
	}
	for _, l := range ls {
		l.Close()
	}
	return out
}

// loopback is one of the names of this machine that the shipped certificates are
// for.
func loopback(c *C) string {
	ip := []string{"127.0.0.1", "localhost", "::1"}[c.R.Intn(3)]
	l, err := net.Listen("tcp", net.JoinHostPort(ip, "0"))
	if err != nil {
		return "127.0.0.1"
	}
	l.Close()
	return ip
}

// prog is a running program of the repository.
type prog struct {
	name string
	args []string
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	err  error
	more *sync.Cond
	from []*source
	pmu  sync.Mutex
}

// source is a file that a program writes to: unlike what goes through a pipe,
// what a program has written is seen at once.
type source struct {
	open func() (*os.File, error)
	f    *os.File
	at   int64
}

// pull reads what the program has written by now.
func (p *prog) pull() {
	p.pmu.Lock()
	defer p.pmu.Unlock()
	for _, s := range p.from {
		if s.f == nil {
			if s.f, _ = s.open(); s.f == nil {
				continue
			}
		}
		b := make([]byte, 1<<16)
		for {
			n, err := s.f.ReadAt(b, s.at)
			if n > 0 {
				p.Write(b[:n])
				s.at += int64(n)
			}
			if err != nil || n == 0 {
				break
			}
		}
	}
}

func (p *prog) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.out.Write(b)
	p.more.Broadcast()
	return len(b), nil
}

func (p *prog) output() string {
	p.pull()
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// startProg starts a program; it is ended with the case.
// typed marks what a program reads from its standard input, among its arguments.
const typed = "\x00"

func startProg(c *C, name, dir string, env []string, args ...string) *prog {
	in := ""
	for i, a := range args {
		if strings.HasPrefix(a, typed) {
			in = a[len(typed):]
			args = append(args[:i:i], args[i+1:]...)
			break
		}
	}
	p := &prog{name: name, args: args, done: make(chan struct{})}
	p.more = sync.NewCond(&p.mu)
	p.cmd = exec.Command(filepath.Join(c.t.Bin, name), args...)
	p.cmd.Dir = dir
	p.cmd.Stdin = strings.NewReader(in)
	p.cmd.Env = append(os.Environ(), env...)
	out, err := os.CreateTemp("", "vh-output-")
	if err != nil {
		c.Inconclusive("%v", err)
	}
	os.Remove(out.Name())
	p.from = append(p.from, &source{f: out})
	p.cmd.Stdout, p.cmd.Stderr = out, out
	if err := p.cmd.Start(); err != nil {
		c.Inconclusive("%s cannot be started: %v", name, err)
	}
	for _, a := range args {
		if strings.HasPrefix(a, "-log=") {
			// the log counts as output
			file := filepath.Join(dir, a[5:])
			p.from = append(p.from, &source{open: func() (*os.File, error) { return os.Open(file) }})
		}
	}
	go func() {
		p.err = p.cmd.Wait()
		p.pull()
		close(p.done)
		p.mu.Lock()
		p.more.Broadcast()
		p.mu.Unlock()
	}()
	c.Defer(func() {
		p.stop()
		p.pmu.Lock()
		defer p.pmu.Unlock()
		for _, s := range p.from {
			if s.f != nil {
				s.f.Close()
			}
		}
		p.from = nil
	})
	return p
}

func (p *prog) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// stop ends the program at once.
func (p *prog) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

func (p *prog) signal(s syscall.Signal) { p.cmd.Process.Signal(s) }

// seen waits until the output has the text, count times, and tells whether it
// does.
func (p *prog) seen(text string, count int, limit time.Duration) bool {
	end := time.Now().Add(limit)
	for {
		if strings.Count(p.output(), text) >= count {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if p.ended() {
			return strings.Count(p.output(), text) >= count
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// exit waits for the end of the program and returns its status, -1 if a signal
// ended it.
func (p *prog) exit(c *C, limit time.Duration) int {
	select {
	case <-p.done:
		return p.cmd.ProcessState.ExitCode()
	case <-time.After(limit):
		c.Failf("%s %v did not end within %v\n%s", p.name, p.args, limit, tail(p.output(), 1000))
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// runProg runs a program to its end.
func runProg(c *C, name, dir string, env []string, limit time.Duration, args ...string) (string, int) {
	p := startProg(c, name, dir, env, args...)
	st := p.exit(c, limit)
	return p.output(), st
}

// elsewhere tells whether another program answers at an address.
func (p *prog) elsewhere(addr string) bool {
	conn, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	conn.Close()
	_, port, _ := net.SplitHostPort(addr)
	n, _ := strconv.Atoi(port)
	dir := fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid)
	fds, _ := os.ReadDir(dir)
	own := map[string]bool{}
	for _, fd := range fds {
		l, _ := os.Readlink(filepath.Join(dir, fd.Name()))
		own[l] = true
	}
	for _, table := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(table)
		for _, line := range strings.Split(string(b), "\n") {
			f := strings.Fields(line)
			if len(f) > 9 && f[3] == "0A" && strings.HasSuffix(f[1], fmt.Sprintf(":%04X", n)) && own["socket:["+f[9]+"]"] {
				return false
			}
		}
	}
	return true
}

// usage is what a running program holds: open files and memory.
func (p *prog) usage() (fds int, rssBytes int64) {
	l, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid))
	return len(l), rss(p.cmd.Process.Pid)
}

var goroutineRe = regexp.MustCompile(`(?m)^goroutine [0-9]+ .*:$`)

// leftBehind ends a program with a dump of its goroutines, and tells how many
// there were; -1 if it gives none.
func (p *prog) leftBehind(limit time.Duration) (int, string) {
	at := len(p.output())
	p.signal(syscall.SIGQUIT)
	select {
	case <-p.done:
	case <-time.After(limit):
		return -1, ""
	}
	out := p.output()[at:]
	if !strings.Contains(out, "SIGQUIT: quit") {
		return -1, out
	}
	return len(goroutineRe.FindAllString(out, -1)), out
}

// commonStack is the function in which most goroutines of a dump are.
func commonStack(dump string) string {
	count := map[string]int{}
	best := ""
	for _, g := range strings.Split(dump, "\n\n") {
		var fs []string
		for _, l := range strings.Split(g, "\n") {
			if l != "" && l[0] != '\t' && !strings.HasPrefix(l, "goroutine ") && len(fs) < 4 {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				fs = append(fs, l)
			}
		}
		s := strings.Join(fs, " < ")
		if count[s]++; count[s] > count[best] || best == "" {
			best = s
		}
	}
	return fmt.Sprintf("%d times %s", count[best], best)
}

// keepsNothing has a program handle n/4 and then n requests, and looks at the
// files, the memory and the goroutines it has left once all of them have ended,
// which must not depend on how many there were. Ends the program.
func (p *prog) keepsNothing(c *C, who string, n, files, goroutines int, round func(n int), sound func()) {
	settled := func(fds int, mem int64) (int, int64) { // what is in use, when it does not shrink any more
		for end := time.Now().Add(30 * time.Second); ; time.Sleep(100 * time.Millisecond) {
			f, m := p.usage()
			if f <= fds && m <= mem || time.Now().After(end) {
				return f, m
			}
		}
	}
	f0, _ := p.usage()
	round(n / 4)
	f1, m1 := settled(f0+2, 1<<62)
	round(n)
	f2, m2 := settled(f0+2, m1+m1/4+12<<20)
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "KEEPS", who, f0, f1, f2, m1>>20, m2>>20)
	}
	sound()
	c.Check(f2 <= f0+files, "%s: %d files are open after %d requests and the end of all connections, %d before", who, f2, n, f0)
	c.Check(m2 <= m1+m1/4+24<<20, "%s: %d more requests take the memory from %d to %d bytes", who, n, m1, m2)
	g, dump := p.leftBehind(30 * time.Second)
	if g < 0 {
		c.Obs("no_goroutine_dump", 1)
		return
	}
	c.Check(g <= goroutines, "%s: %d goroutines are left after %d requests and the end of all connections: %s", who, g, n, commonStack(dump))
	c.Obs("soaked_requests", n+n/4)
	c.Obs("goroutines_left", g)
	c.Evalf("soak %s %d", who, n)
}

// cluster is a set of key servers that serve one directory.
type cluster struct {
	scheme  string
	dir     string // with the configuration
	config  string
	addrs   []string
	servers []*prog
	env     []string
	slow    time.Duration // what a client may take longer
	start   func(i int, keyDir string, files int) *prog
}

// restart replaces the servers by new ones, at the same addresses, that serve
// another directory.
func (cl *cluster) restart(c *C, keyDir string, files int) {
	for _, s := range cl.servers {
		if c.R.Intn(2) == 0 {
			s.signal(syscall.SIGTERM)
			s.exit(c, 60*time.Second)
		} else {
			s.stop()
		}
	}
	for i := range cl.servers {
		for try := 0; ; try++ {
			s := cl.start(i, keyDir, files)
			cl.servers[i] = s
			s.listening(c, cl.addrs[i])
			if s.ended() && strings.Contains(s.output(), "address already in use") {
				if try == 20 {
					c.Inconclusive("the port of a server was taken by another program")
				}
				time.Sleep(time.Second)
				continue
			}
			break
		}
	}
	cl.healthy(c, "restart")
}

const startLimit = 60 * time.Second

// startCluster starts the shipped key server n times.
func startCluster(c *C, scheme string, n int, keyDir string, files int, env ...string) *cluster {
	ids := make([]int, n)
	for i := range ids {
		ids[i] = i
	}
	return startServers(c, "server", scheme, n, ids, keyDir, files, env...)
}

// startServers starts some servers of a configuration with n; an env that starts
// with a dash is another argument, and with an @ their address.
func startServers(c *C, name, scheme string, n int, ids []int, keyDir string, files int, env ...string) *cluster {
	var args, vars []string
	ip := "127.0.0.1"
	for _, e := range env {
		if strings.HasPrefix(e, "@") {
			ip = e[1:] // @? is any of them
		} else if strings.HasPrefix(e, "-") {
			args = append(args, e)
		} else {
			vars = append(vars, e)
		}
	}
	for try := 0; ; try++ {
		cl := &cluster{scheme: scheme, dir: scratch(c)}
		var l []cfgServer
		for i, p := range freePorts(n) {
			host := ip
			if ip == "?" {
				host = loopback(c)
				c.Obs("servers_at_"+host, 1)
			}
			l = append(l, cfgServer{fmt.Sprint(i), host, p})
			cl.addrs = append(cl.addrs, net.JoinHostPort(host, fmt.Sprint(p)))
		}
		cl.config = filepath.Join(cl.dir, "config.toml")
		must(os.WriteFile(cl.config, []byte(cfgText(c, l, c.R.Intn(12))), 0o644))
		cl.env = []string{"VPIR_CONFIG=" + cl.config, "VPIR_SKS_ROOT=" + keyDir}
		cl.start = func(i int, keyDir string, files int) *prog {
			env := append([]string{"VPIR_CONFIG=" + cl.config, "VPIR_SKS_ROOT=" + keyDir}, vars...)
			return startProg(c, name, cl.dir, env,
				append([]string{"-id", fmt.Sprint(ids[i]), "-files", fmt.Sprint(files), "-scheme", scheme}, args...)...)
		}
		for i := range ids {
			cl.servers = append(cl.servers, cl.start(i, keyDir, files))
		}
		taken := false
		for i, s := range cl.servers {
			s.listening(c, cl.addrs[ids[i]])
			taken = taken || s.ended() && strings.Contains(s.output(), "address already in use")
		}
		if taken && try < 5 {
			for _, s := range cl.servers {
				s.stop()
			}
			continue
		}
		cl.healthy(c, "start")
		return cl
	}
}

// listening waits until the program accepts connections, or has ended.
func (p *prog) listening(c *C, addr string) {
	for end := time.Now().Add(startLimit); !p.ended(); time.Sleep(3 * time.Millisecond) {
		if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			conn.Close()
			// it may be another program that listens there
			for i := 0; i < 40 && !p.ended() && !strings.Contains(p.output(), "started at") && !strings.Contains(p.output(), "listening at"); i++ {
				time.Sleep(10 * time.Millisecond)
			}
			return
		}
		if time.Now().After(end) {
			c.Inconclusive("%s %v does not listen after %v: %s", p.name, p.args, startLimit, tail(p.output(), 500))
		}
	}
}

// healthy fails the case if a server went down.
func (cl *cluster) healthy(c *C, when string) {
	for i, s := range cl.servers {
		if s.ended() {
			c.Failf("%s: server %d of %d (%s) went down: %v\n%s", when, i, len(cl.servers), cl.scheme, s.err, tail(s.output(), 1500))
		}
	}
}

// client runs the command-line client.
func (cl *cluster) client(c *C, args ...string) (string, int) {
	return runProg(c, "client", cl.dir, cl.env, 60*time.Second+cl.slow, append([]string{"-scheme", cl.scheme}, args...)...)
}
