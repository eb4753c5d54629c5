package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// terminal is a program that runs on a terminal of its own.
type terminal struct {
	*prog
	tty  *os.File
	pos  int // what follows here has not been looked at
	last time.Time
	mu   sync.Mutex

	replies int // to questions for the position of the cursor

	typed   string // since the last prompt,
	typedAt int    // when there was that much output
	typing  time.Time
}

// openPty returns both ends of a new terminal, or an error where there are none.
func openPty() (ours, theirs *os.File, err error) {
	ours, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, unlock uint32
	for _, x := range []struct {
		req uintptr
		arg *uint32
	}{{0x40045431, &unlock}, {0x80045430, &n}} { // TIOCSPTLCK, TIOCGPTN
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, ours.Fd(), x.req, uintptr(unsafe.Pointer(x.arg))); e != 0 {
			ours.Close()
			return nil, nil, e
		}
	}
	theirs, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		ours.Close()
		return nil, nil, err
	}
	size := [4]uint16{50, 200, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, ours.Fd(), 0x5414, uintptr(unsafe.Pointer(&size))) // TIOCSWINSZ
	return ours, theirs, nil
}

// startOnTerminal starts a program on a new terminal; nil if this machine has no
// terminals.
func startOnTerminal(c *C, name, dir string, env []string, args ...string) *terminal {
	ours, theirs, err := openPty()
	if err != nil {
		c.Obs("no_terminal_available", 1)
		return nil
	}
	t := &terminal{prog: &prog{name: name, args: args, done: make(chan struct{})}, tty: ours, last: time.Now()}
	p := t.prog
	p.more = sync.NewCond(&p.mu)
	p.cmd = exec.Command(filepath.Join(c.t.Bin, name), args...)
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), append([]string{"TERM=xterm"}, env...)...)
	p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = theirs, theirs, theirs
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	err = p.cmd.Start()
	theirs.Close()
	if err != nil {
		ours.Close()
		c.Inconclusive("%s cannot be started: %v", name, err)
	}
	read := make(chan struct{})
	go func() {
		defer close(read)
		buf := make([]byte, 1<<16)
		answered := 0
		for {
			n, err := ours.Read(buf)
			if n > 0 {
				p.Write(buf[:n])
				t.mu.Lock()
				t.last = time.Now()
				t.mu.Unlock()
				// tell the position of the cursor to who asks
				for out := p.output(); ; {
					i := strings.Index(out[answered:], "\x1b[6n")
					if i < 0 {
						break
					}
					before := out[answered : answered+i]
					answered += i + 4
					if strings.HasSuffix(before, "\x1b[999;999f") || strings.HasSuffix(before, "\x1b[999;999H") {
						fmt.Fprint(ours, "\x1b[50;200R")
					} else {
						fmt.Fprint(ours, "\x1b[10;30R")
					}
					t.mu.Lock()
					t.replies++
					t.last = time.Now()
					t.mu.Unlock()
				}
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		p.err = p.cmd.Wait()
		select { // the rest of what it has written
		case <-read:
		case <-time.After(3 * time.Second):
		}
		close(p.done)
	}()
	c.Defer(func() {
		p.cmd.Process.Kill()
		<-p.done
		ours.Close()
	})
	return t
}

var escapes = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]|\x1b[78]")

// plain is the text after a place of the output, without the control sequences.
func (t *terminal) plain(from int) string {
	return strings.Replace(escapes.ReplaceAllString(t.output()[from:], ""), "\r", "", -1)
}

// asleep tells whether all threads of the program wait for something: none is
// about to do more, however busy the machine.
func (t *terminal) asleep() bool {
	dir := fmt.Sprintf("/proc/%d/task", t.cmd.Process.Pid)
	l, err := os.ReadDir(dir)
	for _, e := range l {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name(), "stat"))
		if i := strings.LastIndex(string(b), ") "); i >= 0 && strings.ContainsAny(string(b[i+2:i+3]), "RD") {
			return false
		}
	}
	return err == nil
}

// prompt waits for a question, until nothing more is written, and returns what
// was written since the last one; ok is false if the program has ended.
func (t *terminal) prompt(c *C, text string, limit time.Duration) (out string, ok bool) {
	end, idle := time.Now().Add(limit), 0
	for {
		over := t.ended()
		if t.asleep() {
			idle++
		} else {
			idle = 0
		}
		t.mu.Lock()
		quiet := time.Since(t.last) > 40*time.Millisecond && t.replies == strings.Count(t.output(), "\x1b[6n")
		t.mu.Unlock()
		out = t.plain(t.pos)
		if i := strings.LastIndex(out, text); i >= 0 && quiet && idle >= 4 {
			t.pos, t.typed = len(t.output()), ""
			return out, true
		}
		if over {
			return out, false
		}
		if t.typed != "" && idle >= 4 && t.plain(t.typedAt) == "" && time.Since(t.typing) > 6*time.Second {
			// Not even an echo: on a busy machine, an answer to a question for
			// the position of the cursor may reach the program together with
			// what is typed next, which is lost then.
			c.Obs("typed_again", 1)
			fmt.Fprint(t.tty, t.typed)
			t.typing = time.Now()
		}
		if time.Now().After(end) {
			c.Inconclusive("%s does not ask %q within %v: %q", t.name, text, limit, tail(t.output(), 600))
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (t *terminal) typeText(s string) {
	if t.typed == "" {
		t.typedAt = len(t.output())
	}
	t.typed, t.typing = t.typed+s, time.Now()
	fmt.Fprint(t.tty, s)
}

// pick chooses an option of a menu.
func (t *terminal) pick(k int) { t.typeText(strings.Repeat("\x1b[B", k) + "\r") }

// why tells how the program ended.
func (t *terminal) why() string {
	if t.ended() {
		return fmt.Sprint(t.err)
	}
	return "running"
}
