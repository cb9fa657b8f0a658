// Pseudo terminals, and processes of the application attached to one.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

func ioctl(fd uintptr, req uintptr, p unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p))
	if e != 0 {
		return e
	}
	return nil
}

func getTermios(f *os.File) (syscall.Termios, error) {
	var t syscall.Termios
	err := ioctl(f.Fd(), syscall.TCGETS, unsafe.Pointer(&t))
	return t, err
}

func setTermios(f *os.File, t syscall.Termios) {
	must(ioctl(f.Fd(), syscall.TCSETS, unsafe.Pointer(&t)))
}

type winsize struct{ Row, Col, X, Y uint16 }

func openPty(cols, rows int) (master, slave *os.File) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_CLOEXEC|syscall.O_NOCTTY, 0)
	must(err)
	var n uint32
	var zero int32
	master = os.NewFile(uintptr(fd), "/dev/ptmx")
	must(ioctl(master.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)))
	must(ioctl(master.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)))
	sfd, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_CLOEXEC|syscall.O_NOCTTY, 0)
	must(err)
	slave = os.NewFile(uintptr(sfd), "pts")
	ws := winsize{uint16(rows), uint16(cols), 0, 0}
	must(ioctl(slave.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws)))
	return
}

func setWinsize(f *os.File, cols, rows int) {
	ws := winsize{uint16(rows), uint16(cols), 0, 0}
	ioctl(f.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

// Proc is a running application.
type Proc struct {
	cmd    *exec.Cmd
	master *os.File
	slave  *os.File
	mu     sync.Mutex
	out    []byte
	last   time.Time
	done   chan struct{}
	rdone  chan struct{}
	rc     int
	sig    string
	screen *Screen
	app    int // process of the application, if it is not cmd itself
}

func (p *Proc) pid() int {
	if p.app != 0 {
		return p.app
	}
	return p.cmd.Process.Pid
}

func (p *Proc) reader() {
	defer close(p.rdone)
	b := make([]byte, 65536)
	for {
		n, err := syscall.Read(int(p.master.Fd()), b)
		if n > 0 {
			p.mu.Lock()
			p.out = append(p.out, b[:n]...)
			p.last = time.Now()
			if p.screen != nil {
				p.screen.Write(b[:n])
			}
			p.mu.Unlock()
		}
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 || err != nil {
			return
		}
	}
}

func (p *Proc) output() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte{}, p.out...)
}

// sleeping: every thread of the process waits.
func sleeping(pid int) bool {
	l, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	if len(l) == 0 {
		return true
	}
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		i := bytes.LastIndexByte(b, ')')
		if i > 0 && i+2 < len(b) && b[i+2] != 'S' && b[i+2] != 'Z' && b[i+2] != 'X' {
			return false
		}
	}
	return true
}

// gone: the process has ended, though this may not have been noticed yet.
func gone(pid int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return os.IsNotExist(err) || errors.Is(err, syscall.ESRCH)
	}
	i := bytes.LastIndexByte(b, ')')
	return i > 0 && i+2 < len(b) && (b[i+2] == 'Z' || b[i+2] == 'X')
}

func cpuTime(pid int) string {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return ""
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return ""
	}
	return f[11] + "/" + f[12]
}

// attach starts cmd on a new terminal. presend is typed before it starts; its
// echo is not part of the recorded output. opost: keep the output processing.
func startOnPty(cmd *exec.Cmd, cols, rows int, presend string, screen *Screen) *Proc {
	m, s := openPty(cols, rows)
	t, err := getTermios(s)
	must(err)
	out := t.Oflag & syscall.OPOST
	t.Oflag &^= syscall.OPOST
	setTermios(s, t)
	p := &Proc{cmd: cmd, master: m, slave: s, done: make(chan struct{}), rdone: make(chan struct{}), last: time.Now(), screen: screen}
	if presend != "" {
		n := 0
		for _, l := range strings.SplitAfter(presend, "\n") {
			m.Write([]byte(l))
			n += len(l)
		}
		// every typed byte comes back as echo
		b := make([]byte, 4096)
		end := time.Now().Add(2 * time.Second)
		for n > 0 && time.Now().Before(end) {
			k, err := syscall.Read(int(m.Fd()), b)
			if err != nil && err != syscall.EINTR {
				break
			}
			n -= k
		}
		if n != 0 {
			broken(fmt.Sprintf("echo of the answers: %d bytes left for %q", n, presend))
		}
	}
	if screen != nil {
		t.Oflag |= out
		setTermios(s, t)
	}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	if cmd.SysProcAttr == nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Setsid = true
	cmd.SysProcAttr.Setctty = true
	cmd.SysProcAttr.Ctty = 0
	must(cmd.Start())
	go p.reader()
	go func() {
		err := cmd.Wait()
		p.rc, p.sig = exitOf(cmd, err)
		close(p.done)
	}()
	return p
}

func exitOf(cmd *exec.Cmd, err error) (int, string) {
	if cmd.ProcessState == nil {
		return -1, fmt.Sprint(err)
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return -1, ws.Signal().String()
	}
	return ws.ExitStatus(), ""
}

func (p *Proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// drain waits until everything the ended process wrote has been read.
func (p *Proc) drain() {
	if p.app != 0 {
		return // the terminal goes on
	}
	if p.slave != nil {
		p.slave.Close()
		p.slave = nil
	}
	select {
	case <-p.rdone:
	case <-time.After(2 * time.Second):
	}
}

func (p *Proc) close() {
	if !p.exited() {
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		p.cmd.Process.Kill()
		<-p.done
	}
	p.drain()
	p.master.Close()
}

func (p *Proc) echo() bool {
	t, err := getTermios(p.master)
	return err != nil || t.Lflag&syscall.ECHO != 0
}

// until waits for cond, the end of the process, or for the process to wait for
// input: no output for `quiet` while it sleeps and uses no processor time.
func (p *Proc) until(cond func() bool, quiet time.Duration) string {
	cpu, since := "", time.Now()
	for {
		if cond != nil && cond() {
			return "cond"
		}
		if p.exited() {
			p.drain()
			return "exit"
		}
		p.mu.Lock()
		last := p.last
		p.mu.Unlock()
		c := cpuTime(p.pid())
		if c != cpu || !sleeping(p.pid()) || p.app == 0 && gone(p.pid()) {
			cpu, since = c, time.Now()
		}
		if last.After(since) {
			since = last
		}
		if time.Since(since) > quiet {
			return "quiet"
		}
		time.Sleep(time.Millisecond)
	}
}
