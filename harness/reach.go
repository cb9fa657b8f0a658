// Family "reach": runs of the real program with an update server that is slow,
// or falls silent, at any point of an exchange.
package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { families["reach"] = reachJob }

const never = 600000

// slowServer takes one connection at a time; while it is held, connections are
// neither accepted nor refused.
type slowServer struct {
	*Server
	tcp    *net.TCPListener
	gate   sync.Mutex
	held   bool
	filler net.Conn
	holds  bool // holding works here

	m     sync.Mutex
	plan  [][]int // milliseconds of silence before each point, by connection
	n     int     // connections so far
	reply map[string][]byte
	over  chan struct{}
}

var theSlow *slowServer

func slow() *slowServer {
	if theSlow != nil {
		return theSlow
	}
	base := server()
	s := &slowServer{Server: &Server{ca: base.ca, cert: base.cert, plan: map[string][]Resp{}}, over: make(chan struct{})}
	pid := os.Getpid()
	for i := 0; ; i++ {
		a := [4]byte{127, byte(128 + i%60), byte(pid/250%250 + 1), byte(pid%250 + 1)}
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		must(err)
		syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
		if syscall.Bind(fd, &syscall.SockaddrInet4{Port: 443, Addr: a}) == nil && syscall.Listen(fd, 0) == nil {
			f := os.NewFile(uintptr(fd), "listener")
			ln, err := net.FileListener(f)
			must(err)
			f.Close()
			s.tcp = ln.(*net.TCPListener)
			s.ip = fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3])
			break
		}
		syscall.Close(fd)
		if i > 50 {
			broken("no loopback address with a free port 443")
		}
	}
	s.holds = true
	s.hold()
	if c, err := net.DialTimeout("tcp4", s.ip+":443", 300*time.Millisecond); err == nil {
		c.Close()
		s.holds = false
	}
	go s.serve()
	s.release()
	theSlow = s
	return s
}

func (s *slowServer) hold() {
	s.gate.Lock()
	defer s.gate.Unlock()
	if s.held || !s.holds {
		return
	}
	s.held = true
	c, err := net.DialTimeout("tcp4", s.ip+":443", time.Second)
	must(err)
	s.filler = c
}

func (s *slowServer) release() {
	s.gate.Lock()
	defer s.gate.Unlock()
	s.held = false
}

func (s *slowServer) serve() {
	for {
		s.gate.Lock()
		var c net.Conn
		var err error
		if s.held {
			s.gate.Unlock()
			time.Sleep(2 * time.Millisecond)
			continue
		}
		s.tcp.SetDeadline(time.Now().Add(2 * time.Millisecond))
		c, err = s.tcp.Accept()
		if err == nil && s.filler != nil && c.RemoteAddr().String() == s.filler.LocalAddr().String() {
			c.Close()
			s.filler.Close()
			s.filler = nil
			c = nil
		}
		s.gate.Unlock()
		if err == nil && c != nil {
			go s.handle(c)
		} else {
			time.Sleep(time.Millisecond) // others want the gate
		}
	}
}

// quiet waits; it is false when the run is over before
func (s *slowServer) quiet(ms int, over chan struct{}) bool {
	if ms == 0 {
		return true
	}
	select {
	case <-over:
		return false
	case <-time.After(time.Duration(ms) * time.Millisecond):
		return true
	}
}

func (s *slowServer) handle(c net.Conn) {
	defer c.Close()
	s.m.Lock()
	p := make([]int, 5)
	next := 0
	if s.n < len(s.plan) {
		copy(p, s.plan[s.n])
	}
	if s.n+1 < len(s.plan) && len(s.plan[s.n+1]) > 0 {
		next = s.plan[s.n+1][0]
	}
	s.n++
	over := s.over
	reply := s.reply
	s.m.Unlock()
	if next > 0 {
		s.hold()
		defer func() {
			if next < never {
				s.releaseAfter(next, over)
			}
		}()
	}
	if !s.quiet(p[1], over) {
		return
	}
	t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{s.cert}})
	c.SetDeadline(time.Now().Add(100 * time.Second))
	if t.Handshake() != nil {
		return
	}
	req, err := http.ReadRequest(bufio.NewReader(t))
	if err != nil {
		return
	}
	body := reply[kindOf(req)]
	if !s.quiet(p[2], over) {
		return
	}
	h := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", len(body))
	a, b := len(body)/3, 2*len(body)/3
	t.Write(append([]byte(h), body[:a]...))
	if !s.quiet(p[3], over) {
		return
	}
	t.Write(body[a:b])
	if !s.quiet(p[4], over) {
		return
	}
	t.Write(body[b:])
	t.Close()
}

// releaseAfter opens the server in time for the connection to come about ms
// after the attempt: attempts are repeated every second
func (s *slowServer) releaseAfter(ms int, over chan struct{}) {
	go func() {
		if s.quiet(ms-500, over) {
			s.release()
		}
	}()
}

func (s *slowServer) begin(plan [][]int, reply map[string][]byte) {
	s.m.Lock()
	s.plan, s.n, s.reply, s.over = plan, 0, reply, make(chan struct{})
	over := s.over
	s.m.Unlock()
	if len(plan) > 0 && plan[0][0] > 0 {
		s.hold()
		if plan[0][0] < never {
			s.releaseAfter(plan[0][0], over)
		}
	}
}

func (s *slowServer) end() {
	close(s.over)
	s.release()
	for i := 0; ; i++ {
		s.gate.Lock()
		ok := s.filler == nil
		s.gate.Unlock()
		if ok {
			break
		}
		if i > 1000 {
			broken("the server does not open again")
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func reachJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	run := job["run"].(map[string]interface{})
	num := func(k string) int { return int(run[k].(float64)) }
	cmd, first := str(run, "cmd"), run["first"].(bool)
	s := slow()
	b := newBox()
	defer b.remove()
	b.srv = s.Server
	u := &updUser{appUser: &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}}, sums: map[[32]byte]string{}}
	u.makeVaults(2, false)
	// the plan, in milliseconds
	plan, ex := [][]int{}, [][]int{}
	held, total := false, 0
	for k, x := range job["ex"].([]interface{}) {
		t := num("t1")
		if first && k > 0 {
			t = num("t2")
		}
		ps, given := []int{}, []int{}
		for n, y := range x.([]interface{}) {
			d := int(y.(float64))
			ms := 0
			switch {
			case held: // from an exchange before
				ms = never
			case n == 0 && !s.holds:
			case d >= t:
				ms = never
				if n > 0 && r.Intn(3) == 0 {
					ms = t*1000 + 1500 // too late
				}
				held = n == 0
			case n == 0:
				if d > 0 && (d == 1 && t > 2 || t > d+2) && !(k > 0 && ex[k-1][len(ex[k-1])-1] >= 1000*t) {
					ms = d * 1000
				}
			case d > 0:
				ms = d*1000 - 200 + r.Intn(400)
			case r.Intn(2) == 0:
				ms = r.Intn(250)
			}
			given = append(given, ms)
			if ms > t*1000 {
				total += t * 1000
			} else {
				total += ms
			}
			ps = append(ps, ms)
			if ms >= t*1000 {
				break
			}
		}
		for len(ps) < 5 {
			ps = append(ps, 0)
		}
		plan, ex = append(plan, ps), append(ex, given)
	}
	for len(ex) < 4 {
		ex = append(ex, []int{0, 0, 0, 0, 0})
	}
	vault := u.paths["v1"][2] // answers are trimmed, and its name may end with a space
	period := 1 + r.Intn(5)
	if run["zero"].(bool) {
		period = 0
	}
	if first {
		u.writeConf(noSettings)
	} else {
		u.writeConf(settings{true, vault, true, num("t1"), 1 + r.Intn(5)})
	}
	pw := u.vaults["v1"].Pw
	answers := ""
	if first {
		answers = fmt.Sprintf("y\n%s\n\n%d\n%d\n", vault, num("t2"), period)
	}
	payload := []byte("#!/bin/sh\necho " + hexUid(r) + "\n")
	reply := map[string][]byte{"releases": releaseList(r, newerTag(r)), "archive": tarball([]tarEntry{{name: "1pass", body: payload, mode: 0755}}), "checksum": []byte(md5hex(payload) + "  1pass\n")}
	b.install()
	old, err := os.ReadFile(b.out("/tmp/bin/1pass"))
	must(err)
	e.line("I", J{"vault": vault})
	slack := 2500
	for _, x := range ex {
		if len(x) > 0 && x[0] > 0 && x[0] < never {
			slack += 1000
		}
	}
	limit := time.Duration(total+slack+9000) * time.Millisecond
	e.do(J{"a": "Run", "run": run, "ex": ex, "slack": slack}, func() J {
		x := J{"rc": 0, "ended": true, "notices": 0, "header": "", "work": false, "app": "old", "said": true, "shown": 0, "ms": 0}
		s.begin(plan, reply)
		defer s.end()
		t0 := time.Now()
		ms := func() int { return int(time.Since(t0).Milliseconds()) }
		var out string
		var p *Proc
		wait := func(cond func() bool) bool {
			for !cond() {
				if time.Since(t0) > limit {
					x["ended"] = false
					return false
				}
				if p.exited() && !cond() {
					return false
				}
				time.Sleep(2 * time.Millisecond)
			}
			return true
		}
		sig := ""
		switch cmd {
		case "gui":
			g := u.startGui([]string{}, answers, 130, 40)
			p = g.p
			defer p.close()
			if wait(func() bool { return g.look()["win"] == "prompt" }) {
				x["work"] = true
				x["shown"] = ms()
				wait(func() bool { return strings.Contains(g.look()["header"].(string), ")") })
				x["ms"] = ms()
				h := g.look()["header"].(string)
				switch {
				case strings.Contains(h, "new version"):
					x["header"] = "new"
				case strings.Contains(h, "failed"):
					x["header"] = "failed"
				default:
					x["header"] = h
				}
				p.master.Write([]byte{17})
				wait(p.exited)
			}
			out = string(p.output())
		case "list":
			p = startOnPty(b.command("/tmp/bin/1pass", "list"), 120, 40, answers, nil)
			defer p.close()
			if wait(func() bool { return !p.echo() }) {
				x["ms"] = ms()
				x["work"] = true
				p.master.Write([]byte(pw + "\n"))
				wait(p.exited)
			}
			out = string(p.output())
		default:
			if cmd == "configure" {
				answers = "n\n\n\n\n"
			} else if cmd == "update" {
				answers = "y\n"
			}
			c := b.command("/tmp/bin/1pass", cmd)
			var buf bytes.Buffer
			c.Stdin, c.Stdout, c.Stderr = strings.NewReader(answers), &buf, &buf
			c.SysProcAttr.Setsid = true
			must(c.Start())
			done := make(chan error, 1)
			go func() { done <- c.Wait() }()
			select {
			case err := <-done:
				rc, sg := exitOf(c, err)
				x["rc"], sig = rc, sg
			case <-time.After(limit):
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				<-done
				x["ended"] = false
			}
			x["ms"] = ms()
			out = buf.String()
			x["work"] = cmd == "configure" && strings.Contains(out, "1pass configured") || cmd == "categories" && len(tableRows(out)) == len(catNames)
		}
		if p != nil {
			if p.exited() {
				p.drain()
				x["rc"], sig = p.rc, p.sig
				out = string(p.output())
			} else {
				x["ended"] = false
			}
		}
		x["notices"] = strings.Count(out, "New version of 1pass is available (current")
		x["said"] = strings.TrimSpace(out) != ""
		x["out"] = tail(out, 400)
		if strings.Contains(out, "JAIL") {
			broken("the box does not work: " + out)
		}
		if strings.Contains(out, "x509") {
			broken("the certificate is not accepted: " + out)
		}
		now, err := os.ReadFile(b.out("/tmp/bin/1pass"))
		switch {
		case err != nil:
			x["app"] = "missing"
		case bytes.Equal(now, payload):
			x["app"] = "new"
		case !bytes.Equal(now, old):
			x["app"] = "other"
		}
		if x["ended"] == true && (sig != "" || x["rc"] == 2) {
			x["crash"] = fmt.Sprint("rc ", x["rc"], " ", sig, " ", tail(out, 800))
		}
		return x
	})
}
