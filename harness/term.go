// Family "term": runs of the application on a terminal that goes on when it has
// ended, like the one of a shell: its modes, its screen, and whose they are.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"regexp"
	"strings"
	"syscall"
	"time"
)

func init() { families["term"] = termJob }

const beginMark, overMark = "\x1b]7;begin\x07", "\x1b]7;over\x07"

// holdMain is the shell: it runs the application in the foreground of the
// terminal, tells when it has ended, and stays.
func holdMain(app string, args []string) {
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "JAIL hold", err)
			os.Exit(97)
		}
	}
	syscall.CloseOnExec(3)
	c := make(chan os.Signal, 8)
	signal.Notify(c, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTSTP, syscall.SIGWINCH, syscall.SIGHUP)
	report := os.NewFile(3, "report")
	cmd := exec.Command(app, args...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Foreground: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
	die(cmd.Start())
	fmt.Fprintf(report, "S %d\n", cmd.Process.Pid)
	rc, sig := exitOf(cmd, cmd.Wait())
	os.Stdout.WriteString(overMark)
	fmt.Fprintf(report, "E %d %s\n", rc, sig)
	select {}
}

// startHeld: like startOnPty, with a shell that stays
func startHeld(b *Box, cols, rows int, modes func(*syscall.Termios), before string, args ...string) (*Proc, syscall.Termios) {
	m, s := openPty(cols, rows)
	t, err := getTermios(s)
	must(err)
	modes(&t)
	setTermios(s, t)
	t, err = getTermios(s)
	must(err)
	p := &Proc{master: m, slave: s, done: make(chan struct{}), rdone: make(chan struct{}), last: time.Now(), screen: newScreen(cols, rows)}
	p.cmd = b.command(append([]string{"hold:" + args[0]}, args[1:]...)...)
	p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = s, s, s
	p.cmd.SysProcAttr.Setsid = true
	p.cmd.SysProcAttr.Setctty = true
	p.cmd.SysProcAttr.Ctty = 0
	pr, pw, err := os.Pipe()
	must(err)
	p.cmd.ExtraFiles = []*os.File{pw}
	s.WriteString(before)
	go p.reader()
	must(p.cmd.Start())
	pw.Close()
	for n := 0; !bytes.Contains(p.output(), []byte(beginMark)); n++ {
		if n > 5000 {
			broken("the terminal does not show what is written to it")
		}
		time.Sleep(time.Millisecond)
	}
	in := bufio.NewReader(pr)
	l, err := in.ReadString('\n')
	if err != nil || !strings.HasPrefix(l, "S ") {
		broken("the shell does not start: " + l + string(p.output()))
	}
	fmt.Sscanf(l, "S %d", &p.app)
	go func() {
		defer pr.Close()
		l, _ := in.ReadString('\n')
		p.rc, p.sig = -3, ""
		fmt.Sscanf(l, "E %d", &p.rc)
		if f := strings.SplitN(strings.TrimSpace(l), " ", 3); len(f) == 3 {
			p.sig = f[2]
		}
		for n := 0; n < 2000 && !bytes.Contains(p.output(), []byte(overMark)); n++ {
			time.Sleep(time.Millisecond)
		}
		close(p.done)
	}()
	return p, t
}

func (p *Proc) closeHeld() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.slave.Close()
	select {
	case <-p.rdone:
	case <-time.After(2 * time.Second):
	}
	p.master.Close()
}

var questionEnd = regexp.MustCompile(`(\]|\)): $`)

func termJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	run := job["run"].(map[string]interface{})
	cmd, first := str(run, "cmd"), run["first"].(bool)
	b := newBox()
	defer b.remove()
	b.srv = server()
	b.link()
	u := &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}, vaults: map[string]*VaultState{}}
	v := newVault(r, guiPw(r), []int{1, 10, 1000, 20000}[r.Intn(4)])
	if r.Intn(2) == 0 {
		v.Pw = "Pw!" + hexUid(r)[:10]
	}
	v.Items = u.guiItems(1+r.Intn(12), catCodes)
	dir := "/tmp/vaults/" + pick(r, "x", "my vault", "ü")
	b.mkdir("vaults", 0755)
	v.write(b.out(dir))
	b.own(dir)
	u.vaults["v1"] = v
	if !first {
		c := noSettings
		c.Present, c.Vault, c.Notify = r.Intn(4) != 0 || cmd != "configure", dir, r.Intn(3) != 0
		u.writeConf(c)
	}
	kind, tag := pick(r, "ok", "ok", "bad", "odd"), pick(r, "2", "1", "v2")
	if cmd == "update" {
		kind, tag = "ok", "2"
	}
	a, _ := answers(r, kind, tag)
	b.srv.set(map[string][]Resp{"releases": {a}})
	b.srv.take()
	args := []string{"/tmp/bin/1pass"}
	if cmd != "gui" {
		args = append(args, cmd)
	}
	switch cmd {
	case "overview", "details":
		uid := v.Items[r.Intn(len(v.Items))].Uid
		if r.Intn(5) == 0 {
			uid = hexUid(r)
		}
		args = append(args, uid)
	}
	if cmd == "list" || cmd == "overview" || cmd == "details" || cmd == "gui" {
		if first || r.Intn(3) == 0 {
			args = append(args, "-v", dir)
		}
		if cmd != "gui" && r.Intn(4) == 0 {
			args = append(args, "-t")
		}
	}
	if cmd == "list" && r.Intn(5) == 0 { // fails after the password
		args = append(args, "-c", "no such category")
	}
	large := func() (int, int) { return 64 + r.Intn(80), 14 + r.Intn(30) }
	small := func() (int, int) {
		w, h := large()
		switch r.Intn(4) {
		case 0:
			w = 1 + r.Intn(6)
		case 1:
			w, h = 1+r.Intn(30), 1+r.Intn(10)
		default:
			h = 1 + r.Intn(8)
		}
		return w, h
	}
	w, h := large()
	if run["tiny"].(bool) {
		w, h = small()
	}
	noecho := false
	intr, eof := byte(3), byte(4)
	modes := func(t *syscall.Termios) {
		if r.Intn(3) == 0 {
			return
		}
		flip := func(f *uint32, bits ...uint32) {
			for _, x := range bits {
				if r.Intn(4) == 0 {
					*f ^= x
				}
			}
		}
		flip(&t.Iflag, syscall.IXON, syscall.IXOFF, syscall.IXANY, syscall.IUTF8, syscall.IMAXBEL, syscall.ICRNL, syscall.BRKINT)
		flip(&t.Lflag, syscall.ECHOE, syscall.ECHOK, syscall.ECHOKE, syscall.ECHOCTL, syscall.ECHOPRT, syscall.IEXTEN)
		flip(&t.Oflag, syscall.OPOST)
		if r.Intn(8) == 0 {
			noecho = true
			t.Lflag &^= syscall.ECHO
			flip(&t.Lflag, syscall.ECHONL)
		}
		if r.Intn(3) == 0 {
			intr = []byte{24, 2, 7}[r.Intn(3)]
			t.Cc[syscall.VINTR] = intr
		}
		if r.Intn(3) == 0 {
			eof = []byte{26, 5}[r.Intn(2)]
			t.Cc[syscall.VEOF] = eof
			t.Cc[syscall.VSUSP] = 0
		}
		if r.Intn(3) == 0 {
			t.Cc[syscall.VERASE] = 8
		}
		if r.Intn(4) == 0 {
			t.Cc[syscall.VKILL] = 11
		}
		if r.Intn(4) == 0 {
			t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = byte(r.Intn(4)), byte(r.Intn(4))
		}
	}
	greeting := ""
	for n := r.Intn(6); n >= 0; n-- {
		greeting += "$ " + randWords(r, 3) + "\r\n"
	}
	confFile := b.out(confDir + "/1pass.yml")
	conf0, _ := os.ReadFile(confFile)
	if u.distinct(v.Pw) {
		u.pws = append(u.pws, v.Pw)
	}
	e.line("I", J{"run": run, "w": w, "h": h, "noecho": noecho})
	var p *Proc
	var m0 syscall.Termios
	mark, begin := 0, 0
	g := &guiProc{w: w, h: h}
	defer func() {
		if p != nil {
			p.closeHeld()
		}
	}()
	place := func() string {
		if p.exited() {
			return "ended"
		}
		p.mu.Lock()
		alt := p.screen.alt
		out := strings.ReplaceAll(string(p.out[mark:]), "\r", "")
		p.mu.Unlock()
		t, err := getTermios(p.master)
		must(err)
		switch {
		case alt:
			return "window"
		case strings.HasSuffix(out, "Password:\n") && t.Lflag&syscall.ECHO == 0:
			return "prompt"
		case questionEnd.MatchString(out):
			return "question"
		}
		return "none"
	}
	look := func() J {
		p.until(func() bool { return place() != "none" }, 2500*time.Millisecond)
		p.until(nil, guiQuiet)
		if place() == "none" { // it went on after a question-like text
			p.until(func() bool { return place() != "none" }, 2500*time.Millisecond)
			p.until(nil, guiQuiet)
		}
		at := place()
		t, err := getTermios(p.master)
		must(err)
		p.mu.Lock()
		defer p.mu.Unlock()
		s := p.screen
		if at == "none" && strings.HasSuffix(strings.ReplaceAll(string(p.out[mark:]), "\r", ""), "Password:\n") {
			at = "prompt"
		}
		on := []string{}
		for m := range s.on {
			on = append(on, m)
		}
		if s.bg != 0 || s.fg != 0 || s.attr != 0 {
			on = append(on, "colour")
		}
		o := J{"at": at, "same": t == m0, "echo": t.Lflag&syscall.ECHO != 0, "canon": t.Lflag&syscall.ICANON != 0, "signals": t.Lflag&syscall.ISIG != 0,
			"alt": s.alt, "cursor": s.cursor, "on": on, "wiped": s.wiped, "rc": 0, "sig": ""}
		out := p.out[begin:]
		after := out
		if i := bytes.LastIndex(out, []byte("\x1b[?1049l")); i >= 0 {
			after = out[i:]
		}
		has := func(b []byte, l []string) bool {
			for _, x := range l {
				if x != "" && bytes.Contains(b, []byte(x)) {
					return true
				}
			}
			return false
		}
		o["left"] = has(after, u.secrets) || has([]byte(strings.Join(s.lines(), "\n")), u.secrets) && !s.alt
		o["pwseen"] = has(out, u.pws)
		now, _ := os.ReadFile(confFile)
		o["saved"] = !bytes.Equal(now, conf0)
		if at == "ended" {
			o["rc"], o["sig"] = p.rc, p.sig
			txt := string(out)
			if p.sig != "" && p.sig != "interrupt" || p.rc == 2 || strings.Contains(txt, "goroutine ") {
				o["crash"] = fmt.Sprint("rc ", p.rc, " ", p.sig, " ", tail(txt, 800))
			}
			if strings.Contains(txt, "JAIL") {
				broken("the box does not work: " + txt)
			}
			o["text"] = tail(txt, 300)
		}
		return o
	}
	if !e.do(J{"a": "Start"}, func() J {
		p, m0 = startHeld(b, w, h, modes, greeting+beginMark, args...)
		g.p = p
		begin = bytes.Index(p.output(), []byte(beginMark)) + len(beginMark)
		return look()
	}) {
		return
	}
	send := func(s string) { p.master.Write([]byte(s)) }
	enter := func() string {
		if m0.Iflag&syscall.ICRNL != 0 && r.Intn(2) == 0 {
			return "\r"
		}
		return "\n"
	}
	typed := 0
	asked := 0 // answers so far
	path := false
	steps := job["steps"].([]interface{})
	for n := 0; n <= len(steps) && !p.exited(); n++ {
		at := place()
		op := J{"a": "Interrupt"} // it ends with this if nothing else
		if n < len(steps) {
			op = steps[n].(map[string]interface{})
		} else if at == "window" {
			op["a"] = "Quit"
		}
		rec := J{"a": str(op, "a"), "yes": op["yes"] == true, "pw": str(op, "pw"), "k": str(op, "k"), "tiny": op["tiny"] == true}
		if !e.do(rec, func() J {
			if str(op, "a") != "Type" && !(str(op, "a") == "Eof" && at == "prompt") {
				p.mu.Lock()
				mark = len(p.out)
				p.mu.Unlock()
			}
			switch str(op, "a") {
			case "Answer":
				t := ""
				switch {
				case path:
					t, path = pick(r, dir, "/tmp/none", "", "x y"), false
				case asked == 0 && op["yes"] == true:
					t, path = pick(r, "y", "Y", " y "), cmd != "update"
					asked++
				case asked == 0:
					t = pick(r, "n", "N", "", "yes", "1")
					asked++
				default:
					t = pick(r, "", "y", "n", "7", "30", "365", "0", "x")
					asked++
				}
				send(t + enter())
			case "Eof":
				if at == "question" {
					path = false
					if asked == 0 {
						asked++
					}
				}
				send(string(eof))
			case "Interrupt":
				if r.Intn(2) == 0 {
					send(pick(r, "y", "abc", "/tmp/va", "7", v.Pw[:r.Intn(len(v.Pw))]))
					if r.Intn(2) == 0 {
						p.until(nil, 15*time.Millisecond)
						p.mu.Lock()
						mark = len(p.out)
						p.mu.Unlock()
					}
				}
				send(string(intr))
			case "Type":
				pw := []rune(v.Pw)
				n := typed + r.Intn(len(pw)-typed+1)
				send(string(pw[typed:n]))
				typed = n
			case "Enter":
				if str(op, "pw") == "right" {
					send(string([]rune(v.Pw)[typed:]) + enter())
				} else {
					send("!wrong" + enter())
				}
			case "Key":
				win := g.look()["win"]
				switch k := str(op, "k"); k {
				case "Open":
					if win == "prompt" {
						send(v.Pw)
						p.until(nil, guiQuiet)
					}
					send("\r")
				case "Wrong":
					if win == "prompt" {
						send("wrong")
						p.until(nil, guiQuiet)
					}
					send("\r")
				case "Interrupt":
					send(pick(r, "\x03", string(intr), "\x1c", "\x1a"))
				default:
					l := keyBytes[k]
					send(l[r.Intn(len(l))])
				}
			case "Resize":
				nw, nh := large()
				if op["tiny"] == true {
					nw, nh = small()
				}
				g.resize(nw, nh)
			case "Hurt": // synchronised halfway, taken away, not ours any more
				d := b.out(dir)
				l, _ := os.ReadDir(d + "/default")
				switch n := r.Intn(3); {
				case n == 0:
					os.RemoveAll(d)
				default:
					for _, f := range l {
						if strings.HasPrefix(f.Name(), "band_") {
							if n == 1 {
								c, _ := os.ReadFile(d + "/default/" + f.Name())
								os.WriteFile(d+"/default/"+f.Name(), c[:5+r.Intn(len(c)-5)], 0644)
							} else {
								os.Chmod(d+"/default/"+f.Name(), 0)
							}
							break
						}
					}
				}
				mark = 0
			case "Quit":
				send("\x11")
			default:
				broken("unknown step " + str(op, "a"))
			}
			return look()
		}) {
			return
		}
	}
}
