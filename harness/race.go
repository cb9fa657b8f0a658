// Family "race": several runs of the real program at the same time, one file
// operation at a time, in an order given by the schedule.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func init() { families["race"] = raceJob }

// gated: a run that stops before every file operation
type gated struct {
	cmd     *exec.Cmd
	in      *bufio.Reader
	inF     *os.File
	goOn    *os.File
	out     bytes.Buffer
	pending *FileOp // the operation it is about to perform
	rep     *faultReport
	stage   int
	killed  bool
	stuck   bool
}

func (u *appUser) gated(prog []string, input string, kinds string) *gated {
	return u.gatedAt(prog, input, kinds, "")
}

func (u *appUser) gatedAt(prog []string, input string, kinds, where string) *gated {
	js, _ := json.Marshal(Fault{Gate: true, Kinds: kinds, Where: where})
	g := &gated{cmd: u.b.command(append([]string{"trace:" + string(js)}, prog...)...)}
	r, w, err := os.Pipe()
	must(err)
	r2, w2, err := os.Pipe()
	must(err)
	g.cmd.ExtraFiles = []*os.File{w, r2}
	g.cmd.Stdin = strings.NewReader(input)
	g.cmd.Stdout, g.cmd.Stderr = &g.out, &g.out
	g.cmd.SysProcAttr.Setsid = true
	must(g.cmd.Start())
	w.Close()
	r2.Close()
	g.in, g.inF, g.goOn = bufio.NewReader(r), r, w2
	g.next()
	return g
}

// next waits until the run stops again, or is over
func (g *gated) next() {
	g.pending = nil
	g.inF.SetReadDeadline(time.Now().Add(25 * time.Second))
	l, err := g.in.ReadBytes('\n')
	if err != nil {
		syscall.Kill(-g.cmd.Process.Pid, syscall.SIGKILL)
		g.stuck = os.IsTimeout(err)
		g.finish()
		if !g.stuck {
			broken("no report of the tracer: " + tail(g.out.String(), 500))
		}
		return
	}
	var x struct {
		FileOp
		RC  *int
		Sig string
	}
	must(json.Unmarshal(l, &x))
	if x.RC != nil {
		g.rep = &faultReport{RC: *x.RC, Sig: x.Sig}
		g.finish()
		return
	}
	g.pending = &x.FileOp
}

func (g *gated) finish() {
	g.goOn.Close()
	g.cmd.Wait()
	g.inF.Close()
	if g.rep == nil {
		g.rep = &faultReport{RC: -2}
	}
}

func (g *gated) over() bool { return g.rep != nil }

func (g *gated) step() {
	g.goOn.Write([]byte("g"))
	g.next()
}

func (g *gated) kill() {
	g.killed = true
	g.goOn.Write([]byte("k"))
	for g.next(); !g.over(); g.next() { // another thread got there first
		g.goOn.Write([]byte("k"))
	}
}

var saveStages = map[string]int{"start": 0, "create": 1, "write": 2, "rename": 3, "saved": 4}

func (g *gated) saveStage() int {
	o := g.pending
	n := 0
	switch {
	case !strings.HasPrefix(o.Path, confDir) && !strings.HasPrefix(o.Path, "/tmp/h/dot"):
	case o.Class == "c":
		n = 1
	case o.Class == "w":
		n = 2
	case o.Name == "rename":
		n = 3
	case g.stage >= 3:
		n = 4
	}
	return n
}

var updateStages = map[string]int{"start": 0, "clear": 1, "mkdir": 2, "arc": 3, "sum": 4, "ext": 5, "ext2": 6, "check": 7, "chmod": 8, "rename": 9, "clean": 10, "finish": 11}

func (g *gated) updateStage() int {
	o := g.pending
	n := 0
	base := filepath.Base(o.Path)
	switch {
	case o.Name == "rename" && strings.HasPrefix(o.Path, "/tmp/bin"):
		n = 9
	case !strings.HasPrefix(o.Path, domain.CacheDir):
	case g.stage >= 9:
		n = 10
	case o.Class == "m" && (o.Name == "mkdir" || o.Name == fmt.Sprint("sys", syscall.SYS_MKDIR)):
		n = 2
	case o.Class == "m" && (o.Name == "chmod" || o.Name == fmt.Sprint("sys", syscall.SYS_CHMOD) || o.Name == fmt.Sprint("sys", syscall.SYS_FCHMOD)):
		n = 8
	case o.Class == "m":
		n = 1
	case o.Class == "r" && strings.Contains(base, "checksum"), o.Class == "r" && base == "1pass" && g.stage >= 5:
		n = 7
	case o.Class == "r":
	case strings.Contains(base, ".tar.gz"):
		n = 3
	case strings.Contains(base, "checksum"):
		n = 4
	case o.Class == "c":
		n = 5
	case o.Class == "w":
		n = 6
	}
	return n
}

func raceJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	b := newBox()
	defer b.remove()
	b.srv = server()
	u := &updUser{appUser: &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}}, sums: map[[32]byte]string{}}
	n := int(job["n"].(float64))
	update := str(job, "kind") == "update"
	u.makeVaults(map[bool]int{true: 1, false: 0}[update], false)
	started := settings{r.Intn(5) > 0 || update, "/tmp/vaults/x", r.Intn(2) == 0, 3 + r.Intn(5), r.Intn(3)}
	if !started.Present {
		started = noSettings
	}
	u.writeConf(started)
	if update {
		app, err := os.ReadFile(os.Getenv("VDRV_APP"))
		must(err)
		u.add("old", app, true)
		b.install()
	} else {
		b.link()
		exe, err := os.Executable()
		must(err)
		if os.Link(exe, b.out("bin/vd")) != nil {
			c, err := os.ReadFile(exe)
			must(err)
			b.write("bin/vd", c, 0755)
		}
		b.srv.set(map[string][]Resp{"releases": {{Mode: "rst"}}})
	}
	e.line("I", J{"kind": str(job, "kind"), "n": n, "current": chars(domain.Version), "conf": readConf(b.out(confDir))})

	// what is looked at: the settings file or the application
	watched := b.out(confDir + "/1pass.yml")
	if update {
		watched = b.out("/tmp/bin/1pass")
	}
	type mark struct {
		ino        uint64
		size, when int64
		mode       os.FileMode
	}
	look := func() mark {
		info, err := os.Stat(watched)
		if err != nil {
			return mark{}
		}
		s := info.Sys().(*syscall.Stat_t)
		return mark{s.Ino, s.Size, s.Mtim.Nano(), info.Mode()}
	}
	seen := look()
	runs := make([]*gated, n)
	plans := make([]map[string][]Resp, n)
	inputs := make([]string, n)
	progs := make([][]string, n)
	ops := make([]J, n)
	kinds := make([]string, n)
	for p := range runs {
		kinds[p] = "cwm"
		if update {
			kinds[p] = "rcwm"
			sound := job["sound"].([]interface{})[p].(bool)
			ops[p], plans[p] = u.release(fmt.Sprint("b", p+1), sound)
			progs[p], inputs[p] = []string{"/tmp/bin/1pass", "update"}, "y\n"
			continue
		}
		if r.Intn(3) > 0 {
			l := u.dialogAnswers(J{"set": r.Intn(3) > 0, "vault": pick(r, "v1", "v2", "b"), "notify": pick(r, "y", "n", ""), "period": pick(r, "0", "n", "")})
			cs := [][]string{}
			for _, s := range l {
				cs = append(cs, chars(s))
			}
			ops[p] = J{"via": "dialog", "ans": cs}
			progs[p], inputs[p] = []string{"/tmp/bin/1pass", "configure"}, strings.Join(l, "\n")+"\n"
		} else {
			c := settings{true, "/tmp/" + strings.Repeat("long/", r.Intn(900)) + hexUid(r), r.Intn(2) == 0, 1 + r.Intn(30), r.Intn(366)}
			ops[p] = J{"via": "api", "c": c}
			progs[p] = []string{"/tmp/bin/vd", "apisave", string(jsonBytes(c))}
		}
	}
	ok := true
	// changed reports what has become of the watched file by what run p did
	changed := func(p int) {
		m := look()
		if m == seen {
			return
		}
		seen = m
		ok = ok && e.do(J{"a": "Changed", "p": p + 1}, func() J {
			if update {
				id, x := u.installed()
				return J{"app": id, "exec": x}
			}
			return J{"conf": readConf(b.out(confDir))}
		})
	}
	ended := func(p int) {
		g := runs[p]
		e.line("O", J{"a": "End", "p": p + 1})
		all := g.out.String()
		crash := ""
		if g.stuck {
			crash = "it does not end"
		} else if !g.killed && (g.rep.Sig != "" || g.rep.RC == 2) {
			crash = fmt.Sprint("rc ", g.rep.RC, " ", g.rep.Sig, " ", tail(all, 800))
		}
		if g.rep.RC == 97 && strings.Contains(all, "JAIL") {
			broken("the box does not work: " + all)
		}
		e.line("R", J{"crash": crash, "rc": g.rep.RC, "killed": g.killed, "said": strings.TrimSpace(all) != "", "out": tail(all, 300)})
		ok = ok && crash == ""
	}
	start := func(p int) {
		op := J{"a": "Start", "p": p + 1}
		for k, v := range ops[p] {
			op[k] = v
		}
		e.line("O", op)
		if update {
			b.srv.set(plans[p])
		}
		runs[p] = u.gated(progs[p], inputs[p], kinds[p])
		e.line("R", J{"crash": ""})
		changed(p)
		if runs[p].over() {
			ended(p)
		}
	}
	stageOf := func(g *gated) int {
		n := 0
		if update {
			n = g.updateStage()
		} else {
			n = g.saveStage()
		}
		if n < g.stage {
			n = g.stage
		}
		return n
	}
	one := func(p int) {
		g := runs[p]
		g.stage = stageOf(g)
		if update {
			b.srv.set(plans[p])
		}
		g.step()
		changed(p)
		if g.over() {
			ended(p)
		}
	}
	stages := saveStages
	if update {
		stages = updateStages
	}
	// somebody who only reads the settings, all the while
	var reader *gated
	reading := !update && started.Present && r.Intn(2) == 0
	peek := func(last bool) {
		for reading && ok && (last || r.Intn(3) == 0) {
			if reader == nil {
				reader = u.gatedAt([]string{"/tmp/bin/1pass", "list", "-v", "/tmp/no such vault"}, "", "r", confDir)
			} else {
				reader.step()
			}
			if reader.over() {
				reading = false
				all := reader.out.String()
				e.line("O", J{"a": "Reader"})
				crash := ""
				if reader.stuck || reader.rep.Sig != "" || reader.rep.RC == 2 {
					crash = fmt.Sprint("rc ", reader.rep.RC, " ", reader.rep.Sig, " ", tail(all, 800))
				}
				e.line("R", J{"crash": crash, "rc": reader.rep.RC, "dialog": strings.Contains(all, "Configuring 1pass"), "out": tail(all, 300)})
				ok = ok && crash == ""
			}
		}
	}
	fine := r.Intn(3) == 0 // single operations, not stages
	for _, o := range job["sched"].([]interface{}) {
		if !ok {
			break
		}
		op := o.(map[string]interface{})
		p := int(op["p"].(float64)) - 1
		s := str(op, "s")
		if runs[p] == nil {
			start(p)
			continue
		}
		peek(false)
		g := runs[p]
		switch {
		case g.over():
		case s == "kill":
			g.kill()
			changed(p)
			ended(p)
		case fine:
			for k := 1 + r.Intn(6); k > 0 && !g.over() && ok; k-- {
				one(p)
				peek(false)
			}
		default:
			for !g.over() && ok && stageOf(g) <= stages[s] {
				one(p)
			}
		}
	}
	for p := range runs { // the rest, one after the other
		if ok && runs[p] == nil {
			start(p)
		}
		for ok && !runs[p].over() {
			one(p)
			peek(false)
		}
	}
	peek(true)
	for _, g := range append(runs, reader) {
		if g != nil && !g.over() {
			g.kill()
		}
	}
	if !ok {
		return
	}
	if !update {
		e.do(J{"a": "Read"}, func() J { return J{"conf": readConf(b.out(confDir)), "extra": u.keptExtra()} })
		return
	}
	// one more, alone, after all that
	if !u.runsNow() {
		b.install()
		e.line("O", J{"a": "Install"})
		e.line("R", J{"crash": ""})
	}
	op, plan := u.release("last", true)
	op["a"] = "Alone"
	b.srv.set(plan)
	e.do(op, func() J {
		res := u.runPipe([]string{"update"}, "y\n")
		x := J{"rc": res.rc, "said": true, "out": tail(string(res.out), 300), "cache": exists(b.out(domain.CacheDir))}
		x["app"], x["exec"] = u.installed()
		if res.sig != "" || res.rc == 2 || res.stuck {
			x["crash"] = fmt.Sprint("rc ", res.rc, " ", res.sig, tail(string(res.out), 800))
		}
		return x
	})
}

// release: a release with an application of its own, and a checksum that
// matches it or does not
func (u *updUser) release(id string, sound bool) (J, map[string][]Resp) {
	r := u.r
	bl := u.content(id)
	es := []tarEntry{{name: "1pass", typ: '0', body: bl.body, mode: []int64{0755, 0644}[r.Intn(2)]}}
	rec := []J{{"name": chars("1pass"), "type": "reg", "id": bl.id, "md5": chars(bl.md5)}}
	if r.Intn(2) == 0 {
		x := u.extra("extra")
		es = append(es, tarEntry{name: "README.md", typ: '0', body: x.body, mode: 0644})
		rec = append(rec, J{"name": chars("README.md"), "type": "reg", "id": x.id, "md5": chars(x.md5)})
	}
	archive := tarball(es)
	text := u.checksum(bl, sound, archive)
	a, t := answers(r, "ok", "2")
	return J{"first": J{"kind": "ok", "tag": chars(t)}, "arc": J{"tr": "ok", "entries": rec}, "sum": J{"tr": "ok", "text": chars(text)}},
		map[string][]Resp{"releases": {a}, "archive": {{Mode: "ok", Body: archive}}, "checksum": {{Mode: "ok", Body: []byte(text)}}}
}
