// The terminal interface: the application on a terminal whose screen is
// interpreted, key by key.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func init() { families["gui"] = guiJob }

type guiProc struct {
	p    *Proc
	w, h int
	seen int // output read so far
}

func (u *appUser) startGui(args []string, answers string, w, h int) *guiProc {
	p := startOnPty(u.b.command(append([]string{"/tmp/bin/1pass"}, args...)...), w, h, answers, newScreen(w, h))
	return &guiProc{p: p, w: w, h: h}
}

// resize: the size of the terminal changes
func (g *guiProc) resize(w, h int) {
	g.p.mu.Lock()
	g.w, g.h = w, h
	g.p.screen.w, g.p.screen.h = w, h
	g.p.screen.clear()
	g.p.last = time.Now()
	g.p.mu.Unlock()
	setWinsize(g.p.master, w, h)
}

// window: the text inside a frame, and which row is highlighted
func (g *guiProc) window(x0, y0, x1, y1 int, trimLeft bool) ([]string, int) {
	s := g.p.screen
	rows := []string{}
	hl := -1
	for y := y0 + 1; y < y1; y++ {
		t := s.line(y, x0+1, x1)
		for x := x0 + 1; x < x1 && x < s.w; x++ {
			if s.cells[y][x].bg != 0 {
				hl = y - y0 - 1
			}
		}
		if trimLeft {
			t = strings.TrimSpace(t)
		} else {
			t = strings.TrimRight(t, " ")
		}
		rows = append(rows, t)
	}
	return rows, hl
}

func cut(rows []string) []string {
	for len(rows) > 0 && rows[len(rows)-1] == "" {
		rows = rows[:len(rows)-1]
	}
	return append([]string{}, rows...)
}

func (g *guiProc) titleAt(x, y int, t string) bool {
	return strings.HasPrefix(g.p.screen.line(y, x, g.w), t)
}

// look: what is on the screen
func (g *guiProc) look() J {
	p := g.p
	p.mu.Lock()
	defer p.mu.Unlock()
	W, H := g.w, g.h
	o := J{"on": true, "win": "none", "rows": []string{}, "hl": -1, "details": []string{}, "stars": 0, "other": "", "err": ""}
	xi := int(0.5 * float32(W-2))
	xd := int(0.5*float32(W-2) + 1)
	o["header"] = strings.TrimRight(p.screen.line(1, 1, W-1), " ")
	o["help"] = strings.TrimRight(p.screen.line(H-2, 1, W-1), " ")
	px0, px1, py := W/2-30, W/2+30, H/2-1
	switch {
	case !p.screen.alt:
		o["win"] = "none"
	case g.titleAt(px0+2, py, "Password"):
		o["win"] = "prompt"
		t := strings.TrimRight(p.screen.line(py+1, px0+1, px1), " ")
		o["stars"] = strings.Count(t, "*")
		o["other"] = strings.Trim(t, "*")
		// what lies around the dialog
		rows, _ := g.window(0, 3, W-1, H-4, true)
		rest := ""
		for i, r := range rows {
			if i+4 < py || i+4 > py+2 {
				rest += r
			}
		}
		o["around"] = strings.TrimSpace(rest)
	case g.titleAt(px0+2, py, "Error"):
		o["win"] = "error"
		o["err"] = strings.TrimSpace(p.screen.line(py+1, px0+1, px1))
		rows, _ := g.window(0, 3, W-1, H-4, true)
		rest := ""
		for i, r := range rows {
			if i+4 < py || i+4 > py+2 {
				rest += r
			}
		}
		o["around"] = strings.TrimSpace(rest)
	case g.titleAt(3, 4, "Items"):
		o["win"] = "items"
		rows, hl := g.window(1, 4, xi, H-5, false)
		o["rows"], o["hl"] = cut(rows), hl
		d, _ := g.window(xd, 4, W-2, H-5, false)
		o["details"] = cut(d)
		if !g.titleAt(xd+2, 4, "Details") {
			o["details"] = []string{"<no window>"}
		}
	case g.titleAt(2, 3, "1Pass"):
		o["win"] = "main"
		rows, hl := g.window(0, 3, W-1, H-4, true)
		o["rows"], o["hl"] = cut(rows), hl
	}
	return o
}

// visible: texts on the screen, or written to the terminal since the last call
func (g *guiProc) visible(secrets []string) []string {
	p := g.p
	p.mu.Lock()
	defer p.mu.Unlock()
	t := strings.Join(p.screen.lines(), "\n")
	raw := p.out[g.seen:]
	g.seen = len(p.out)
	l := []string{}
	for _, s := range secrets {
		if s != "" && (strings.Contains(t, s) || bytes.Contains(raw, []byte(s))) {
			l = append(l, s)
		}
	}
	return l
}

func (g *guiProc) settle(q time.Duration) string { return g.p.until(nil, q) }

const guiQuiet = 45 * time.Millisecond

// runGui: one run of the terminal interface in a history of commands: start,
// password, look, leave.
func (u *appUser) runGui(e *emitter, rec J, args []string, input, pw string, before map[string]fstate) bool {
	for strings.ContainsRune(pw, '\t') || len([]rune(pw)) > 50 || !plainText(pw) {
		// not typable in the prompt: another wrong one
		pw = "no such password"
	}
	rec["pw"] = fmt.Sprintf("%x", pw)
	rec["pwraw"] = strconv.Quote(pw)
	ok := e.do(rec, func() J {
		g := u.startGui(args, input, 130, 40)
		defer g.p.close()
		res := runResult{}
		w := g.p.until(func() bool { return g.look()["win"] == "prompt" }, 3*time.Second)
		gui := J{"on": false}
		if w == "cond" {
			res.prompted = true
			// the result of the update check appears in the header
			end := time.Now().Add(10 * time.Second)
			for time.Now().Before(end) {
				h := g.look()["header"].(string)
				if strings.Contains(h, ")") || g.p.exited() {
					break
				}
				time.Sleep(3 * time.Millisecond)
			}
			g.settle(guiQuiet)
			first := g.look()
			if !g.p.exited() {
				g.p.master.Write([]byte(pw))
				if pw != "" {
					g.p.until(func() bool { return g.look()["stars"] == len([]rune(pw)) }, 2*time.Second)
				}
				g.settle(guiQuiet)
				typed := g.look()
				gui = g.look()
				gui["stars"] = typed["stars"]
				gui["other"] = typed["other"]
				g.p.master.Write([]byte("\r"))
				g.p.until(func() bool { return g.look()["win"] != "prompt" }, 3*time.Second)
				g.settle(guiQuiet)
				fin := g.look()
				fin["stars"], fin["other"], fin["header"] = typed["stars"], typed["other"], first["header"]
				fin["nstars"] = len([]rune(pw))
				gui = fin
				g.p.master.Write([]byte{17})
			}
			if g.p.until(nil, 3*time.Second) != "exit" {
				res.stuck = true
			}
		} else if w == "quiet" {
			res.stuck = true
		}
		if g.p.exited() {
			g.p.drain()
			res.rc, res.sig = g.p.rc, g.p.sig
		} else {
			res.rc = -2
		}
		res.out = g.p.output()
		res.promptAt = len(res.out)
		if i := bytes.Index(res.out, []byte("\x1b[?1049h")); i >= 0 {
			res.promptAt = i
		}
		x := u.observe(res, before, pw)
		x["pretext"] = strings.ReplaceAll(x["pretext"].(string), "\r", "")
		x["post"] = ""
		x["gui"] = gui
		x["app"] = "old"
		return x
	})
	if !ok {
		return false
	}
	if l := u.readLast(); l.Kind == "time" && l.Fresh {
		u.setLast("time", 0)
		e.line("O", J{"a": "Last", "l": u.readLast()})
		e.line("R", J{"crash": ""})
	}
	return true
}

// plainText: characters that take one cell and have no effect of their own
func plainText(s string) bool {
	for _, c := range s {
		if c < 32 || c == 127 || c >= 0x80 && c < 0xa1 || c == 0xad || c >= 0x300 && c < 0x370 || c > 0x4ff || c == 0xfffd {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ family "gui"

func (u *appUser) guiText() string {
	r := u.r
	for {
		var s string
		switch r.Intn(6) {
		case 0:
			s = u.marker() + "\n" + u.marker()
			if r.Intn(3) == 0 {
				s = strings.ReplaceAll(s, "\n", pick(r, "\r\n", "\r", "\n\n", "\n\r\n"))
			}
			return s
		case 1:
			l := []string{}
			for n := 1 + r.Intn(60); n > 0; n-- {
				l = append(l, fmt.Sprintf("%d %s", n, u.marker()))
			}
			return strings.Join(l, "\n")
		case 2:
			s = strings.Repeat("0123456789", r.Intn(20)) + u.marker()
		case 3:
			s = genText(r, false)
		default:
			s = u.marker()
		}
		if plainText(s) && len(s) < 3000 {
			return s
		}
	}
}

func (u *appUser) guiItem(cats []string, used map[string]bool) Item {
	r := u.r
	it := genItem(r, cats[r.Intn(len(cats))], false)
	it.Details = genDetailsT(r, u.guiText, false)
	it.Url = ""
	if r.Intn(2) == 0 {
		it.Url = pick(r, "https://example.com/login?a=b&c=%20#x", "http://x", "100%", "ftp://ü.example/")
	}
	for n := 0; ; n++ {
		t := strings.TrimSpace(genTitle(r, true))
		if n > 3 {
			t += " " + strconv.Itoa(r.Intn(1000))
		}
		if r.Intn(4) == 0 {
			t = strings.TrimSpace(t + " " + u.marker())
		}
		if r.Intn(15) == 0 {
			t = ""
		}
		if plainText(t) && !used[it.Cat+"/"+t] {
			used[it.Cat+"/"+t] = true
			it.Title = t
			break
		}
	}
	it.TitleC = cps(it.Title)
	return it
}

func (u *appUser) guiItems(n int, cats []string) []Item {
	used := map[string]bool{}
	l := []Item{}
	for ; n > 0; n-- {
		l = append(l, u.guiItem(cats, used))
	}
	return l
}

func guiPw(r *rand.Rand) string {
	for {
		s := genPw(r)
		if r.Intn(12) == 0 { // wider than the prompt
			for len([]rune(s)) < 55+r.Intn(80) {
				s += genPw(r)
			}
			if plainText(s) && len([]rune(s)) <= 150 {
				return s
			}
			continue
		}
		if plainText(s) && len([]rune(s)) <= 40 {
			return s
		}
	}
}

var keyBytes = map[string][]string{"Down": {"j", "\x1bOB"}, "Up": {"k", "\x1bOA"}, "Right": {"l", "\x1bOC"}, "Left": {"h", "\x1bOD"}, "Enter": {"\r"}, "Tab": {"\t"},
	"q": {"q"}, "Lock": {"\x0c"}, "Quit": {"\x11"}, "Other": {"x", "\x06", "\x1b[6~", "G"}}

func guiJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	b := newBox()
	defer b.remove()
	b.srv = server()
	b.link()
	u := &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}}
	v := newVault(r, guiPw(r), []int{1, 10, 1000}[r.Intn(3)])
	v.extra = r.Intn(2) == 0
	if r.Intn(2) == 0 {
		v.Pw = "Pw!" + hexUid(r)[:10]
	}
	pool := catCodes
	switch r.Intn(4) {
	case 0:
		pool = []string{catCodes[r.Intn(len(catCodes))]}
	case 1:
		pool = []string{"001", "002", "111", "999"}
	}
	n := r.Intn(u.opt("maxitems", 12) + 1)
	v.Items = u.guiItems(n, pool)
	switch r.Intn(4) {
	case 0:
		for i := range v.Items {
			v.Items[i].Trashed = false
		}
	case 1:
		if r.Intn(4) == 0 {
			for i := range v.Items {
				v.Items[i].Trashed = true
			}
		}
	}
	dir := "/tmp/vaults/x"
	b.mkdir("vaults", 0755)
	v.write(b.out(dir))
	b.own(dir)
	u.vaults = map[string]*VaultState{"v1": v}
	w := 64 + r.Intn(80)
	h := 14 + r.Intn(30)
	if x := u.opt("rows", 0); x > 0 {
		h = x
	}
	c := noSettings
	c.Present, c.Vault = true, dir
	u.writeConf(c)
	kind, tag := pick(r, "ok", "ok", "bad", "odd"), pick(r, "2", "1", "v2")
	a, t := answers(r, kind, tag)
	b.srv.set(map[string][]Resp{"releases": {a}})
	b.srv.take()
	e.line("I", J{"vault": v.trace(), "w": w, "h": h, "srv": J{"kind": kind, "tag": chars(t)}, "current": chars(domain.Version)})
	var g *guiProc
	defer func() {
		if g != nil {
			g.p.close()
		}
	}()
	before := b.snap()
	observe := func() J {
		o := g.look()
		delete(o, "help")
		if o["around"] == nil {
			o["around"] = ""
		}
		o["alive"] = !g.p.exited()
		o["rc"] = 0
		if g.p.exited() {
			g.p.drain()
			o["rc"] = g.p.rc
			out := string(g.p.output())
			if g.p.sig != "" || g.p.rc == 2 || g.p.rc == 1 {
				o["crash"] = "ended: rc " + strconv.Itoa(g.p.rc) + " " + g.p.sig + " " + tail(out, 800)
			}
		}
		l := []string{}
		pwseen := false
		for _, s := range g.visible(append(append([]string{}, u.secrets...), u.pws...)) {
			isPw := false
			for _, p := range u.pws {
				isPw = isPw || p == s
			}
			if isPw {
				pwseen = true
			} else {
				l = append(l, s)
			}
		}
		o["seen"], o["pwseen"] = l, pwseen
		cl, names, leak := u.changes(before)
		before = b.snap()
		o["files"], o["changed"], o["leak"] = cl, names, leak
		return o
	}
	if !e.do(J{"a": "Start"}, func() J {
		g = u.startGui([]string{}, "", w, h)
		g.p.until(func() bool { return g.look()["win"] == "prompt" }, 3*time.Second)
		end := time.Now().Add(10 * time.Second)
		for time.Now().Before(end) {
			if strings.Contains(g.look()["header"].(string), ")") || g.p.exited() || w < 100 && strings.Contains(g.look()["header"].(string), "(") {
				break
			}
			time.Sleep(3 * time.Millisecond)
		}
		g.settle(guiQuiet)
		return observe()
	}) {
		return
	}
	for _, o := range job["ops"].([]interface{}) {
		op := o.(map[string]interface{})
		switch str(op, "a") {
		case "Type", "Paste":
			pw := v.Pw
			if str(op, "pw") != "right" {
				for {
					pw = wrongPw(r, v.Pw)
					if plainText(pw) && (len([]rune(pw)) <= 50 || len([]rune(v.Pw)) > 50) {
						break
					}
				}
			}
			// with slips, taken back; the interface looks at a correction only
			// after it has drawn what was typed before
			send := []string{""}
			for _, c := range pw {
				if r.Intn(20) == 0 {
					send = append(send, "z", "\x7f", "")
				}
				send[len(send)-1] += string(c)
			}
			if u.distinct(pw) {
				u.pws = append(u.pws, pw)
			}
			if str(op, "a") == "Paste" { // all at once
				send = []string{pw + "\r"}
			}
			if !e.do(J{"a": str(op, "a"), "pw": fmt.Sprintf("%x", pw), "raw": strconv.Quote(pw)}, func() J {
				for _, s := range send {
					g.p.master.Write([]byte(s))
					g.settle(guiQuiet)
				}
				return observe()
			}) {
				return
			}
		case "Key":
			k := str(op, "k")
			l := keyBytes[k]
			if !e.do(J{"a": "Key", "k": k}, func() J {
				g.p.master.Write([]byte(l[r.Intn(len(l))]))
				g.settle(guiQuiet)
				return observe()
			}) {
				return
			}
			if k == "Quit" {
				return
			}
		case "Resize": // for good, or there and back again
			nw, nh := 64+r.Intn(80), 14+r.Intn(30)
			back := str(op, "how") == "back"
			if !e.do(J{"a": "Resize", "w": nw, "h": nh, "back": back}, func() J {
				ow, oh := g.w, g.h
				g.resize(nw, nh)
				g.settle(guiQuiet)
				if back {
					g.resize(ow, oh)
					g.settle(guiQuiet)
				}
				return observe()
			}) {
				return
			}
		case "Disk":
			switch r.Intn(3) {
			case 0:
				v.Items = u.guiItems(r.Intn(u.opt("maxitems", 12)+1), pool)
			case 1:
				for i := range v.Items {
					it := v.Items[i].clone()
					it.Trashed = r.Intn(3) == 0
					v.Items[i] = it
				}
			default:
				if len(v.Items) > 0 {
					i := r.Intn(len(v.Items))
					it := v.Items[i].clone()
					it.Details = genDetailsT(r, u.guiText, false)
					v.Items[i] = it
				}
			}
			v.write(b.out(dir))
			b.own(dir)
			before = b.snap()
			e.line("O", J{"a": "Disk", "to": v.trace()})
			e.line("R", J{"crash": ""})
		default:
			broken("unknown op " + str(op, "a"))
		}
	}
}
