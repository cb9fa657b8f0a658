// Family "hurt": vaults whose files are damaged and mended while the
// application runs and while it does not.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func init() { families["hurt"] = hurtJob }

// damage makes one file of a vault something that is not a file of a vault. The
// file is whole when it is called.
func damage(r *rand.Rand, b *Box, file, how string) string {
	c, err := os.ReadFile(file)
	must(err)
	profile := filepath.Base(file) == "profile.js"
	head, tail := 3, 2
	if profile {
		head, tail = 12, 1
	}
	info, err := os.Stat(file)
	must(err)
	put := func(c []byte) {
		must(os.WriteFile(file, c, 0644))
		if r.Intn(2) == 0 { // the time of the file stays
			os.Chtimes(file, info.ModTime(), info.ModTime())
		}
	}
	wrap := func(s string) []byte {
		return append(append(append([]byte{}, c[:head]...), s...), c[len(c)-tail:]...)
	}
	other := func(x interface{}) interface{} { // of another type, or none
		l := []interface{}{nil, true, 5, "text", []interface{}{1}, map[string]interface{}{"a": 1}}
		for {
			y := l[r.Intn(len(l))]
			if fmt.Sprintf("%T", y) != fmt.Sprintf("%T", x) && !(fmt.Sprintf("%T", y) == "int" && fmt.Sprintf("%T", x) == "float64") {
				return y
			}
		}
	}
	var m map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(c[head : len(c)-tail]))
	must(d.Decode(&m))
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	in := m
	field := pick(r, "iterations", "masterKey", "overviewKey", "salt")
	if !profile {
		k := keys[r.Intn(len(keys))]
		in = m[k].(map[string]interface{})
		field = pick(r, "category", "created", "updated", "d", "k", "o", "hmac")
		if how == "entry" {
			m[k] = other(in)
			put(wrap(string(jsonBytes(m))))
			return k
		}
		if how == "type" && in["trashed"] != nil && r.Intn(3) == 0 {
			field = "trashed"
		}
	}
	switch how {
	case "short":
		put(c[:r.Intn(head+tail)])
	case "cut":
		put(c[:head+tail+r.Intn(len(c)-head-2*tail)])
		return "cut"
	case "hole":
		n := tail + 1 + r.Intn(len(c)-tail)
		for i := len(c) - n; i < len(c); i++ {
			c[i] = 0
		}
		put(c)
	case "null":
		put(wrap("null"))
	case "shape":
		put(wrap(pick(r, "[]", "[{}]", "5", "\"text\"", "true", "", " ", "{", "}", "{}{}", "undefined", "{\"a\":}", string(jsonBytes([]interface{}{m})))))
	case "type":
		x := other(in[field])
		if x == nil && field == "trashed" {
			x = "yes"
		}
		in[field] = x
		put(wrap(string(jsonBytes(m))))
		return fmt.Sprint(field, "=", x)
	case "missing":
		delete(in, field)
		put(wrap(string(jsonBytes(m))))
		return field
	case "mode":
		must(os.Chmod(file, 0))
	case "dir":
		must(os.Remove(file))
		must(os.Mkdir(file, 0755))
	case "gone": // only of a profile can it be known
		must(os.Remove(file))
	case "link":
		must(os.Remove(file))
		must(os.Symlink("nothing", file))
	default:
		broken("unknown damage " + how)
	}
	return how
}

// node: a value inside a JSON value
type node struct {
	set func(interface{})
	del func()
}

func nodes(x interface{}) []node {
	l := []node{}
	switch c := x.(type) {
	case map[string]interface{}:
		keys := []string{}
		for k := range c {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			l = append(l, node{func(y interface{}) { c[k] = y }, func() { delete(c, k) }})
			l = append(l, nodes(c[k])...)
		}
	case []interface{}:
		for i := range c {
			i := i
			l = append(l, node{func(y interface{}) { c[i] = y }, func() { c[i] = nil }})
			l = append(l, nodes(c[i])...)
		}
	}
	return l
}

func (u *appUser) odd() interface{} {
	l := []interface{}{nil, nil, nil, nil, true, false, 0, -7, 1.5, 1e30, u.marker(), "", []interface{}{}, []interface{}{u.marker(), 1, nil}, map[string]interface{}{},
		map[string]interface{}{"k": u.marker(), "v": nil}, []interface{}{[]interface{}{nil}}, []interface{}{map[string]interface{}{"fields": 5}}}
	return l[u.r.Intn(len(l))]
}

// strange gives an item authentic contents with something unusual in them, and
// tells its title, if it has one, and what of it is to be shown all the same.
func (u *appUser) strange(it *Item) (string, []string) {
	r := u.r
	type O = map[string]interface{}
	form := []interface{}{}
	for n := r.Intn(4); n > 0; n-- {
		form = append(form, O{"name": "n" + fmt.Sprint(n), "value": u.marker(), "type": "T", "designation": "username"})
	}
	secs, typed := []interface{}{}, []O{}
	for n := r.Intn(3); n > 0; n-- {
		fl := []interface{}{}
		for m := r.Intn(5); m > 0; m-- {
			f := O{"k": pick(r, "string", "concealed", "email", "URL", "phone", "menu", "cctype", "gender", "reference", "date", "monthYear", "monthYear", "address", "address"), "n": "n", "t": "t" + fmt.Sprint(m), "v": u.marker()}
			switch f["k"] {
			case "date":
				f["v"] = 1400000000
			case "monthYear":
				f["v"] = 201509
			case "address":
				f["v"] = O{"street": u.marker(), "city": u.marker(), "zip": u.marker(), "country": "pl"}
			}
			if f["k"] == "date" || f["k"] == "monthYear" || f["k"] == "address" {
				typed = append(typed, f)
			}
			fl = append(fl, f)
		}
		secs = append(secs, O{"name": "s", "title": "section", "fields": fl})
	}
	d := O{"fields": form, "sections": secs, "notesPlain": u.marker(), "htmlForm": O{"htmlMethod": "post"}}
	o := O{"title": u.marker(), "url": "https://example.com", "ainfo": "x", "ps": 50, "tags": []interface{}{"a"}}
	for n := 1 + r.Intn(5); n > 0; n-- {
		x := d
		if r.Intn(5) < 2 {
			x = o
		}
		l := nodes(x)
		if len(l) == 0 {
			continue
		}
		t := l[r.Intn(len(l))]
		if len(typed) > 0 && r.Intn(3) == 0 {
			f := typed[r.Intn(len(typed))]
			if m, ok := f["v"].(O); ok && len(m) > 0 && r.Intn(2) == 0 {
				m[pick(r, "street", "city", "zip", "country")] = u.odd()
				continue
			}
			f["v"] = []interface{}{nil, 0, 7, -7, 12, 201, 2015, 20151, 1.5, 1e30, -1e15, "", "7", "201", "text", u.odd()}[r.Intn(16)]
			continue
		}
		// something among the sections or fields
		if r.Intn(4) == 0 {
			in, k := d, pick(r, "fields", "sections")
			if ss, _ := d["sections"].([]interface{}); len(ss) > 0 && r.Intn(2) == 0 {
				if m, ok := ss[r.Intn(len(ss))].(O); ok {
					in, k = m, "fields"
				}
			}
			if fl, ok := in[k].([]interface{}); ok {
				at := r.Intn(len(fl) + 1)
				in[k] = append(append(append([]interface{}{}, fl[:at]...), u.odd()), fl[at:]...)
				continue
			}
		}
		if r.Intn(3) == 0 {
			t.del()
		} else {
			t.set(u.odd())
		}
	}
	it.rawO, it.rawD = jsonBytes(o), jsonBytes(d)
	switch r.Intn(16) {
	case 0:
		it.rawD, d = []byte(pick(r, "", "null", "[]", "[1]", "5", "\"text\"", "{", "{\"fields\":[", "\x00", "\xff")), O{}
	case 1:
		it.rawO, o = []byte(pick(r, "", "null", "[]", "[1]", "5", "\"text\"", "{", "{\"title\":", "\x00", "\xff")), O{}
	}
	title, _ := o["title"].(string)
	// what is as usual
	req := []string{}
	text := func(x interface{}) bool { s, ok := x.(string); return ok && s != "" }
	list := func(x interface{}) []interface{} { l, _ := x.([]interface{}); return l }
	obj := func(x interface{}) O { m, _ := x.(O); return m }
	add := func(x interface{}) {
		if s, ok := x.(string); ok && strings.HasPrefix(s, "S3cr#") {
			req = append(req, s)
		}
	}
	for _, f := range list(d["fields"]) {
		if m := obj(f); text(m["name"]) && text(m["value"]) {
			add(m["value"])
		}
	}
	for _, s := range list(d["sections"]) {
		for _, f := range list(obj(s)["fields"]) {
			m := obj(f)
			if !text(m["k"]) || !text(m["t"]) {
				continue
			}
			switch strings.ToLower(m["k"].(string)) {
			case "address":
				for _, p := range obj(m["v"]) {
					add(p)
				}
			case "date", "monthyear":
			default:
				add(m["v"])
			}
		}
	}
	add(d["notesPlain"])
	sort.Strings(req)
	return title, req
}

func hurtJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	cmd := job["cmd"].(string)
	b := newBox()
	defer b.remove()
	b.srv = server()
	b.link()
	u := &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}}
	v := newVault(r, "Pw!"+hexUid(r)[:10], []int{1, 10, 1000}[r.Intn(3)])
	digits := r.Perm(16)
	for n := 3 + r.Intn(8); n > 0; n-- {
		it := genItem(r, catCodes[r.Intn(len(catCodes))], false)
		it.Title = u.marker()
		it.TitleC = cps(it.Title)
		k := n % 3
		it.band = string("0123456789ABCDEF"[digits[k]])
		it.Uid = it.band + it.Uid[1:]
		if n > 3 {
			it.Trashed = r.Intn(3) == 0
		} else {
			it.Trashed = r.Intn(6) == 0
		}
		v.Items = append(v.Items, it)
	}
	// some have contents that are unusual
	odd, require := map[string]bool{}, map[string][]string{}
	if job["odd"] == true {
		u.secrets = nil
		for n := 1 + r.Intn(5); n > 0; n-- {
			it := &v.Items[r.Intn(len(v.Items))]
			if !odd[it.Uid] {
				odd[it.Uid] = true
				it.Title, require[it.Uid] = u.strange(it)
			}
		}
	}
	height := 36
	if len(odd) > 0 {
		height = 130
	}
	trashed := r.Intn(4) == 0 && cmd != "gui"
	target := v.Items[r.Intn(len(v.Items))]
	for n := 0; n < 8 && len(odd) > 0 && !odd[target.Uid]; n++ {
		target = v.Items[r.Intn(len(v.Items))]
	}
	if cmd == "overview" || cmd == "details" {
		trashed = target.Trashed
	}
	// what is to be seen
	want := []string{}
	n, m, rows := 0, 0, 0
	for _, it := range v.Items {
		if it.Trashed {
			m++
		} else {
			n++
		}
		switch cmd {
		case "list":
			if it.Trashed == trashed {
				rows++
				if it.Title != "" {
					want = append(want, it.Title)
				}
			}
		case "overview", "details":
			if it.Uid == target.Uid {
				if it.Title != "" {
					want = append(want, it.Title)
				}
				want = append(want, "of it")
				if cmd == "details" {
					want = append(want, require[it.Uid]...)
				}
			}
		}
	}
	if rows > 0 {
		want = append(want, fmt.Sprintf("%d rows", rows))
	}
	if cmd == "gui" {
		if n > 0 {
			want = append(want, fmt.Sprintf("All (%d)", n))
		}
		if m > 0 {
			want = append(want, fmt.Sprintf("Trashed (%d)", m))
		}
		if n > 0 && len(odd) > 0 {
			want = append(want, fmt.Sprintf("%d rows", n))
			for i := 1; i <= n; i++ {
				want = append(want, fmt.Sprintf("item %d", i))
			}
			for _, it := range v.Items {
				if !it.Trashed {
					want = append(want, require[it.Uid]...)
				}
			}
		}
	}
	sort.Strings(want)
	dir := "/tmp/vaults/" + pick(r, "x", "my vault", "ü")
	b.mkdir("vaults", 0755)
	v.write(b.out(dir))
	b.own(dir)
	path := func(f string) string {
		if f == "profile" {
			return b.out(dir + "/default/profile.js")
		}
		return b.out(dir + "/default/band_" + string("0123456789ABCDEF"[digits[int(f[1]-'1')]]) + ".js")
	}
	whole := map[string][]byte{}
	for _, f := range []string{"profile", "b1", "b2", "b3"} {
		c, err := os.ReadFile(path(f))
		must(err)
		whole[f] = c
	}
	c := noSettings
	c.Present, c.Vault, c.Notify = true, dir, false
	u.writeConf(c)
	a, _ := answers(r, "ok", "2")
	b.srv.set(map[string][]Resp{"releases": {a}})
	b.srv.take()
	args := []string{"/tmp/bin/1pass"}
	if cmd != "gui" {
		args = append(args, cmd)
		if cmd != "list" {
			args = append(args, target.Uid)
		}
		if trashed {
			args = append(args, "-t")
		}
	}
	if r.Intn(3) == 0 {
		args = append(args, "-v", dir)
	}
	odds := 0
	for range odd {
		odds++
	}
	e.line("I", J{"cmd": cmd, "odd": odds, "raw": fmt.Sprintf("%s %s", target.rawO, target.rawD)})
	var g *guiProc
	stop := func() {
		if g != nil {
			g.p.close()
			g = nil
		}
	}
	defer stop()
	mark := 0
	look := func() J {
		p := g.p
		o := J{"at": "none", "rc": 0, "got": []string{}, "want": want, "says": false, "left": false}
		if p.exited() {
			p.drain()
			o["at"], o["rc"] = "ended", p.rc
		}
		p.mu.Lock()
		out := append([]byte{}, p.out...)
		p.mu.Unlock()
		txt := out[mark:]
		if cmd == "gui" {
			w := g.look()
			if !p.exited() {
				o["at"] = w["win"]
			} else if i := bytes.LastIndex(out, []byte("\x1b[?1049l")); i >= 0 {
				txt = out[i+8:]
			}
			got := []string{}
			if o["at"] == "main" {
				for _, t := range w["rows"].([]string) {
					if strings.HasPrefix(t, "All (") || strings.HasPrefix(t, "Trashed (") {
						got = append(got, t)
					}
				}
			}
			sort.Strings(got)
			o["got"] = got
			o["says"] = p.exited() && len(strings.TrimSpace(string(txt))) > 0 || w["win"] == "error" && w["err"] != ""
		} else {
			if !p.exited() && !p.echo() {
				o["at"] = "prompt"
			}
			got := []string{}
			for _, it := range v.Items {
				if it.Title != "" && bytes.Contains(txt, []byte(it.Title)) {
					got = append(got, it.Title)
				}
				for _, s := range require[it.Uid] {
					if bytes.Contains(txt, []byte(s)) {
						got = append(got, s)
					}
				}
			}
			if n := len(tableRows(string(txt))); n > 0 && cmd == "list" {
				got = append(got, fmt.Sprintf("%d rows", n))
			}
			if cmd != "list" && bytes.Contains(txt, []byte("Trashed: ")) {
				got = append(got, "of it")
			}
			sort.Strings(got)
			o["got"] = got
			o["says"] = len(strings.TrimSpace(strings.Replace(string(txt), "Password:", "", 1))) > 0
		}
		for _, it := range v.Items {
			if it.Title != "" && bytes.Contains(txt, []byte(it.Title)) && cmd == "gui" {
				o["left"] = true
			}
		}
		if p.exited() {
			s := string(out)
			if p.sig != "" || p.rc == 2 || strings.Contains(s, "goroutine ") {
				o["crash"] = fmt.Sprint("rc ", p.rc, " ", p.sig, " ", tail(s, 800))
			}
			if strings.Contains(s, "JAIL") {
				broken("the box does not work: " + s)
			}
			o["text"] = tail(string(txt), 300)
		}
		return o
	}
	settle := func(cond func() bool) {
		g.p.until(cond, 8*time.Second)
		if cmd == "gui" {
			g.settle(guiQuiet)
		}
	}
	win := func() string { return g.look()["win"].(string) }
	key := func(k string) {
		g.p.master.Write([]byte(k))
		g.settle(guiQuiet)
	}
	// opens every item of the first list, first without and then with its values
	walk := func() []string {
		key("\r")
		got := []string{}
		if win() != "items" {
			return append(got, "no list")
		}
		l := g.look()["rows"].([]string)
		got = append(got, fmt.Sprintf("%d rows", len(l)))
		for i := range l {
			if i > 0 {
				key("j")
			}
			d := strings.Join(g.look()["details"].([]string), "\n")
			for _, it := range v.Items {
				for _, s := range require[it.Uid] {
					if strings.Contains(d, s) {
						got = append(got, "not masked: "+s)
					}
				}
			}
			key("\t")
			e := strings.Join(g.look()["details"].([]string), "\n")
			for _, it := range v.Items {
				for _, s := range require[it.Uid] {
					if strings.Contains(e, s) {
						got = append(got, s)
					}
				}
			}
			key("\t")
			if g.p.exited() {
				return got
			}
			if strings.Contains(d, "Trashed: ") && strings.Contains(e, "Trashed: ") {
				got = append(got, fmt.Sprintf("item %d", i+1))
			}
		}
		key("q")
		return got
	}
	none := func() J { return J{"at": "none"} }
	for _, x := range job["ops"].([]interface{}) {
		op := x.(map[string]interface{})
		on := g != nil && !g.p.exited()
		rec := J{"a": str(op, "a"), "f": str(op, "f"), "how": str(op, "how"), "right": op["right"] == true}
		f := str(op, "f")
		ok := true
		switch str(op, "a") {
		case "Hurt":
			what := damage(r, b, path(f), str(op, "how"))
			rec["what"] = what
			b.own(dir)
			ok = e.do(rec, none)
		case "Mend":
			os.RemoveAll(path(f))
			must(os.WriteFile(path(f), whole[f], 0644))
			b.own(dir)
			ok = e.do(rec, none)
		case "Start":
			if on {
				continue
			}
			stop()
			ok = e.do(rec, func() J {
				mark = 0
				if cmd == "gui" {
					g = u.startGui(args[1:], "", 110, height)
					settle(func() bool {
						return win() != "none" && g.p.screen != nil && strings.Contains(g.look()["header"].(string), ")")
					})
				} else {
					g = &guiProc{p: startOnPty(b.command(args...), 200, 60, "", nil), w: 200, h: 60}
					settle(func() bool { return !g.p.echo() })
				}
				return look()
			})
		case "Enter":
			if !on {
				continue
			}
			ok = e.do(rec, func() J {
				pw := v.Pw
				if op["right"] != true {
					pw = "wrong"
				}
				if cmd == "gui" {
					if win() == "error" {
						g.p.master.Write([]byte("\r"))
						settle(func() bool { return win() == "prompt" })
					}
					g.p.master.Write([]byte(pw))
					g.settle(guiQuiet)
				}
				g.p.mu.Lock()
				mark = len(g.p.out)
				g.p.mu.Unlock()
				if cmd == "gui" {
					g.p.master.Write([]byte("\r"))
					settle(func() bool { return win() != "prompt" })
					if len(odd) > 0 && n > 0 && win() == "main" {
						o := look()
						got := append(o["got"].([]string), walk()...)
						sort.Strings(got)
						o["got"] = got
						if g.p.exited() {
							o = look()
						}
						return o
					}
				} else {
					g.p.master.Write([]byte(pw + "\n"))
					settle(g.p.exited)
				}
				return look()
			})
		case "Lock":
			if !on || win() != "main" {
				continue
			}
			ok = e.do(rec, func() J {
				g.p.mu.Lock()
				mark = len(g.p.out)
				g.p.mu.Unlock()
				g.p.master.Write([]byte("\x0c"))
				settle(func() bool { return win() == "prompt" })
				return look()
			})
		case "Quit":
			if !on {
				continue
			}
			ok = e.do(rec, func() J {
				g.p.master.Write([]byte("\x11"))
				settle(g.p.exited)
				return look()
			})
		default:
			broken("unknown op " + str(op, "a"))
		}
		if !ok {
			return
		}
	}
}
