// Family "update": updates by the real program, with all kinds of releases,
// server faults and faults of the disk, one after the other in the same place.
package main

import (
	"archive/tar"
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func init() { families["update"] = updateJob }

type blob struct {
	id, md5 string
	body    []byte
	runs    bool
}

type updUser struct {
	*appUser
	blobs   []*blob
	sums    map[[32]byte]string
	nextras int
}

func (u *updUser) add(id string, body []byte, runs bool) *blob {
	h := sha256.Sum256(body)
	if x, ok := u.sums[h]; ok {
		id = x
	}
	u.sums[h] = id
	return &blob{id, md5hex(body), body, runs}
}

func (u *updUser) content(id string) *blob {
	r := u.r
	switch r.Intn(8) {
	case 0:
		b, err := os.ReadFile(os.Getenv("VDRV_APP"))
		must(err)
		return u.add(id, append(b, []byte(hexUid(r))...), true)
	case 1:
		b := make([]byte, []int{1, 511, 512, 513, 1024, 32768, 32769, 300000}[r.Intn(8)])
		r.Read(b)
		return u.add(id, b, false)
	}
	return u.add(id, []byte("#!/bin/sh\necho "+hexUid(r)+"\n"+strings.Repeat("#\n", r.Intn(3000))), false)
}

func (u *updUser) extra(s string) *blob {
	u.nextras++
	return u.add(fmt.Sprint("x", u.nextras), []byte(s+hexUid(u.r)), false)
}

type entry struct {
	tarEntry
	b *blob
}

// archive: the entries of an archive with the application b (nil: none), of
// the given kind
func (u *updUser) archive(kind string, b *blob, sum string) (es []entry) {
	r := u.r
	reg := func(name string, x *blob) entry {
		return entry{tarEntry{name: name, typ: tar.TypeReg, body: x.body, mode: []int64{0755, 0644, 0600, 0}[r.Intn(4)]}, x}
	}
	raw := func(name, s string) entry {
		u.nextras++
		return reg(name, u.add(fmt.Sprint("x", u.nextras), []byte(s), false))
	}
	if r.Intn(3) == 0 {
		es = append(es, entry{tarEntry: tarEntry{name: "./", typ: tar.TypeDir, mode: 0755}})
	}
	name := pick(r, "1pass", "1pass", "1pass", "./1pass")
	if b != nil {
		es = append(es, reg(name, b))
	}
	put := func(l ...entry) {
		k := r.Intn(len(es) + 1)
		es = append(es[:k:k], append(l, es[k:]...)...)
	}
	names := []string{"README.md", "LICENSE", "extracted", "1pass.tar.gz", "1pass.old", "1pass2", "1pas", ".1pass", "1PASS", "checksum.txt", strings.Repeat("n", 120), "ünï", "a b", "..x", "...", "-rf"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 0; i < r.Intn(4); i++ {
		put(reg(names[i], u.extra("extra")))
	}
	if r.Intn(3) == 0 { // a checksum of its own
		m := md5hex(nil)
		if b != nil {
			m = b.md5
		}
		put(raw("checksum.md5", m+"  1pass\n"))
	}
	switch kind {
	case "evil":
		// how deep the archive is extracted is not known here
		pick := func(r *rand.Rand, l ...string) string {
			n := pick(r, l...)
			if r.Intn(3) > 0 {
				n = strings.Replace(n, "../../", "../../../", 1)
			}
			return n
		}
		m := sum
		if b != nil {
			m = b.md5
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			switch r.Intn(4) {
			case 0:
				put(raw("../checksum.md5", m+"  1pass\n"))
			case 1:
				put(reg(pick(r, "../../bin/1pass", "/tmp/bin/1pass", "../../../tmp/bin/1pass", "x/../../../bin/1pass", "../../1pass", "../1pass"), u.extra("#!/bin/sh\n#evil ")))
			case 2:
				put(reg(pick(r, "../../h/canary", "../../canary", "../../new", "../../h/.bashrc", "../../h/new/x", "./../../canary", "a/../../../canary", "../../h/.config/1pass/1pass.yml",
					"/tmp/h/canary", "/tmp/canary", "//tmp/canary", "/../../../tmp/canary", "../../cwd/canary", "../extracted2", "../extracted/../../canary", "../../../../../../../../tmp/canary",
					"..", "../..", ".", "../../1pass-evil", "../../1pass.evil/x", "../extracted.evil"), u.extra("evil")))
			case 3:
				put(reg(pick(r, "../1pass.tar.gz", "../extracted/1pass", "../extracted/x", "../x"), u.extra("inside")))
			}
		}
	case "odd":
		pick := func(r *rand.Rand, l ...string) string {
			n := pick(r, l...)
			if r.Intn(3) > 0 {
				n = strings.Replace(n, "../../", "../../../", 1)
			}
			return n
		}
		link := func(name, to string) entry {
			return entry{tarEntry: tarEntry{name: name, typ: tar.TypeSymlink, link: to, mode: 0777}}
		}
		hard := func(name, to string) entry {
			return entry{tarEntry: tarEntry{name: name, typ: tar.TypeLink, link: to, mode: 0644}}
		}
		switch r.Intn(9) {
		case 0:
			es = append([]entry{link("1pass", pick(r, "/tmp/h/canary", "../../h/canary", "/tmp/canary", "../../new", "/tmp/bin/1pass", "../checksum.md5"))}, es...)
		case 1:
			es = append(es, link("1pass", pick(r, "/tmp/h/canary", "../../h/canary", "/tmp/bin/1pass", "README.md")))
		case 2:
			put(link("d", pick(r, "/tmp/h", "../../h", "..", "/tmp", "../..")), reg(pick(r, "d/canary", "d/new", "d/checksum.md5", "d/bin/1pass"), u.extra("evil")))
		case 3:
			put(hard(pick(r, "1pass", "x"), pick(r, "/tmp/h/canary", "../../h/canary", "/tmp/bin/1pass", "1pass")))
		case 4:
			put(entry{tarEntry: tarEntry{name: "sub/", typ: tar.TypeDir, mode: 0755}}, reg("sub/x", u.extra("sub")))
			if r.Intn(2) == 0 {
				es = append(es, entry{tarEntry: tarEntry{name: pick(r, "../../h/newdir/", "/tmp/h/newdir", "../../newdir/", "../newdir"), typ: tar.TypeDir, mode: 0755}})
			}
		case 5:
			put(reg("1pass", u.extra("#!/bin/sh\n#other ")))
		case 6:
			put(entry{tarEntry: tarEntry{name: pick(r, "1pass", "fifo"), typ: tar.TypeFifo, mode: 0644}})
		case 7:
			put(entry{tarEntry: tarEntry{name: "1pass", typ: tar.TypeDir, mode: 0755}})
		case 8:
			put(reg(pick(r, "sub/1pass", "1pass/1pass", "extracted/1pass", "bin/1pass"), u.blobs[r.Intn(len(u.blobs))]))
		}
	}
	return es
}

func (u *updUser) checksum(b *blob, right bool, archive []byte) string {
	r := u.r
	m := b.md5
	if right {
		return pick(r, m, m+"\n", m+"  1pass\n", m+" *1pass\n", " "+m+"\n", m+"\r\n", "\n"+m+"\t1pass", m+" 1pass\n"+md5hex(archive)+" 1pass.tar.gz\n")
	}
	flip := []byte(m)
	k := r.Intn(32)
	flip[k] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", flip[k])+1+r.Intn(15))%16]
	wrong := string(flip)
	return pick(r, "", "\n", "  \n ", m[:31], m[1:], m+"0", "0"+m, wrong+"\n", wrong+"  1pass-"+m+"\n", wrong+"  1pass\n", md5hex(archive)+"  1pass.tar.gz\n", md5hex(nil), strings.Repeat("0", 32),
		"<html>not found</html>", m[:16], "1pass", m[:1], md5hex([]byte(m)))
}

// fault: the fault of the disk that belongs to a step of the model
func (u *updUser) fault(how, at string) Fault {
	r := u.r
	f := Fault{How: how, Kinds: "cwm", At: 1}
	if r.Intn(4) == 0 {
		f.Kinds = pick(r, "rcwm", "cwm", "m", "w", "r")
		f.At = 1 + r.Intn(map[string]int{"rcwm": 60, "cwm": 40, "m": 25, "w": 8, "r": 25}[f.Kinds])
		return f
	}
	cache := "/tmp/1pass"
	switch at {
	case "clear", "clear2":
		f.Where, f.At = cache, 1+r.Intn(4)
	case "mkdir":
		f.Kinds, f.Where, f.At = "m", cache, 1+r.Intn(8)
	case "arc", "arc2":
		f.Where, f.At = ".tar.gz", 1+r.Intn(4)
	case "sum", "sum2":
		f.Where, f.At = "checksum", 1+r.Intn(3)
	case "extract", "extract2":
		f.Where, f.At = pick(r, "/extracted/", "/extracted/1pass"), 1+r.Intn(6)
		if r.Intn(3) == 0 {
			f.Kinds, f.Where = "r", ".tar.gz"
		}
	case "validate":
		f.Kinds, f.Where, f.At = "r", pick(r, "/extracted", "checksum", ".tar.gz"), 1+r.Intn(4)
	case "chmod":
		f.Kinds, f.Where = "m", "/extracted/1pass"
		if r.Intn(3) == 0 {
			f.Kinds = "m"
			f.At = 2
		}
	case "rename":
		f.Kinds, f.Where, f.At = "cwm", "/tmp/bin", 1+r.Intn(2)
	case "clean", "finish":
		f.Kinds, f.Where, f.At = "m", cache, 4+r.Intn(12)
	}
	return f
}

func (u *updUser) step(e *emitter, op J) bool {
	r := u.r
	rel := op["rel"].(map[string]interface{})
	how, at := str(op, "how"), str(op, "at")
	num := func(k string) int { return int(rel[k].(float64)) }
	ask := func(newer bool, net bool, first bool) (Resp, J) {
		kind, tag := "ok", "2"
		if !newer {
			tag = pick(r, "1", "0")
		}
		if net {
			kind = "bad"
		}
		for {
			a, t := answers(r, kind, tag)
			if first || (a.Mode != "rst" && a.Mode != "junk" && a.Mode != "refuse") {
				return a, J{"kind": kind, "tag": chars(t)}
			}
		}
	}
	a1, first := ask(rel["newer1"].(bool), how == "net" && at == "ask", true)
	a2, second := ask(rel["newer2"].(bool), how == "net" && at == "recheck", false)
	var b *blob
	if n := num("has"); n > 0 {
		b = u.blobs[n-1]
	}
	sumOf := u.blobs[r.Intn(len(u.blobs))]
	right := false
	if n := num("sum"); n > 0 {
		sumOf, right = u.blobs[n-1], true
	}
	arc := str(rel, "arc")
	if !right && b != nil && r.Intn(5) != 0 {
		sumOf = b
	}
	if arc == "evil" && b != nil && r.Intn(2) == 0 {
		sumOf, right = b, false
	}
	if c := u.leftBehind(); c != nil && b == nil && r.Intn(3) != 0 {
		// the application that was left behind, not the one in the archive
		for _, x := range u.blobs {
			if bytes.Equal(x.body, c) {
				sumOf, right = x, true
			}
		}
	}
	es := u.archive(arc, b, sumOf.md5)
	tes, rec := []tarEntry{}, []J{}
	for _, x := range es {
		if x.typ == tar.TypeReg && x.mode == 0 {
			x.mode = 0755
		}
		tes = append(tes, x.tarEntry)
		j := J{"name": chars(x.name), "type": "other", "id": "", "md5": []string{}}
		switch x.typ {
		case tar.TypeReg:
			j["type"], j["id"], j["md5"] = "reg", x.b.id, chars(x.b.md5)
		case tar.TypeDir:
			j["type"] = "dir"
		}
		rec = append(rec, j)
	}
	archive := tarball(tes)
	text := u.checksum(sumOf, right, archive)
	arcTr, sumTr := "ok", "ok"
	redirect := func(l []Resp, path string) []Resp {
		if r.Intn(3) == 0 {
			return append([]Resp{{Mode: "ok", Status: []int{302, 301, 307}[r.Intn(3)], Header: map[string]string{"Location": "https://objects.githubusercontent.com/x/" + path}}}, l...)
		}
		return l
	}
	arcResp, sumResp := []Resp{{Mode: "ok", Body: archive}}, []Resp{{Mode: "ok", Body: []byte(text)}}
	fail := func(body []byte) []Resp {
		return []Resp{{Mode: pick(r, "reset", "close", "truncate", "cutreset", "badchunk", "badhttp", "ok", "ok", "ok"), Status: []int{404, 500, 503, 403}[r.Intn(4)], Body: body}}
	}
	if arc == "cut" {
		arcTr = "cut"
		cut := archive[:r.Intn(len(archive))]
		switch r.Intn(5) {
		case 0:
			arcResp = []Resp{{Mode: pick(r, "truncate", "cutreset"), Body: archive}}
		case 1:
			arcResp = []Resp{{Mode: "ok", Body: cut}}
		case 2:
			arcResp = []Resp{{Mode: "until", Body: cut}}
		case 3:
			x := append([]byte{}, archive...)
			for i := 0; i < 1+r.Intn(4); i++ {
				x[r.Intn(len(x))] ^= byte(1 + r.Intn(255))
			}
			arcResp = []Resp{{Mode: "ok", Body: x}}
		case 4:
			x := pick(r, "", "not an archive", "\x1f\x8b", "PK\x03\x04", "<html></html>")
			if b != nil && r.Intn(2) == 0 {
				x = string(b.body)
			}
			arcResp = []Resp{{Mode: "ok", Body: []byte(x)}}
		}
	}
	if how == "net" && at == "arc2" {
		arcTr, arcResp = "bad", fail([]byte("<html>error</html>"))
	}
	if how == "net" && at == "sum2" {
		sumTr, sumResp = "bad", fail([]byte("<html>"+sumOf.md5+"</html>"))
	}
	arcResp, sumResp = redirect(arcResp, "1pass.tar.gz"), redirect(sumResp, "checksum.md5")
	if r.Intn(12) == 0 && arcTr == "ok" && len(arcResp) == 1 {
		arcResp[0].Mode = "until" // no length given
	}
	ans, end := u.notYes(), pick(r, "\n", "\n", "")
	if rel["yes"].(bool) {
		ans, end = u.yes(), "\n"
	}
	f := Fault{}
	if how != "none" && how != "net" {
		f = u.fault(how, at)
		if f.How == "full" && r.Intn(2) == 0 {
			f.How = "data"
		}
		if (f.How == "eio" || f.How == "data") && r.Intn(4) == 0 {
			f.Then = 1 + r.Intn(8)
		}
	}
	if !u.runsNow() {
		u.b.install()
		e.line("O", J{"a": "Install"})
		e.line("R", J{"crash": ""})
	}
	u.b.srv.set(map[string][]Resp{"releases": {a1, a2}, "archive": arcResp, "checksum": sumResp})
	u.b.srv.take()
	before := u.b.snap()
	left := exists(u.b.out("/tmp/1pass"))
	return e.do(J{"a": "Update", "first": first, "second": second, "ans": chars(ans), "arc": J{"tr": arcTr, "entries": rec}, "sum": J{"tr": sumTr, "text": chars(text)},
		"fault": J{"how": how, "at": f.At, "kinds": f.Kinds, "where": f.Where, "step": at, "then": f.Then}, "modes": []string{a1.Mode, a2.Mode, arcResp[0].Mode, sumResp[0].Mode}}, func() J {
		var res runResult
		rep := faultReport{Ops: []FileOp{}}
		if f.How != "" {
			res, rep = u.traced([]string{"/tmp/bin/1pass", "update"}, ans+end, f)
		} else {
			res = u.runPipe([]string{"update"}, ans+end)
		}
		all := string(res.out)
		x := J{"rc": res.rc, "sig": res.sig, "hit": rep.Hit, "nops": len(rep.Ops), "left": left, "out": tail(all, 300), "asked": strings.Contains(all, "Do you want to update"),
			"said": strings.TrimSpace(all) != ""}
		if rep.Hit {
			x["hitop"] = rep.Ops[f.At-1]
		}
		if res.rc == 97 && strings.Contains(all, "JAIL") {
			broken("the box does not work: " + all)
		}
		if strings.Contains(all, "certificate") && strings.Contains(all, "x509") {
			broken("the certificate is not accepted: " + all)
		}
		if !rep.Hit && (res.sig != "" || res.rc == 2 || res.stuck) {
			x["crash"] = fmt.Sprint("rc ", res.rc, " ", res.sig, tail(all, 800))
		}
		x["app"], x["exec"] = u.installed()
		u.effects(x, before)
		return x
	})
}

// leftBehind: an application that an update before this one has extracted
func (u *updUser) leftBehind() (c []byte) {
	filepath.Walk(u.b.out("/tmp/1pass"), func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() && filepath.Base(p) == "1pass" {
			c, _ = os.ReadFile(p)
		}
		return nil
	})
	return c
}

// installed: which content the application has, and whether it can be executed
func (u *updUser) installed() (string, bool) {
	p := u.b.out("/tmp/bin/1pass")
	info, err := os.Lstat(p)
	if err != nil || !info.Mode().IsRegular() {
		return "missing", false
	}
	c, err := os.ReadFile(p)
	must(err)
	id, ok := u.sums[sha256.Sum256(c)]
	if !ok {
		id = "unknown"
	}
	return id, info.Mode()&0555 == 0555
}

func (u *updUser) runsNow() bool {
	id, x := u.installed()
	if id == "old" {
		return x
	}
	for _, b := range u.blobs {
		if b.id == id {
			return x && b.runs
		}
	}
	return false
}

func updateJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	b := newBox()
	defer b.remove()
	b.srv = server()
	u := &updUser{appUser: &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}}, sums: map[[32]byte]string{}}
	u.makeVaults(1, false)
	for _, p := range []string{"/tmp/h/canary", "/tmp/canary", "/tmp/h/.bashrc", "/tmp/cwd/canary", "/tmp/cwd/1pass"} {
		b.write(p, []byte("canary "+hexUid(r)), 0644)
	}
	app, err := os.ReadFile(os.Getenv("VDRV_APP"))
	must(err)
	u.add("old", app, true)
	u.blobs = []*blob{u.content("b1"), u.content("b2")}
	if bytes.Equal(u.blobs[0].body, u.blobs[1].body) {
		u.blobs[1] = u.blobs[0]
	}
	u.writeConf(settings{true, "/tmp/vaults", r.Intn(2) == 0, 3 + r.Intn(5), r.Intn(3)})
	b.install()
	e.line("I", J{"current": chars(domain.Version)})
	for _, o := range job["ops"].([]interface{}) {
		op := o.(map[string]interface{})
		if str(op, "a") != "Update" {
			broken("unknown op " + str(op, "a"))
		}
		if !u.step(e, op) {
			return
		}
		if r.Intn(5) == 0 {
			k := r.Intn(len(u.blobs))
			u.blobs[k] = u.content(fmt.Sprint(u.blobs[k].id, "'"))
		}
	}
}
