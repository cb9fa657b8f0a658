// Family "app": histories of commands of the real application, with settings,
// update server and time of the last check changing in between.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"gopkg.in/yaml.v2"
)

func init() { families["app"] = appJob }

var theServer *Server

func server() *Server {
	if theServer == nil {
		syscall.Setgroups(nil)
		theServer = newServer()
	}
	return theServer
}

func chars(s string) []string {
	l := []string{}
	for _, c := range s {
		l = append(l, string(c))
	}
	return l
}

// --------------------------------------------------------------- the user

type appUser struct {
	r       *rand.Rand
	b       *Box
	vaults  map[string]*VaultState
	paths   map[string][]string // vault -> spellings
	invalid []string
	secrets []string
	pws     []string               // passwords typed that occur nowhere else
	extra   map[string]interface{} // entries of the settings file that are not ours
	opts    J
}

const confDir = "/tmp/h/.config/1pass"

func (u *appUser) opt(k string, d int) int {
	if x, ok := u.opts[k].(float64); ok {
		return int(x)
	}
	return d
}

// marker: a text that occurs nowhere but where it is put
func (u *appUser) marker() string {
	s := fmt.Sprintf("S3cr#%08x%04x", u.r.Uint32(), u.r.Intn(65536))
	u.secrets = append(u.secrets, s)
	return s
}

// distinct: a password that cannot be on the screen for another reason
func (u *appUser) distinct(pw string) bool {
	if len(pw) < 6 || strings.Contains(pw, "***") || strings.Contains(strings.ToLower(pw), "passw") || len(strings.TrimSpace(pw)) < 6 {
		return false
	}
	for _, v := range u.vaults {
		if strings.Contains(fmt.Sprint(v.Items), pw) {
			return false
		}
	}
	return !strings.Contains(fmt.Sprint(u.paths, u.invalid), pw)
}

func (u *appUser) text(multi bool) string {
	if u.r.Intn(2) == 0 {
		return genText(u.r, multi)
	}
	s := u.marker()
	switch u.r.Intn(4) {
	case 0:
		s += " " + randWords(u.r, 1)
	case 1:
		s = randWords(u.r, 1) + " " + s
	}
	return s
}

func (u *appUser) item(cats []string, multi bool) Item {
	r := u.r
	it := genItem(r, cats[r.Intn(len(cats))], false)
	it.Details = genDetailsT(r, func() string { return u.text(multi) }, multi)
	if it.Details.Notes != "" && r.Intn(8) == 0 {
		it.Details.Notes = pick(r, " ", "  ", "0", "%", ".", "null", "x", "-", "\u00a0")
		if multi && r.Intn(2) == 0 {
			it.Details.Notes = pick(r, "\n", "\t", " \n", "\n\n", "\r\n")
		}
	}
	it.Url = ""
	if r.Intn(2) == 0 {
		it.Url = pick(r, "https://example.com/login?a=b&c=%20#x", "http://x", "100%", "ftp://ü.example/")
	}
	it.Title = strings.TrimSpace(genTitle(r, true))
	if r.Intn(3) == 0 {
		it.Title = strings.TrimSpace(it.Title + " " + u.marker())
	}
	if r.Intn(4) == 0 {
		it.Title = strings.Replace(it.Title, " ", pick(r, "  ", "   "), 1)
	}
	if r.Intn(12) == 0 {
		it.Title = ""
	}
	it.TitleC = cps(it.Title)
	return it
}

// typable: what can be typed at a password prompt of a terminal
func typable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 && s[i] != '\t' || s[i] == 127 {
			return false
		}
	}
	return len(s) < 2000
}

func typablePw(r *rand.Rand) string {
	for {
		if s := genPw(r); typable(s) {
			return s
		}
	}
}

func (u *appUser) makeVault(id, dir string, maxItems int, multi bool) {
	r := u.r
	pw := typablePw(r)
	if r.Intn(20) == 0 {
		pw = ""
	}
	if r.Intn(2) == 0 {
		pw = "Pw!" + hexUid(r)[:12] + pick(r, "", " ", "%s", "é")
		u.secrets = append(u.secrets, pw)
	}
	v := newVault(r, pw, []int{1, 2, 10, 100, 1000}[r.Intn(5)])
	v.extra = r.Intn(2) == 0
	cats := catCodes
	if r.Intn(3) == 0 {
		cats = []string{"001", "002", "005", "111", "999"}
	}
	for n := r.Intn(maxItems + 1); n > 0; n-- {
		v.Items = append(v.Items, u.item(cats, multi))
	}
	u.vaults[id] = v
	v.write(u.b.out(dir))
}

var plainDirs = []string{"vault", "my vault.opvault", "a[1]b", "x*y", "q?z", "back\\slash", "100%s", "ünï", "日本", "-v", "a'b\"c", "sp ace  two", "{x,y}", "~", "$HOME", ".hidden",
	"yes", "null", "0123", "1e5", "#x", "a: b", "&a", "!t", "- x", "true", "%d", "x#y",
	" lead", "trail ", " both ", "tab\tin", "~x", "'q'", "\"dq\"", "dots.", ".." + "x"}

func (u *appUser) makeVaults(maxItems int, multi bool) {
	u.vaults = map[string]*VaultState{}
	u.paths = map[string][]string{}
	u.b.mkdir("vaults", 0755)
	u.b.mkdir("links", 0755)
	names := u.r.Perm(len(plainDirs))
	for i, id := range []string{"v1", "v2"} {
		n := plainDirs[names[i]]
		dir := "/tmp/vaults/" + n
		u.makeVault(id, dir, maxItems, multi)
		link := "/tmp/links/l" + id
		must(os.Symlink(dir, u.b.out(link)))
		u.paths[id] = []string{dir, dir, dir + "/", "../vaults/" + n, link, "/tmp/links/../vaults/" + n}
	}
	// the same identifiers in both
	if u.r.Intn(2) == 0 {
		a, b := u.vaults["v1"], u.vaults["v2"]
		for i := range b.Items {
			if i < len(a.Items) {
				b.Items[i].Uid = a.Items[i].Uid
				b.Items[i].Trashed = a.Items[i].Trashed
			}
		}
		b.write(u.b.out(u.paths["v2"][0]))
	}
	bad := func(p string) string { return u.b.out("/tmp/bad/" + p) }
	u.b.mkdir("bad", 0755)
	must(os.WriteFile(bad("file"), []byte("x"), 0644))
	must(os.Mkdir(bad("empty"), 0755))
	must(os.MkdirAll(bad("no profile/default"), 0755))
	must(os.WriteFile(bad("no profile/default/band_0.js"), []byte("ld({});"), 0644))
	must(os.MkdirAll(bad("dir/default/profile.js"), 0755))
	must(os.MkdirAll(bad("deffile"), 0755))
	must(os.WriteFile(bad("deffile/default"), []byte("x"), 0644))
	must(os.Symlink("/tmp/bad/nowhere", bad("dangling")))
	must(os.MkdirAll(bad("upper/default"), 0755))
	must(os.WriteFile(bad("upper/default/Profile.js"), []byte("var profile={};"), 0644))
	must(os.MkdirAll(bad("toplevel"), 0755))
	must(os.WriteFile(bad("toplevel/profile.js"), []byte("var profile={};"), 0644))
	// a profile that is elsewhere
	must(os.MkdirAll(bad("linkdir/default"), 0755))
	must(os.Symlink("../../empty", bad("linkdir/default/profile.js")))
	must(os.MkdirAll(bad("linknone/default"), 0755))
	must(os.Symlink("nothing.js", bad("linknone/default/profile.js")))
	if u.r.Intn(4) == 0 {
		d := u.b.out(u.paths["v2"][0])
		must(os.Rename(d+"/default/profile.js", d+"/real.js"))
		must(os.Symlink("../real.js", d+"/default/profile.js"))
	}
	u.invalid = []string{"/tmp/bad/linkdir", "/tmp/bad/linknone", "/tmp/bad/file", "/tmp/bad/empty", "/tmp/bad/no profile", "/tmp/bad/dir", "/tmp/bad/deffile", "/tmp/bad/dangling", "/tmp/bad/upper",
		"/tmp/bad/toplevel", "/tmp/none/such", "../vaults", "/tmp", "/", "relative", u.paths["v1"][0] + "/default", u.paths["v2"][0] + "/default/profile.js", "%s", "-t", u.paths["v1"][0] + "x"}
	u.b.own("vaults")
	u.b.own("bad")
}

// place: a path for the vault named in the model
func (u *appUser) place(v string) string {
	switch v {
	case "":
		return ""
	case "b":
		return u.invalid[u.r.Intn(len(u.invalid))]
	}
	l := u.paths[v]
	return l[u.r.Intn(len(l))]
}

func (u *appUser) places() []J {
	l := []J{}
	for _, id := range []string{"v1", "v2"} {
		seen := map[string]bool{}
		for _, p := range u.paths[id] {
			if !seen[p] {
				l = append(l, J{"p": p, "v": id})
				seen[p] = true
			}
		}
	}
	return l
}

func (u *appUser) at(path string) string {
	for _, x := range u.places() {
		if x["p"] == path {
			return x["v"].(string)
		}
	}
	return ""
}

// ------------------------------------------------------------- settings

type settings struct {
	Present bool   `json:"present"`
	Vault   string `json:"vault"`
	Notify  bool   `json:"notify"`
	Timeout int    `json:"timeout"`
	Period  int    `json:"period"`
}

var noSettings = settings{false, "", true, 1, 1}

func yamlScalar(r *rand.Rand, s string) string {
	b, err := yaml.Marshal(s)
	must(err)
	if r.Intn(2) == 0 {
		return strings.TrimSpace(string(b))
	}
	return string(jsonBytes(s)) // a JSON string is a YAML scalar
}

// writeConf stores settings as a user may have written them.
func (u *appUser) writeConf(c settings) {
	r := u.r
	p := u.b.out(confDir + "/1pass.yml")
	u.extra = map[string]interface{}{}
	if !c.Present {
		switch r.Intn(7) {
		case 6:
			os.RemoveAll(u.b.out("/tmp/h/.config"))
		case 0:
			os.RemoveAll(u.b.out("/tmp/h/.config/1pass"))
		case 1:
			os.Remove(p)
		default:
			u.b.mkdir("/tmp/h/.config", 0755)
			u.b.mkdir(confDir, 0700)
			u.b.write(confDir+"/1pass.yml", []byte(pick(r, "", "\n", "# nothing\n", "---\n", "{}\n", "  \n\n")), 0644)
		}
		return
	}
	u.b.mkdir("/tmp/h/.config", 0755)
	u.b.mkdir(confDir, 0700)
	lines := []string{}
	some := func(isDefault bool) bool { return !isDefault || r.Intn(2) == 0 }
	if some(c.Vault == "") {
		lines = append(lines, "opvault: "+yamlScalar(r, c.Vault))
	}
	if some(c.Timeout == 1) {
		lines = append(lines, fmt.Sprintf("timeout: %d", c.Timeout))
	}
	if some(c.Notify) {
		lines = append(lines, "update-notification: "+map[bool]string{true: pick(r, "true", "True", "yes", "on"), false: pick(r, "false", "False", "no", "off")}[c.Notify])
	}
	if some(c.Period == 1) {
		lines = append(lines, fmt.Sprintf("update-period: %d", c.Period))
	}
	ex := []string{}
	if r.Intn(3) == 0 || len(lines) == 0 {
		ex = append(ex, pick(r, "theme: dark", "future-setting: [1, 2, x]", "nested: {a: 1, b: [true, null]}", "note: \"100%\"", "n: 3.5", "Timeout: 7", "'1pass': 1", "vault: /other", "update: true", "updates: 5", "period: 9", "notification: off", "update-url: https://x", "opvaults: [a]", "opvault2: /x", "config: {}", "version: 1.0.0", "password: x", "5: five", "empty:"))
		if r.Intn(3) == 0 {
			ex = append(ex, "zz-last: \"ü ~ text\"")
		}
		must(yaml.Unmarshal([]byte(strings.Join(ex, "\n")), &u.extra))
	}
	lines = append(lines, ex...)
	r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	if r.Intn(4) == 0 {
		lines = append([]string{"# settings of 1pass"}, lines...)
	}
	if r.Intn(6) == 0 {
		lines = append([]string{"---"}, lines...)
	}
	t := strings.Join(lines, "\n")
	if r.Intn(3) != 0 {
		t += "\n"
	}
	u.b.write(confDir+"/1pass.yml", []byte(t), []os.FileMode{0644, 0600}[r.Intn(2)])
}

func readConf(dir string) settings {
	repo := file.NewFileConfigRepo(dir)
	return settings{repo.IsAvailable(), repo.GetDefaultVault(), repo.GetUpdateNotification(), repo.GetTimeout(), repo.GetUpdatePeriod()}
}

// keptExtra: entries of the settings file other than the settings are as they were
func (u *appUser) keptExtra() bool {
	return reflect.DeepEqual(extraOf(u.b.out(confDir+"/1pass.yml")), u.extra)
}

func extraOf(p string) map[string]interface{} {
	b, err := os.ReadFile(p)
	m := map[string]interface{}{}
	if err != nil {
		return m
	}
	if yaml.Unmarshal(b, &m) != nil || m == nil {
		return map[string]interface{}{}
	}
	for _, k := range []string{"opvault", "timeout", "update-notification", "update-period"} {
		delete(m, k)
	}
	return m
}

// ------------------------------------------------------------ last check

type lastCheck struct {
	Kind  string `json:"kind"`
	Days  int    `json:"days"`
	Fresh bool   `json:"fresh"`
}

func (u *appUser) lastFile() string { return u.b.out(confDir + "/lastcheck") }

func (u *appUser) readLast() lastCheck {
	b, err := os.ReadFile(u.lastFile())
	if err != nil {
		return lastCheck{Kind: "none"}
	}
	t, err := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
	if err != nil {
		return lastCheck{Kind: "bad"}
	}
	d := time.Now().Unix() - t
	if d < 0 {
		d = -d
	}
	days := d / 86400
	if days > 1000000 {
		days = 1000000
	}
	return lastCheck{"time", int(days), d < 20}
}

func (u *appUser) setLast(kind string, days int) {
	os.Remove(u.lastFile())
	if kind == "none" {
		return
	}
	u.b.mkdir("/tmp/h/.config", 0755)
	u.b.mkdir(confDir, 0700)
	s := ""
	if kind == "bad" {
		s = pick(u.r, "", "abc", "12x", "\x00", "99999999999999999999999", "1.5e9", "2021-01-01", " ", "0x10")
	} else {
		off := int64(days)*86400 + []int64{120, 3600 + int64(u.r.Intn(70000)), 86400 - 300}[u.r.Intn(3)]
		if u.r.Intn(5) == 0 {
			off = -off
		}
		s = fmt.Sprint(time.Now().Unix() - off)
		if days > 365 && u.r.Intn(2) == 0 {
			s = pick(u.r, "0", "1", "-1000", "86400", "00", "+5", "3000000000")
		}
		if u.r.Intn(4) == 0 {
			s += "\n"
		}
	}
	u.b.write(confDir+"/lastcheck", []byte(s), 0644)
}

// --------------------------------------------------------------- server

func newerTag(r *rand.Rand) string {
	p := strings.Split(domain.Version, ".")
	n := make([]int, len(p))
	for i := range p {
		n[i], _ = strconv.Atoi(p[i])
	}
	j := func(x []int) string {
		l := []string{}
		for _, v := range x {
			l = append(l, strconv.Itoa(v))
		}
		return strings.Join(l, ".")
	}
	i := r.Intn(len(n))
	m := append([]int{}, n...)
	m[i] += []int{1, 1, 2, 7, 9, 10, 99, 100000}[r.Intn(8)]
	for k := i + 1; k < len(m); k++ {
		m[k] = r.Intn(4)
	}
	switch r.Intn(8) {
	case 0:
		return j(append(n, 1+r.Intn(3)))
	case 1:
		return j(append(n, 0, 1))
	case 2:
		return j(m[:i+1])
	case 3:
		return "0" + j(m)
	case 4:
		return j(m) + "." + pick(r, "0", "00", "5")
	case 5:
		return strconv.Itoa(n[0]+1) + pick(r, "", ".0", ".0.0")
	case 6:
		return j(n[:1]) + "." + pick(r, "999999999999999999", "10", "100", "4294967297", "18446744073") + ".0"
	}
	return j(m)
}

func olderTag(r *rand.Rand) string {
	v := domain.Version
	p := strings.Split(v, ".")
	n0, _ := strconv.Atoi(p[0])
	l := []string{v, v, v + ".0", v + ".0.0", "0" + v, "0", "0.9.9", "0.99999999999999", "0.0.0.0.1", strings.Join(p[:len(p)-1], "."), "00" + p[0] + ".0.0"}
	if n0 > 0 {
		l = append(l, fmt.Sprintf("%d.999.999", n0-1))
	}
	for i := range p {
		n, _ := strconv.Atoi(p[i])
		if n > 0 {
			q := append([]string{}, p...)
			q[i] = strconv.Itoa(n - 1)
			for k := i + 1; k < len(q); k++ {
				q[k] = pick(r, "10", "99", "0", "100000000000")
			}
			l = append(l, strings.Join(q, "."))
		}
	}
	return l[r.Intn(len(l))]
}

func oddTag(r *rand.Rand) string {
	return pick(r, "v2.0.0", "2.0.0-rc1", "", "latest", "2..0", "2.0.", ".2", "9.9.9 ", " 9.9.9", "-1", "+9.0", "9,0", "9.x", "9.0.0b", "９.0", "9.-1", "9.0\n", "0x9.0", "9e3.0", "9_0.1", ".")
}

func release(r *rand.Rand, tag string) J {
	as := []interface{}{
		J{"name": "1pass-" + tag + ".tar.gz", "browser_download_url": "https://github.com/mashmb/1pass/releases/download/x/1pass.tar.gz"},
		J{"name": "checksum.md5", "browser_download_url": "https://github.com/mashmb/1pass/releases/download/x/checksum.md5"}}
	if r.Intn(2) == 0 {
		as[0], as[1] = as[1], as[0]
	}
	if r.Intn(3) == 0 {
		as = append(as, J{"name": "README.txt", "browser_download_url": "https://github.com/mashmb/1pass/readme", "size": 5, "uploader": nil})
		r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	m := J{"tag_name": tag, "assets": as, "body": pick(r, "- changes\n- more", "", "100% new %s %d", "ü"), "id": 12345, "draft": false}
	if r.Intn(4) == 0 {
		m["body"] = nil
	}
	return m
}

func releaseList(r *rand.Rand, tag string) []byte {
	l := []interface{}{release(r, tag)}
	for i := r.Intn(3); i > 0; i-- {
		l = append(l, release(r, pick(r, "0.1", "0.0.1", "0.2.0")))
	}
	if r.Intn(6) == 0 {
		l = append(l, nil, 5, "x")
	}
	return jsonBytes(l)
}

// answers: how the server answers the question for releases.
func answers(r *rand.Rand, kind, tag string) (Resp, string) {
	ok := func(b string) Resp { return Resp{Mode: "ok", Body: []byte(b)} }
	switch kind {
	case "ok":
		t := ""
		switch tag {
		case "2":
			t = newerTag(r)
		case "1":
			t = olderTag(r)
		default:
			t = oddTag(r)
		}
		return Resp{Mode: "ok", Body: releaseList(r, t)}, t
	case "bad":
		full := releaseList(r, "99.0.0")
		switch r.Intn(10) {
		case 0:
			return Resp{Mode: pick(r, "refuse", "rst")}, ""
		case 1:
			return Resp{Mode: pick(r, "reset", "close", "junk", "badhttp"), Body: full}, ""
		case 2:
			return Resp{Mode: pick(r, "truncate", "cutreset"), Body: full}, ""
		case 3:
			return Resp{Mode: "badchunk"}, ""
		case 4:
			return Resp{Mode: "ok", Status: []int{403, 404, 429, 500, 502, 503}[r.Intn(6)], Body: []byte("{\"message\":\"API rate limit exceeded\",\"tag_name\":\"99.0.0\"}")}, ""
		case 5:
			return Resp{Mode: "ok", Status: []int{404, 500, 502}[r.Intn(3)], Body: []byte("<html>error</html>")}, ""
		case 6:
			return ok(string(full[:len(full)-1-r.Intn(len(full)-1)])), ""
		case 7:
			return ok(string(full) + pick(r, "x", "]", "{}", "<")), ""
		}
		return ok(pick(r, "", " ", "{}", "{\"tag_name\":\"99.0.0\",\"assets\":[]}", "\"x\"", "5", "true", "nul", "[", "[{", "[}", "<html></html>", "\x00\x01\x02", "\xff\xfe")), ""
	}
	return ok(pick(r, "[]", "null", "[1]", "[null]", "[[]]", "[\"x\"]", "[{}]", "[true]", "[{\"tag_name\":5}]", "[{\"tag_name\":null,\"assets\":null,\"body\":null}]",
		"[{\"tag_name\":\"99.0.0\"}]", "[{\"tag_name\":\"99.0.0\",\"assets\":null}]", "[{\"tag_name\":\"99.0.0\",\"assets\":5,\"body\":[]}]",
		"[{\"tag_name\":\"99.0.0\",\"assets\":{\"a\":1}}]", "[{\"tag_name\":\"0.1\",\"assets\":[]}]", "[{\"tag_name\":\"0.1\",\"assets\":[1,null,\"x\",[]]}]",
		"[{\"tag_name\":\"0.1\",\"assets\":[{}]}]", "[{\"tag_name\":\"0.1\",\"assets\":[{\"name\":5}]}]", "[{\"tag_name\":\"0.1\",\"assets\":[{\"name\":\"x.tar.gz\",\"browser_download_url\":null}]}]",
		"[{\"tag_name\":{},\"assets\":[{\"name\":\"x.md5\"}],\"body\":5}]", "[{\"tag_name\":[\"9\"],\"assets\":\"x\"}]", "[-1e400]", "[1e400]")), ""
}

type tarEntry struct {
	name string
	typ  byte
	link string
	body []byte
	mode int64
}

func tarball(es []tarEntry) []byte {
	var b bytes.Buffer
	z, _ := gzip.NewWriterLevel(&b, gzip.BestSpeed)
	w := tar.NewWriter(z)
	for _, e := range es {
		if e.typ == 0 {
			e.typ = tar.TypeReg
		}
		if e.mode == 0 {
			e.mode = 0644
		}
		h := &tar.Header{Name: e.name, Typeflag: e.typ, Linkname: e.link, Mode: e.mode, Size: int64(len(e.body))}
		must(w.WriteHeader(h))
		if len(e.body) > 0 {
			w.Write(e.body)
		}
	}
	must(w.Close())
	must(z.Close())
	return b.Bytes()
}

func md5hex(b []byte) string {
	s := md5.Sum(b)
	return hex.EncodeToString(s[:])
}

// ------------------------------------------------------------- commands

// class of a changed file
func classOf(p string) string {
	switch {
	case p == "h/.config/1pass/1pass.yml":
		return "conf"
	case p == "h/.config/1pass/lastcheck":
		return "last"
	case p == "h/.config/1pass", p == "h/.config":
		return "confdir"
	case p == "bin/1pass":
		return "app"
	case p == "1pass", strings.HasPrefix(p, "1pass/"):
		return "cache"
	case strings.HasPrefix(p, "vaults"):
		return "vault"
	}
	return "other"
}

func (u *appUser) changes(before map[string]fstate) (classes []string, names []string, leak bool) {
	after := u.b.snap()
	names = diffSnap(before, after)
	set := map[string]bool{}
	for _, p := range names {
		// a directory whose contents changed is not changed itself
		set[classOf(p)] = true
		if b, err := os.ReadFile(filepath.Join(u.b.root, p)); err == nil && len(b) < 1<<20 {
			for _, s := range u.secrets {
				if s != "" && bytes.Contains(b, []byte(s)) {
					leak = true
				}
			}
		}
	}
	for _, s := range strays(time.Time{}) {
		set["other"] = true
		names = append(names, s)
		os.RemoveAll(s)
	}
	classes = []string{}
	for c := range set {
		classes = append(classes, c)
	}
	sort.Strings(classes)
	return
}

type runResult struct {
	rc       int
	sig      string
	prompted bool
	echo     bool
	stuck    bool
	out      []byte
	promptAt int // offset of the output after the prompt
}

// runTty runs the application on a terminal; the answers are typed ahead, the
// password when the prompt is there.
func (u *appUser) runTty(args []string, answers string, pw string) runResult {
	p := startOnPty(u.b.command(append([]string{"/tmp/bin/1pass"}, args...)...), 120, 40, answers, nil)
	defer p.close()
	res := runResult{}
	prompt := func() bool {
		return !p.echo()
	}
	for n := 0; n < 4; n++ {
		w := p.until(prompt, 2500*time.Millisecond)
		if w == "exit" {
			res.rc, res.sig, res.out = p.rc, p.sig, p.output()
			return res
		}
		if res.prompted {
			// a second prompt or waiting for something else
			if w == "cond" && p.until(func() bool { return p.echo() }, 2500*time.Millisecond) == "cond" {
				continue
			}
			res.stuck = true
			break
		}
		if !bytes.Contains(p.output(), []byte("Password")) && w == "quiet" {
			res.stuck = true
			break
		}
		res.prompted = true
		res.echo = w == "quiet"
		// everything up to here is before the prompt; give it time to arrive
		for n := 0; n < 500 && !bytes.Contains(p.output(), []byte("Password:")); n++ {
			time.Sleep(2 * time.Millisecond)
		}
		for n := -1; n != len(p.output()); {
			n = len(p.output())
			time.Sleep(3 * time.Millisecond)
		}
		res.promptAt = len(p.output())
		p.master.Write([]byte(pw + "\n"))
		// until the answer has been read the terminal stays as it is
		if w2 := p.until(func() bool { return p.echo() }, 8*time.Second); w2 == "quiet" {
			res.stuck = true
			break
		}
	}
	if res.stuck {
		res.out = p.output()
		res.rc = -2
	}
	return res
}

func (u *appUser) runPipe(args []string, input string) runResult {
	return runCmd(u.b.command(append([]string{"/tmp/bin/1pass"}, args...)...), input, nil)
}

func runCmd(cmd *exec.Cmd, input string, also *os.File) runResult {
	cmd.Stdin = strings.NewReader(input)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.SysProcAttr.Setsid = true
	must(cmd.Start())
	if also != nil {
		also.Close()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	res := runResult{}
	select {
	case err := <-done:
		res.rc, res.sig = exitOf(cmd, err)
	case <-time.After(20 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		res.stuck, res.rc = true, -2
	}
	res.out = buf.Bytes()
	return res
}

func tableRows(s string) [][]string {
	rows := [][]string{}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimRight(l, "\r")
		if !strings.HasPrefix(l, "║") {
			continue
		}
		cells := []string{}
		for _, c := range strings.Split(strings.Trim(l, "║"), "║") {
			cells = append(cells, strings.TrimSpace(c))
		}
		if _, err := strconv.Atoi(cells[0]); err != nil {
			continue
		}
		rows = append(rows, cells)
	}
	return rows
}

func (u *appUser) yes() string { return pick(u.r, "y", "y", "Y", " y", "y ", "\ty") }
func (u *appUser) notYes() string {
	return pick(u.r, "", "", "n", "N", "no", "yes", "Yes", "YES", "ye", "yy", "x", " ", "0", "1", "true", "t", "on", "ok", "ya", "yep", "y y", "y.", "yn", "ny", "-y", "'y'", "\"y\"",
		"j", "ｙ", "ý", "n y", "y/n", "[y]")
}

func (u *appUser) number(lo, hi int) string {
	n := lo + u.r.Intn(hi-lo+1)
	if u.r.Intn(3) == 0 {
		n = []int{lo, hi}[u.r.Intn(2)]
	}
	return pick(u.r, "", "", "", " ", "0", "+") + strconv.Itoa(n) + pick(u.r, "", "", "", " ", "\t")
}

func (u *appUser) noNumber(lo, hi int) string {
	return pick(u.r, "", "", "", strconv.Itoa(lo-1), strconv.Itoa(hi+1), strconv.Itoa(hi+1), "-1", "abc", "1.5", "5s", "1e1", "0x5", "9999999999999999999999", "4294967297", "--1", "1 2", "y", "n", "1_0", "５")
}

// dialogAnswers makes the lines typed for the answers of the model.
func (u *appUser) dialogAnswers(a J) []string {
	r := u.r
	l := []string{}
	if b, _ := a["set"].(bool); b {
		p := u.place(str(a, "vault"))
		if str(a, "vault") == "b" && r.Intn(2) == 0 {
			if x := oddString(r); oddLine(x) && u.at(x) == "" {
				p = x
			}
		}
		if r.Intn(12) == 0 {
			p = ""
		}
		if r.Intn(4) == 0 {
			p = pick(r, " ", "\t", "  ") + p
		}
		if r.Intn(4) == 0 {
			p += pick(r, " ", "\t", "  ")
		}
		l = append(l, u.yes(), p)
	} else {
		l = append(l, u.notYes())
	}
	switch str(a, "notify") {
	case "y":
		l = append(l, u.yes())
	case "n":
		l = append(l, pick(r, "n", "N", " n", "n "))
	default:
		l = append(l, pick(r, "", "", "yes", "no", "x", "true", "false", "1", " "))
	}
	if r.Intn(2) == 0 {
		l = append(l, u.number(1, 30))
	} else {
		l = append(l, u.noNumber(1, 30))
	}
	switch str(a, "period") {
	case "0":
		l = append(l, pick(r, "0", "00", "+0", " 0"))
	case "n":
		l = append(l, u.number(0, 365))
	default:
		l = append(l, u.noNumber(0, 365))
	}
	return l
}

// oddLine: whether it can be typed as an answer, with nothing around it to drop
func oddLine(s string) bool {
	for _, c := range s {
		if c < 32 || c == 127 || c == 0x85 || c == 0xfffd || c == 0xfeff || unicode.IsSpace(c) && c != ' ' {
			return false
		}
	}
	return s != "" && len(s) < 500 && s == strings.TrimSpace(s)
}

func lines(s string) []string { return strings.Split(strings.ReplaceAll(s, "\r", ""), "\n") }

func (u *appUser) run(e *emitter, op J) bool {
	r := u.r
	cmd := str(op, "cmd")
	ans, _ := op["ans"].(map[string]interface{})
	given := u.place(str(op, "flag"))
	u.b.link()
	var stored settings
	if !e.do(J{"a": "Read"}, func() J {
		stored = readConf(u.b.out(confDir))
		return J{"conf": stored, "extra": u.keptExtra()}
	}) {
		return false
	}
	needs := cmd == "list" || cmd == "overview" || cmd == "details" || cmd == "gui"
	dialog := cmd == "configure" || needs && !stored.Present
	typed := []string{}
	if dialog {
		typed = u.dialogAnswers(ans)
	}
	// what the user believes will be opened, to choose a password
	sel := given
	if sel == "" {
		sel = stored.Vault
		if dialog && len(typed) == 5 {
			sel = strings.TrimSpace(typed[1])
		}
	}
	id := u.at(sel)
	v := u.vaults[id]
	if v == nil {
		v = u.vaults["v1"]
	}
	o := u.vaults["v1"]
	if o == v {
		o = u.vaults["v2"]
	}
	pw := v.Pw
	if str(op, "pw") != "right" {
		pw = o.Pw
		for n := 0; pw == v.Pw || n == 0 && r.Intn(3) != 0; n++ {
			if w := wrongPw(r, v.Pw); typable(w) {
				pw = w
			}
		}
	}
	args := []string{}
	rec := J{"a": "Run", "cmd": cmd, "vflag": given, "pw": fmt.Sprintf("%x", pw), "uid": "", "t": false, "cat": []string{}, "qc": []int{}, "consent": []string{}, "tty": true}
	flag := func() []string {
		if given == "" {
			if r.Intn(8) == 0 {
				return []string{"-v", ""}
			}
			return nil
		}
		switch r.Intn(4) {
		case 0:
			return []string{"--vault", given}
		case 1:
			return []string{"--vault=" + given}
		case 2:
			if !strings.HasPrefix(given, "=") && given[0] != '-' {
				return []string{"-v" + given}
			}
		}
		return []string{"-v", given}
	}
	trashed := r.Intn(3) == 0
	switch cmd {
	case "list":
		args = append(args, "list")
		fl := [][]string{}
		if f := flag(); f != nil {
			fl = append(fl, f)
		}
		if r.Intn(3) == 0 {
			c := catNames[r.Intn(len(catNames))]
			if len(v.Items) > 0 && r.Intn(2) == 0 {
				if n := catIndex(v.Items[r.Intn(len(v.Items))].Cat); n >= 0 {
					c = catNames[n]
				}
			}
			switch r.Intn(6) {
			case 0:
				c = strings.ToUpper(c)
			case 1:
				c = strings.ToLower(c)
			case 2:
				c = pick(r, " "+c+"  ", "\t"+c, c+"\n", " \t"+c+"\r\n")
			case 3:
				if r.Intn(2) == 0 {
					c = pick(r, "Logins", "Logi", "001", "all", "trashed", "x", "Credit  Card", "CreditCard", "e-mail", "*", "Log in", "Passwords")
				}
			}
			fl = append(fl, []string{pick(r, "-c", "--category"), c})
			rec["cat"] = chars(c)
		}
		if r.Intn(2) == 0 {
			titles := []string{}
			for _, it := range v.Items {
				titles = append(titles, it.Title)
			}
			q := genQuery(r, titles)
			if r.Intn(4) == 0 {
				q = pick(r, " "+q+" ", "\t"+q, q+"\n", " "+q+"\t")
			}
			fl = append(fl, []string{pick(r, "-n", "--name"), q})
			rec["qc"] = cps(strings.TrimSpace(q))
		}
		if trashed {
			fl = append(fl, []string{pick(r, "-t", "--trashed", "-t=true", "--trashed=true")})
			rec["t"] = true
		} else if r.Intn(6) == 0 {
			fl = append(fl, []string{"--trashed=false"})
		}
		r.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
		for _, f := range fl {
			args = append(args, f...)
		}
	case "overview", "details":
		uid := pick(r, "NOSUCH", "0", "%s")
		if len(v.Items) > 0 && r.Intn(8) != 0 {
			it := v.Items[r.Intn(len(v.Items))]
			uid = it.Uid
			trashed = it.Trashed
			if r.Intn(5) == 0 {
				trashed = !trashed
			}
			if r.Intn(12) == 0 {
				uid = strings.ToLower(uid)
			}
		} else if len(o.Items) > 0 && r.Intn(2) == 0 {
			uid = o.Items[0].Uid
		}
		rec["uid"] = uid
		args = append(args, cmd)
		fl := append([]string{}, flag()...)
		if trashed {
			fl = append(fl, pick(r, "-t", "--trashed"))
			rec["t"] = true
		}
		if r.Intn(2) == 0 {
			args = append(append(args, fl...), uid)
		} else {
			args = append(append(args, uid), fl...)
		}
	case "gui":
		args = append(args, flag()...)
	default:
		args = []string{cmd}
	}
	input := ""
	eof := false
	switch {
	case dialog:
		input = strings.Join(typed, "\n") + "\n"
	case cmd == "update":
		a := u.notYes()
		if b, _ := op["consent"].(bool); b {
			a = u.yes()
		}
		typed = []string{a}
		rec["consent"] = chars(a)
		input = a + "\n"
	}
	cut := str(op, "a") == "Cut"
	pipe := !needs && r.Intn(3) != 0 && !cut
	if pipe && dialog && r.Intn(4) == 0 { // the input ends early
		n := r.Intn(len(typed) + 1)
		typed = typed[:n]
		input = strings.Join(typed, "\n")
		eof = true
	} else if pipe && r.Intn(4) == 0 {
		input = strings.ReplaceAll(input, "\n", "\r\n")
	} else if pipe && cmd == "update" && r.Intn(4) == 0 {
		input = strings.TrimSuffix(input, "\n")
	}
	_ = eof
	rec["tty"] = !pipe
	rec["args"] = args
	rec["pwraw"] = strconv.Quote(pw)
	cs := [][]string{}
	for _, t := range typed {
		cs = append(cs, chars(t))
	}
	if cmd == "update" {
		cs = [][]string{}
	}
	rec["ans"] = cs
	payload := []byte{}
	if cmd == "update" {
		u.b.install()
		payload = []byte("#!/bin/sh\necho " + hexUid(r) + "\n" + strings.Repeat("#\n", r.Intn(2000)))
		u.b.srv.mu.Lock()
		u.b.srv.plan["archive"] = []Resp{{Mode: "ok", Body: tarball([]tarEntry{{name: "1pass", body: payload, mode: 0755}})}}
		u.b.srv.plan["checksum"] = []Resp{{Mode: "ok", Body: []byte(md5hex(payload) + pick(r, "", "\n", "  1pass\n"))}}
		u.b.srv.mu.Unlock()
	}
	u.b.srv.take()
	old, _ := os.ReadFile(u.b.out("/tmp/bin/1pass"))
	before := u.b.snap()
	if cut {
		rec["a"], rec["where"] = "Cut", str(op, "where")
		if str(op, "where") == "dialog" {
			input = ""
			for _, t := range typed[:r.Intn(len(typed))] {
				input += t + "\n"
			}
		}
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGKILL, 0}[r.Intn(5)]
		if cmd == "gui" && sig == 0 {
			sig = syscall.SIGINT
		}
		rec["signal"] = sig.String()
		return e.do(rec, func() J {
			x := u.runCut(cmd, args, input, pw, str(op, "where"), sig, before)
			x["app"] = "old"
			if now, err := os.ReadFile(u.b.out("/tmp/bin/1pass")); err != nil || !bytes.Equal(now, old) {
				x["app"] = "other"
			}
			return x
		})
	}
	if cmd == "gui" {
		return u.runGui(e, rec, args, input, pw, before)
	}
	ok := e.do(rec, func() J {
		var res runResult
		if pipe {
			res = u.runPipe(args, input)
		} else {
			res = u.runTty(args, input, pw)
		}
		x := u.observe(res, before, pw)
		x["app"] = "old"
		now, err := os.ReadFile(u.b.out("/tmp/bin/1pass"))
		if err != nil || !bytes.Equal(now, old) {
			x["app"] = "other"
			if err == nil && len(payload) > 0 && bytes.Equal(now, payload) {
				x["app"] = "new"
			}
		}
		return x
	})
	if !ok {
		return false
	}
	if cmd == "update" {
		e.line("O", J{"a": "Reinstall"})
		e.line("R", J{"crash": ""})
	}
	// time passes: a check just made is some hours ago now
	if l := u.readLast(); l.Kind == "time" && l.Fresh {
		u.setLast("time", 0)
		e.line("O", J{"a": "Last", "l": u.readLast()})
		e.line("R", J{"crash": ""})
	}
	return true
}

// runCut starts a command and ends it with a signal (0: the interrupt key),
// when it waits at a question of the dialog, at the password prompt or, in the
// terminal interface, anywhere later.
func (u *appUser) runCut(cmd string, args []string, input, pw, where string, sig syscall.Signal, before map[string]fstate) J {
	r := u.r
	var p *Proc
	var g *guiProc
	if cmd == "gui" {
		g = u.startGui(args, input, 130, 40)
		p = g.p
	} else {
		p = startOnPty(u.b.command(append([]string{"/tmp/bin/1pass"}, args...)...), 120, 40, input, nil)
	}
	defer p.close()
	switch {
	case where == "dialog":
		p.until(nil, 300*time.Millisecond)
	case cmd == "gui":
		if p.until(func() bool { return g.look()["win"] == "prompt" }, 3*time.Second) == "cond" {
			p.until(func() bool { return strings.Contains(g.look()["header"].(string), ")") }, time.Second)
			k := r.Intn(6)
			if !plainText(pw) || strings.ContainsRune(pw, '\t') || len([]rune(pw)) > 50 {
				k = 0
			}
			for n, s := range []string{pw, "\r", "\r", "\t", "\t"} {
				if n < k {
					p.master.Write([]byte(s))
					g.settle(guiQuiet)
				}
			}
		}
	default:
		if p.until(func() bool { return !p.echo() }, 2500*time.Millisecond) == "cond" && r.Intn(2) == 0 {
			time.Sleep(10 * time.Millisecond)
			p.master.Write([]byte(pw[:r.Intn(len(pw)+1)]))
			time.Sleep(10 * time.Millisecond)
		}
	}
	x := J{"cut": !p.exited()}
	if sig == 0 {
		p.master.Write([]byte{3})
	} else {
		p.cmd.Process.Signal(sig)
	}
	if p.until(nil, 2*time.Second) != "exit" {
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		<-p.done
	}
	p.drain()
	out := string(p.output())
	x["out"] = tail(out, 300)
	x["pwshown"] = u.distinct(pw) && strings.Contains(out, pw)
	u.effects(x, before)
	return x
}

func (u *appUser) observe(res runResult, before map[string]fstate, pw string) J {
	x := J{"rc": res.rc, "prompted": res.prompted, "echo": res.echo, "stuck": res.stuck, "gui": J{"on": false}}
	if res.sig != "" {
		x["crash"] = "signal " + res.sig
	}
	all := string(res.out)
	if res.rc == 2 || strings.Contains(all, "goroutine ") && strings.Contains(all, "panic") {
		x["crash"] = "panic: " + tail(all, 1200)
	}
	if res.rc == 97 && strings.Contains(all, "JAIL") {
		broken("the box does not work: " + all)
	}
	if strings.Contains(all, "certificate") && strings.Contains(all, "x509") {
		broken("the certificate is not accepted: " + all)
	}
	pre, post := all, ""
	if res.prompted {
		pre, post = all[:res.promptAt], all[res.promptAt:]
	}
	x["pre"] = lines(pre)
	x["pretext"] = pre
	x["post"] = post
	rows := []J{}
	for _, c := range tableRows(post + pre) {
		for len(c) < 4 {
			c = append(c, "")
		}
		rows = append(rows, J{"n": c[0], "a": c[1], "b": c[2], "c": c[3]})
	}
	x["rows"] = rows
	x["pwshown"] = u.distinct(pw) && strings.Contains(all, pw)
	u.effects(x, before)
	return x
}

func (u *appUser) effects(x J, before map[string]fstate) {
	req, dl := 0, 0
	for _, k := range u.b.srv.take() {
		if k == "releases" {
			req++
		} else {
			dl++
		}
	}
	x["req"], x["dl"], x["reqseen"] = req, dl, !u.b.srv.refused
	cl, names, leak := u.changes(before)
	if names == nil {
		names = []string{}
	}
	x["files"], x["changed"], x["leak"] = cl, names, leak
	x["last"] = u.readLast()
	x["cache"] = exists(u.b.out("/tmp/1pass"))
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

var catNames = []string{"Login", "Credit Card", "Secure Note", "Identity", "Password", "Tombstone", "Software License", "Bank Account", "Database", "Driver License",
	"Outdoor License", "Membership", "Passport", "Rewards", "SSN", "Router", "Server", "Email"}

func catIndex(code string) int {
	for i, c := range catCodes {
		if c == code {
			return i
		}
	}
	return -1
}

func appJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	b := newBox()
	defer b.remove()
	b.srv = server()
	u := &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}}
	u.makeVaults(u.opt("maxitems", 6), u.opt("multi", 1) == 1)
	if r.Intn(6) == 0 { // started in a vault
		u.b.cwd = u.paths["v1"][0]
		for id, l := range u.paths {
			l[3] = "../" + filepath.Base(l[0])
			if id == "v1" {
				u.paths[id] = append(l, ".", "./")
			}
		}
	}
	b.srv.set(map[string][]Resp{"releases": {{Mode: "rst"}}})
	e.line("I", J{"disk": J{"v1": u.vaults["v1"].trace(), "v2": u.vaults["v2"].trace()}, "places": u.places(), "current": chars(domain.Version)})
	var answer map[string]interface{}
	serve := func() {
		a, tag := answers(r, str(answer, "kind"), str(answer, "tag"))
		b.srv.set(map[string][]Resp{"releases": {a}})
		e.line("O", J{"a": "Server", "s": J{"kind": str(answer, "kind"), "tag": chars(tag)}, "mode": a.Mode, "status": a.Status, "body": tail(strconv.Quote(string(a.Body)), 200)})
		e.line("R", J{"crash": ""})
	}
	for _, o := range job["ops"].([]interface{}) {
		op := o.(map[string]interface{})
		switch str(op, "a") {
		case "Run", "Cut":
			if !u.run(e, op) {
				return
			}
			if answer != nil && r.Intn(2) == 0 { // another answer of the same kind
				serve()
			}
		case "Conf":
			m := op["c"].(map[string]interface{})
			c := settings{m["present"].(bool), u.place(str(m, "vault")), m["notify"].(bool), 1, int(m["period"].(float64))}
			if c.Present && r.Intn(2) == 0 {
				c.Timeout = 1 + r.Intn(30)
			}
			u.writeConf(c)
			e.line("O", J{"a": "Conf", "c": c})
			e.line("R", J{"crash": ""})
			e.line("O", J{"a": "Last", "l": u.readLast()}) // may be gone with the directory
			e.line("R", J{"crash": ""})
		case "Last":
			m := op["l"].(map[string]interface{})
			d := int(m["days"].(float64))
			if str(m, "kind") == "time" && r.Intn(2) == 0 {
				d = []int{0, 1, 6, 7, 8, 29, 30, 364, 365, 366, 20000}[r.Intn(11)]
			}
			u.setLast(str(m, "kind"), d)
			e.line("O", J{"a": "Last", "l": u.readLast()})
			e.line("R", J{"crash": ""})
		case "Server":
			answer = op["s"].(map[string]interface{})
			serve()
		default:
			broken("unknown op " + str(op, "a"))
		}
	}
	e.do(J{"a": "Read"}, func() J { return J{"conf": readConf(b.out(confDir)), "extra": u.keptExtra()} })
}

var _ = io.EOF
var _ = json.Marshal
