// An OPVault writer of our own: the independent source of truth about what is
// stored in a vault.  Nothing of /repo is used here.
package main

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Stamp is a unix time, split so that the specification (32-bit integers) can
// do calendar arithmetic on it.
type Stamp struct {
	Raw string `json:"raw"`
	Day int    `json:"day"`
	Sec int    `json:"sec"`
	u   int64
}

func mkStamp(u int64) Stamp {
	day := u / 86400
	sec := u % 86400
	if sec < 0 {
		sec += 86400
		day--
	}
	return Stamp{Raw: fmt.Sprint(u), Day: int(day), Sec: int(sec), u: u}
}

type FormField struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	how   int
}

type Part struct {
	K  string `json:"k"`
	V  string `json:"v"`
	KC []int  `json:"kc"`
}

type SecField struct {
	K     string `json:"k"`
	T     string `json:"t"`
	Has   bool   `json:"has"`
	V     string `json:"v"`
	D     Stamp  `json:"d"`
	Parts []Part `json:"parts"`
	num   bool
	how   int
}

type Section struct {
	Title  string     `json:"title"`
	Fields []SecField `json:"fields"`
	how    int
}

type Details struct {
	Form     []FormField `json:"form"`
	Sections []Section   `json:"sections"`
	Notes    string      `json:"notes"`
	how      int
	noise    map[string]interface{}
}

type Item struct {
	Uid     string   `json:"uid"`
	Cat     string   `json:"cat"`
	Trashed bool     `json:"trashed"`
	Created Stamp    `json:"created"`
	Updated Stamp    `json:"updated"`
	Title   string   `json:"title"`
	TitleC  []int    `json:"titlec"`
	Url     string   `json:"url"`
	Details Details  `json:"details"`
	Tamper  []string `json:"tamper"`
	band    string
	how     int
	noise   map[string]interface{}
	align   int
	tampers map[string]string // part -> base64 text stored instead
	rawO    []byte            // overview and details that are stored instead
	rawD    []byte
}

func (it Item) clone() Item {
	t := map[string]string{}
	for k, v := range it.tampers {
		t[k] = v
	}
	it.tampers = t
	it.Tamper = append([]string{}, it.Tamper...)
	return it
}

type VaultState struct {
	Pw           string // raw bytes
	Salt         []byte
	Iter         int
	Mplain       []byte
	Oplain       []byte
	Items        []Item
	Prof         string // "good" or which part is altered
	profOverride map[string]string
	bands        []string // band suffixes that exist even if empty
	extra        bool
	rng          *rand.Rand
}

func cps(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func opdata(r *rand.Rand, plain, key, mac []byte) []byte {
	out := []byte("opdata01")
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(plain)))
	out = append(out, l[:]...)
	iv := make([]byte, 16)
	r.Read(iv)
	out = append(out, iv...)
	pad := 16 - len(plain)%16
	p := make([]byte, pad)
	r.Read(p)
	p = append(p, plain...)
	b, _ := aes.NewCipher(key)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(p, p)
	out = append(out, p...)
	h := hmac.New(sha256.New, mac)
	h.Write(out)
	return h.Sum(out)
}

// pbkdf2 (RFC 2898), written again so that the vaults do not depend on the
// implementation under test.
func kdf(password, salt []byte, iter, n int) []byte {
	prf := hmac.New(sha512.New, password)
	var out []byte
	for i := uint32(1); len(out) < n; i++ {
		prf.Reset()
		prf.Write(salt)
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], i)
		prf.Write(b[:])
		u := prf.Sum(nil)
		t := append([]byte{}, u...)
		for j := 1; j < iter; j++ {
			prf.Reset()
			prf.Write(u)
			u = prf.Sum(u[:0])
			for k := range t {
				t[k] ^= u[k]
			}
		}
		out = append(out, t...)
	}
	return out[:n]
}

var b64 = base64.StdEncoding

type keyset struct{ dk, dm, mk, mm, ok, om []byte }

func (v *VaultState) keys() keyset {
	d := kdf([]byte(v.Pw), v.Salt, v.Iter, 64)
	m := sha512.Sum512(v.Mplain)
	o := sha512.Sum512(v.Oplain)
	return keyset{d[:32], d[32:], m[:32], m[32:], o[:32], o[32:]}
}

func newVault(r *rand.Rand, pw string, iter int) *VaultState {
	v := &VaultState{Pw: pw, Iter: iter, Prof: "good", rng: r, profOverride: map[string]string{}}
	v.Salt = make([]byte, 16)
	r.Read(v.Salt)
	v.Mplain = make([]byte, 256)
	r.Read(v.Mplain)
	v.Oplain = make([]byte, 64)
	r.Read(v.Oplain)
	return v
}

func jsonBytes(x interface{}) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		broken(err)
	}
	return b
}

// alignTo adds a noise key to a JSON object so that its length is congruent to
// want modulo 16 (want < 0: leave it).
func alignTo(m map[string]interface{}, want int) []byte {
	b := jsonBytes(m)
	if want < 0 {
		return b
	}
	m["zz"] = ""
	b = jsonBytes(m)
	n := ((want-len(b))%16 + 16) % 16
	m["zz"] = strings.Repeat("x", n)
	return jsonBytes(m)
}

func (d *Details) toJSON() map[string]interface{} {
	m := map[string]interface{}{}
	for k, v := range d.noise {
		m[k] = v
	}
	if len(d.Form) > 0 || d.how&1 != 0 {
		l := []interface{}{}
		for i, f := range d.Form {
			o := map[string]interface{}{"type": []string{"T", "P", "E", "I"}[i%4]}
			if f.Name != "" || f.how&1 != 0 {
				o["name"] = f.Name
			} else if f.how&2 != 0 {
				o["name"] = nil
			}
			if f.Value != "" || f.how&4 != 0 {
				o["value"] = f.Value
			} else if f.how&8 != 0 {
				o["value"] = nil
			}
			if f.how&16 != 0 {
				o["designation"] = []string{"username", "password"}[i%2]
			}
			l = append(l, o)
		}
		m["fields"] = l
	}
	if len(d.Sections) > 0 || d.how&2 != 0 {
		l := []interface{}{}
		for i, s := range d.Sections {
			o := map[string]interface{}{"name": fmt.Sprintf("Section_%d", i)}
			if s.Title != "" || s.how&1 != 0 {
				o["title"] = s.Title
			} else if s.how&2 != 0 {
				o["title"] = nil
			}
			if len(s.Fields) > 0 || s.how&4 != 0 {
				fl := []interface{}{}
				for j, f := range s.Fields {
					fo := map[string]interface{}{"k": f.K, "n": fmt.Sprintf("f%d", j), "t": f.T}
					if f.how&1 != 0 {
						fo["a"] = map[string]interface{}{"guarded": "yes"}
					}
					if f.Has {
						switch strings.ToLower(f.K) {
						case "date":
							if f.num {
								fo["v"] = f.D.u
							} else {
								fo["v"] = f.D.Raw
							}
						case "monthyear":
							if f.num {
								fo["v"] = json.Number(f.V)
							} else {
								fo["v"] = f.V
							}
						case "address":
							a := map[string]interface{}{}
							for _, p := range f.Parts {
								a[p.K] = p.V
							}
							fo["v"] = a
						default:
							fo["v"] = f.V
						}
					} else if f.how&2 != 0 {
						fo["v"] = nil
					}
					fl = append(fl, fo)
				}
				o["fields"] = fl
			}
			l = append(l, o)
		}
		m["sections"] = l
	}
	if d.Notes != "" || d.how&4 != 0 {
		m["notesPlain"] = d.Notes
	}
	return m
}

func (v *VaultState) itemJSON(it *Item, ks keyset) map[string]interface{} {
	r := v.rng
	ik := make([]byte, 64)
	r.Read(ik)
	iv := make([]byte, 16)
	r.Read(iv)
	ct := append([]byte{}, ik...)
	b, _ := aes.NewCipher(ks.mk)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(ct, ct)
	k := append(append([]byte{}, iv...), ct...)
	h := hmac.New(sha256.New, ks.mm)
	h.Write(k)
	k = h.Sum(k)
	o := map[string]interface{}{}
	for a, x := range it.noise {
		o[a] = x
	}
	if it.Title != "" || it.how&1 != 0 {
		o["title"] = it.Title
	}
	if it.Url != "" || it.how&2 != 0 {
		o["url"] = it.Url
	}
	hm := make([]byte, 32)
	r.Read(hm)
	overview, details := it.rawO, it.rawD
	if overview == nil {
		overview = alignTo(o, it.align)
	}
	if details == nil {
		details = alignTo(it.Details.toJSON(), it.align)
	}
	m := map[string]interface{}{
		"uuid": it.Uid, "category": it.Cat, "created": it.Created.u, "updated": it.Updated.u, "tx": it.Updated.u,
		"hmac": b64.EncodeToString(hm),
		"k":    b64.EncodeToString(k),
		"d":    b64.EncodeToString(opdata(r, details, ik[:32], ik[32:])),
		"o":    b64.EncodeToString(opdata(r, overview, ks.ok, ks.om)),
	}
	if it.Trashed || it.how&4 != 0 {
		m["trashed"] = it.Trashed
	}
	if it.how&8 != 0 {
		m["fave"] = 1
	}
	if it.how&16 != 0 {
		m["folder"] = "AC78552EC06A4F65BEBF58B4D9E32080"
	}
	return m
}

// alter returns a changed version of a stored base64 blob.
func alter(r *rand.Rand, orig string, how string) string {
	raw, _ := b64.DecodeString(orig)
	n := len(raw)
	switch how {
	case "bit":
		i := r.Intn(n)
		raw[i] ^= 1 << uint(r.Intn(8))
	case "mac":
		raw[n-1-r.Intn(32)] ^= byte(1 + r.Intn(255))
	case "head":
		raw[r.Intn(16)] ^= byte(1 + r.Intn(255))
	case "iv":
		raw[16+r.Intn(16)] ^= byte(1 + r.Intn(255))
	case "len":
		raw[8+r.Intn(2)] ^= byte(1 + r.Intn(255))
	case "body":
		lo := n / 3
		raw[lo+r.Intn(n-32-lo)] ^= byte(1 + r.Intn(255))
	case "zeromac":
		for i := n - 32; i < n; i++ {
			raw[i] = 0
		}
	case "firstmac": // only the last bytes of the MAC differ
		raw[n-1] ^= 0x01
	case "cut1":
		raw = raw[:n-1]
	case "cut16":
		raw = raw[:n-16]
	case "cut32":
		raw = raw[:n-32]
	case "cutfront":
		raw = raw[16:]
	case "short":
		raw = raw[:r.Intn(33)]
	case "short64":
		raw = raw[:33+r.Intn(31)]
	case "empty":
		return ""
	case "grow":
		ex := make([]byte, 16)
		r.Read(ex)
		raw = append(raw, ex...)
	case "random":
		r.Read(raw)
	case "nob64":
		return "!!" + orig[2:]
	case "b64cut":
		return orig[:len(orig)/2-len(orig)/2%4+1]
	case "swapblocks":
		if n >= 32+32+32 {
			x := append([]byte{}, raw[32:48]...)
			copy(raw[32:48], raw[48:64])
			copy(raw[48:64], x)
		} else {
			raw[n/2] ^= 0x80
		}
	}
	s := b64.EncodeToString(raw)
	if s == orig {
		return alter(r, orig, "bit")
	}
	return s
}

var alterKinds = []string{"bit", "mac", "head", "iv", "len", "body", "zeromac", "firstmac", "cut1", "cut16", "cut32", "cutfront",
	"short", "short64", "empty", "grow", "random", "nob64", "b64cut", "swapblocks"}

var catCodes = []string{"001", "002", "003", "004", "005", "099", "100", "101", "102", "103", "104", "105", "106", "107", "108", "109", "110", "111"}

// infra: something that is not the code under test went wrong.
type infra struct{ msg string }

func broken(a ...interface{}) { panic(infra{fmt.Sprint(a...)}) }

func must(err error) {
	if err != nil {
		broken(err)
	}
}

// write puts the vault on disk, replacing what is there.
func (v *VaultState) write(dir string) {
	def := filepath.Join(dir, "default")
	// the times of the files may stay as they were (synchronisation tools keep
	// them), and files may be replaced or overwritten
	times := map[string]time.Time{}
	filepath.Walk(def, func(p string, info os.FileInfo, err error) error {
		if err == nil {
			times[p] = info.ModTime()
		}
		return nil
	})
	if v.rng.Intn(2) == 0 {
		must(os.RemoveAll(def))
	} else {
		for p := range times {
			if p != def && filepath.Base(p) != "profile.js" && v.rng.Intn(2) == 0 {
				os.Remove(p)
			}
		}
	}
	must(os.MkdirAll(def, 0755))
	written := map[string]bool{}
	defer func() {
		es, err := os.ReadDir(def)
		must(err)
		for _, e := range es {
			if !written[e.Name()] {
				os.Remove(filepath.Join(def, e.Name()))
			}
		}
		off := []time.Duration{0, 0, -time.Hour, -48 * time.Hour, time.Hour}
		if v.rng.Intn(2) == 0 {
			o := off[v.rng.Intn(len(off))]
			for p, t := range times {
				os.Chtimes(p, t.Add(o), t.Add(o))
			}
		}
	}()
	put := func(name, c string) {
		must(os.WriteFile(filepath.Join(def, name), []byte(c), 0644))
		written[name] = true
	}
	ks := v.keys()
	prof := map[string]interface{}{
		"lastUpdatedBy": "Dropbox", "updatedAt": 1370323483, "profileName": "default", "passwordHint": "hint",
		"salt": b64.EncodeToString(v.Salt), "iterations": v.Iter, "uuid": "2B894A18997C4638BACC55F2D56A4890", "createdAt": 1373753414,
		"masterKey":   b64.EncodeToString(opdata(v.rng, v.Mplain, ks.dk, ks.dm)),
		"overviewKey": b64.EncodeToString(opdata(v.rng, v.Oplain, ks.dk, ks.dm)),
	}
	if v.Prof != "good" {
		p := strings.SplitN(v.Prof, ":", 2)
		prof[p[0]] = alter(v.rng, prof[p[0]].(string), p[1])
	}
	put("profile.js", "var profile="+string(jsonBytes(prof))+";")
	bands := map[string]map[string]interface{}{}
	for _, b := range v.bands {
		bands[b] = map[string]interface{}{}
	}
	for i := range v.Items {
		it := &v.Items[i]
		if bands[it.band] == nil {
			bands[it.band] = map[string]interface{}{}
		}
		j := v.itemJSON(it, ks)
		for _, part := range it.Tamper {
			how := it.tampers[part]
			j[part] = alter(v.rng, j[part].(string), how)
		}
		bands[it.band][it.Uid] = j
	}
	names := []string{}
	for b := range bands {
		names = append(names, b)
	}
	sort.Strings(names)
	for _, b := range names {
		put("band_"+b+".js", "ld("+string(jsonBytes(bands[b]))+");")
	}
	if v.extra {
		put("folders.js", "loadFolders({\"AC78552EC06A4F65BEBF58B4D9E32080\":{\"created\":1373754128}});")
		put("band_0.js.bak", "garbage")
		put("xband_0.js", "garbage")
		put("F_0.attachment", "OPCLDAT garbage")
		stray := []string{".lock", "lock", "profile.js.tmp", "profile.js~", "profile.js.bak", ".DS_Store", "._band_0.js", "._profile.js", "band_0.js.tmp", "band_0.js~", "BAND_0.JS",
			"Band_1.js", ".band_0.js.swp", "1password.lock", "session", "cache", "tmp", "Thumbs.db", "contents.js", "old.js", "profile.js.new"}
		for i := 0; i < 8; i++ {
			put(stray[v.rng.Intn(len(stray))], "garbage")
		}
		for _, d := range []string{"tmp.d", ".cache", "a", "band"} {
			if v.rng.Intn(3) == 0 {
				must(os.MkdirAll(filepath.Join(def, d), 0755))
				written[d] = true
				if v.rng.Intn(2) == 0 {
					must(os.WriteFile(filepath.Join(def, d, stray[v.rng.Intn(len(stray))]), nil, 0644))
				}
			}
		}
	}
}

func (v *VaultState) trace() map[string]interface{} {
	items := []Item{}
	for _, it := range v.Items {
		items = append(items, it.clone())
	}
	return map[string]interface{}{"pw": fmt.Sprintf("%x", v.Pw), "prof": v.Prof, "items": items}
}

var _ = time.Now
