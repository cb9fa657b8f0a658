// Family "session": histories of the programming interface over several vaults
// that change on disk.
package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"
)

func init() { families["session"] = sessionJob }

type vaultFacade interface {
	CountItems(category *domain.ItemCategory, trashed bool) int
	GetItem(uid string, trashed bool) *domain.Item
	GetItems(category *domain.ItemCategory, title string, trashed bool) []*domain.SimpleItem
	IsUnlocked() bool
	Lock()
	Unlock(vault *domain.Vault, password string) error
	Validate(vault *domain.Vault) error
}

func newVaultFacade(configDir string) vaultFacade {
	configRepo := file.NewFileConfigRepo(configDir)
	itemRepo := file.NewFileItemRepo()
	profileRepo := file.NewFileProfileRepo()
	configService := service.NewDfltConfigService(configRepo)
	keyService := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), profileRepo)
	itemService := service.NewDfltItemService(keyService, itemRepo)
	vaultService := service.NewDfltVaultService(itemRepo, profileRepo)
	return facade.NewDfltVaultFacade(configService, itemService, keyService, vaultService)
}

func category(code string) *domain.ItemCategory {
	if code == "" {
		return nil
	}
	c, err := domain.ItemCategoryEnum.FromCode(code)
	if err != nil {
		broken(err)
	}
	return c
}

func obsItem(it *domain.Item) J {
	if it == nil {
		return J{"found": false}
	}
	secs := []J{}
	for _, s := range it.Sections {
		fl := []J{}
		for _, f := range s.Fields {
			fl = append(fl, J{"n": f.Name, "v": f.Value})
		}
		secs = append(secs, J{"title": s.Title, "fields": fl})
	}
	cat := ""
	if it.Category != nil {
		cat = it.Category.GetCode()
	}
	return J{"found": true, "uid": it.Uid, "cat": cat, "trashed": it.Trashed, "created": fmt.Sprint(it.Created), "updated": fmt.Sprint(it.Updated),
		"title": it.Title, "url": it.Url, "notes": it.Notes, "sections": secs}
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	if err == domain.ErrInvalidPass {
		return "invalid password"
	}
	return "other: " + err.Error()
}

// dirNames: directories a vault may lie in.
var dirNames = []string{"vault", "my vault.opvault", "a[1]b", "[", "x*y", "q?z", "back\\slash", "100%s", "ünï", "日本", "-v", "a'b\"c", "sp ace  two", "[a-z]", "{x,y}", "~", "$HOME", "dot.", ".hidden", "new\nline"}

func str(j J, k string) string {
	s, _ := j[k].(string)
	return s
}

type sess struct {
	r      *rand.Rand
	dir    string
	vaults map[string]*VaultState
	paths  map[string]string
	deep   J
}

// hash of the whole vault directory, for the read-only property
func snapshot(dir string) string { return treeHash(dir) }

func (s *sess) newItems(n int, catPool []string) []Item {
	l := []Item{}
	for i := 0; i < n; i++ {
		c := catPool[s.r.Intn(len(catPool))]
		it := genItem(s.r, c, true)
		if i > 0 && s.r.Intn(6) == 0 { // a copy, exact or almost
			x := l[s.r.Intn(i)].clone()
			x.Uid, x.band = it.Uid, it.band
			switch s.r.Intn(6) {
			case 0:
				x.Trashed = !x.Trashed
			case 1:
				x.Cat = it.Cat
			case 2:
				x.Created, x.Updated = it.Created, it.Updated
			case 3:
				x.Details = it.Details
			}
			it = x
		}
		l = append(l, it)
	}
	return l
}

func (s *sess) layout(v *VaultState) {
	switch s.r.Intn(5) {
	case 0: // all in one band
		b := string("0123456789ABCDEF"[s.r.Intn(16)])
		for i := range v.Items {
			v.Items[i].band = b
		}
	case 1: // arbitrary bands
		for i := range v.Items {
			v.Items[i].band = string("0123456789ABCDEF"[s.r.Intn(16)])
		}
	case 2: // lower case band names, longer names
		for i := range v.Items {
			v.Items[i].band = strings.ToLower(v.Items[i].Uid[:1])
		}
	}
	v.bands = nil
	switch s.r.Intn(3) {
	case 0:
		for i := 0; i < s.r.Intn(4); i++ {
			v.bands = append(v.bands, string("0123456789ABCDEF"[s.r.Intn(16)]))
		}
	case 1:
		if s.r.Intn(3) == 0 {
			v.bands = strings.Split("0123456789ABCDEF", "")
		}
	}
	v.extra = s.r.Intn(3) == 0
}

func sessionJob(e *emitter, job J) {
	seed := int64(job["seed"].(float64))
	r := rand.New(rand.NewSource(seed))
	base, err := os.MkdirTemp(os.Getenv("VDRV_SCRATCH"), "s")
	must(err)
	defer os.RemoveAll(base)
	s := &sess{r: r, dir: base, vaults: map[string]*VaultState{}, paths: map[string]string{}}
	opt := func(k string, d int) int {
		if x, ok := job[k].(float64); ok {
			return int(x)
		}
		return d
	}
	maxItems := opt("maxitems", 6)
	iters := []int{1, 2, 3, 10, 100, 1000}
	if opt("bigiter", 0) == 1 {
		iters = append(iters, 10000, 40000)
	}
	disk := J{}
	for _, id := range []string{"v1", "v2"} {
		v := newVault(r, genPw(r), iters[r.Intn(len(iters))])
		n := r.Intn(maxItems + 1)
		if r.Intn(6) == 0 {
			n = 0
		}
		pool := catCodes
		switch r.Intn(4) {
		case 0:
			pool = []string{"001"}
		case 1:
			pool = []string{"001", "002", "099", "111", "012", "999", ""}
		case 2:
			pool = append([]string{"112", "000", "1", "01", "0001", "Login"}, catCodes...)
		}
		v.Items = s.newItems(n, pool)
		if opt("titles", 0) == 1 { // many near-equal titles
			for i := range v.Items {
				v.Items[i].Title = genTitle(r, true)
				v.Items[i].TitleC = cps(v.Items[i].Title)
			}
		}
		s.layout(v)
		if id == "v2" && r.Intn(3) == 0 { // the same identifiers as in v1
			for i := range v.Items {
				if i < len(s.vaults["v1"].Items) {
					v.Items[i].Uid = s.vaults["v1"].Items[i].Uid
				}
			}
		}
		if id == "v2" && r.Intn(4) == 0 { // the same password as v1
			v.Pw = s.vaults["v1"].Pw
			if r.Intn(2) == 0 { // the same vault at another time
				o := s.vaults["v1"]
				v.Salt, v.Iter, v.Mplain, v.Oplain = o.Salt, o.Iter, o.Mplain, o.Oplain
				v.Items = nil
				for i := range o.Items {
					if r.Intn(4) > 0 {
						it := o.Items[i].clone()
						if r.Intn(2) == 0 {
							sameSize(r, &it)
						}
						v.Items = append(v.Items, it)
					}
				}
			}
		}
		s.vaults[id] = v
		name := dirNames[r.Intn(len(dirNames))]
		if opt("plain", 0) == 1 {
			name = "vault"
		}
		s.paths[id] = filepath.Join(base, id, name)
		v.write(s.paths[id])
		disk[id] = v.trace()
	}
	e.line("I", J{"disk": disk})
	f := newVaultFacade(filepath.Join(base, "conf"))
	loaded := ""
	ops := job["ops"].([]interface{})
	for _, o := range ops {
		op := o.(map[string]interface{})
		switch str(op, "a") {
		case "Validate":
			id := str(op, "v")
			before := snapshot(base)
			ok := e.do(J{"a": "Validate", "v": id}, func() J {
				err := f.Validate(domain.NewVault(s.paths[id]))
				return J{"err": errStr(err), "same": snapshot(base) == before}
			})
			if !ok {
				return
			}
			loaded = id
		case "Unlock":
			id := loaded
			v := s.vaults[id]
			pw := v.Pw
			switch str(op, "pw") {
			case "wrong":
				pw = wrongPw(r, v.Pw)
			case "other":
				o := "v1"
				if id == "v1" {
					o = "v2"
				}
				pw = s.vaults[o].Pw
			}
			if strings.HasSuffix(pw, "\x00") {
				pw += "z"
			}
			before := snapshot(base)
			ok := e.do(J{"a": "Unlock", "v": id, "pw": fmt.Sprintf("%x", pw)}, func() J {
				err := f.Unlock(domain.NewVault(s.paths[id]), pw)
				return J{"err": errStr(err), "unlocked": f.IsUnlocked(), "same": snapshot(base) == before}
			})
			if !ok {
				return
			}
		case "Lock":
			if !e.do(J{"a": "Lock"}, func() J {
				f.Lock()
				return J{"unlocked": f.IsUnlocked()}
			}) {
				return
			}
		case "Query":
			if !s.battery(e, f, loaded, opt("queries", 6)) {
				return
			}
		case "Add":
			v := s.vaults[str(op, "v")]
			pool := catCodes
			if r.Intn(4) == 0 {
				pool = []string{"012"}
			}
			v.Items = append(v.Items, s.newItems(1+r.Intn(3), pool)...)
			s.sync(e, str(op, "v"), "Add")
		case "Del":
			v := s.vaults[str(op, "v")]
			if len(v.Items) > 0 {
				i := r.Intn(len(v.Items))
				v.Items = append(append([]Item{}, v.Items[:i]...), v.Items[i+1:]...)
			}
			s.sync(e, str(op, "v"), "Del")
		case "Edit":
			v := s.vaults[str(op, "v")]
			if len(v.Items) > 0 {
				i := r.Intn(len(v.Items))
				if it := v.Items[i].clone(); r.Intn(3) > 0 && sameSize(r, &it) {
					v.Items[i] = it
				} else {
					it := genItem(r, v.Items[i].Cat, true)
					it.Uid = v.Items[i].Uid
					v.Items[i] = it
				}
			}
			s.sync(e, str(op, "v"), "Edit")
		case "Trash":
			v := s.vaults[str(op, "v")]
			if len(v.Items) > 0 {
				i := r.Intn(len(v.Items))
				it := v.Items[i].clone()
				it.Trashed = !it.Trashed
				v.Items[i] = it
			}
			s.sync(e, str(op, "v"), "Trash")
		case "Move": // other distribution over the band files
			s.layout(s.vaults[str(op, "v")])
			s.sync(e, str(op, "v"), "Move")
		case "Rekey": // the master password is changed
			v := s.vaults[str(op, "v")]
			v.Pw = genPw(r)
			v.Salt = make([]byte, 16)
			r.Read(v.Salt)
			s.sync(e, str(op, "v"), "Rekey")
		case "Tamper":
			v := s.vaults[str(op, "v")]
			part := str(op, "part")
			n := 1
			if r.Intn(4) == 0 {
				n = 1 + r.Intn(len(v.Items)+1)
			}
			for ; n > 0 && len(v.Items) > 0; n-- {
				i := r.Intn(len(v.Items))
				it := v.Items[i].clone()
				if it.tampers[part] == "" {
					it.Tamper = append(it.Tamper, part)
				}
				it.tampers[part] = alterKinds[r.Intn(len(alterKinds))]
				if r.Intn(4) == 0 { // a big part
					text := strings.Repeat("0123456789 abcdef", 1<<uint(5+r.Intn(9)))
					if part == "o" {
						it.Url = text
					} else {
						it.Details.Notes = text
					}
				}
				if part == "k" && it.tampers[part] == "cut1" && r.Intn(2) == 0 {
					it.tampers[part] = "cut16"
				}
				v.Items[i] = it
				part = pick(r, "k", "d", "o")
			}
			s.sync(e, str(op, "v"), "Tamper")
		case "Repair":
			v := s.vaults[str(op, "v")]
			for i := range v.Items {
				it := v.Items[i].clone()
				it.Tamper = []string{}
				it.tampers = map[string]string{}
				v.Items[i] = it
			}
			v.Prof = "good"
			s.sync(e, str(op, "v"), "Repair")
		case "TamperProfile":
			v := s.vaults[str(op, "v")]
			v.Prof = str(op, "part") + ":" + alterKinds[r.Intn(len(alterKinds))]
			s.sync(e, str(op, "v"), "TamperProfile")
		default:
			broken("unknown op " + str(op, "a"))
		}
	}
}

// sameSize changes one letter of an item.
func sameSize(r *rand.Rand, it *Item) bool {
	other := func(s string) (string, bool) {
		for _, i := range r.Perm(len(s)) {
			if c := s[i]; c >= 'a' && c < 'z' {
				return s[:i] + string(c+1) + s[i+1:], true
			}
		}
		return s, false
	}
	if t, ok := other(it.Title); ok && r.Intn(2) == 0 {
		it.Title, it.TitleC = t, cps(t)
		return true
	}
	for i := range it.Details.Form {
		if t, ok := other(it.Details.Form[i].Value); ok {
			it.Details.Form = append([]FormField{}, it.Details.Form...)
			it.Details.Form[i].Value = t
			return true
		}
	}
	return false
}

func (s *sess) sync(e *emitter, id, kind string) {
	v := s.vaults[id]
	v.write(s.paths[id])
	e.line("O", J{"a": "Disk", "v": id, "kind": kind, "to": v.trace()})
	e.line("R", J{"crash": ""})
}

func simple(l []*domain.SimpleItem) []J {
	out := []J{}
	for _, x := range l {
		cat := ""
		if x.Category != nil {
			cat = x.Category.GetCode()
		}
		out = append(out, J{"uid": x.Uid, "cat": cat, "trashed": x.Trashed, "title": x.Title})
	}
	return out
}

// battery: counts, lists and single items.
func (s *sess) battery(e *emitter, f vaultFacade, loaded string, n int) bool {
	r := s.r
	uids := map[string]bool{"": true, "NOSUCH": true}
	titles := []string{}
	for _, v := range s.vaults {
		for _, it := range v.Items {
			uids[it.Uid] = true
			titles = append(titles, it.Title)
		}
	}
	// also everything the session lists itself
	if !e.do(J{"a": "State"}, func() J { return J{"unlocked": f.IsUnlocked()} }) {
		return false
	}
	cats := append([]string{""}, catCodes...)
	for _, t := range []bool{false, true} {
		t := t
		if !e.do(J{"a": "Counts", "t": t}, func() J {
			m := J{}
			for _, c := range cats {
				m["c"+c] = f.CountItems(category(c), t)
			}
			return J{"counts": m}
		}) {
			return false
		}
		if !e.do(J{"a": "List", "c": "", "q": "", "qc": []int{}, "t": t}, func() J {
			l := f.GetItems(nil, "", t)
			for _, x := range l {
				uids[x.Uid] = true
			}
			return J{"list": simple(l)}
		}) {
			return false
		}
	}
	sort.Strings(titles)
	for i := 0; i < n; i++ {
		c := cats[r.Intn(len(cats))]
		if r.Intn(2) == 0 {
			c = pick(r, "", "001", "002")
		}
		q := ""
		if r.Intn(5) != 0 {
			q = genQuery(r, titles)
		}
		t := r.Intn(3) == 0
		if !e.do(J{"a": "List", "c": c, "q": q, "qc": cps(q), "t": t}, func() J {
			return J{"list": simple(f.GetItems(category(c), q, t))}
		}) {
			return false
		}
	}
	ul := []string{}
	for u := range uids {
		ul = append(ul, u)
	}
	sort.Strings(ul)
	if len(ul) > 0 {
		ul = append(ul, strings.ToLower(ul[len(ul)-1]))
	}
	for _, u := range ul {
		for _, t := range []bool{false, true} {
			u, t := u, t
			if !e.do(J{"a": "Get", "uid": u, "t": t}, func() J { return J{"item": obsItem(f.GetItem(u, t))} }) {
				return false
			}
		}
	}
	return true
}

var _ = base64.StdEncoding
