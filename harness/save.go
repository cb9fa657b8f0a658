// Family "save": the settings, saved by the real program (or by the packages
// of /repo) with the save interrupted somewhere.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
)

func init() { families["save"] = saveJob }

// apiMain SETTINGS: saves settings through the programming interface
func apiMain(a string) {
	var c settings
	must(json.Unmarshal([]byte(a), &c))
	f := facade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(confDir)))
	f.SaveConfig(domain.NewConfig(c.Timeout, c.Period, c.Notify, c.Vault))
	os.Exit(0)
}

func oddString(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return pick(r, "", "null", "~", "yes", "No", "true", "0", "007", "1.5", "0x1f", "1e3", "2020-01-02", ".inf", ".NaN", "=", "<<", "12:30:45", "- a", "? a", "a: b", "a #b", "#a", "!x", "&x", "*x", "|", ">", "%x", "@x", "`x", "{a}", "[a]", "'", "\"", "\\", ",", "---", "...", "é", "日本", "😀", "'q'", "\"q\"", "\"a b\"", "'/x", "/x\"", "x=", "$HOME", "a/../b", "a//b", "a/", "./a")
	case 1:
		return pick(r, " lead", "trail ", " ", "tab\there", "two\nlines", "end\n", "\n", "a\r\nb", "bell\a", "\x7f", "\u0085", "\u2028", "\ufeffbom", "nbsp\u00a0x", "esc\x1b[0m")
	case 2:
		return "/home/" + genText(r, false)
	}
	return "/tmp/" + strings.Repeat("very long path/", r.Intn(60)) + "x"
}

func validYamlString(s string) bool {
	for _, c := range s {
		if c == 0xfffd || c == 0 {
			return false
		}
	}
	return true
}

func saveJob(e *emitter, job J) {
	r := rand.New(rand.NewSource(int64(job["seed"].(float64))))
	b := newBox()
	defer b.remove()
	b.srv = server()
	b.link()
	exe, err := os.Executable()
	must(err)
	if os.Link(exe, b.out("bin/vd")) != nil {
		c, err := os.ReadFile(exe)
		must(err)
		b.write("bin/vd", c, 0755)
	}
	u := &appUser{r: r, b: b, opts: job, extra: map[string]interface{}{}}
	u.makeVaults(0, false)
	b.srv.set(map[string][]Resp{"releases": {{Mode: "rst"}}})
	e.line("I", J{})
	read := func() bool {
		return e.do(J{"a": "Read"}, func() J { return J{"conf": readConf(b.out(confDir)), "extra": u.keptExtra()} })
	}
	ansOf := func() []string {
		return u.dialogAnswers(J{"set": r.Intn(2) == 0, "vault": pick(r, "v1", "v2", "b"), "notify": pick(r, "y", "n", ""), "period": pick(r, "0", "n", "")})
	}
	list := func(l []string) [][]string {
		x := [][]string{}
		for _, s := range l {
			x = append(x, chars(s))
		}
		return x
	}
	for _, o := range job["ops"].([]interface{}) {
		op := o.(map[string]interface{})
		switch str(op, "a") {
		case "Conf":
			c := noSettings
			if op["present"].(bool) {
				c = settings{true, pick(r, "", "/tmp/vaults/x", "/a b", "ü", "~", "null"), r.Intn(2) == 0, 1 + r.Intn(30), r.Intn(366)}
			}
			u.writeConf(c)
			if r.Intn(6) == 0 && c.Present { // kept elsewhere
				p := b.out(confDir + "/1pass.yml")
				c2, err := os.ReadFile(p)
				must(err)
				os.Remove(p)
				b.mkdir("/tmp/h/dot", 0755)
				b.write("/tmp/h/dot/real.yml", c2, 0644)
				must(os.Symlink("../../dot/real.yml", filepath.Clean(p)))
			}
			e.line("O", J{"a": "Conf", "c": c})
			e.line("R", J{"crash": ""})
		case "Save":
			if !read() {
				return
			}
			f := Fault{How: str(op, "how"), At: int(op["at"].(float64)), Kinds: "cwm"}
			if f.At > 0 && r.Intn(2) == 0 {
				f.At = 1 + r.Intn(7)
			}
			if f.How == "full" && r.Intn(2) == 0 {
				f.How = "data"
			}
			if (f.How == "eio" || f.How == "data") && r.Intn(3) == 0 {
				f.Then = 1 + r.Intn(5)
			}
			via := pick(r, "dialog", "dialog", "api")
			rec := J{"a": "Save", "via": via, "how": f.How, "at": f.At, "then": f.Then}
			var args []string
			input := ""
			if via == "dialog" {
				l := ansOf()
				input = strings.Join(l, "\n") + "\n"
				rec["ans"] = list(l)
				args = []string{"/tmp/bin/1pass", "configure"}
			} else {
				c := settings{true, oddString(r), r.Intn(2) == 0, 1 + r.Intn(30), r.Intn(366)}
				for !validYamlString(c.Vault) {
					c.Vault = oddString(r)
				}
				rec["c"] = c
				args = []string{"/tmp/bin/vd", "apisave", string(jsonBytes(c))}
			}
			if !e.do(rec, func() J {
				res, rep := u.traced(args, input, f)
				x := J{"rc": res.rc, "sig": res.sig, "hit": rep.Hit, "done": res.rc == 0 && res.sig == "" && !res.stuck, "ops": rep.Ops, "out": tail(string(res.out), 300)}
				if res.rc == 2 && !rep.Hit {
					x["crash"] = "panic: " + tail(string(res.out), 800)
				}
				return x
			}) {
				return
			}
			if !read() {
				return
			}
			if r.Intn(3) == 0 {
				l := ansOf()
				if !e.do(J{"a": "Works", "ans": list(l)}, func() J {
					res := u.runPipe([]string{"list", "-v", "/tmp/no such vault"}, strings.Join(l, "\n")+"\n")
					x := J{"rc": res.rc, "dialog": strings.Contains(string(res.out), "Configuring 1pass"), "out": tail(string(res.out), 300)}
					if res.sig != "" || res.rc == 2 || res.stuck {
						x["crash"] = fmt.Sprint("rc ", res.rc, " ", res.sig, tail(string(res.out), 800))
					}
					return x
				}) {
					return
				}
			}
		default:
			broken("unknown op " + str(op, "a"))
		}
	}
	read()
}
