// Random contents. Every choice comes from the generator passed in.
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

// rangeRunes are characters whose lower case the specification knows.
var titleRanges = [][2]int{{'a', 'z'}, {'A', 'Z'}, {'a', 'z'}, {'0', '9'}, {' ', ' '}, {0xC0, 0xD6}, {0xD8, 0xDE}, {0xE0, 0xF6}, {0xF8, 0xFE},
	{0x391, 0x3A1}, {0x3A3, 0x3A9}, {0x3B1, 0x3C1}, {0x3C3, 0x3C9}, {0x410, 0x44F}, {0x4E00, 0x4E40}, {0x1F600, 0x1F610}}

func randTitleRune(r *rand.Rand) rune {
	x := titleRanges[r.Intn(len(titleRanges))]
	return rune(x[0] + r.Intn(x[1]-x[0]+1))
}

func hexUid(r *rand.Rand) string {
	const h = "0123456789ABCDEF"
	b := make([]byte, 32)
	for i := range b {
		b[i] = h[r.Intn(16)]
	}
	if r.Intn(15) == 0 {
		return strings.ToLower(string(b))
	}
	return string(b)
}

var words = strings.Fields("bank mail login Router HOME work Secret card the key x Alpha beta GAMMA delta wifi server root admin note Paris tax key2 10 9 2 ftp a an")

func randWords(r *rand.Rand, n int) string {
	l := []string{}
	for i := 0; i < n; i++ {
		l = append(l, words[r.Intn(len(words))])
	}
	return strings.Join(l, " ")
}

// genTitle: titles with many near-collisions, prefixes of each other, other
// cases, non-ASCII letters.
func genTitle(r *rand.Rand, plain bool) string {
	switch r.Intn(10) {
	case 0:
		if plain {
			return "Untitled"
		}
		return ""
	case 1, 2, 3:
		return randWords(r, 1+r.Intn(3))
	case 4:
		return pick(r, "a", "A", "b", "B", "aa", "ab", "Z", "_", "~x", "!x", "10", "9", "1", "my  bank", "My bank", "my   BANK", "a b", "a  b")
	case 5:
		return pick(r, "100% sure", "%s", "%d%v", "50%!", "a\\nb", "tab \"quoted\"", "<b>&amp;", "it's", "c:\\dir", "${x}", "{{.}}", "[a-z]*", "a|b", "ld({});")
	case 6:
		if plain {
			return "Mail " + fmt.Sprint(r.Intn(100))
		}
		if r.Intn(4) == 0 {
			return pick(r, " lead", "trail ", "\u200bx", "x\u200b", "\ufeffx", "\u00a0a", "a\u00a0", "a\tb", "a\nb", "\n", " ", "x\r")
		}
		n := 1 + r.Intn(12)
		s := ""
		for i := 0; i < n; i++ {
			s += string(randTitleRune(r))
		}
		return s
	case 7:
		return pick(r, "ÉCOLE", "école", "École", "Ärger", "ärger", "ΑΒΓ", "αβγ", "ПАРОЛЬ", "пароль", "日本語", "ñandú", "ÑANDÚ")
	case 8:
		if plain {
			return strings.Repeat("long title ", 3) + fmt.Sprint(r.Intn(10))
		}
		return strings.Repeat("very long title ", 5+r.Intn(40)) + fmt.Sprint(r.Intn(10))
	}
	return pick(r, "Mail", "mail", "MAIL", "Email", "e-mail", "Gmail", "mailbox", "Mail 2")
}

// genText: values, notes, URLs.  multi: line breaks allowed.
func genText(r *rand.Rand, multi bool) string {
	switch r.Intn(14) {
	case 0:
		return pick(r, "%", "%s", "%d", "100%", "%v%v", "%!s(MISSING)", "p%20w", "%%", "%[1]d", "%x")
	case 1:
		return pick(r, "\"", "\\", "a\"b\\c", "'", "<script>", "&amp;", "a/b", "{}", "[1,2]", "null", "true", "0", "0123", "1e5", "1.50", "-1", "+1")
	case 2:
		return pick(r, "zażółć", "пароль", "日本語", "😀😀", "é", "e\u0301", "ß", "İ", "\u200b", "a\u00a0b", "ＡＢ", "ﬁ", "\ufeffx")
	case 3:
		return pick(r, " ", "  ", " lead", "trail ", " both ", "a  b")
	case 4:
		if multi {
			return pick(r, "line1\nline2", "a\n\nb", "\nlead", "trail\n", "tab\there", "cr\r\nlf", "- item\n- item\n  sub", strings.Repeat("row\n", 40))
		}
		return "single"
	case 5:
		return strings.Repeat(pick(r, "x", "ab", "pass "), 1+r.Intn(300))
	case 6:
		n := 1 + r.Intn(64)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + r.Intn(94))
		}
		return string(b)
	case 7:
		return pick(r, "**********", "*", "--------", "Password:", "------------------------------", "Notes")
	case 8:
		return pick(r, "https://example.com/login?a=b&c=%20#x", "user@example.com", "+48 123 456 789", "4111 1111 1111 1111")
	case 9:
		return strings.Repeat("A", []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097}[r.Intn(19)])
	case 10:
		if multi && r.Intn(10) == 0 {
			return strings.Repeat("0123456789abcdef", 4096+r.Intn(4096))
		}
		return "abc"
	}
	return randWords(r, 1+r.Intn(4))
}

func genLabel(r *rand.Rand) string {
	return pick(r, "username", "password", "Password", "e-mail address", "one-time password", "PIN", "pin code", "o'neil", "server", "server_name", "url", "b2b id",
		"expiry date", "member since", "number (work)", "a", "x y z", "card no.", "100% label", "  spaced", "MiXed cASE", "first/last name", "1st", "email2nd")
}

func genStamp(r *rand.Rand) Stamp {
	switch r.Intn(8) {
	case 0:
		return mkStamp(0)
	case 1:
		return mkStamp(int64(r.Intn(86400 * 2)))
	case 2:
		return mkStamp(2147483647 + int64(r.Intn(100000000)))
	case 3:
		return mkStamp(-int64(r.Intn(2000000000)))
	case 4:
		// around midnight and month ends
		d := []int64{951782400, 951868800, 1078012800, 1230768000, 4107542400, 1582934400, 1583020800, 1704067200}[r.Intn(8)]
		return mkStamp(d + int64(r.Intn(3)-1))
	}
	return mkStamp(int64(1000000000 + r.Intn(800000000)))
}

var kinds = []string{"string", "concealed", "URL", "phone", "email", "menu", "gender", "cctype", "reference"}

func genSecField(r *rand.Rand, txt func() string) SecField {
	f := SecField{T: genLabel(r), Has: true, Parts: []Part{}, D: mkStamp(0), how: r.Intn(4)}
	if r.Intn(25) == 0 {
		f.T = ""
	}
	switch r.Intn(8) {
	case 0:
		f.K = pick(r, "date", "date", "date", "DATE", "Date")
		f.D = genStamp(r)
		f.num = r.Intn(4) != 0
	case 1:
		f.K = pick(r, "monthYear", "monthYear", "monthyear")
		if r.Intn(4) == 0 {
			f.V = fmt.Sprint(1900 + r.Intn(200))
		} else {
			f.V = fmt.Sprintf("%04d%02d", 1900+r.Intn(200), 1+r.Intn(12))
		}
		f.num = r.Intn(3) != 0
	case 2:
		f.K = "address"
		ks := []string{"street", "city", "zip", "state", "country", "region", "country2"}
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks[:r.Intn(len(ks)+1)] {
			v := pick(r, "Paris", "1 Main St", "00-950", "us", "", "100% Road", "Łódź", "a b")
			if r.Intn(3) == 0 {
				v = txt()
				v = strings.TrimSpace(strings.ReplaceAll(v, "\n", " "))
			}
			f.Parts = append(f.Parts, Part{K: k, V: v, KC: cps(k)})
		}
	default:
		f.K = kinds[r.Intn(len(kinds))]
		f.V = txt()
		if r.Intn(12) == 0 {
			f.V = ""
		}
	}
	if r.Intn(6) == 0 {
		f.Has = false
	}
	return f
}

func genDetails(r *rand.Rand, multi bool) Details {
	return genDetailsT(r, func() string { return genText(r, multi) }, multi)
}

func genDetailsT(r *rand.Rand, txt func() string, multi bool) Details {
	d := Details{Form: []FormField{}, Sections: []Section{}, how: r.Intn(8)}
	if r.Intn(2) == 0 {
		for i := 0; i < r.Intn(5); i++ {
			f := FormField{Name: genLabel(r), Value: txt(), how: r.Intn(32)}
			if r.Intn(6) == 0 {
				f.Name = ""
			}
			if r.Intn(6) == 0 {
				f.Value = ""
			}
			d.Form = append(d.Form, f)
			if r.Intn(8) == 0 { // the same again, entirely or in part
				g := f
				switch r.Intn(3) {
				case 0:
					g.Value = txt()
				case 1:
					g.Name = genLabel(r)
				}
				d.Form = append(d.Form, g)
			}
		}
	}
	if r.Intn(3) != 0 {
		for i := 0; i < r.Intn(4); i++ {
			s := Section{Fields: []SecField{}, how: r.Intn(8)}
			if r.Intn(3) != 0 {
				s.Title = genLabel(r)
			}
			for j := 0; j < r.Intn(5); j++ {
				f := genSecField(r, txt)
				s.Fields = append(s.Fields, f)
				if r.Intn(8) == 0 {
					g := f
					switch r.Intn(3) {
					case 0:
						g = genSecField(r, txt)
						g.T = f.T
					case 1:
						g.T = genLabel(r)
					}
					s.Fields = append(s.Fields, g)
				}
			}
			d.Sections = append(d.Sections, s)
			if r.Intn(10) == 0 {
				t := s
				switch r.Intn(3) {
				case 0:
					t.Fields = []SecField{genSecField(r, txt)}
				case 1:
					t.Title = genLabel(r)
				}
				d.Sections = append(d.Sections, t)
			}
		}
	}
	if r.Intn(2) == 0 {
		d.Notes = txt()
		if multi && r.Intn(2) == 0 {
			d.Notes += "\n" + txt()
		}
	}
	if r.Intn(3) == 0 {
		d.noise = map[string]interface{}{"htmlMethod": "post", "backupKeys": []string{"x"}, "passwordHistory": []interface{}{map[string]interface{}{"value": "old", "time": 1}}}
	}
	return d
}

func genItem(r *rand.Rand, cat string, multi bool) Item {
	it := Item{Uid: hexUid(r), Cat: cat, Trashed: r.Intn(4) == 0, Created: genStamp(r), Updated: genStamp(r), Title: genTitle(r, false),
		Details: genDetails(r, multi), Tamper: []string{}, how: r.Intn(32), tampers: map[string]string{}, align: r.Intn(20) - 4}
	if r.Intn(2) == 0 {
		it.Url = genText(r, false)
	}
	if r.Intn(3) == 0 {
		it.noise = map[string]interface{}{"ainfo": "user", "ps": 50, "tags": []string{"t"}, "URLs": []interface{}{map[string]interface{}{"u": "http://x"}}}
	}
	it.TitleC = cps(it.Title)
	it.band = it.Uid[:1]
	return it
}

// genPw: master passwords.
func genPw(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return pick(r, " ", "  ", " lead", "trail ", " both ")
	case 1:
		return pick(r, "zażółć", "пароль", "日本語", "😀", "é", "pässword")
	case 2:
		b := make([]byte, []int{1, 31, 55, 63, 64, 65, 72, 73, 127, 128, 129, 200, 255, 256, 257, 1000}[r.Intn(16)])
		for i := range b {
			b[i] = byte(33 + r.Intn(94))
		}
		return string(b)
	case 3:
		b := make([]byte, 1+r.Intn(40))
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
		}
		return string(b)
	case 4:
		return pick(r, "%s", "100%", "$HOME", "`id`", "a\"b", "a\\b", "'", "-v", "--", "0", "false", "null")
	case 5:
		return pick(r, "a\tb", "tab\t", "a\nb", "x\r")
	}
	n := 4 + r.Intn(20)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + r.Intn(94))
	}
	return string(b)
}

func flipCase(s string) string {
	b := []byte(s)
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
			return string(b)
		}
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
			return string(b)
		}
	}
	return s + "x"
}

// wrongPw: an entry that differs from pw (and is not equivalent under HMAC:
// trailing NUL bytes are never produced, nor 64-byte SHA-512 digests).
func wrongPw(r *rand.Rand, pw string) string {
	for {
		var w string
		switch r.Intn(14) {
		case 0:
			w = ""
		case 1:
			w = pw + pick(r, " ", "x", "\n", "\t", "1", "\r")
		case 2:
			w = pick(r, " ", "x", "\t") + pw
		case 3:
			if len(pw) > 0 {
				w = pw[:len(pw)-1]
			}
		case 4:
			if len(pw) > 0 {
				w = pw[1:]
			}
		case 5:
			w = flipCase(pw)
		case 6:
			w = strings.TrimSpace(pw)
		case 7:
			w = pw + pw
		case 8:
			if len(pw) > 0 {
				b := []byte(pw)
				b[len(b)-1] ^= 1
				w = string(b)
			}
		case 9:
			if len(pw) > 0 {
				b := []byte(pw)
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
				w = string(b)
			}
		case 10:
			w = strings.ToLower(pw)
		case 11:
			w = strings.ToUpper(pw)
		case 12:
			w = pw[:len(pw)/2]
		default:
			w = genPw(r)
		}
		if w != pw && !strings.HasSuffix(w, "\x00") && !strings.HasSuffix(pw, "\x00") {
			return w
		}
	}
}

// flipRune changes the case of characters whose case pairs the specification
// knows.
func flipRune(r *rand.Rand, c rune) rune {
	switch {
	case c >= 'a' && c <= 'z', c >= 0xE0 && c <= 0xFE && c != 0xF7, c >= 0x3B1 && c <= 0x3C9 && c != 0x3C2, c >= 0x430 && c <= 0x44F:
		return c - 32
	case c >= 'A' && c <= 'Z', c >= 0xC0 && c <= 0xDE && c != 0xD7, c >= 0x391 && c <= 0x3A9, c >= 0x410 && c <= 0x42F:
		return c + 32
	}
	return c
}

// genQuery makes a search text out of an existing title.
func genQuery(r *rand.Rand, titles []string) string {
	if len(titles) == 0 || r.Intn(8) == 0 {
		return pick(r, "zzzz", "a", "my  ", "a  b", "y b", "mail", "MAIL", "%", "é", "É", ".", "*", " ", "1", "é")
	}
	t := []rune(titles[r.Intn(len(titles))])
	if len(t) == 0 {
		return "x"
	}
	i := r.Intn(len(t))
	j := i + 1 + r.Intn(len(t)-i)
	switch r.Intn(4) {
	case 0:
		i = 0
	case 1:
		j = len(t)
	}
	if k := strings.Index(string(t), "  "); k >= 0 && r.Intn(2) == 0 {
		i, j = 0, len(t)
	}
	q := append([]rune{}, t[i:j]...)
	switch r.Intn(4) {
	case 0:
		for k := range q {
			if r.Intn(2) == 0 {
				q[k] = flipRune(r, q[k])
			}
		}
	case 1:
		for k := range q {
			q[k] = flipRune(r, q[k])
		}
	case 2:
		if r.Intn(3) == 0 {
			q = append(q, rune('q'))
		}
	}
	return string(q)
}

var _ = utf8.RuneLen
