// A terminal emulator, sufficient for what termbox writes with TERM=xterm.
package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

type Cell struct {
	ch     rune
	bg, fg int
	attr   int
}

type Screen struct {
	w, h   int
	cells  [][]Cell
	x, y   int
	bg, fg int
	attr   int
	buf    []byte
	unk    []string
	cursor bool
	alt    bool
	on     map[string]bool // modes that are not as they are by default
	wiped  int             // times the user's own screen was changed other than by writing on
}

func newScreen(w, h int) *Screen {
	s := &Screen{w: w, h: h, cursor: true, on: map[string]bool{}}
	s.clear()
	return s
}

func (s *Screen) clear() {
	s.cells = make([][]Cell, s.h)
	for i := range s.cells {
		s.cells[i] = make([]Cell, s.w)
		for j := range s.cells[i] {
			s.cells[i][j] = Cell{ch: ' '}
		}
	}
}

func (s *Screen) Write(p []byte) {
	s.buf = append(s.buf, p...)
	for len(s.buf) > 0 {
		n := s.one(s.buf)
		if n == 0 {
			return
		}
		s.buf = s.buf[n:]
	}
}

// one consumes one unit of output; 0: incomplete.
func (s *Screen) one(b []byte) int {
	c := b[0]
	if c == 0x1b {
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] >= 0x40 && b[i] <= 0x7e {
					s.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		case '(', ')':
			if len(b) < 3 {
				return 0
			}
			return 3
		case '=', '>':
			s.mode("=", b[1] == '=')
			return 2
		case 'c':
			s.wiped++
			return 2
		case ']':
			for i := 2; i < len(b); i++ {
				if b[i] == 7 {
					return i + 1
				}
			}
			return 0
		default:
			return 2
		}
	}
	switch c {
	case '\r':
		s.x = 0
		return 1
	case '\n':
		s.nl()
		return 1
	case '\b':
		if s.x > 0 {
			s.x--
		}
		return 1
	case '\t':
		s.x = (s.x/8 + 1) * 8
		if s.x >= s.w {
			s.x = s.w - 1
		}
		return 1
	}
	if c < 0x20 || c == 0x7f {
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if s.x >= s.w {
		s.x = 0
		s.nl()
	}
	if s.y >= 0 && s.y < s.h && s.x >= 0 {
		s.cells[s.y][s.x] = Cell{ch: r, bg: s.bg, fg: s.fg, attr: s.attr}
	}
	s.x++
	return n
}

func (s *Screen) mode(name string, on bool) {
	if on {
		s.on[name] = true
	} else {
		delete(s.on, name)
	}
}

func (s *Screen) nl() {
	s.y++
	if s.y >= s.h {
		s.y = s.h - 1
		copy(s.cells, s.cells[1:])
		l := make([]Cell, s.w)
		for j := range l {
			l[j] = Cell{ch: ' '}
		}
		s.cells[s.h-1] = l
	}
}

func (s *Screen) csi(p string, fin byte) {
	num := []int{}
	if !strings.HasPrefix(p, "?") && !strings.HasPrefix(p, ">") {
		for _, x := range strings.Split(p, ";") {
			n, _ := strconv.Atoi(x)
			num = append(num, n)
		}
	}
	arg := func(i, d int) int {
		if i < len(num) && num[i] != 0 {
			return num[i]
		}
		return d
	}
	if !s.alt && strings.IndexByte("HfJKABCDGdLMPXTSr", fin) >= 0 {
		s.wiped++
	}
	switch fin {
	case 'H', 'f':
		s.y, s.x = arg(0, 1)-1, arg(1, 1)-1
		if s.y >= s.h {
			s.y = s.h - 1
		}
		if s.x >= s.w {
			s.x = s.w - 1
		}
	case 'J':
		s.clear()
	case 'K':
		for j := s.x; j < s.w; j++ {
			s.cells[s.y][j] = Cell{ch: ' '}
		}
	case 'A':
		s.y -= arg(0, 1)
	case 'B':
		s.y += arg(0, 1)
	case 'C':
		s.x += arg(0, 1)
	case 'D':
		s.x -= arg(0, 1)
	case 'G':
		s.x = arg(0, 1) - 1
	case 'm':
		for i := 0; i < len(num); i++ {
			n := num[i]
			switch {
			case n == 0:
				s.bg, s.fg, s.attr = 0, 0, 0
			case n == 38 && i+2 < len(num) && num[i+1] == 5:
				s.fg = num[i+2] + 1
				i += 2
			case n == 48 && i+2 < len(num) && num[i+1] == 5:
				s.bg = num[i+2] + 1
				i += 2
			case n >= 30 && n <= 37:
				s.fg = n - 29
			case n >= 40 && n <= 47:
				s.bg = n - 39
			case n == 39:
				s.fg = 0
			case n == 49:
				s.bg = 0
			default:
				s.attr |= 1 << uint(n%16)
			}
		}
	case 'h', 'l':
		if p == "?1049" {
			s.alt = fin == 'h'
			s.clear()
		}
		for _, m := range strings.Split(strings.TrimPrefix(p, "?"), ";") {
			if strings.HasPrefix(p, "?") && m == "25" {
				s.cursor = fin == 'h'
			} else if m != "12" {
				s.mode(p[:1]+m, fin == 'h')
			}
		}
	default:
		s.unk = append(s.unk, p+string(fin))
	}
	if s.x < 0 {
		s.x = 0
	}
	if s.y < 0 {
		s.y = 0
	}
}

func (s *Screen) line(y, x0, x1 int) string {
	var b strings.Builder
	for x := x0; x < x1 && x < s.w; x++ {
		b.WriteRune(s.cells[y][x].ch)
	}
	return b.String()
}

func (s *Screen) lines() []string {
	l := []string{}
	for y := 0; y < s.h; y++ {
		l = append(l, strings.TrimRight(s.line(y, 0, s.w), " "))
	}
	return l
}
