package main

import (
	"unicode/utf8"
)

// screen is a model of the terminal: one row of cells (the row the cursor is
// on), the cursor column and what a terminal does with the bytes it gets.
type screen struct {
	width int
	cells []scell
	col   int
	saved int
	acc   []byte

	sgr     string // parameters of the last SGR sequence
	hidden  bool   // cursor switched off
	rows    int    // line feeds
	row     int    // line feeds since the cursor was last sent home
	home    bool   // the cursor was sent home
	bells   int
	clears  int
	wrapped bool   // a character did not fit in the row
	maxCol  int    // largest column of a character or of the cursor
	odd     string // bytes the model does not know
	ctrls   int    // control characters and sequences executed

	widthOf func(rune) int // nil: scrWidth
}

type scell struct {
	r    rune
	cont bool // right half of a wide character
	sgr  string
	set  bool
}

func newScreen(width int) *screen {
	return &screen{width: width, cells: make([]scell, imax(width, 0)+40)}
}

func (s *screen) write(p []byte) { s.acc = append(s.acc, p...) }

func (s *screen) Write(p []byte) (int, error) {
	s.write(p)
	return len(p), nil
}

// columns a terminal uses for r
func scrWidth(r rune) int {
	switch {
	case r < 0x300:
		return 1
	case r <= 0x36F:
		return 0
	case r < 0x1100:
		return 1
	case r <= 0x115F:
		return 2
	case r >= 0x200B && r <= 0x200F:
		return 0
	case r >= 0x2E80 && r <= 0xA4CF, r >= 0xAC00 && r <= 0xD7A3, r >= 0xF900 && r <= 0xFAFF,
		r >= 0xFE30 && r <= 0xFE6F, r >= 0xFF00 && r <= 0xFF60, r >= 0xFFE0 && r <= 0xFFE6,
		r >= 0x1F300 && r <= 0x1FAFF, r >= 0x20000 && r <= 0x3FFFD:
		return 2
	case r >= 0xFE00 && r <= 0xFE0F:
		return 0
	}
	return 1
}

func (s *screen) moved() {
	if s.col > s.maxCol {
		s.maxCol = s.col
	}
}

func (s *screen) erase(from int) {
	for i := from; i < len(s.cells); i++ {
		s.cells[i] = scell{}
	}
}

func (s *screen) put(r rune) {
	var w int
	if s.widthOf != nil {
		w = s.widthOf(r)
	} else {
		w = scrWidth(r)
	}
	if w == 0 {
		return
	}
	if s.col+w > s.width {
		s.wrapped = true
	}
	if s.col+w > len(s.cells) {
		return
	}
	if s.cells[s.col].cont { // half of a wide character is overwritten
		s.cells[s.col-1] = scell{}
	}
	s.cells[s.col] = scell{r: r, sgr: s.sgr, set: true}
	if w == 2 {
		s.cells[s.col+1] = scell{cont: true, sgr: s.sgr, set: true}
	}
	if s.col+w < len(s.cells) && s.cells[s.col+w].cont {
		s.cells[s.col+w] = scell{}
	}
	if s.col+w-1 > s.maxCol {
		s.maxCol = s.col + w - 1
	}
	s.col += w
	s.moved()
}

// flush interprets the bytes received so far.
func (s *screen) flush() {
	if len(s.acc) == 0 {
		return
	}
	t := string(s.acc)
	s.acc = s.acc[:0]
	for len(t) > 0 {
		r, size := utf8.DecodeRuneInString(t)
		if r >= ' ' && r != 0x7F && (r < 0x80 || r > 0x9F) {
			t = t[size:]
			s.put(r)
			continue
		}
		s.ctrls++
		switch r {
		case '\r':
			s.col = 0
		case '\n':
			s.rows++
			s.row++
			s.col = 0
			s.erase(0)
		case '\b':
			if s.col > 0 {
				s.col--
			}
		case '\a':
			s.bells++
		case 0x1B:
			t = s.escape(t[1:])
			s.moved()
			continue
		default:
			s.odd += "control character "
		}
		t = t[size:]
		s.moved()
	}
}

func (s *screen) escape(t string) string {
	if len(t) == 0 {
		s.odd += "lone ESC "
		return t
	}
	switch t[0] {
	case '7':
		s.saved = s.col
		return t[1:]
	case '8':
		s.col = s.saved
		return t[1:]
	case ']':
		for i := 1; i < len(t); i++ {
			if t[i] == 7 {
				return t[i+1:]
			}
		}
		s.odd += "unfinished title "
		return ""
	case '[':
	default:
		s.odd += "unknown escape "
		return t[1:]
	}
	i := 1
	for i < len(t) && (t[i] < '@' || t[i] > '~') {
		i++
	}
	if i >= len(t) {
		s.odd += "unfinished CSI "
		return ""
	}
	par := t[1:i]
	switch t[i] {
	case 'G':
		n := 0
		for k := 0; k < len(par); k++ {
			n = n*10 + int(par[k]-'0')
		}
		s.col = imax(n-1, 0)
	case 'K':
		if par != "0" && par != "" {
			s.odd += "erase "
		}
		s.erase(s.col)
	case 'm':
		s.sgr = par
	case 'H':
		if par != "1;1" && par != "" && par != ";" {
			s.odd += "move "
		}
		s.col = 0
		s.rows++
		s.row = 0
		s.home = true
		s.erase(0)
	case 'J':
		if par != "2" && (par != "" && par != "0" || !s.home || s.row > 0 || s.col > 0) {
			s.odd += "erase "
		}
		s.clears++
		s.erase(0)
	case 's':
		s.saved = s.col
	case 'u':
		s.col = s.saved
	case 'h', 'l':
		if par == "?25" {
			s.hidden = t[i] == 'l'
		} else {
			s.odd += "mode "
		}
	default:
		s.odd += "unknown CSI "
	}
	return t[i+1:]
}

// at returns what is visible at a column (a blank cell looks like a space).
func (s *screen) at(col int) (rune, bool) {
	if col >= len(s.cells) {
		return ' ', false
	}
	c := s.cells[col]
	if !c.set {
		return ' ', false
	}
	return c.r, c.cont
}

// render gives the visible form of a character of the line at column pos of
// the line, in the default capabilities (no emoji sequences).
func render(r rune, pos int) []rune {
	switch {
	case r == '\t':
		return []rune("    ")[pos%4:]
	case r < ' ':
		return []rune{'^', '@' + r}
	case r == 0x7F || r >= 0x80 && r <= 0x9F || r >= 0x300 && r <= 0x36F || r >= 0x200B && r <= 0x200F || r >= 0xFE00 && r <= 0xFE0F:
		const hex = "0123456789ABCDEF"
		var d []rune
		for x := int(r); x > 0; x >>= 4 {
			d = append([]rune{rune(hex[symConcrete(x&15)])}, d...)
		}
		d = append([]rune{'<'}, d...)
		return append(d, '>')
	}
	return []rune{r}
}

func renderWidth(r rune, pos int) int {
	w := 0
	for _, x := range render(r, pos) {
		w += scrWidth(x)
	}
	return w
}

// layout: columns of the characters of a line, relative to the line's start.
// len(result) == len(rs)+1
func layout(rs []rune) []int {
	p := make([]int, len(rs)+1)
	for i, r := range rs {
		p[i+1] = p[i] + renderWidth(r, p[i])
	}
	return p
}

// shows tells whether the row shows exactly rs[from:to] from column top on,
// followed by tail and then blanks.
func (s *screen) shows(rs []rune, pos []int, top, from, to int, tail []rune) bool {
	col := top
	one := func(x rune) bool {
		r, cont := s.at(col)
		if r != x || cont {
			return false
		}
		col++
		if scrWidth(x) == 2 {
			if _, cont := s.at(col); !cont {
				return false
			}
			col++
		}
		return true
	}
	for i := from; i < to; i++ {
		for _, x := range render(rs[i], pos[i]) {
			if !one(x) {
				return false
			}
		}
	}
	for _, x := range tail {
		if !one(x) {
			return false
		}
	}
	for ; col < len(s.cells); col++ {
		if r, cont := s.at(col); cont || r != ' ' {
			return false
		}
	}
	return true
}
