package main

import (
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HSearch"] = HSearch
	harnesses["HSearchCase"] = HSearchCase
	harnesses["HSearchWide"] = HSearchWide
	harnesses["HSearchLeave"] = HSearchLeave
}

func upASCII(r rune) rune {
	if r >= 'a' && r <= 'z' {
		return r - 32
	}
	return r
}

// eqFold is 1 when the letters are equal without regard to case, else 0.
func eqFold(a, b rune) int {
	if upASCII(a) == upASCII(b) {
		return 1
	}
	return 0
}

// contains without regard to case, for ASCII texts (without branches, so that
// it does not multiply the paths)
func contains(s, t []rune) bool {
	hit := 0
	for i := 0; i+len(t) <= len(s); i++ {
		ok := 1
		for k := range t {
			ok &= eqFold(s[i+k], t[k])
		}
		hit |= ok
	}
	return hit != 0
}

// searchModel: what an incremental search shows.
type searchModel struct {
	ents  [][]rune
	str   []rune
	found []rune // nil when nothing is shown
	pos   int
}

func (m *searchModel) newest() {
	m.found = nil
	for i := len(m.ents) - 1; i >= 0; i-- {
		if contains(m.ents[i], m.str) {
			m.found, m.pos = m.ents[i], i
			return
		}
	}
}

// older: the next older different match, wrapping round.
func (m *searchModel) older() {
	n := len(m.ents)
	for k := 1; k < n; k++ {
		i := (m.pos - k + n) % n
		if contains(m.ents[i], m.str) && string(m.ents[i]) != string(m.found) {
			m.found, m.pos = m.ents[i], i
			return
		}
	}
}

// newer: the next newer different match.
func (m *searchModel) newer() {
	for i := m.pos + 1; i < len(m.ents); i++ {
		if contains(m.ents[i], m.str) && string(m.ents[i]) != string(m.found) {
			m.found, m.pos = m.ents[i], i
			return
		}
	}
}

// searchRun: Ctrl-R, then steps keys of the search, then accept. The row is
// compared with the model before each key.
func searchRun(s *session, m *searchModel, steps int, chars []rune) {
	s.scr = newScreen(s.width)
	h := &histStub{}
	for _, e := range m.ents {
		h.ents = append(h.ents, string(e))
	}
	s.ed.History = h
	state, done := 0, 0
	before := s.ed.Default
	shown := func() {
		s.scr.flush()
		row := append([]rune("(i-search)["), m.str...)
		row = append(append(row, ']', ':'), m.found...)
		symAssert(s.scr.shows(row, layout(row), 0, 0, len(row), nil), "the search shows a wrong entry")
		symAssert(!s.scr.hidden, "cursor hidden during the search")
	}
	s.next = func() string {
		if state == 0 {
			state = 1
			return keys.CtrlR
		}
		if state == 2 {
			symAssert(s.b.String() == string(m.found), "the line is not the entry found")
			symAssert(s.b.Cursor == len(m.found), "the cursor is not behind the entry found")
			state = 3
			return keys.CtrlZ
		}
		if state == 3 {
			symAssert(s.b.String() == before, "one undo does not bring back the line")
			return keys.Enter
		}
		shown()
		symAssert(!h.bad, "entry outside the history read")
		if done == steps {
			state = 2
			return keys.Enter
		}
		done++
		k := symChoose("key", 3+len(chars))
		switch k {
		case 0:
			symAssume(m.found != nil) // otherwise nothing to go on from
			m.older()
			return keys.CtrlR
		case 1:
			symAssume(m.found != nil)
			m.newer()
			return keys.CtrlS
		case 2:
			if len(m.str) > 0 {
				m.str = m.str[:len(m.str)-1]
			}
			m.newest()
			return []string{keys.CtrlH, keys.Backspace}[symChoose("bs", 2)]
		}
		m.str = append(m.str[:len(m.str):len(m.str)], chars[k-3])
		m.newest()
		return string(chars[k-3])
	}
	s.run()
	symReach("done")
}

// HSearch: up to three entries of one or two characters that may be equal to
// one another and to the characters searched for.
func HSearch() {
	s := newSession(40)
	m := &searchModel{}
	n := symChoose("entries", symParam("entries", 3)+1)
	for i := 0; i < n; i++ {
		var e []rune
		for k := 0; k <= symChoose("len", symParam("len", 1)); k++ {
			e = append(e, symRune("entry", 'a', 'c'))
		}
		m.ents = append(m.ents, e)
	}
	s.ed.Default = "xy"
	s.ed.Cursor = symChoose("cur", 3)
	searchRun(s, m, symParam("keys", 3), []rune{symRune("search", 'a', 'c')})
}

// HSearchWide: characters of several bytes in entries and in the string.
func HSearchWide() {
	s := newSession(60)
	m := &searchModel{}
	w, l := symRune("wide", 0x4E00, 0x4E7F), symRune("letter", '0', '9')
	for i := 0; i < 2; i++ {
		m.ents = append(m.ents, [][]rune{{w, l}, {l, w}, {w}, {l, w, symRune("other", 0x4E00, 0x4E7F)}}[symChoose("entry", 4)])
	}
	s.ed.Default = "xy"
	s.ed.Cursor = 1
	searchRun(s, m, symParam("keys", 4), []rune{w, l})
}

// HSearchCase: letters of either case, one or two characters searched.
func HSearchCase() {
	s := newSession(40)
	m := &searchModel{}
	for i := 0; i < 2; i++ {
		m.ents = append(m.ents, []rune{symRune("entry", '!', '~'), symRune("entry", 'A', 'z')})
	}
	var str []rune
	for i := 0; i <= symChoose("n", 2); i++ {
		str = append(str, symRune("search", '!', '~'))
	}
	h := &histStub{}
	for _, e := range m.ents {
		h.ents = append(h.ents, string(e))
	}
	s.ed.History = h
	p := -1
	s.next = func() string {
		p++
		if p == 0 {
			return keys.CtrlR
		}
		if p <= len(str) {
			return string(str[p-1])
		}
		return keys.Enter
	}
	m.str = str
	m.newest()
	text, err := s.run()
	symAssert(err == nil && text == string(m.found), "not the newest entry that contains the string")
	symObserveStr("text", text)
	symReach("done")
}

// HSearchLeave: Ctrl-C, Ctrl-G and Escape leave text, cursor and undo list as
// they were, whatever was searched.
func HSearchLeave() {
	s := newSession([]int{80, 9}[symChoose("width", 2)])
	n := symChoose("n", symParam("n", 3)+1)
	rs, _ := symText("kind", n, 0, []int{kLetter, kWide})
	cur := symChoose("cur", n+1)
	s.ed.Default = string(rs)
	s.ed.Cursor = cur
	s.ed.History = &histStub{ents: []string{string(symRune("h", 'a', 'd')), "漢字xyz" + string(symRune("h", 'a', 'd'))}}
	state := 0
	s.scr = newScreen(s.width)
	steps := symParam("keys", 2)
	s.next = func() string {
		state++
		switch {
		case state == 1:
			return keys.CtrlR
		case state < 2+steps:
			k := symChoose("key", 5)
			return []string{"a", "漢", keys.CtrlR, keys.CtrlS, keys.CtrlH}[k]
		case state == 2+steps:
			return []string{keys.CtrlC, keys.CtrlG, keys.Escape}[symChoose("leave", 3)]
		case state == 3+steps:
			symAssert(s.b.String() == string(rs), "abandoned search changed the text")
			symAssert(s.b.Cursor == cur, "abandoned search moved the cursor")
			s.scr.flush()
			pos := layout(rs)
			symAssert(s.scr.col == pos[cur]-pos[s.b.ViewStart], "terminal cursor at the wrong column")
			return keys.CtrlZ
		case state == 4+steps:
			symAssert(s.b.String() == "", "abandoned search left something to undo")
		}
		return keys.Enter
	}
	_, err := s.run()
	symAssert(err == nil, "error")
	symReach("done")
}
