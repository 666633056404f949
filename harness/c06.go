package main

import (
	"context"

	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HHistory"] = HHistory
	harnesses["HHistoryWide"] = HHistoryWide
}

// histStub is a history whose reads are checked.
type histStub struct {
	ents []string
	bad  bool
}

func (h *histStub) Len() int { return len(h.ents) }

func (h *histStub) At(i int) string {
	if i < 0 || i >= len(h.ents) {
		h.bad = true
		return "?"
	}
	return h.ents[i]
}

// histModel is the reference: every place of the history, and the line being
// typed behind them, is as it was last left.
type histModel struct {
	left []line
	p    int
	cyc  bool
}

func (m *histModel) cur() *line { return &m.left[m.p] }

func (m *histModel) prev() {
	n := len(m.left) - 1
	if n == 0 {
		return
	}
	if m.p > 0 {
		m.p--
	} else if m.cyc {
		m.p = n
	} else {
		return
	}
	m.cur().cur = len(m.cur().r)
}

func (m *histModel) next() {
	n := len(m.left) - 1
	if m.p >= n {
		return
	}
	m.p++
	m.cur().cur = len(m.cur().r)
}

func histSession(width int, ents [][]rune, typed []rune, cyc bool) (*session, *histStub, *histModel) {
	s := newSession(width)
	h := &histStub{}
	m := &histModel{cyc: cyc}
	for _, e := range ents {
		h.ents = append(h.ents, string(e))
		m.left = append(m.left, line{r: e})
	}
	m.left = append(m.left, line{r: typed, cur: len(typed)})
	m.p = len(ents)
	s.ed.History = h
	s.ed.HistoryCycling = cyc
	s.ed.Default = string(typed)
	s.ed.Cursor = len(typed)
	return s, h, m
}

// runHist types keys and compares the line with the model before each.
func runHist(s *session, h *histStub, m *histModel, steps int, edits []editCmd) {
	var org []string
	org = append(org, h.ents...)
	up := []string{keys.CtrlP, keys.Up}[symChoose("alias", 2)]
	down := keys.CtrlN
	if up == keys.Up {
		down = keys.Down
	}
	done, nch := 0, 0
	s.next = func() string {
		symAssert(s.b.String() == m.cur().text(), "the line shown is not the entry as last left")
		symAssert(s.b.Cursor == m.cur().cur, "cursor at the wrong place")
		symAssert(!h.bad, "entry outside the history read")
		if done == steps {
			return keys.Enter
		}
		done++
		k := symChoose("key", 3+len(edits))
		switch k {
		case 0:
			m.prev()
			return up
		case 1:
			m.next()
			return down
		case 2:
			r := symRune("typed", rune('0'+2*nch), rune('1'+2*nch))
			nch++
			m.cur().insert(r)
			return string(r)
		}
		edits[k-3].do(m.cur())
		return edits[k-3].key
	}
	text, err := s.run()
	symAssert(err == nil && text == m.cur().text(), "wrong line returned")
	symAssert(eqStrs(org, h.ents), "the history was changed")
	symObserveStr("text", text)
	symReach("done")
}

// HHistory: histories of up to two one-character entries that may be equal,
// and any order of previous, next and edits.
func HHistory() {
	n := symChoose("entries", symParam("entries", 2)+1)
	var ents [][]rune
	for i := 0; i < n; i++ {
		ents = append(ents, []rune{symRune("entry", 'a', 'h')})
	}
	var typed []rune
	if symBool("typed") {
		typed = []rune{symRune("typed", 'a', 'h')}
	}
	edits := []editCmd{{keys.CtrlH, doBS}, {keys.Escape, doKillAll}, {keys.CtrlA, doHome}}
	s, h, m := histSession(80, ents, typed, symBool("cycling"))
	runHist(s, h, m, symParam("keys", 4), edits[:symParam("edits", 1)])
}

// HHistoryWide: longer entries of several kinds, empty ones among them, on a
// narrow terminal; then a second session, which starts afresh.
func HHistoryWide() {
	n := 1 + symChoose("entries", symParam("entries", 2))
	var ents [][]rune
	for i := 0; i < n; i++ {
		k := symChoose("len", symParam("len", 3))
		e, _ := symText("kind", k, 4*i, []int{kLetter, kWide, kTab}[:symParam("kinds", 2)])
		ents = append(ents, e)
	}
	edits := []editCmd{{keys.CtrlH, doBS}, {keys.CtrlB, doLeft}}
	s, h, m := histSession(9, ents, nil, false)
	runHist(s, h, m, symParam("keys", 3), edits[:symParam("edits", 1)])
	s.ed.Default = ""
	s.started = false
	ups := 0
	s.next = func() string {
		if ups == 0 {
			symAssert(s.b.String() == "", "second session does not start with an empty line")
		} else {
			symAssert(s.b.String() == h.ents[n-ups], "second session does not show the history as recorded")
		}
		if ups == n {
			return keys.Enter
		}
		ups++
		return keys.CtrlP
	}
	text, err := s.ed.ReadLine(context.Background())
	symAssert(err == nil && text == h.ents[0], "second session")
	symReach("again")
}
