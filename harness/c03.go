package main

import (
	"github.com/atotto/clipboard"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HScreen"] = HScreen
	harnesses["HColumns"] = HColumns
	harnesses["HScreenKinds"] = HScreenKinds
	harnesses["HColumnsKinds"] = HColumnsKinds
	harnesses["HScreenPredict"] = HScreenPredict
	harnesses["HScreenSeq"] = HScreenSeq
	harnesses["HScreenHistory"] = HScreenHistory
	harnesses["HSearchColumns"] = HSearchColumns
}

// checkScreen: the row shows one stretch of the line that includes everything
// from its start to the cursor and reaches as far as the view allows.
func (w *edWorld) checkScreen() {
	s := w.s.scr
	s.flush()
	symAssert(s.odd == "", "unknown bytes sent to the terminal: "+s.odd)
	rs := []rune(w.s.b.String())
	cur := w.s.b.Cursor
	pos := layout(rs)
	from := w.s.b.ViewStart
	symAssert(from >= 0 && from <= cur, "the stretch shown starts behind the cursor")
	to := from
	for to < len(rs) && pos[to+1]-pos[from] < w.s.width-w.top-3 {
		to++
	}
	symAssert(s.col == w.top+pos[cur]-pos[from], "terminal cursor at the wrong column")
	symAssert(!s.hidden, "terminal cursor switched off while waiting for a key")
	if from > w.lastVS {
		w.scrolled = true
	} else if from < w.lastVS {
		w.scrolled = false
	}
	w.lastVS = from
	ok := cur <= to && s.shows(rs, pos, w.top, from, to, nil)
	if ok {
		w.scrolled = false
	}
	if !ok && w.scrolled {
		// a move that scrolled the line paints up to the cursor only
		ok = s.shows(rs, pos, w.top, from, cur, nil)
	}
	if !ok && w.answer != nil && cur == len(rs) && cur > 0 {
		ok = s.shows(rs, pos, w.top, from, to, w.tailFor(w.answer(string(rs)), pos[to]-pos[from]))
	}
	symAssert(ok, "the row does not show the line")
}

var (
	prompts    = []string{"", "ab", "\x1B[1m漢\x1B[0m"}
	promptCols = []int{0, 2, 2}
)

// HScreen: after every key the row shows the line and the cursor.
func HScreen() {
	kinds := []int{kLetter, kWide, kTab, kCtrl, kDel}[:symParam("kinds", 2)]
	width := symParam("width", 8) + symChoose("width", symParam("widths", 2))
	n := symChoose("n", symParam("n", 5)+1)
	w := newEd(width, n, kinds)
	if p := symParam("prompts", 1); p > 1 {
		k := symChoose("prompt", p)
		w.s.prompt(prompts[k])
		w.top = promptCols[k]
		w.s.width += w.top
	}
	w.withScreen()
	if symParam("quiet", 0) > 0 {
		w.cmds = append(append([]editCmd{}, coreCmds...), quietCmds...)
	}
	w.run(symParam("keys", 2), w.checkScreen)
	symReach("done")
}

// checkColumns: nothing was ever painted at the last column.
func (w *edWorld) checkColumns() {
	s := w.s.scr
	s.flush()
	symAssert(!s.wrapped, "the row wrapped")
	symAssert(s.maxCol < s.width-1, "the last column was reached")
}

// HColumns: whatever is typed, the line stays within the columns it has.
func HColumns() {
	kinds := []int{kLetter, kWide, kTab, kC1, kZero, kCtrl}[:symParam("kinds", 3)]
	width := symParam("width", 8) + symChoose("width", symParam("widths", 2))
	n := symChoose("n", symParam("n", 5)+1)
	w := newEd(width, n, kinds)
	if p := symParam("prompts", 1); p > 1 {
		k := symChoose("prompt", p)
		w.s.prompt(prompts[k])
		w.top = promptCols[k]
		w.s.width += w.top
	}
	if symParam("quiet", 0) > 0 {
		w.cmds = append(append([]editCmd{}, coreCmds...), quietCmds...)
	}
	w.withScreen()
	w.run(symParam("keys", 2), w.checkColumns)
	w.checkColumns()
	symObserveInt("column", w.s.scr.maxCol)
	symReach("done")
}

// HScreenPredict: the row with prediction on; 4 checks the columns only.
func HScreenPredict() {
	kinds := []int{kLetter, kWide, kC1, kTab}[:symParam("kinds", 2)]
	n := symChoose("n", symParam("n", 2)+1)
	w := newEd(symParam("width", 8)+symChoose("width", symParam("widths", 3)), n, kinds)
	w.withScreen()
	w.s.ed.PredictColor = predictColor
	tails := []string{"xyz", "漢漢", "x\u0085", "\u0085", "xx\t", "\x01\x02"}
	tail := tails[symChoose("tail", symParam("tails", 6))]
	w.answer = func(t string) string { return tail }
	w.s.ed.Predictor = func(b *readline.Buffer) string { return tail }
	w.s.ed.History = &histStub{ents: []string{"漢字xyz", ""}}
	w.cmds = append(append([]editCmd{}, coreCmds...), editCmd{keys.CtrlP, nil}, editCmd{keys.CtrlY, nil}, editCmd{keys.CtrlZ, nil})
	for i := range w.cmds { // only what is shown counts here
		w.cmds[i].do = func(*line) {}
	}
	clipboard.Text = "yy"
	check := w.checkScreen
	if symParam("prop", 3) == 4 {
		check = w.checkColumns
	}
	w.run(symParam("keys", 2), check)
	symReach("done")
}

// HScreenHistory: the row after recalling entries, yanking, undoing, searching
// and clearing the screen.
func HScreenHistory() {
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd(symParam("width", 8)+symChoose("width", symParam("widths", 2)), n, []int{kLetter, kWide}[:symParam("kinds", 2)])
	if symBool("prompt") {
		w.s.prompt("a漢\x1B[0m")
		w.top = 3
		w.s.width += 3
	}
	w.withScreen()
	var ents []string
	if symBool("ents") {
		rs, _ := symText("hist", 5, 9, []int{kLetter})
		ents = append(ents, string(rs))
	}
	rs, _ := symText("hist", 2, 14, []int{kLetter, kWide})
	ents = append(ents, string(rs))
	w.s.ed.History = &histStub{ents: ents}
	clipboard.Text = "yyyy"
	w.cmds = nil
	for _, k := range []string{keys.CtrlP, keys.CtrlN, keys.CtrlZ, keys.CtrlY, keys.CtrlL, keys.CtrlR + "?" + keys.CtrlG, keys.CtrlR + "a" + keys.Enter, keys.CtrlA, keys.CtrlH, keys.CtrlF, keys.CtrlW}[:symParam("cmds", 11)] {
		w.cmds = append(w.cmds, editCmd{k, func(*line) {}})
	}
	check := w.checkScreen
	if symParam("prop", 3) == 4 {
		check = w.checkColumns
	}
	w.run(symParam("keys", 2), check)
	symReach("done")
}

// HSearchColumns: what an incremental search paints, at any width.
func HSearchColumns() {
	w := &edWorld{s: newSession(symParam("width", 7) + symChoose("width", symParam("widths", 18)))}
	w.withScreen()
	e, _ := symText("hist", symParam("len", 3), 0, []int{kLetter, kWide, kC1, kTab}[:symParam("kinds", 3)])
	w.s.ed.History = &histStub{ents: []string{string(e)}}
	n := 0
	w.s.next = func() string {
		w.checkColumns()
		n++
		switch n {
		case 1:
			return keys.CtrlR
		case 2, 3:
			k := symChoose("key", len(e)+1)
			if k < len(e) && e[k] >= ' ' {
				return string(e[k])
			}
			return "漢"
		}
		return keys.CtrlG
	}
	w.s.next = stop(w.s.next, 5)
	w.s.run()
	w.checkColumns()
	symReach("done")
}

// stop ends a session after n keys.
func stop(next func() string, n int) func() string {
	return func() string {
		n--
		if n < 0 {
			return keys.Enter
		}
		return next()
	}
}

// The same with other parameters.
func HScreenKinds()  { HScreen() }
func HColumnsKinds() { HColumns() }

// HScreenSeq: the row with emoji sequences. What a single unit looks like is
// not judged here.
func HScreenSeq() {
	w, _ := newSeqEd(symParam("width", 12)+symChoose("width", symParam("widths", 2)), symParam("n", 3), symParam("units", 5))
	w.withScreen()
	w.run(symParam("keys", 1), func() {
		if symParam("prop", 3) == 4 {
			w.checkColumns()
			return
		}
		s := w.s.scr
		s.flush()
		symAssert(s.odd == "", "unknown bytes sent to the terminal: "+s.odd)
		b := w.s.b
		from := b.ViewStart
		symAssert(from >= 0 && from <= b.Cursor, "the stretch shown starts behind the cursor")
		want := newScreen(s.width)
		col, full := -1, false
		row := func(to int) bool {
			for i := from; i < to; i++ {
				if i == b.Cursor {
					want.flush()
					col = want.col
				}
				b.Buffer[i].Moji.PrintTo(want)
			}
			want.flush()
			if b.Cursor == to {
				col = want.col
			}
			for c := range want.cells {
				r1, c1 := s.at(c)
				r2, c2 := want.at(c)
				if r1 != r2 || c1 != c2 {
					return false
				}
			}
			return true
		}
		to, cols := from, 0
		for to < len(b.Buffer) && !full {
			cols += int(b.Buffer[to].Moji.Width())
			if full = cols >= s.width-3; !full {
				to++
			}
		}
		if from > w.lastVS {
			w.scrolled = true
		} else if from < w.lastVS {
			w.scrolled = false
		}
		w.lastVS = from
		ok := row(to)
		if ok {
			w.scrolled = false
		} else if w.scrolled { // a move that scrolled the line
			want = newScreen(s.width)
			ok = row(b.Cursor)
		}
		symAssert(ok, "the row does not show the line")
		symAssert(s.col == col, "terminal cursor at the wrong column")
	})
	symReach("done")
}
