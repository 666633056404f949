package main

import (
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HEdit"] = HEdit
	harnesses["HEditKeys"] = HEditKeys
	harnesses["HEditAny"] = HEditAny
	harnesses["HQuoted"] = HQuoted
	harnesses["HEditLong"] = HEditLong
	harnesses["HEditDeep"] = HEditDeep
	harnesses["HEditSeq"] = HEditSeq
}

func finishText(w *edWorld, text string) {
	symAssert(text == w.l.text(), "returned text differs from the keys typed")
	symObserveStr("text", text)
	symReach("done")
}

// HEdit: initial text and cursor, then a few keys, then Enter; after each key
// text and cursor equal the model's.
func HEdit() {
	widths := []int{80, 9, 7}
	kinds := []int{kLetter, kWide, kSpace, kQuote, kTab, kCtrl}[:symParam("kinds", 3)]
	w := newEd(widths[symChoose("width", symParam("widths", 3))], symChoose("n", symParam("n", 3)+1), kinds)
	finishText(w, w.run(symParam("keys", 2), w.checkText))
}

// HEditKeys: the same for every key bound to an editing command.
func HEditKeys() {
	kinds := []int{kLetter, kWide, kSpace, kQuote, kTab, kSquote, kCtrl, kIdeoSpace, kLatin, kAstral}
	w := newEd(80, symChoose("n", symParam("n", 3)+1), kinds[:symParam("kinds", 10)])
	w.cmds = append(append(append([]editCmd{}, coreCmds...), aliasCmds...), quietCmds...)
	finishText(w, w.run(symParam("keys", 1), w.checkText))
}

// HEditAny: all characters are any printable ASCII characters; word limits and
// quotation marks are decided by the solver.
func HEditAny() {
	w := newEd(80, symChoose("n", symParam("n", 3)+1), []int{kAny})
	finishText(w, w.run(symParam("keys", 1), w.checkText))
}

// HEditLong: lines longer than the view, at several widths.
func HEditLong() {
	kinds := []int{kLetter, kSpace, kWide, kTab, kCtrl}[:symParam("kinds", 2)]
	w := newEd(symParam("width", 5)+symChoose("width", symParam("widths", 3)), symParam("n", 5), kinds)
	finishText(w, w.run(symParam("keys", 2), w.checkText))
}

// HEditDeep: many keys from an empty or almost empty line.
func HEditDeep() {
	w := newEd([]int{80, 6}[symChoose("width", symParam("widths", 2))], symChoose("n", symParam("n", 1)+1), []int{kLetter})
	finishText(w, w.run(symParam("keys", 4), w.checkText))
}

// seqUnits: texts that are edited as one unit each in a terminal that shows
// emoji sequences.
var seqUnits = []string{"a", "\U0001F468\u200D\U0001F33E", "\u2764\uFE0F", "\U0001F44D\U0001F3FB", "\u6F22", "\U0001F1EF", "\U0001F468\u200D\U0001F33E\uFE0F", " "}

// newSeqEd: a session whose default text is made of seqUnits. The model's
// line holds a number for each unit; text gives its text.
func newSeqEd(width, n, units int) (w *edWorld, text func() string) {
	w = &edWorld{s: newSession(width), l: &line{}, cmds: coreCmds}
	var texts []string
	add := func() string {
		u := seqUnits[symChoose("unit", units)]
		r := rune(0x1000 + len(texts))
		texts = append(texts, u)
		if u == " " {
			r = ' '
		}
		w.l.insert(r)
		return u
	}
	text = func() string {
		t := ""
		for _, r := range w.l.r {
			if r == ' ' {
				t += " "
			} else {
				t += texts[r-0x1000]
			}
		}
		return t
	}
	for i := symChoose("n", n+1); i > 0; i-- {
		w.s.ed.Default += add()
	}
	w.l.cur = symChoose("cur", len(w.l.r)+1)
	w.s.ed.Cursor = w.l.cur
	w.nextra = 1
	w.extra = func(int) string {
		rs := []rune(add())
		for _, r := range rs[1:] {
			w.queue = append(w.queue, string(r))
		}
		return string(rs[0])
	}
	return w, text
}

// HEditSeq: units of several characters are edited as one.
func HEditSeq() {
	w, text := newSeqEd([]int{80, 10}[symChoose("width", 2)], symParam("n", 3), symParam("units", 4))
	got := w.run(symParam("keys", 2), func() {
		symAssert(w.s.b.Cursor == w.l.cur, "cursor differs from the keys typed")
		symAssert(w.s.b.String() == text(), "text differs from the keys typed")
	})
	symAssert(got == text(), "returned text differs from the keys typed")
	symReach("done")
}

// HQuoted: the key after Ctrl-Q or Ctrl-V is inserted as it is.
func HQuoted() {
	w := newEd(80, symChoose("n", 3), []int{kLetter, kWide})
	q := []string{keys.CtrlQ, keys.CtrlV}[symChoose("quote", 2)]
	var key string
	switch class := symChoose("class", 5); class {
	case 0:
		key = string(symRune("ctrl", 1, 0x1F))
	case 1:
		key = string(symRune("ascii", ' ', 0x7F))
	case 2:
		key = string(symRune("high", 0xA0, 0x2FF))
	case 3: // the code of any key with more than two characters
		key = "\x1B" + string([]rune{symRune("esc", '!', 'Z'), symRune("esc", '!', '~')})
	case 4: // a key nobody has bound inserts itself unquoted
		key = "\x1B[9" + string(symRune("esc", '0', '9')) + "~"
		q = ""
	}
	w.cmds = nil
	w.kinds = nil
	w.nextra = 1
	w.extra = func(int) string {
		w.l.insert([]rune(key)...)
		if q == "" {
			return key
		}
		w.queue = append(w.queue, key)
		return q
	}
	finishText(w, w.run(1, w.checkText))
}
