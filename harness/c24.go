package main

import (
	"context"

	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HPrimitives"] = HPrimitives
	harnesses["HPrimitivesSeq"] = HPrimitivesSeq
	harnesses["HWord"] = HWord
}

// asCommand runs f as a key's command on a line.
func asCommand(s *session, f func(b *readline.Buffer)) {
	const key = "\x1Bprim"
	ran := 0
	s.ed.BindKey(key, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		ran++
		f(b)
		return readline.CONTINUE
	}))
	text, n := "", 0
	s.next = func() string {
		n++
		if n == 1 {
			return key
		}
		text = s.b.String()
		return keys.Enter
	}
	got, err := s.run()
	symAssert(ran == 1, "the command did not run once")
	symAssert(err == nil && got == text, "another text is returned")
	symObserveStr("text", got)
}

// unitTexts: the text of each unit of a line.
func unitTexts(b *readline.Buffer) []string {
	var t []string
	for _, c := range b.Buffer {
		t = append(t, c.String())
	}
	return t
}

// checkPrimitive calls one primitive with any arguments.
func checkPrimitive(b *readline.Buffer, ins string) {
	before := unitTexts(b)
	n := len(before)
	cur := b.Cursor
	symAssert(b.String() == join(before), "String is not the units' text")
	switch symChoose("op", 6) {
	case 0: // InsertString
		pos := symChoose("pos", n+1)
		num := b.InsertString(pos, ins)
		symAssert(b.String() == join(before[:pos])+ins+join(before[pos:]), "InsertString gives another text")
		symAssert(num == len(b.Buffer)-n, "InsertString returns another number")
		symAssert(b.SubString(pos, pos+num) == ins, "the units inserted are not the text given")
		symAssert(b.Cursor == cur, "InsertString moved the cursor")
		symReach("insert")
	case 1: // Delete
		pos := symChoose("pos", n+3) - 1
		num := symChoose("num", n+4) - 1
		w := readline.WidthT(0)
		in := pos >= 0 && num > 0 && pos+num <= n
		if in {
			for _, c := range b.Buffer[pos : pos+num] {
				w += c.Moji.Width()
			}
		}
		got := b.Delete(pos, num)
		if in {
			symAssert(b.String() == join(before[:pos])+join(before[pos+num:]), "Delete gives another text")
			symAssert(len(b.Buffer) == n-num, "Delete removed another number of units")
			symAssert(got == w, "Delete returns another width")
			symReach("delete")
		} else {
			symAssert(b.String() == join(before) && len(b.Buffer) == n, "Delete outside the line changed it")
			symAssert(got == 0, "Delete outside the line returns a width")
			symReach("outside")
		}
		symAssert(b.Cursor == cur, "Delete moved the cursor")
		b.Cursor = imin(cur, len(b.Buffer))
		b.RepaintAfterPrompt()
	case 2: // ReplaceAndRepaint
		pos := symChoose("pos", cur+1)
		b.ReplaceAndRepaint(pos, ins)
		symAssert(b.String() == join(before[:pos])+ins+join(before[cur:]), "ReplaceAndRepaint gives another text")
		symAssert(b.SubString(0, b.Cursor) == join(before[:pos])+ins, "the cursor is not behind the text replaced")
		symReach("replace")
	case 3: // SubString
		from := symChoose("from", n+1)
		to := from + symChoose("to", n-from+1)
		symAssert(b.SubString(from, to) == join(before[from:to]), "SubString gives another text")
		w := readline.WidthT(0)
		for _, c := range b.Buffer[from:to] {
			w += c.Moji.Width()
		}
		symAssert(b.GetWidthBetween(from, to) == w, "GetWidthBetween gives another width")
		symAssert(b.String() == join(before) && b.Cursor == cur, "SubString changed the line")
	case 4: // InsertAndRepaint
		b.InsertAndRepaint(ins)
		symAssert(b.String() == join(before[:cur])+ins+join(before[cur:]), "InsertAndRepaint gives another text")
		symAssert(b.SubString(0, b.Cursor) == join(before[:cur])+ins, "the cursor is not behind the text inserted")
	case 5: // painting only
		switch symChoose("paint", 4) {
		case 0:
			b.RepaintAfterPrompt()
		case 1:
			b.RepaintAll()
		case 2:
			b.RepaintLastLine()
		case 3:
			b.DrawFromHead()
		}
		symAssert(b.String() == join(before) && b.Cursor == cur, "painting changed the line")
	}
}

// HPrimitives: a line and a text of any kinds of characters.
func HPrimitives() {
	kinds := []int{kLetter, kWide, kTab, kCtrl}[:symParam("kinds", 3)]
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd([]int{40, 8}[symChoose("width", symParam("widths", 2))], n, kinds)
	m := symChoose("m", symParam("m", 2)+1)
	rs, _ := symText("ins", m, n, kinds)
	asCommand(w.s, func(b *readline.Buffer) { checkPrimitive(b, string(rs)) })
	symReach("done")
}

// HPrimitivesSeq: characters that combine to sequences.
func HPrimitivesSeq() {
	s := newSession(40)
	var line, ins []rune
	for i := symChoose("n", symParam("n", 2)+1); i > 0; i-- {
		line = append(line, kindRune(symParam("kinds", 7)))
	}
	for i := symChoose("m", symParam("m", 2)+1); i > 0; i-- {
		ins = append(ins, kindRune(symParam("kinds", 7)))
	}
	s.ed.Default = string(line)
	s.ed.Cursor = symChoose("cur", len(line)+1)
	asCommand(s, func(b *readline.Buffer) {
		checkPrimitive(b, string(ins))
	})
	symReach("done")
}

// HWord: the word before the cursor.
func HWord() {
	kinds := []int{kLetter, kSpace, kQuote, kSquote, kTab, kIdeoSpace, kWide, kCtrl}[:symParam("kinds", 6)]
	n := symChoose("n", symParam("n", 5)+1)
	w := newEd(60, n, kinds)
	asCommand(w.s, func(b *readline.Buffer) {
		top := w.l.wordTop(w.l.cur)
		word, at := b.CurrentWord()
		symAssert(at == top, "CurrentWord starts elsewhere")
		symAssert(b.CurrentWordTop() == top, "CurrentWordTop is elsewhere")
		symAssert(word == string(w.l.r[top:w.l.cur]), "CurrentWord is another text")
		symAssert(b.String() == w.l.text() && b.Cursor == w.l.cur, "CurrentWord changed the line")
	})
	symReach("done")
}
