package main

import (
	"errors"
	"strings"

	"github.com/atotto/clipboard"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HKill"] = HKill
	harnesses["HKillSeq"] = HKillSeq
	harnesses["HYank"] = HYank
	harnesses["HYankQuote"] = HYankQuote
}

var errClip = errors.New("no clipboard")

// HKill: a line is killed in part, and yanked back.
func HKill() {
	kinds := []int{kLetter, kSpace, kQuote, kWide, kTab, kCtrl}[:symParam("kinds", 4)]
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd([]int{40, 7}[symChoose("width", 2)], n, kinds)
	if symParam("fail", 1) > 0 && symBool("fail") {
		clipboard.Fail = errClip
	}
	clipboard.Text = "old"
	key := []string{keys.CtrlK, keys.CtrlU, keys.CtrlW}[symChoose("kill", 3)]
	before, cur := append([]rune{}, w.l.r...), w.l.cur
	from, to := 0, cur
	switch key {
	case keys.CtrlK:
		from, to = cur, n
	case keys.CtrlW:
		from = w.l.wordStart()
	}
	killed := string(before[from:to])
	rest := string(before[:from]) + string(before[to:])
	waits := 0
	w.s.next = func() string {
		waits++
		switch waits {
		case 1:
			return key
		case 2:
			symAssert(w.s.b.String() == rest, "another text was removed")
			if clipboard.Fail != nil {
				return keys.Enter
			}
			if killed != "" {
				symAssert(clipboard.Text == killed, "the clipboard does not hold the text removed")
			} else {
				symAssert(clipboard.Text == "" || clipboard.Text == "old", "the clipboard holds a text that was not removed")
				clipboard.Text = ""
			}
			return keys.CtrlY
		}
		symAssert(w.s.b.String() == string(before), "yank does not bring back the text removed")
		symAssert(w.s.b.Cursor == to, "the cursor is not behind the text yanked")
		symAssert(clipboard.Text == killed, "yank changed the clipboard")
		symReach("yanked")
		return keys.Enter
	}
	_, err := w.s.run()
	symAssert(err == nil, "error")
	symReach("done")
}

// HKillSeq: characters that combine to sequences.
func HKillSeq() {
	s := newSession(40)
	var rs []rune
	for i := 0; i < symParam("n", 3); i++ {
		rs = append(rs, kindRune(symParam("kinds", 7)))
	}
	text := string(rs)
	s.ed.Default = text
	s.ed.Cursor = symChoose("cur", len(rs)+1)
	key := []string{keys.CtrlK, keys.CtrlU, keys.CtrlW}[symChoose("kill", 3)]
	want, left, n, yanked := "", "", 0, false
	var before []string
	cur := 0
	s.next = func() string {
		n++
		switch n {
		case 1:
			c, e := s.b.Cursor, len(s.b.Buffer)
			if key == keys.CtrlK {
				want, left = s.b.SubString(c, e), s.b.SubString(0, c)
			} else if key == keys.CtrlU {
				want, left = s.b.SubString(0, c), s.b.SubString(c, e)
			}
			before, cur = unitTexts(s.b), c
			return key
		case 2:
			if key == keys.CtrlW { // a part that ends at the cursor
				c := s.b.Cursor
				symAssert(c <= cur, "another text was removed")
				want, left = join(before[c:cur]), join(before[:c])+join(before[cur:])
			}
			symAssert(s.b.String() == left, "another text was removed")
			symAssert(want == "" || clipboard.Text == want, "the clipboard does not hold the text removed")
			if want == "" {
				clipboard.Text = ""
			} else if last := want[len(want)-1]; last == '\r' || last == '\n' || last == 0 {
				return keys.Enter // yank drops line ends and NULs
			}
			yanked = true
			return keys.CtrlY
		}
		symAssert(!yanked || s.b.String() == text, "yank does not bring back the text removed")
		return keys.Enter
	}
	_, err := s.run()
	symAssert(err == nil, "error")
	symReach("done")
}

func clipText(name string, n int, kinds string) string {
	rs := make([]rune, symChoose(name, n+1))
	for i := range rs {
		switch k := kinds[symChoose("kind", len(kinds))]; k {
		case 'a':
			rs[i] = symRune("ch", '#', '~')
		case 'w':
			rs[i] = symRune("wide", 0x4E00, 0x9FFF)
		default:
			rs[i] = rune(k)
		}
	}
	return string(rs)
}

// yankOn yanks a text into a line and checks what is inserted.
func yankOn(key, clip, want string) {
	s := newSession([]int{40, 7}[symChoose("width", 2)])
	s.ed.Default = "p漢"
	s.ed.Cursor = symChoose("cur", 3)
	cur := s.ed.Cursor
	clipboard.Text = clip
	fail := symBool("fail")
	if fail {
		clipboard.Fail = errClip
		want = ""
	}
	n := 0
	s.next = func() string {
		n++
		if n == 1 {
			return key
		}
		line := []rune("p漢")
		symAssert(s.b.String() == string(line[:cur])+want+string(line[cur:]), "yank gives another text")
		symAssert(s.b.SubString(0, s.b.Cursor) == string(line[:cur])+want, "the cursor is not behind the text yanked")
		symAssert(clipboard.Text == clip, "yank changed the clipboard")
		return keys.Enter
	}
	text, err := s.run()
	symAssert(err == nil, "error")
	symObserveStr("text", text)
	symReach("done")
}

// HYank: any text, with line ends behind it.
func HYank() {
	clip := clipText("n", symParam("n", 4), "aw \r\n\x00"[:symParam("kinds", 5)])
	want := clip
	for len(want) > 0 && strings.IndexByte("\r\n\x00", want[len(want)-1]) >= 0 {
		want = want[:len(want)-1]
	}
	yankOn([]string{keys.CtrlY, keys.AltV}[symChoose("key", 2)], clip, want)
}

// HYankQuote: a text of one line.
func HYankQuote() {
	clip := clipText("n", symParam("n", 4), "a \"w"[:symParam("kinds", 4)])
	want := clip
	if strings.IndexByte(clip, ' ') >= 0 && clip[0] != '"' {
		want = "\""
		for _, r := range clip {
			if r == '"' {
				want += "\""
			}
			want += string(r)
		}
		want += "\""
		symReach("quoted")
	}
	yankOn(keys.AltY, clip, want)
}
