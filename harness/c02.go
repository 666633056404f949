package main

import (
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

func init() {
	harnesses["HNoPanic"] = HNoPanic
	harnesses["HNoPanicSeq"] = HNoPanicSeq
	harnesses["HAnyKey"] = HAnyKey
	harnesses["HAnyPrompt"] = HAnyPrompt
	harnesses["HNoPanicSearch"] = HNoPanicSearch
	harnesses["HNoPanicDeep"] = HNoPanicDeep
}

// every key of the global map, in the order of the keys
var allKeys = []string{
	keys.AltB, keys.AltF, keys.AltV, keys.AltY, keys.Backspace, keys.CtrlA, keys.CtrlB, keys.CtrlE, keys.CtrlF,
	keys.CtrlH, keys.CtrlK, keys.CtrlL, keys.CtrlN, keys.CtrlP, keys.CtrlQ, keys.CtrlR, keys.CtrlT, keys.CtrlU,
	keys.CtrlW, keys.CtrlY, keys.CtrlZ, keys.Delete, keys.Escape, keys.CtrlC, keys.CtrlD,
}

var rareKeys = []string{
	keys.CtrlLeft, keys.CtrlRight, keys.CtrlUnderbar, keys.CtrlV, keys.Down, keys.Up, keys.End, keys.Home, keys.Left, keys.Right,
	keys.F1, keys.PageUp, "\x1B", "\x1B[", "\x1B\x1B", "\t", "\x00", "", "\xFF", "\n", "ab", "\r\n", "\x1B\t",
}

// HNoPanic: any two keys from a short line, at nine terminal widths (80, 3 to 7, 1, 0 and -1), with
// prediction, cycling and colouring on or off. Nothing is asserted: a panic or
// an endless loop is the violation.
func HNoPanic() {
	widths := []int{80, 0, 1, 3, 4, 5, 6, 7, -1}
	s := newSession(widths[symChoose("width", symParam("widths", 8))])
	p := symChoose("prompt", 3)
	s.prompt([]string{"", "> ", "\x1B[1m漢漢\x1B[0m"}[p])
	n := symChoose("n", symParam("n", 2)+1)
	rs, _ := symText("kind", n, 0, []int{kWide, kLetter, kTab}[:symParam("kinds", 2)])
	s.ed.Default = string(rs)
	s.ed.Cursor = symChoose("cur", n+1)
	h := simplehistory.New()
	h.Add("漢字 " + string(rs) + "x")
	h.Add("\t")
	s.ed.History = h
	if symBool("options") {
		s.ed.HistoryCycling = true
		s.ed.PredictColor = [...]string{"\x1B[3m", "\x1B[0m"}
		s.ed.Coloring = &coloring.VimBatch{}
	}
	all := allKeys
	if symParam("rare", 0) > 0 {
		all = append(append([]string{}, allKeys...), rareKeys...)
	}
	steps, done := symParam("keys", 2), 0
	s.next = func() string {
		if done >= steps {
			return keys.Enter
		}
		done++
		k := symChoose("key", len(all)+3)
		if k < len(all) {
			return all[k]
		}
		return []string{"z", "界", "​"}[k-len(all)]
	}
	_, err := s.run()
	symAssert(err == nil || err == readline.CtrlC || err.Error() == "EOF", "unexpected error")
	symReach("done")
}

// HNoPanicSeq: characters that combine with their neighbours, in any order,
// mixed with commands.
func HNoPanicSeq() {
	s := newSession([]int{80, 9}[symChoose("width", symParam("widths", 2))])
	chars := []string{"a", "\U0001F468", "‍", "️", "\U0001F3FB", "\t", "\U0001F1EF", "\U0001F3F3", "⃣"}[:symParam("chars", 5)]
	cmds := []string{keys.CtrlH, keys.CtrlA, keys.CtrlB, keys.CtrlU, keys.Escape, keys.CtrlZ, keys.CtrlT, keys.CtrlE, keys.CtrlF, keys.CtrlW, keys.CtrlY}[:symParam("cmds", 7)]
	done := 0
	s.next = func() string {
		if done >= symParam("keys", 4) {
			return keys.Enter
		}
		done++
		k := symChoose("key", len(chars)+len(cmds))
		if k < len(chars) {
			return chars[k]
		}
		return cmds[k-len(chars)]
	}
	s.run()
	symReach("done")
}

// HAnyKey: one key made of any one or two runes, or of any bytes.
func HAnyKey() {
	s := newSession([]int{80, 7}[symChoose("width", 2)])
	s.ed.Default = "a漢"
	s.ed.Cursor = symChoose("cur", 3)
	key := ""
	switch symChoose("form", 4) {
	case 0:
		key = string(symRune("r", 0, 0xD7FF))
	case 1:
		key = string(symRune("r", 0xE000, 0x10FFFF))
	case 2:
		key = "\x1B" + string(symRune("r", 0, 0xFFF))
	case 3:
		key = string([]byte{symByte("b1", 0, 255), symByte("b2", 0, 255)})
	}
	done := false
	s.next = func() string {
		if done {
			return keys.Enter
		}
		done = true
		return key
	}
	text, _ := s.run()
	symObserveStr("text", text)
	symReach("done")
}

// HAnyPrompt: a prompt of any bytes, painted at the start, by Ctrl-L and when
// the terminal is resized.
func HAnyPrompt() {
	s := newSession([]int{80, 4, 0}[symChoose("width", symParam("widths", 3))])
	var p []byte
	for i := symChoose("n", symParam("n", 3)+1); i > 0; i-- {
		p = append(p, symByte("b", 0, 255))
	}
	pre := []string{"", "a\n", "\x1B]0;", "漢"}[symChoose("pre", 4)]
	s.prompt(pre + string(p))
	s.ed.Default = "a漢"
	s.ed.Cursor = 1
	n := 0
	s.next = func() string {
		n++
		switch n {
		case 1:
			return "x"
		case 2:
			if symBool("resize") {
				s.onSize(5)
				return keys.CtrlE
			}
			return keys.CtrlL
		}
		return keys.Enter
	}
	text, err := s.run()
	symAssert(err == nil && text == "ax漢", "wrong text")
	symReach("done")
}

// HNoPanicSearch: any keys within an incremental search.
func HNoPanicSearch() {
	s := newSession([]int{80, 13, 0}[symChoose("width", symParam("widths", 3))])
	var ents []string
	for i := symChoose("entries", symParam("entries", 2)+1); i > 0; i-- {
		ents = append(ents, []string{"", string(symRune("h", 'a', 'z')), "漢" + string(symRune("h", 'a', 'z'))}[symChoose("entry", 3)])
	}
	s.ed.History = &histStub{ents: ents}
	s.ed.Default = "a漢"
	s.ed.Cursor = 2 * symChoose("cur", 2)
	if s.ed.Cursor == 2 {
		s.ed.PredictColor = predictColor
	}
	in := []string{keys.CtrlR, keys.CtrlS, keys.CtrlH, "a", "漢", keys.Enter, keys.Escape, keys.Up, "", "\xFF", keys.CtrlV}
	n := 0
	s.next = func() string {
		n++
		if n == 1 {
			return keys.CtrlR
		}
		if n < 2+symParam("keys", 3) {
			return in[symChoose("key", len(in))]
		}
		return keys.Enter
	}
	s.run()
	symReach("done")
}

// HNoPanicDeep: longer sequences from a short line.
func HNoPanicDeep() {
	s := newSession([]int{7, 80, 0}[symChoose("width", symParam("widths", 1))])
	s.ed.Default = string([]rune{symChar(kWide, 0), symChar(kLetter, 1)})
	s.ed.Cursor = symChoose("cur", 3)
	s.ed.History = &histStub{ents: []string{"漢字 xyz", "a"}}
	if symBool("options") {
		s.ed.HistoryCycling = true
		s.ed.PredictColor = predictColor
	}
	n := 0
	s.next = func() string {
		n++
		if n > symParam("keys", 3) {
			return keys.Enter
		}
		k := symChoose("key", len(allKeys)+2)
		if k < len(allKeys) {
			return allKeys[k]
		}
		return []string{"z", "\t"}[k-len(allKeys)]
	}
	s.run()
	symReach("done")
}
