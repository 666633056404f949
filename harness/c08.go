package main

import (
	"strings"

	"github.com/atotto/clipboard"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/internal/moji"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HUnits"] = HUnits
	harnesses["HUnitsKinds"] = HUnitsKinds
	harnesses["HReturn"] = HReturn
}

// anyCaps sets the terminal's capabilities to any combination.
func anyCaps() {
	moji.SurrogatePairOk = symBool("surrogatepair")
	moji.ZeroWidthJoinSequenceOk = symBool("zwj")
	moji.VariationSequenceOk = symBool("variation")
	moji.ModifierSequenceOk = symBool("modifier")
}

// anyRune is any Unicode character.
func anyRune() rune {
	if symChoose("plane", 2) == 0 {
		return symRune("r", 0, 0xD7FF)
	}
	return symRune("r", 0xE000, 0x10FFFF)
}

// unitKinds: the kinds of characters that are treated differently when they
// stand next to each other.
var unitKinds = [][2]rune{
	{'a', 'z'},
	{0x200D, 0x200D},   // joiner
	{0xFE00, 0xFE0F},   // variation selectors
	{0x1F3FB, 0x1F3FF}, // skin tones
	{0, 0x1F},
	{0x1F300, 0x1F3FA}, // pictures
	{0x200B, 0x200C},
	{0x1F1E6, 0x1F1FF}, // regional indicators
	{0x20DD, 0x20E0},   // enclosing marks
	{0x7F, 0x9F},
	{0x1F3F3, 0x1F3F3},
	{0xE0100, 0xE01EF}, // variation selectors, supplementary
	{0x2500, 0x257F},   // box drawing
	{0x1D400, 0x1D7FF},
	{0x4E00, 0x9FFF},
	{0xFFFD, 0xFFFD},
}

func kindRune(n int) rune {
	k := unitKinds[symChoose("kind", n)]
	return symRune("r", k[0], k[1])
}

func units(text string) string {
	var b strings.Builder
	for _, m := range readline.StringToMoji(text) {
		m.WriteTo(&b)
	}
	return b.String()
}

// HUnits: texts of any characters.
func HUnits() {
	anyCaps()
	var rs []rune
	for i := 0; i < symParam("n", 2); i++ {
		rs = append(rs, anyRune())
	}
	text := string(rs)
	u := units(text)
	symAssert(u == text, "the units do not give back the text")
	symObserveStr("units", u)
	symReach("done")
}

// HUnitsKinds: longer texts of the characters that combine.
func HUnitsKinds() {
	anyCaps()
	var rs []rune
	n := symChoose("n", symParam("n", 4)+1)
	for i := 0; i < n; i++ {
		rs = append(rs, kindRune(symParam("kinds", 9)))
	}
	text := string(rs)
	u := units(text)
	symAssert(u == text, "the units do not give back the text")
	symObserveStr("units", u)
	symReach("done")
}

// HReturn: a text that is the default, recalled or pasted comes back.
func HReturn() {
	var rs []rune
	n := symChoose("n", symParam("n", 3)+1)
	for i := 0; i < n; i++ {
		rs = append(rs, kindRune(symParam("kinds", 9)))
	}
	anyCaps()
	text := string(rs)
	s := newSession(80)
	key := keys.Enter
	switch symChoose("route", 3) {
	case 0:
		s.ed.Default = text
	case 1:
		s.ed.History = &histStub{ents: []string{"x", text}}
		key = keys.CtrlP
	case 2:
		if n > 0 {
			symAssume(rs[n-1] != '\r' && rs[n-1] != '\n' && rs[n-1] != 0)
		}
		clipboard.Text = text
		key = keys.CtrlY
	}
	done := false
	s.next = func() string {
		if done {
			return keys.Enter
		}
		done = true
		return key
	}
	got, err := s.run()
	symAssert(err == nil && got == text, "the text came back changed")
	symObserveStr("text", got)
	symReach("done")
}
