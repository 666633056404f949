package main

import (
	"bytes"

	"github.com/mattn/go-runewidth"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/internal/moji"
)

func init() {
	harnesses["HWidth"] = HWidth
	harnesses["HWidthKinds"] = HWidthKinds
	harnesses["HWidthTab"] = HWidthTab
	harnesses["HWidthSet"] = HWidthSet
}

// termWidth: columns of a character as the width tables have them; a regional
// indicator takes two columns and a joiner one, as the library assumes of the
// terminals it knows.
func termWidth() func(rune) int {
	c := runewidth.NewCondition()
	c.EastAsianWidth = moji.AmbiguousIsWide
	return func(r rune) int {
		if r == 0x200D {
			return 1
		}
		if r >= 0x1F1E6 && r <= 0x1F1FF {
			return 2
		}
		return c.RuneWidth(r)
	}
}

// special: characters whose width on the terminal differs from the tables'; the
// library treats them apart when they stand alone or before a selector.
func special(r rune) bool {
	return r >= 0x1F1E6 && r <= 0x1F1FF || r >= 0x1D400 && r <= 0x1D7FF || r == 0x1F3F3 || r >= 0x2500 && r <= 0x257F
}

// checkWidths prints the units one after another and compares the columns used
// with the widths reported.
func checkWidths(rs []rune) {
	for i := range rs {
		if i > 0 && rs[i-1] == 0x200D && moji.ZeroWidthJoinSequenceOk {
			symAssume(!special(rs[i]) && rs[i] != 0x200D)
		}
	}
	text := string(rs)
	us := readline.StringToMoji(text)
	scr := newScreen(60)
	scr.widthOf = termWidth()
	var sum readline.WidthT
	for _, u := range us {
		w := u.Width()
		symAssert(w >= 1, "a unit without columns")
		var b bytes.Buffer
		u.PrintTo(&b)
		at := scr.col
		scr.write(b.Bytes())
		scr.flush()
		symAssert(scr.col == at+int(w), "width differs from the columns printed")
		if b.String() == "" {
			symFail("nothing printed")
		}
		var o bytes.Buffer
		u.WriteTo(&o)
		if o.String() == "\t" {
			symAssert(scr.col%4 == 0 && w <= 4, "a tab does not fill up to a multiple of four")
		}
		sum += w
	}
	symAssert(scr.odd == "", "unknown bytes: "+scr.odd)
	symAssert(readline.GetStringWidth(text) == sum, "string width is not the sum of the units' widths")
	symAssert(readline.MojiCountInString(text) == len(us), "count is not the number of units")
	symObserveInt("width", int(sum))
	symReach("done")
}

// HWidth: any characters.
func HWidth() {
	anyCaps()
	var rs []rune
	for i := 0; i < symParam("n", 1); i++ {
		rs = append(rs, anyRune())
	}
	checkWidths(rs)
}

// HWidthKinds: several of the characters that combine.
func HWidthKinds() {
	anyCaps()
	var rs []rune
	n := symChoose("n", symParam("n", 3)+1)
	for i := 0; i < n; i++ {
		rs = append(rs, kindRune(symParam("kinds", 15)))
	}
	checkWidths(rs)
}

// HWidthTab: tabs behind characters of every width.
func HWidthTab() {
	n := symChoose("n", symParam("n", 5)+1)
	rs, _ := symText("kind", n, 0, []int{kLetter, kTab, kWide, kC1, kZero, kCtrl}[:symParam("kinds", 5)])
	checkWidths(rs)
}

// HWidthSet: a width given by the user is the width reported, until reset.
func HWidthSet() {
	r := symRune("r", 0x20, 0x7E)
	q := symRune("q", 0x20, 0x7E)
	w := symInt("w", 1, 4)
	before := readline.GetStringWidth(string(q))
	readline.SetCharWidth(r, w)
	symAssert(readline.GetStringWidth(string(r)) == readline.WidthT(w), "the width set is not reported")
	if q != r {
		symAssert(readline.GetStringWidth(string(q)) == before, "the width of another character changed")
	}
	symAssert(readline.StringToMoji(string(r))[0].Width() == readline.WidthT(w), "the width set is not used")
	readline.ResetCharWidth()
	symAssert(readline.GetStringWidth(string(r)) == 1, "the width was not reset")
	symReach("done")
}
