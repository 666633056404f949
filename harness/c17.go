package main

import (
	"github.com/nyaosorg/go-box/v2"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/completion"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HComplete"] = HComplete
	harnesses["HCompleteSpecial"] = HCompleteSpecial
	harnesses["HCommon"] = HCommon
	harnesses["HCommonCase"] = HCommonCase
	harnesses["HCommonLong"] = HCommonLong
	harnesses["HCompleteDel"] = HCompleteDel
	harnesses["HCompleteSpace"] = HCompleteSpace
	harnesses["HCompleteFold"] = HCompleteFold
}

// lister is a completion with a given list of candidates.
type lister struct {
	del, enc   string
	full, base []string
	asked      []string
	calls      int
}

func (c *lister) Delimiters() string { return c.del }
func (c *lister) Enclosures() string { return c.enc }
func (c *lister) List(fields []string) ([]string, []string) {
	c.calls++
	c.asked = append([]string{}, fields...)
	return append([]string{}, c.full...), append([]string{}, c.base...)
}

func runeIn(r rune, s string) bool {
	for _, c := range s {
		if c == r {
			return true
		}
	}
	return false
}

// compWord: the word before the cursor, its start, and whether there is one.
// Words are separated by spaces; a delimiter is a word of its own; neither
// counts inside quotation marks, which are not part of the word.
func compWord(rs []rune, c *lister) (word []rune, start int, ok bool) {
	var quote rune
	fresh := true // a new word starts with the next character
	for i, r := range rs {
		switch {
		case quote == 0 && (r == ' ' || r >= '\t' && r <= '\r'):
			fresh, word, start, ok = true, nil, i+1, true
			continue
		case quote == 0 && runeIn(r, c.del):
			fresh, word, start, ok = true, []rune{r}, i, true
			continue
		}
		if fresh {
			fresh, word, start, ok = false, nil, i, true
		}
		if runeIn(r, c.enc) {
			if quote == 0 {
				quote = r
			} else if quote == r {
				quote = 0
			}
		} else {
			word = append(word, r)
		}
	}
	return
}

// lower is simple case folding for ASCII, Latin-1 and the letters of oddCases.
func lower(r rune) rune {
	if r > 0xFF {
		for _, c := range oddCases {
			for _, o := range c {
				if o == r {
					return c[0]
				}
			}
		}
		return r
	}
	if r >= 'A' && r <= 'Z' || r >= 0xC0 && r <= 0xDE {
		return r + 32
	}
	return r
}

func foldEq(a, b rune) bool { return lower(a) == lower(b) }

func foldPrefix(p, s []rune) bool {
	if len(p) > len(s) {
		return false
	}
	for i := range p {
		if !foldEq(p[i], s[i]) {
			return false
		}
	}
	return true
}

func without(rs []rune, marks string) []rune {
	var t []rune
	for _, r := range rs {
		if !runeIn(r, marks) {
			t = append(t, r)
		}
	}
	return t
}

// completeOn runs one completion key on the line and gives back the line.
func completeOn(rs []rune, cur int, c *lister, list bool, post string) ([]rune, int) {
	s := newSession(80)
	s.ed.Default = string(rs)
	s.ed.Cursor = cur
	if list {
		s.ed.BindKey(keys.CtrlI, completion.CmdCompletionOrList{Completion: c, Postfix: post})
	} else {
		s.ed.BindKey(keys.CtrlI, completion.CmdCompletion{Completion: c, Postfix: post})
	}
	var got []rune
	var at int
	n := 0
	s.next = func() string {
		n++
		if n == 1 {
			return keys.CtrlI
		}
		got = []rune(s.b.String())
		at = s.b.Cursor
		return keys.Enter
	}
	text, err := s.run()
	symAssert(err == nil && text == string(got), "the session ended another way")
	symObserveStr("text", text)
	return got, at
}

// checkCompletion: what a completion key does to a line.
func checkCompletion(rs []rune, cur int, cands [][]rune, c *lister) {
	list := symBool("list")
	post := ""
	if symBool("postfix") {
		post = "@"
	}
	for i, s := range cands {
		c.full = append(c.full, string(s))
		c.base = append(c.base, string(rune('0'+i)))
	}
	named := symBool("basenames")
	if !named {
		c.base = nil
	}
	word, start, has := compWord(rs[:cur], c)
	got, at := completeOn(rs, cur, c, list, post)

	var match [][]rune
	var shown []string
	for i, s := range cands {
		if foldPrefix(word, s) {
			match = append(match, s)
			if named {
				shown = append(shown, c.base[i])
			} else {
				shown = append(shown, c.full[i])
			}
		}
	}
	same := string(got) == string(rs) && at == cur
	only := symParam("prop", 17) == 17 // else C18

	if only {
		symAssert(len(got)-at == len(rs)-cur, "the text behind the cursor changed")
		symAssert(string(got[at:]) == string(rs[cur:]), "the text behind the cursor changed")
		symAssert(at >= start && string(got[:start]) == string(rs[:start]), "the text before the word changed")
	} else {
		symAssume(at >= start && at <= len(got))
	}
	if !has {
		if only {
			symAssert(same, "the line changed though there is no word")
		} else {
			symAssert(len(box.Printed) == 0, "a list is shown though there is no word")
		}
		symReach("noword")
		return
	}
	symAssert(c.calls > 0 && len(c.asked) > 0, "the candidates were not asked for")
	symAssert(c.asked[len(c.asked)-1] == string(word), "candidates asked for another word")
	if len(match) == 0 {
		if only {
			symAssert(same, "the line changed though nothing matches")
		} else {
			symAssert(len(box.Printed) == 0, "a list is shown though nothing matches")
		}
		symReach("nomatch")
		return
	}
	// the longest common prefix and the shortest candidates
	p := len(match[0])
	short := len(string(match[0]))
	for _, s := range match[1:] {
		short = imin(short, len(string(s)))
		k := 0
		for k < p && k < len(s) && foldEq(match[0][k], s[k]) {
			k++
		}
		p = k
	}
	quoted := false
	for _, s := range match {
		for _, r := range s {
			if r == ' ' || runeIn(r, c.del) {
				quoted = len(c.enc) > 0
			}
		}
	}
	if p == len(word) {
		if only {
			symAssert(same, "the line changed though nothing can be added")
		} else if list && len(match) > 1 {
			symAssert(len(box.Printed) == 1 && eqStrs(box.Printed[0], shown), "the list shown is not that of the matching candidates")
		} else {
			symAssert(len(box.Printed) == 0, "a list is shown")
		}
		if list && len(match) > 1 {
			symReach("list")
		}
		return
	}
	neu := got[start:at]
	bare := without(neu, c.enc)
	if only {
		symAssert(len(bare) > len(word) && foldPrefix(word, bare), "the new word does not extend what was typed")
		if quoted {
			symAssert(len(neu) > 0 && neu[0] == rune(c.enc[0]), "the new word is not quoted")
			if len(match) == 1 {
				symAssert(len(neu) > 1+len(post) && neu[len(neu)-1-len(post)] == rune(c.enc[0]), "the quotation is not closed")
			}
		}
		symReach("extended")
		return
	}
	symAssert(len(box.Printed) == 0, "a list is shown though the word was extended")
	okay := false
	for _, s := range match {
		want := string(s[:p])
		if len(match) == 1 {
			want += post
		}
		if len(string(s)) == short && string(bare) == want {
			okay = true
		}
	}
	symAssert(okay, "the word did not become the longest common prefix")
	symReach("extended")
}

func compLetter(letters int) rune {
	c := symRune("letter", 'A', 'z')
	symAssume(c|0x20 >= 'a' && c|0x20 < rune('a'+letters))
	return c
}

// compRune: a character of a candidate or of the line.
func compRune(kinds string, letters int) rune {
	k := kinds[symChoose("kind", len(kinds))]
	switch k {
	case 'a':
		return compLetter(letters)
	case 'l': // two bytes
		c := symRune("latin", 0xC0, 0xFE)
		symAssume(c|0x20 == 0xE0 || c|0x20 == 0xE1)
		return c
	}
	return rune(k)
}

func compText(name string, min, max int, kinds string, letters int) []rune {
	n := min + symChoose(name, max-min+1)
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = compRune(kinds, letters)
	}
	return rs
}

// HComplete: any short line with spaces, quotation marks and delimiters.
func HComplete() {
	rs := compText("n", 0, symParam("n", 3), "a \";'"[:symParam("kinds", 4)], symParam("letters", 1))
	cur := symChoose("cur", len(rs)+1)
	c := &lister{del: ";&", enc: "\"'"}
	if symParam("plain", 0) > 0 && symBool("plain") {
		c.del, c.enc = "", ""
	}
	var cands [][]rune
	for k := symChoose("cands", symParam("cands", 2)+1); k > 0; k-- {
		cands = append(cands, compText("len", 1, symParam("len", 2), "a ", symParam("letters", 1)))
	}
	checkCompletion(rs, cur, cands, c)
}

// HCompleteSpecial: candidates with characters that need quotation marks, and
// with or without quotation marks and delimiters configured.
func HCompleteSpecial() {
	rs := []rune([]string{"a", "b a", "\"a", "\"a ", "b;a", "a b", "a ", ""}[symChoose("line", 8)])
	c := &lister{del: []string{";&", ""}[symChoose("del", 2)], enc: []string{"\"'", "'", ""}[symChoose("enc", 3)]}
	var cands [][]rune
	for k := symChoose("cands", symParam("cands", 2)+1); k > 0; k-- {
		cands = append(cands, append([]rune("a"), compText("len", 0, symParam("len", 2), "b ;", 1)...))
	}
	checkCompletion(rs, len(rs), cands, c)
}

// HCompleteDel: words behind and made of delimiters.
func HCompleteDel() {
	rs := []rune([]string{";", "a;", "a;;", "a ;", ";a", "\";\"", "a; ", "'a;", "a&;b"}[symChoose("line", symParam("lines", 9))])
	cur := len(rs)
	if symBool("inside") {
		cur--
	}
	c := &lister{del: ";&", enc: "\"'"}
	var cands [][]rune
	for k := 1 + symChoose("cands", symParam("cands", 2)); k > 0; k-- {
		cands = append(cands, compText("len", 1, symParam("len", 2), "a;", 1))
	}
	checkCompletion(rs, cur, cands, c)
}

// HCompleteSpace: words separated by any of the white space characters, inside
// and outside quotation marks of two kinds.
func HCompleteSpace() {
	space := func() rune {
		r := symRune("space", '\t', ' ')
		symAssume(r == ' ' || r <= '\r')
		return r
	}
	var rs []rune
	for i, n := 0, symChoose("n", symParam("n", 4)+1); i < n; i++ {
		switch symChoose("kind", 4) {
		case 0:
			rs = append(rs, compLetter(1))
		case 1:
			rs = append(rs, space())
		case 2:
			rs = append(rs, '"')
		case 3:
			rs = append(rs, '\'')
		}
	}
	cur := symChoose("cur", len(rs)+1)
	c := &lister{del: ";&", enc: "\"'"}
	cands := [][]rune{[]rune("abc")}
	if symBool("two") {
		cands = append(cands, []rune("Abd"))
	}
	checkCompletion(rs, cur, cands, c)
}

// oddCases: letters with more than two spellings, or spellings that differ in
// their length in bytes.
var oddCases = [][]rune{
	{'k', 'K', '\u212A'},
	{'s', 'S', '\u017F'},
	{'\u00DF', '\u1E9E'},
	{'\u00E5', '\u00C5', '\u212B'},
	{'\u03B8', '\u0398', '\u03D1', '\u03F4'},
	{'\u03C9', '\u03A9', '\u2126'},
	{'\u2C65', '\u023A'},
}

// HCompleteFold: letters with more than two spellings, or spellings that differ
// in their length in bytes.
func HCompleteFold() {
	class := oddCases[symChoose("class", symParam("classes", 7))]
	letter := func() rune { return class[symChoose("letter", len(class))] }
	rs := []rune{letter()}
	if symBool("more") {
		rs = append(rs, compLetter(1))
	}
	c := &lister{del: ";&", enc: "\"'"}
	var cands [][]rune
	for k := 1 + symChoose("cands", symParam("cands", 2)); k > 0; k-- {
		cands = append(cands, append([]rune{letter()}, compText("len", 0, symParam("len", 2), "a", 2)...))
	}
	checkCompletion(rs, len(rs), cands, c)
}

// HCommonCase: three candidates that differ in length and in case.
func HCommonCase() {
	c := &lister{del: ";&", enc: "\"'"}
	letter := func(l rune) rune {
		r := symRune("letter", 'A', 'z')
		symAssume(r|0x20 == l)
		return r
	}
	var cands [][]rune
	for k := symParam("cands", 3); k > 0; k-- {
		s := []rune{letter('a'), letter('b')}
		cands = append(cands, append(s, []rune("xyz")[:symChoose("len", 4)]...))
	}
	rs := []rune{letter('a')}
	if symBool("space") {
		rs = []rune(" ")
	}
	checkCompletion(rs, len(rs), cands, c)
}

// HCommonLong: candidates with a long text in common.
func HCommonLong() {
	c := &lister{del: ";&", enc: "\"'"}
	n := []int{1, 7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 300}[symChoose("common", symParam("lens", 15))]
	var common []rune
	for i := 0; i < n; i++ {
		common = append(common, 'a'+rune(i%26))
	}
	if symBool("wide") {
		common[n-1] = '漢'
		common[0] = 'a'
	}
	var cands [][]rune
	for k := 1 + symChoose("cands", 2); k > 0; k-- {
		s := append([]rune{}, common...)
		cands = append(cands, append(s, compText("len", 0, 1, "a", 2)...))
	}
	rs := common[:1+symChoose("typed", 2)*(n-1)]
	checkCompletion(rs, len(rs), cands, c)
}

// HCommon: several candidates with letters of either case.
func HCommon() {
	rs := compText("n", 1, symParam("n", 1), "al", 2)
	c := &lister{del: ";&", enc: "\"'"}
	var cands [][]rune
	for k := 2 + symChoose("cands", symParam("cands", 3)-1); k > 0; k-- {
		cands = append(cands, compText("len", 1, symParam("len", 2), "al", 2))
	}
	checkCompletion(rs, len(rs), cands, c)
}

var _ readline.Command = completion.CmdCompletion{}
