package main

import (
	"bytes"
	"unicode/utf8"

	"github.com/atotto/clipboard"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HCtrlUnits"] = HCtrlUnits
	harnesses["HCtrlKinds"] = HCtrlKinds
	harnesses["HCtrlLine"] = HCtrlLine
}

func isCtrl(r rune) bool { return r < ' ' || r >= 0x7F && r <= 0x9F }

// checkPrinted: the printed form of a unit has no control characters but the
// editor's own way of painting over reserved columns: n blanks, ESC 7, n times
// BS, the text, ESC 8.
func checkPrinted(p []byte) {
	t := string(p)
	blanks, open := 0, false
	for len(t) > 0 {
		r, size := utf8.DecodeRuneInString(t)
		if !isCtrl(r) {
			if r == ' ' {
				blanks++
			} else {
				blanks = 0
			}
			t = t[size:]
			continue
		}
		symAssert(r == 0x1B && len(t) >= 2, "control character printed")
		if open {
			symAssert(t[1] == '8', "control character printed")
			open = false
			t = t[2:]
			continue
		}
		symAssert(t[1] == '7', "control character printed")
		open = true
		t = t[2:]
		for i := 0; i < blanks; i++ {
			symAssert(len(t) > 0 && t[0] == '\b', "control character printed")
			t = t[1:]
		}
		blanks = 0
	}
	symAssert(!open, "cursor not restored")
}

func checkAllPrinted(rs []rune) {
	for _, u := range readline.StringToMoji(string(rs)) {
		var b bytes.Buffer
		u.PrintTo(&b)
		symObserveStr("printed", b.String())
		checkPrinted(b.Bytes())
	}
	symReach("done")
}

// HCtrlUnits: any characters under any capabilities.
func HCtrlUnits() {
	anyCaps()
	var rs []rune
	for i := 0; i < symParam("n", 2); i++ {
		rs = append(rs, anyRune())
	}
	checkAllPrinted(rs)
}

// HCtrlKinds: control characters among those that combine.
func HCtrlKinds() {
	anyCaps()
	var rs []rune
	for i := 0; i < symParam("n", 4); i++ {
		rs = append(rs, kindRune(symParam("kinds", 11)))
	}
	checkAllPrinted(rs)
}

// ctrlRune: a control character, or a neighbour that makes a sequence of it.
func ctrlRune() rune {
	switch symChoose("ctrl", 4) {
	case 0:
		return symRune("c0", 0, 0x1F)
	case 1:
		return symRune("c1", 0x7F, 0x9F)
	case 2:
		return symRune("plain", '0', '~')
	}
	return symRune("joiner", 0x200D, 0x200D)
}

// checkOutput: the only control characters are those of the editor.
func checkOutput(out []byte) {
	t := string(out)
	for len(t) > 0 {
		r, size := utf8.DecodeRuneInString(t)
		if !isCtrl(r) {
			t = t[size:]
			continue
		}
		symAssert(r == 0x1B && len(t) >= 3 && t[1] == '[', "control character sent to the terminal")
		i := 2
		for i < len(t) && (t[i] < '@' || t[i] > '~') {
			i++
		}
		symAssert(i < len(t), "unfinished sequence")
		seq := t[2 : i+1]
		switch seq {
		case "?25l", "?25h", "s", "u", "0K", "1G", "3G", "0m", "1m", "3m", "23m", "0;1m", "39;49;1m", "39;49;0m":
		default:
			symFail("unexpected control sequence " + seq)
		}
		t = t[i+1:]
	}
}

// HCtrlLine: a line of control characters, by whatever way it comes in.
func HCtrlLine() {
	s := newSession([]int{80, 12}[symChoose("width", symParam("widths", 2))])
	s.prompt("> ")
	var rs []rune
	for i := 0; i < symParam("n", 2); i++ {
		rs = append(rs, ctrlRune())
	}
	text := string(rs)
	var ks []string
	route := symChoose("route", 6)
	switch route {
	case 0:
		s.ed.Default = text
		s.ed.Cursor = symChoose("cur", len(rs)+1)
		ks = []string{keys.CtrlB}
	case 1:
		s.ed.History = &histStub{ents: []string{text}}
		ks = []string{keys.CtrlP}
	case 2:
		clipboard.Text = text
		ks = []string{[]string{keys.CtrlY, keys.AltY}[symChoose("yank", 2)]}
	case 3: // prediction
		s.ed.History = &histStub{ents: []string{"q" + text}}
		s.ed.PredictColor = [...]string{"\x1B[3m", "\x1B[23m"}
		ks = []string{"q", keys.CtrlF}
	case 4: // incremental search
		s.ed.History = &histStub{ents: []string{text}}
		ks = []string{keys.CtrlR, "\x1F", keys.CtrlR, keys.CtrlG}
		if symBool("letter") {
			ks[1] = "z"
			symAssume(rs[0] == 'z')
		}
		if symBool("accept") {
			ks[3] = keys.Enter
		}
	case 5: // quoted insert
		for _, r := range rs {
			ks = append(ks, keys.CtrlV, string(r))
		}
	}
	var out []byte
	s.sink = func(p []byte) { out = append(out, p...) }
	n := 0
	s.next = func() string {
		if n < len(ks) {
			n++
			return ks[n-1]
		}
		checkOutput(out)
		return keys.Enter
	}
	got, err := s.run()
	symAssert(err == nil, "error")
	symObserveStr("text", got)
	symReach("done")
}
