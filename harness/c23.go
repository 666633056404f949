package main

import (
	"io"

	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HPrompt"] = HPrompt
	harnesses["HPromptKinds"] = HPromptKinds
	harnesses["HPromptText"] = HPromptText
	harnesses["HPromptAgain"] = HPromptAgain
}

// promptPiece is a part of a prompt and what it does: columns it adds, or -1
// for a return to the first column.
func promptPiece(kinds int) (string, int) {
	switch symChoose("piece", kinds) {
	case 0:
		return string(symRune("letter", '0', '~')), 1
	case 1:
		return string(symRune("wide", 0x4E00, 0x9FFF)), 2
	case 2: // colour
		return "\x1B[" + string(symRune("par", '0', '9')) + ";31m", 0
	case 3: // window title, with text that would count elsewhere
		t := symRune("title", ' ', '~')
		return "\x1B]0;" + string(t) + "漢\a", 0
	case 4:
		return "\n", -1
	case 5: // over a character of one column
		return "x\b", 0
	case 6:
		return "\r", -1
	case 7:
		return "\x1B[m", 0
	case 8: // over two characters of one column
		return "é" + string(symRune("latin", 0x3042, 0x3042)) + "\r" + "xy\b\b", -1
	case 9:
		return "\x1B[38;5;" + string(symRune("par", '0', '9')) + "m", 0
	case 10: // other sequences that move nothing
		return "\x1B[" + []string{"?25h", "K", "0K"}[symChoose("seq", 3)], 0
	}
	return "\b", -2 // as the first thing of a row
}

// checkPrompt: the line is painted where the prompt ends.
func checkPrompt(prompt string, nilPrompt bool, width int) {
	s := newSession(width)
	s.scr = newScreen(width)
	text := []string{"", "ab", "a漢"}[symChoose("text", 3)]
	s.ed.Default = text
	s.ed.Cursor = symChoose("cursor", 2)
	whole := prompt
	if nilPrompt {
		whole = "\n> "
		s.ed.PromptWriter = nil
	} else if symBool("pieces") && len(prompt) > 0 {
		s.ed.PromptWriter = func(w io.Writer) (int, error) {
			n, _ := io.WriteString(w, prompt[:1])
			m, err := io.WriteString(w, prompt[1:])
			return n + m, err
		}
	} else {
		s.prompt(prompt)
	}
	ref := newScreen(width)
	ref.write([]byte(whole))
	ref.flush()
	col, rows := ref.col, ref.rows
	if col >= width-3 {
		col = 0
		rows++
		ref.erase(0)
		symReach("toowide")
	}
	cur := imin(s.ed.Cursor, len([]rune(text)))
	rs := []rune(text)
	pos := layout(rs)
	symAssume(pos[len(rs)] < width-col-3) // room for the whole text
	again := symChoose("again", 3)
	n := 0
	s.next = func() string {
		n++
		s.scr.flush()
		symAssert(s.scr.col == col+cur, "the line does not start where the prompt ends")
		symAssert(s.scr.shows2(ref, col, rs, pos), "the prompt or the line is not shown")
		symObserveInt("column", s.scr.col)
		if n == 1 {
			symAssert(s.scr.rows == rows, "the line is on another row")
			switch again {
			case 1:
				return keys.CtrlL
			case 2:
				s.onSize(width)
				s.scr.flush()
				symAssert(s.scr.col == col+cur, "the line moved when the terminal was resized")
			}
		}
		return keys.Enter
	}
	s.run()
	symReach("done")
}

// shows2: the row is that of the prompt with the line from column col on.
func (s *screen) shows2(ref *screen, col int, rs []rune, pos []int) bool {
	for c := 0; c < col; c++ {
		r1, c1 := ref.at(c)
		r2, c2 := s.at(c)
		if r1 != r2 || c1 != c2 {
			return false
		}
	}
	return s.shows(rs, pos, col, 0, len(rs), nil)
}

// HPrompt: a prompt made of any pieces.
func HPrompt() {
	prompt := ""
	col := 0
	for k := symChoose("pieces", symParam("pieces", 3)+1); k > 0; k-- {
		p, w := promptPiece(symParam("kinds", 7))
		prompt += p
		if w == -1 {
			col = 0
		} else if w > 0 {
			col += w
		}
	}
	checkPrompt(prompt, symBool("nil"), []int{20, 8}[symChoose("width", symParam("widths", 2))])
}

// HPromptKinds: fewer pieces of more kinds.
func HPromptKinds() { HPrompt() }

// HPromptText: prompts near the width of the terminal.
func HPromptText() {
	prompt := ""
	for k := symChoose("wides", 3); k > 0; k-- {
		prompt += "漢"
	}
	for k := symChoose("letters", symParam("letters", 8)); k > 0; k-- {
		prompt += string(symRune("letter", ' ', '~'))
	}
	checkPrompt(prompt, false, symParam("width", 8)+symChoose("width", 3))
}

// HPromptAgain: the prompt or the terminal's width is another one when the
// line is repainted.
func HPromptAgain() {
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd(12, n, []int{kLetter, kWide})
	s := w.s
	prompt := "漢字漢字漢字"
	calls := 0
	s.ed.PromptWriter = func(o io.Writer) (int, error) {
		calls++
		if calls <= 2 {
			prompt = []string{"", "> ", "abc", "漢字漢", "漢字漢字a"}[symChoose("prompt", 5)]
		}
		return io.WriteString(o, prompt)
	}
	w.withScreen()
	waits := 0
	w.s.next = func() string {
		waits++
		s.scr.flush()
		if waits == 1 {
			if symBool("resize") {
				width := 8 + 2*symChoose("to", symParam("to", 4))
				s.width = width
				s.scr.width = width
				s.scr.maxCol = 0
				s.onSize(width)
				s.scr.flush()
				symReach("resized")
			} else {
				s.scr.maxCol = 0
				return keys.CtrlL
			}
		}
		w.top = 0
		for _, r := range prompt {
			w.top += scrWidth(r)
		}
		if w.top >= s.width-3 {
			w.top = 0
			symReach("toowide")
		} else {
			pr := []rune(prompt)
			symAssert(s.scr.startsWith(pr), "the prompt is not shown")
		}
		symAssume(s.width-w.top-3 > 2) // room for the widest character
		w.lastVS = s.b.ViewStart
		w.checkScreen()
		symAssert(s.scr.maxCol < s.width-1 || w.top == 0, "the last column was reached")
		return keys.Enter
	}
	s.run()
	symReach("done")
}

// startsWith: the row starts with a text.
func (s *screen) startsWith(rs []rune) bool {
	col := 0
	for _, x := range rs {
		if r, cont := s.at(col); r != x || cont {
			return false
		}
		col += scrWidth(x)
	}
	return true
}
