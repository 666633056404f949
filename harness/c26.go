package main

import (
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HBatch"] = HBatch
	harnesses["HBatchLine"] = HBatchLine
}

var (
	batchVar  = readline.SGR3(36, 49, 1)
	batchStr  = readline.SGR3(35, 49, 1)
	batchSep  = readline.SGR3(33, 22, 49)
	batchWarn = readline.SGR3(37, 22, 41)
	batchText = readline.SGR3(39, 49, 1)
)

// batchColors: the colour each character of a line must get.
func batchColors(rs []rune) []readline.ColorSequence {
	var cs []readline.ColorSequence
	vars, strs := false, false
	for _, r := range rs {
		inVar, inStr := vars, strs
		if r == '%' {
			vars = !vars
			inVar = true
		}
		if r == '"' {
			strs = !strs
			inStr = true
		}
		c := batchText
		switch {
		case r == '　':
			c = batchWarn
		case inVar:
			c = batchVar
		case inStr:
			c = batchStr
		case r == '&':
			c = batchSep
		}
		cs = append(cs, c)
	}
	return cs
}

func batchRunes(n int) []rune {
	rs := make([]rune, symChoose("n", n+1))
	for i := range rs {
		rs[i] = symRune("r", 1, 0x10FFFF)
	}
	return rs
}

// HBatch: any characters, and others after a restart.
func HBatch() {
	v := &coloring.VimBatch{}
	for round := 0; round < 2; round++ {
		n := symParam("n", 4)
		if round == 0 {
			n = symParam("first", 1)
		}
		rs := batchRunes(n)
		symAssert(v.Init() == readline.ColorReset, "the default colour differs")
		for i, c := range batchColors(rs) {
			symAssert(v.Next(rs[i]) == c, "a character gets another colour")
		}
	}
	symReach("done")
}

// HBatchLine: the colours on the screen.
func HBatchLine() {
	s := newSession(40)
	s.scr = newScreen(40)
	rs := make([]rune, symChoose("n", symParam("n", 3)+1))
	for i := range rs {
		rs[i] = []rune{'a', '%', '"', '&', '　'}[symChoose("kind", 5)]
	}
	s.ed.Default = string(rs)
	s.ed.Cursor = symChoose("cur", len(rs)+1)
	s.ed.Coloring = &coloring.VimBatch{}
	n := 0
	s.next = func() string {
		s.scr.flush()
		line := []rune(s.b.String())
		pos := layout(line)
		for i, c := range batchColors(line) {
			symAssert(s.scr.cells[pos[i]].sgr == colorPars(c), "a character is painted in another colour")
		}
		n++
		if n == 1 {
			return []string{"%", "\"", "x", keys.CtrlH, keys.Delete, keys.CtrlA}[symChoose("key", 6)]
		}
		return keys.Enter
	}
	s.run()
	symReach("done")
}
