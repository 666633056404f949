package main

import (
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HColoring"] = HColoring
	harnesses["HColoringSeq"] = HColoringSeq
}

// painter colours the i-th character with cols[i] and checks that it is given
// the line as it is at that moment, with one mark at the cursor.
type painter struct {
	s    *session
	def  readline.ColorSequence
	cols []readline.ColorSequence
	want []rune
	pos  int
	n    int
	on   bool
}

func (p *painter) expected() []rune {
	if p.s.b == nil { // first painting
		p.s.ed.Cursor = imin(p.s.ed.Cursor, readline.MojiCountInString(p.s.ed.Default))
		us := readline.StringToMoji(p.s.ed.Default)
		var rs []rune
		for i, u := range us {
			if i == p.s.ed.Cursor {
				rs = append(rs, readline.CursorPositionDummyRune)
			}
			rs = append(rs, []rune(unitText(u))...)
		}
		if len(us) == p.s.ed.Cursor {
			rs = append(rs, readline.CursorPositionDummyRune)
		}
		return rs
	}
	b := p.s.b
	rs := []rune(b.SubString(0, b.Cursor))
	rs = append(rs, readline.CursorPositionDummyRune)
	return append(rs, []rune(b.SubString(b.Cursor, len(b.Buffer)))...)
}

func (p *painter) finish() {
	if p.on {
		symAssert(p.pos == len(p.want), "the colouring was not given the whole line")
		p.on = false
	}
}

func (p *painter) Init() readline.ColorSequence {
	p.finish()
	p.on = true
	p.want = p.expected()
	p.pos = 0
	p.n = 0
	return p.def
}

func (p *painter) Next(r rune) readline.ColorSequence {
	symAssert(p.on, "Next without Init")
	symAssert(p.pos < len(p.want), "the colouring was given a character too many")
	symAssert(r == p.want[p.pos], "the colouring was given another character")
	p.pos++
	if r == readline.CursorPositionDummyRune {
		return readline.SGR1(99)
	}
	p.n++
	if p.n-1 < len(p.cols) {
		return p.cols[p.n-1]
	}
	return p.def
}

// stripSGR removes the colour sequences.
func stripSGR(out []byte) []byte {
	var t []byte
	for i := 0; i < len(out); i++ {
		if out[i] == 0x1B && i+1 < len(out) && out[i+1] == '[' {
			k := i + 2
			for k < len(out) && (out[k] < '@' || out[k] > '~') {
				k++
			}
			if k < len(out) && out[k] == 'm' {
				i = k
				continue
			}
		}
		t = append(t, out[i])
	}
	return t
}

// replayPlain types the same keys into an editor without colouring and returns
// what it sends to the terminal.
func replayPlain(s *session, def string, cur int, ks []string) []byte {
	q := newSession(s.width)
	q.ed.Default = def
	q.ed.Cursor = cur
	q.ed.PredictColor = s.ed.PredictColor
	q.ed.History = s.ed.History
	var out []byte
	q.sink = func(p []byte) { out = append(out, p...) }
	n := 0
	q.next = func() string {
		n++
		return ks[n-1]
	}
	q.run()
	return out
}

// HColoring: any keys on a short line.
func HColoring() {
	kinds := []int{kLetter, kWide, kTab, kCtrl}[:symParam("kinds", 2)]
	n := symChoose("n", symParam("n", 3)+1)
	width := []int{40, 7}[symChoose("width", symParam("widths", 2))]
	w := newEd(width, n, kinds)
	def, cur := w.s.ed.Default, w.s.ed.Cursor
	p := &painter{s: w.s, def: readline.SGR1(38)}
	two := []int{31, 42}
	for i := 0; i < n+symParam("keys", 2)-1; i++ {
		p.cols = append(p.cols, readline.SGR1(two[symChoose("colour", symParam("colours", 2))]))
	}
	w.s.ed.Coloring = p
	if symParam("predict", 0) > 0 && symBool("predict") {
		w.s.ed.PredictColor = [...]string{"\x1B[3m", "\x1B[23m"}
		w.s.ed.History = &histStub{ents: []string{def + "qrs"}}
	}
	w.withScreen()
	w.cmds = append(append([]editCmd{}, coreCmds...), quietCmds...)
	var out []byte
	w.s.sink = func(b []byte) { out = append(out, b...) }
	w.run(symParam("keys", 2), func() {
		p.finish()
		w.checkColors(p)
	})
	p.finish()
	plain := replayPlain(w.s, def, cur, w.typed)
	symAssert(string(stripSGR(out)) == string(stripSGR(plain)), "the output differs by more than the colours")
	symReach("done")
}

// checkColors: each character of the row has its colour.
func (w *edWorld) checkColors(p *painter) {
	s := w.s.scr
	s.flush()
	symAssert(s.sgr == "38", "the default colour is not restored")
	rs := []rune(w.s.b.String())
	pos := layout(rs)
	from := w.s.b.ViewStart
	for i := from; i < len(rs) && pos[i+1]-pos[from] < w.s.width-3; i++ {
		if i >= w.s.b.Cursor && w.unpainted() {
			break
		}
		want := "38"
		if i < len(p.cols) {
			want = colorPars(p.cols[i])
		}
		for c := pos[i] - pos[from]; c < pos[i+1]-pos[from]; c++ {
			symAssert(s.cells[c].sgr == want, "a character is painted in another colour")
		}
	}
}

func colorPars(c readline.ColorSequence) string {
	w := &fullWriter{room: -1}
	c.WriteTo(w)
	return string(w.got[2 : len(w.got)-1])
}

// unpainted: the text right of the cursor may not be painted after a move
// that scrolled the line.
func (w *edWorld) unpainted() bool {
	s := w.s.scr
	return s.col < len(s.cells) && !s.cells[s.col].set
}

// HColoringSeq: the colouring is given the characters of emoji sequences too,
// and the output is that of an editor without colouring.
func HColoringSeq() {
	s := newSession([]int{40, 9}[symChoose("width", symParam("widths", 2))])
	var rs []rune
	for i := 0; i < symParam("n", 3); i++ {
		rs = append(rs, kindRune(symParam("kinds", 6)))
	}
	def := string(rs)
	s.ed.Default = def
	cur := symChoose("cur", symParam("n", 3)+1)
	s.ed.Cursor = cur
	p := &painter{s: s, def: readline.SGR1(38), cols: []readline.ColorSequence{readline.SGR1(31), readline.SGR2(32, 1), readline.SGR1(31)}}
	s.ed.Coloring = p
	if symBool("predict") {
		s.ed.PredictColor = [...]string{"\x1B[3m", "\x1B[23m"}
		s.ed.History = &histStub{ents: []string{def + "qrs"}}
	}
	var out []byte
	s.sink = func(b []byte) { out = append(out, b...) }
	var ks []string
	cmds := []string{keys.CtrlE, keys.CtrlB, keys.CtrlF, keys.CtrlH, keys.CtrlT, "x", "\U0001F3FB", "\u200D",
		keys.CtrlA, keys.CtrlZ, keys.CtrlK, keys.CtrlL, keys.Escape, keys.CtrlW}
	s.next = func() string {
		p.finish()
		k := keys.Enter
		if len(ks) < symParam("keys", 1) {
			k = cmds[symChoose("key", imin(len(cmds), symParam("cmds", 99)))]
		}
		ks = append(ks, k)
		return k
	}
	text, err := s.run()
	p.finish()
	symAssert(err == nil, "error from ReadLine")
	symObserveStr("text", text)
	plain := replayPlain(s, def, cur, ks)
	symAssert(string(stripSGR(out)) == string(stripSGR(plain)), "the output differs by more than the colours")
	symReach("done")
}

func unitText(u readline.Moji) string {
	var b bytesBuf
	u.WriteTo(&b)
	return string(b)
}

type bytesBuf []byte

func (b *bytesBuf) Write(p []byte) (int, error) {
	*b = append(*b, p...)
	return len(p), nil
}
