package main

import (
	"context"
	"io"

	"github.com/mattn/go-tty"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HResize"] = HResize
	harnesses["HResizeSame"] = HResizeSame
	harnesses["HResizeLong"] = HResizeLong
	harnesses["HDefaultTtyResize"] = HDefaultTtyResize
	harnesses["HResizeEarly"] = HResizeEarly
	harnesses["HResizeBusy"] = HResizeBusy
}

// resize reports a new width while the editor waits for a key.
func (w *edWorld) resize(width int) {
	w.s.scr.flush()
	w.s.width = width
	w.s.scr.width = width
	w.s.scr.maxCol = 0
	w.s.scr.wrapped = false
	w.s.onSize(width)
	w.lastVS = w.s.b.ViewStart
	w.scrolled = false
}

// HResize: a resize at any moment the editor waits.
func HResize() {
	kinds := []int{kLetter, kWide, kTab}[:symParam("kinds", 2)]
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd(symParam("width", 8)+4*symChoose("width", 2), n, kinds)
	if symBool("prompt") {
		w.s.prompt("\nab")
		w.top = 2
		w.s.width += 2
	}
	w.withScreen()
	w.run(symParam("keys", 2), func() {
		if symBool("resize") {
			width := w.top + symParam("min", 6) + symChoose("to", symParam("to", 4))
			w.resize(width)
			w.checkText()
			w.checkScreen()
			w.checkColumns()
			symReach("resized")
			return
		}
		w.checkText()
		w.checkScreen()
	})
	symReach("done")
}

// HResizeSame: texts, undo and history are the same with and without resizes,
// to any width.
func HResizeSame() {
	ents := []string{"h1", "漢字h2"}
	def := []string{"", "a漢\tb"}[symChoose("default", 2)]
	cur := symChoose("cur", symParam("cur", 5))
	widths := []int{0, 1, 3, 5, 6, 9, 80, -1}
	cmds := []string{keys.CtrlP, keys.CtrlZ, "x", keys.CtrlH, keys.CtrlB, keys.CtrlK, keys.CtrlN, keys.CtrlF, keys.CtrlT, keys.CtrlW, keys.CtrlU, keys.CtrlE, keys.AltF, keys.AltB}[:symParam("cmds", 9)]
	var ks, texts []string
	var curs []int
	run := func(on bool) (string, error) {
		s := newSession(20)
		s.ed.Default = def
		s.ed.Cursor = cur
		s.ed.History = &histStub{ents: ents}
		if symParam("predict", 1) > 0 {
			s.ed.PredictColor = predictColor
		}
		n, sizes := 0, 0
		s.next = func() string {
			if on && sizes < symParam("resizes", 1) && symBool("resize") {
				sizes++
				s.onSize(widths[symChoose("to", symParam("widths", 7))])
			}
			if on {
				texts = append(texts, s.b.String())
				curs = append(curs, s.b.Cursor)
			} else {
				symAssert(s.b.String() == texts[n], "a resize changed the text")
				symAssert(s.b.Cursor == curs[n], "a resize changed the cursor")
			}
			n++
			if n > symParam("keys", 2) {
				return keys.Enter
			}
			if on {
				ks = append(ks, cmds[symChoose("key", len(cmds))])
			}
			return ks[n-1]
		}
		return s.run()
	}
	t1, e1 := run(true)
	t2, e2 := run(false)
	symAssert(t1 == t2 && e1 == e2, "a resize changed the result")
	symReach("done")
}

// HResizeLong: a resize, to any width, in the middle of many changes; all of
// them can be undone, and the history is where it was.
func HResizeLong() {
	s := newSession([]int{20, 9}[symChoose("width", 2)])
	s.ed.History = &histStub{ents: []string{"h1", "h2"}}
	total := symParam("changes", 8)
	at := symChoose("at", 2*total+1)
	to := symInt("to", symParam("min", -1), symParam("max", 30))
	texts := []string{""}
	n := 0
	s.next = func() string {
		if n == at {
			s.onSize(to)
			symReach("resized")
		}
		n++
		t := s.b.String()
		switch {
		case n <= total:
			symAssert(t == texts[n-1], "a resize changed the text")
			c := string(rune('a' + n))
			if n%3 == 0 {
				c = "漢"
			}
			texts = append(texts, t+c)
			return c
		case n <= 2*total:
			symAssert(t == texts[2*total+1-n], "a resize changed the undo list")
			return keys.CtrlZ
		case n == 2*total+1:
			symAssert(t == "", "a resize changed the undo list")
			return keys.CtrlP
		}
		symAssert(t == "h2", "a resize changed the history position")
		return keys.Enter
	}
	_, err := s.run()
	symAssert(err == nil, "a resize broke the session")
	symReach("done")
}

// busy makes a resize notice arrive, on another goroutine, while the editor is
// inside one of the callbacks.
type busy struct {
	w      *edWorld
	moment int // which callback
	count  int // which of its calls
	to     int
	fired  bool
	back   bool // the notice was dealt with
}

const (
	inPrompt = iota
	inWrite
	inColor
	inPredict
	inHistory
	inCommand
	inLineFeed
	momentKinds
)

func (b *busy) at(moment int) {
	if b.moment != moment || b.fired {
		return
	}
	if b.count > 0 {
		b.count--
		return
	}
	b.fired = true
	s := b.w.s
	before := readline.WidthT(0)
	vs := 0
	if s.b != nil {
		before = s.b.ViewWidth()
		vs = s.b.ViewStart
	}
	go func() {
		s.onSize(b.to)
		b.back = true
	}()
	symYield()
	symAssert(!b.back, "a resize took effect while a command was running")
	if s.b != nil {
		symAssert(s.b.ViewWidth() == before && s.b.ViewStart == vs, "a resize took effect while a command was running")
	}
	symReach("fired")
}

func (b *busy) Init() readline.ColorSequence {
	b.at(inColor)
	return readline.ColorReset
}
func (b *busy) Next(rune) readline.ColorSequence { return readline.ColorReset }
func (b *busy) Len() int                         { return 1 }
func (b *busy) At(int) string {
	b.at(inHistory)
	return "history"
}

// HResizeBusy: a resize notice that arrives while something else goes on.
func HResizeBusy() {
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd(10, n, []int{kLetter, kWide})
	w.withScreen()
	b := &busy{w: w, moment: symChoose("moment", momentKinds), count: symChoose("count", symParam("count", 2)), to: symParam("to", 7) + 4*symChoose("to", 2)}
	s := w.s
	s.ed.Coloring = b
	s.ed.History = b
	s.ed.PredictColor = predictColor
	s.ed.Predictor = func(*readline.Buffer) string {
		b.at(inPredict)
		return ""
	}
	s.ed.PromptWriter = func(io.Writer) (int, error) {
		b.at(inPrompt)
		return 0, nil
	}
	s.ed.LineFeedWriter = func(_ readline.Result, o io.Writer) (int, error) {
		b.at(inLineFeed)
		return io.WriteString(o, "\n")
	}
	s.sink = func([]byte) {
		if s.b != nil { // not while the notice itself is painted
			b.at(inWrite)
		}
	}
	const cmdKey = "\x1Bcmd"
	s.ed.BindKey(cmdKey, readline.AnonymousCommand(func(_ context.Context, buf *readline.Buffer) readline.Result {
		b.at(inCommand)
		buf.InsertAndRepaint("!")
		w.l.insert('!')
		return readline.CONTINUE
	}))
	w.nextra = 1
	w.extra = func(int) string { return cmdKey }
	ended := -1
	total := 0
	s.tap = func(p []byte) { total += len(p) }
	defer func() {
		ended = total
		symYield()
		symAssert(total == ended && s.ed.Out.Buffered() == 0, "a resize took effect after the end of the session")
	}()
	w.run(symParam("keys", 1), func() {
		if b.fired {
			symYield()
			symAssert(b.back, "a resize notice was lost")
			if s.width != b.to {
				s.width = b.to
				s.scr.width = b.to
				s.scr.maxCol = 0
				w.lastVS = s.b.ViewStart
			}
		}
		w.checkText()
		w.checkScreen()
	})
	symReach("done")
}

// HDefaultTtyResize: the driver used by default passes on the sizes it is
// told while the editor waits.
func HDefaultTtyResize() {
	s := newSession(0)
	width := 12
	s.scr = newScreen(width)
	s.ed.Tty = nil
	rs := []rune{}
	n := 0
	last := 0
	reads := 0
	tty.Dev.Width = width
	tty.Dev.More = func() bool { return false }
	check := func() {
		s.scr.flush()
		symAssert(s.scr.odd == "", "unknown bytes sent to the terminal")
		room := width - 3
		if len(rs) < room {
			symAssert(s.scr.shows(rs, layout(rs), 0, 0, len(rs), nil), "the line is not shown")
		} else {
			symAssert(s.scr.col < room, "the line does not fit the terminal")
		}
	}
	tty.Dev.Read = func() (rune, error) {
		if reads < symParam("sizes", 2) {
			reads++
			if symBool("resize") {
				w := 6 + symChoose("to", symParam("to", 7))
				painted := 0
				s.sink = func(p []byte) { painted += len(p) }
				s.scr.flush()
				s.scr.width = w
				tty.Dev.WS <- tty.WINSIZE{W: w, H: 25}
				symYield()
				symAssert(w == width || painted > 0, "a new size is not taken note of")
				width = w
				symReach("resized")
			}
		}
		check()
		n++
		if n > symParam("keys", 5) {
			last++
			return '\r', nil
		}
		r := symRune("key", 'a', 'z')
		rs = append(rs, r)
		return r, nil
	}
	text, err := s.ed.ReadLine(context.Background())
	symAssert(err == nil && text == string(rs), "another line than the keys")
	symAssert(tty.Dev.Opens == 1 && tty.Dev.Closes == 1, "the terminal is not closed")
	symReach("done")
}

// HResizeEarly: a notice that arrives while the terminal is opened or asked
// for its size, or when the session is over, paints nothing by itself.
func HResizeEarly() {
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd(10, n, []int{kLetter, kWide})
	s := w.s
	s.prompt([]string{"p>", "\nab", "漢"}[symChoose("prompt", 3)])
	w.top = 2
	s.width += 2
	w.withScreen()
	moment := symChoose("moment", 3)
	to := []int{7, 10, 14, 0, 1}[symChoose("to", symParam("to", 5))]
	total := 0
	s.tap = func(p []byte) { total += len(p) }
	notice := func() {
		before := total
		go s.onSize(to)
		symYield()
		symAssert(total == before, "a resize painted a line that is not shown")
		symReach("fired")
	}
	if moment == 0 {
		s.onOpen = notice
	} else if moment == 1 {
		s.onAsk = notice
	}
	end := symChoose("end", 2)
	done := 0
	s.next = func() string {
		if moment != 1 || to == s.width { // a notice during Size is dealt with later
			w.checkText()
			w.checkScreen()
		}
		done++
		if done <= symParam("keys", 1) {
			return w.key()
		}
		if end == 1 {
			s.fail = errTty
		}
		return keys.Enter
	}
	s.run()
	symAssert(s.ed.Out.Buffered() == 0, "output is left in the buffer")
	if moment == 2 {
		notice()
		symAssert(s.ed.Out.Buffered() == 0, "a resize painted a line that is not shown")
	}
	symReach("done")
}
