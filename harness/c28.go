package main

import (
	"bufio"
	"context"
	"io"

	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HRefresh"] = HRefresh
	harnesses["HRefreshSame"] = HRefreshSame
	harnesses["HNested"] = HNested
	harnesses["HConfig"] = HConfig
}

const newlineKey = "\x1Bnewline"

var refreshPrompts = []struct {
	text string
	rows int
	col  int
}{{"", 0, 0}, {"p>", 0, 2}, {"\nab", 1, 2}, {"x\n\x1B[1m漢\x1B[0m", 1, 2}}

// HRefresh: after clear-screen or repaint-on-newline the row shows prompt and
// line again.
func HRefresh() {
	kinds := []int{kLetter, kWide, kTab}[:symParam("kinds", 3)]
	n := symChoose("n", symParam("n", 3)+1)
	w := newEd(symParam("width", 9)+symChoose("width", symParam("widths", 2)), n, kinds)
	p := refreshPrompts[symChoose("prompt", len(refreshPrompts))]
	w.s.prompt(p.text)
	w.top = p.col
	w.s.width += p.col
	w.withScreen()
	if symBool("predict") {
		w.s.ed.PredictColor = predictColor
		w.s.ed.Predictor = func(*readline.Buffer) string { return "" }
	}
	w.s.ed.BindKey(newlineKey, readline.CmdRepaintOnNewline)
	count := symParam("keys", 1)
	steps, done := count, 0
	refreshed := false
	rows, clears := 0, 0
	clear := false
	w.run(steps+1, func() {
		w.checkText()
		if refreshed {
			refreshed = false
			w.lastVS = w.s.b.ViewStart
			w.scrolled = false
			w.checkScreen()
			w.checkColumns()
			scr := w.s.scr
			col := 0 // the prompt's last row is there as well
			ref := newScreen(w.s.width)
			ref.write([]byte(p.text))
			ref.flush()
			for ; col < p.col; col++ {
				r1, c1 := ref.at(col)
				r2, c2 := scr.at(col)
				symAssert(r1 == r2 && c1 == c2, "the prompt is not shown")
			}
			if clear {
				symAssert(scr.clears == clears+1, "the screen was not cleared once")
				symAssert(scr.home && scr.row == p.rows, "prompt and line are not at the top of the screen")
			} else {
				symAssert(scr.clears == clears, "the screen was cleared")
				symAssert(scr.rows == rows+1+p.rows, "prompt and line are not on the next row")
			}
			symReach("refreshed")
		}
		if done == 0 {
			w.cmds = []editCmd{{keys.CtrlL, func(*line) {}}, {newlineKey, func(*line) {}}}
			kinds, w.kinds = w.kinds, nil
			w.cmds[0].do = func(*line) { clear = true }
			w.cmds[1].do = func(*line) { clear = false }
			refreshed = true
			w.s.scr.flush()
			rows, clears = w.s.scr.rows, w.s.scr.clears
		} else {
			w.cmds = coreCmds
			w.kinds = kinds
		}
		done++
	})
	symReach("done")
}

// HRefreshSame: text, undo and history are the same with and without.
func HRefreshSame() {
	ents := []string{"h1", "漢字h2"}
	def := []string{"", "a漢\tb"}[symChoose("default", 2)]
	cur := symChoose("cur", symParam("cur", 3))
	width := []int{30, 7}[symChoose("width", 2)]
	cmds := []string{keys.CtrlP, keys.CtrlZ, "x", keys.CtrlH, keys.CtrlB, keys.CtrlK, keys.CtrlN, keys.CtrlF, keys.CtrlT, keys.CtrlW}
	var ks, texts []string
	var curs []int
	run := func(on bool) (string, error) {
		s := newSession(width)
		s.ed.Default = def
		s.ed.Cursor = cur
		s.ed.History = &histStub{ents: ents}
		s.ed.BindKey(newlineKey, readline.CmdRepaintOnNewline)
		n, used := 0, false
		s.next = func() string {
			if on && !used && symBool("refresh") {
				used = true
				return []string{keys.CtrlL, newlineKey}[symChoose("which", 2)]
			}
			if on {
				texts = append(texts, s.b.String())
				curs = append(curs, s.b.Cursor)
			} else {
				symAssert(s.b.String() == texts[n], "repainting changed the text")
				symAssert(s.b.Cursor == curs[n], "repainting changed the cursor")
			}
			n++
			if n > symParam("keys", 2) {
				return keys.Enter
			}
			if on {
				ks = append(ks, cmds[symChoose("key", len(cmds))])
			}
			return ks[n-1]
		}
		return s.run()
	}
	t1, e1 := run(true)
	t2, e2 := run(false)
	symAssert(t1 == t2 && e1 == e2, "repainting changed the result")
	symReach("done")
}

// HNested: a session run from within a command of another editor, between
// any keys of it.
func HNested() {
	hist := &histStub{ents: []string{"h1", "h2"}}
	nkeys := imin(len(someKeys), symParam("some", 99))
	key := func(name string) string {
		k := someKeys[symChoose(name, nkeys)]
		symAssume(k != keys.CtrlY) // the clipboard is shared
		return k
	}
	inner := make([]string, symParam("inner", 1))
	for i := range inner {
		inner[i] = key("inner")
	}
	last := []string{keys.Enter, keys.CtrlC}[symChoose("end", 2)]
	inText, inErr := "", error(nil)
	painted := 0
	play := func() (string, error) {
		s := newSession(12)
		s.ed.Out = nil
		s.sink = func(p []byte) { painted += len(p) }
		s.ed.Default = "b漢"
		s.ed.History = hist
		i := 0
		s.next = func() string {
			i++
			if i <= len(inner) {
				return inner[i-1]
			}
			return last
		}
		return s.run()
	}
	inText, inErr = play()
	alone := painted
	at := symChoose("at", symParam("keys", 2))
	var outer, texts []string
	var curs []int
	var seen [2][]byte
	run := func(nested bool) (string, error) {
		s := newSession(20)
		s.ed.Out = nil
		s.sink = func(p []byte) {
			k := 0
			if nested {
				k = 1
			}
			seen[k] = append(seen[k], p...)
		}
		s.ed.Default = "xy"
		s.ed.Cursor = 1
		s.ed.History = hist
		s.ed.BindKey("\x1Bnest", readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
			if nested {
				painted = 0
				t, err := play()
				symAssert(painted == alone, "a session inside another one paints differently")
				symAssert(t == inText && err == inErr, "a session inside another one ends differently")
				symReach("nested")
			}
			return readline.CONTINUE
		}))
		n, did := 0, false
		s.next = func() string {
			if n == at && !did {
				did = true
				return "\x1Bnest"
			}
			if nested {
				symAssert(s.b.String() == texts[n], "a session changed the text of another editor")
				symAssert(s.b.Cursor == curs[n], "a session changed the cursor of another editor")
			} else {
				texts = append(texts, s.b.String())
				curs = append(curs, s.b.Cursor)
			}
			n++
			if n > symParam("keys", 2) {
				return keys.Enter
			}
			if !nested {
				outer = append(outer, key("outer"))
			}
			return outer[n-1]
		}
		return s.run()
	}
	t1, e1 := run(false)
	t2, e2 := run(true)
	symAssert(t1 == t2 && e1 == e2, "a session changed the result of another editor")
	symAssert(string(seen[0]) == string(seen[1]), "a session changed the output of another editor")
	symReach("done")
}

// HConfig: what the caller has set is used and stays as it is.
func HConfig() {
	s := newSession(30)
	s.scr = newScreen(30)
	hist := &histStub{ents: []string{"abc"}}
	s.ed.History = hist
	s.ed.Default = []string{"", "ab"}[symChoose("default", 2)]
	s.ed.HistoryCycling = symBool("cycling")
	if symBool("predict") {
		s.ed.PredictColor = predictColor
	}
	col := &rec{}
	if symBool("colour") {
		s.ed.Coloring = col
	}
	prompts, feeds, guesses := 0, 0, 0
	s.ed.PromptWriter = func(w io.Writer) (int, error) {
		prompts++
		return io.WriteString(w, "p>")
	}
	s.ed.LineFeedWriter = func(_ readline.Result, w io.Writer) (int, error) {
		feeds++
		return io.WriteString(w, "\n")
	}
	own := symBool("predictor")
	if own {
		s.ed.Predictor = func(*readline.Buffer) string {
			guesses++
			return "zz"
		}
	}
	ownOut := symBool("out")
	var out *bufio.Writer
	switch {
	case ownOut:
		out = s.ed.Out
	case symBool("buffered"): // a writer that is buffered already is not buffered twice
		s.ed.Out = nil
		out = bufio.NewWriterSize(s, 64)
		s.ed.Writer = out
	default:
		s.ed.Out = nil
	}
	writer := s.ed.Writer
	if symBool("init") {
		s.ed.Init()
	}
	def, pc, cyc := s.ed.Default, s.ed.PredictColor, s.ed.HistoryCycling
	n := 0
	s.next = func() string {
		n++
		if n <= symParam("keys", 2) {
			return someKeys[symChoose("key", imin(len(someKeys), symParam("some", 99)))]
		}
		return keys.Enter
	}
	_, err := s.run()
	symAssert(err == nil, "error")
	checkReleased(s)
	symAssert(s.ed.Default == def && s.ed.PredictColor == pc && s.ed.HistoryCycling == cyc, "a session changed the configuration")
	symAssert(s.ed.Tty == readline.ITty(s) && s.ed.Writer == writer, "a session changed the configuration")
	symAssert(s.ed.History == readline.IHistory(hist) && len(hist.ents) == 1 && hist.ents[0] == "abc", "a session changed the history")
	symAssert(out == nil || s.ed.Out == out, "the caller's buffered writer is not used")
	symAssert(prompts > 0 && feeds == 1, "a writer of the caller is not used")
	if s.ed.Coloring == readline.Coloring(col) {
		symAssert(col.inits > 0, "the caller's colouring is not used")
	}
	if own {
		n := guesses
		symAssert(s.ed.Predictor(s.b) == "zz" && guesses == n+1, "a session changed the predictor")
		guesses = n
	}
	if own && pc[0] == "" {
		symAssert(guesses == 0, "a prediction was asked for though prediction is off")
	}
	if own && pc[0] != "" && def != "" {
		symAssert(guesses > 0, "the caller's predictor is not used")
	}
	symReach("done")
}

// rec counts the uses of a colouring.
type rec struct{ inits, nexts int }

func (r *rec) Init() readline.ColorSequence     { r.inits++; return readline.ColorReset }
func (r *rec) Next(rune) readline.ColorSequence { r.nexts++; return readline.Red }
