package main

import (
	"bufio"
	"io"
	"strings"

	"github.com/atotto/clipboard"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HPredict"] = HPredict
	harnesses["HPredictOnly"] = HPredictOnly
}

// predicted: the rest of the newest entry that starts with the text.
func predicted(ents []string, text string) string {
	for i := len(ents) - 1; i >= 0; i-- {
		if strings.HasPrefix(ents[i], text) {
			return ents[i][len(text):]
		}
	}
	return ""
}

var predictColor = [2]string{"\x1B[3m", "\x1B[23m"}

// tailFor: the predicted text as far as there is room for it.
func (w *edWorld) tailFor(pred string, col int) []rune {
	var t []rune
	for _, r := range pred {
		for _, x := range render(r, 0) {
			t = append(t, x)
		}
		col += renderWidth(r, 0)
		if col >= w.s.width-w.top-3 {
			return t[:len(t)-len(render(r, 0))]
		}
	}
	return t
}

// HPredict: the line and the row with prediction on.
func HPredict() {
	kinds := []int{kLetter, kWide, kCtrl}[:symParam("kinds", 2)]
	n := symChoose("n", symParam("n", 2)+1)
	w := newEd([]int{40, 9}[symChoose("width", symParam("widths", 2))], n, kinds)
	w.withScreen()
	w.s.ed.PredictColor = predictColor
	// entries: one that continues the line at the start, and any others
	def := w.s.ed.Default
	var ents []string
	for i := symChoose("ents", symParam("ents", 2)+1); i > 0; i-- {
		switch symChoose("ent", 3) {
		case 0:
			rs, _ := symText("histkind", symParam("extra", 2), 10, []int{kLetter, kWide})
			ents = append(ents, def+string(rs))
		case 1:
			k := symChoose("cut", n+1)
			ents = append(ents, string(w.l.r[:k])+"xy")
		case 2:
			ents = append(ents, def)
		}
	}
	w.s.ed.History = &histStub{ents: ents}
	custom := symBool("custom")
	answer := func(text string) string {
		if custom {
			return text + "#z" // any function of the text will do
		}
		return predicted(ents, text)
	}
	if custom {
		w.s.ed.Predictor = func(b *readline.Buffer) string { return answer(b.String()) }
	}
	right := func(l *line) {
		if l.cur < len(l.r) {
			l.cur++
		} else if len(l.r) > 0 {
			l.insert([]rune(answer(l.text()))...)
		}
	}
	w.cmds = nil
	for _, c := range coreCmds {
		if c.key == keys.CtrlF {
			c.do = right
		}
		w.cmds = append(w.cmds, c)
	}
	typed := false
	last := 0
	w.s.ed.LineFeedWriter = func(rc readline.Result, o io.Writer) (int, error) {
		o.(*bufio.Writer).Flush()
		s := w.s.scr
		s.flush()
		pos := layout(w.l.r)
		from := w.s.b.ViewStart
		to := from
		for to < len(w.l.r) && pos[to+1]-pos[from] < w.s.width-3 {
			to++
		}
		symAssert(s.shows(w.l.r, pos, 0, from, to, nil) || s.shows(w.l.r, pos, 0, from, w.l.cur, nil), "the prediction is left on the screen")
		symReach("accepted")
		return io.WriteString(o, "\n")
	}
	w.run(symParam("keys", 2), func() {
		symAssert(w.s.b.Cursor == w.l.cur, "the cursor differs from the keys typed")
		symAssert(w.s.b.String() == w.l.text(), "the text differs from the keys typed")
		s := w.s.scr
		s.flush()
		pos := layout(w.l.r)
		from := w.s.b.ViewStart
		to := from
		for to < len(w.l.r) && pos[to+1]-pos[from] < w.s.width-3 {
			to++
		}
		typed = w.nchar > last
		last = w.nchar
		plain := s.shows(w.l.r, pos, 0, from, to, nil) || s.shows(w.l.r, pos, 0, from, w.l.cur, nil)
		tail := w.tailFor(answer(w.l.text()), pos[to]-pos[from])
		if w.l.cur < len(w.l.r) || len(w.l.r) == 0 || len(tail) == 0 {
			symAssert(plain, "a prediction is shown where there is none")
			return
		}
		with := s.shows(w.l.r, pos, 0, from, to, tail)
		if with {
			col := pos[to] - pos[from]
			symAssert(s.cells[col].sgr == "3", "the prediction has not its colour")
			symAssert(s.cells[col-1].sgr != "3", "the text has the colour of the prediction")
			symReach("shown")
		}
		symAssert(with || plain && !typed, "the row shows another prediction")
	})
	symReach("done")
}

// HPredictOnly: any command has the same effect with prediction on or off,
// except for moving right at the end of the line.
func HPredictOnly() {
	var ents []string
	for i := 0; i < symParam("ents", 2); i++ {
		ents = append(ents, string(compText("len", 1, symParam("len", 2), "a", 2)))
	}
	def := string(compText("n", 0, symParam("n", 1), "a", 2))
	cur := symChoose("cur", len(def)+1)
	cmds := []string{keys.CtrlA, keys.CtrlE, keys.CtrlB, keys.CtrlF, keys.CtrlH, keys.CtrlD, keys.CtrlK, keys.CtrlU, keys.CtrlW,
		keys.CtrlP, keys.CtrlN, keys.CtrlZ, keys.CtrlT, keys.AltF, keys.AltB, keys.CtrlL, keys.CtrlY, "a", " "}
	var ks, texts []string
	run := func(on bool) (string, error) {
		s := newSession(40)
		clipboard.Text = "b"
		s.ed.Default = def
		s.ed.Cursor = cur
		s.ed.History = &histStub{ents: ents}
		if on {
			s.ed.PredictColor = predictColor
		}
		n := 0
		s.next = func() string {
			t := s.b.String()
			if on {
				texts = append(texts, t)
			} else {
				symAssert(t == texts[n], "prediction changed the effect of a command")
			}
			n++
			if n > symParam("keys", 2) {
				return keys.Enter
			}
			if on {
				k := cmds[symChoose("key", len(cmds))]
				symAssume(k != keys.CtrlF || s.b.Cursor < len(s.b.Buffer))
				ks = append(ks, k)
			}
			return ks[n-1]
		}
		return s.run()
	}
	t1, e1 := run(true)
	t2, e2 := run(false)
	symAssert(t1 == t2, "prediction changed the text accepted")
	symAssert(e1 == e2, "prediction changed the result")
	symReach("done")
}
