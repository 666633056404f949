package main

import (
	"github.com/nyaosorg/go-readline-ny/keys"
)

// line is the reference model of the edited line: characters and cursor.
type line struct {
	r   []rune
	cur int
}

func isSp(r rune) bool { return r == ' ' || r == '\t' || r == '　' }

func (l *line) text() string { return string(l.r) }

func (l *line) insert(r ...rune) {
	var n []rune
	n = append(n, l.r[:l.cur]...)
	n = append(n, r...)
	n = append(n, l.r[l.cur:]...)
	l.r = n
	l.cur += len(r)
}

// cut removes [a,b) and returns it; the cursor moves to a.
func (l *line) cut(a, b int) []rune {
	var n, d []rune
	d = append(d, l.r[a:b]...)
	n = append(n, l.r[:a]...)
	n = append(n, l.r[b:]...)
	l.r = n
	l.cur = a
	return d
}

// wordTop: the start of the word that ends at c, that is behind the last
// space outside quotation marks.
func (l *line) wordTop(c int) int {
	top := 0
	var quote rune
	for i := 0; i < c; i++ {
		r := l.r[i]
		if quote != 0 {
			if r == quote {
				quote = 0
			}
		} else if r == '"' || r == '\'' {
			quote = r
		} else if isSp(r) {
			top = i + 1
		}
	}
	return top
}

// wordStart: like wordTop, spaces before the cursor are skipped first.
func (l *line) wordStart() int {
	c := l.cur
	for c > 0 && isSp(l.r[c-1]) {
		c--
	}
	return l.wordTop(c)
}

type editCmd struct {
	key string
	do  func(l *line)
}

func doHome(l *line)  { l.cur = 0 }
func doEnd(l *line)   { l.cur = len(l.r) }
func doLeft(l *line)  { l.cur = imax(l.cur-1, 0) }
func doRight(l *line) { l.cur = imin(l.cur+1, len(l.r)) }
func doBS(l *line) {
	if l.cur > 0 {
		l.cut(l.cur-1, l.cur)
	}
}
func doDel(l *line) {
	if l.cur < len(l.r) {
		l.cut(l.cur, l.cur+1)
	}
}
func doKill(l *line)    { l.cut(l.cur, len(l.r)) }
func doDiscard(l *line) { l.cut(0, l.cur) }
func doKillAll(l *line) { l.cut(0, len(l.r)) }
func doRubout(l *line)  { l.cut(l.wordStart(), l.cur) }
func doSwap(l *line) {
	if l.cur == len(l.r) {
		if l.cur >= 2 {
			l.r[l.cur-2], l.r[l.cur-1] = l.r[l.cur-1], l.r[l.cur-2]
		}
	} else if l.cur >= 1 {
		l.r[l.cur-1], l.r[l.cur] = l.r[l.cur], l.r[l.cur-1]
		l.cur++
	}
}
func doWordLeft(l *line) {
	for l.cur > 0 && isSp(l.r[l.cur-1]) {
		l.cur--
	}
	for l.cur > 0 && !isSp(l.r[l.cur-1]) {
		l.cur--
	}
}
func doWordRight(l *line) {
	for l.cur < len(l.r) && !isSp(l.r[l.cur]) {
		l.cur++
	}
	for l.cur < len(l.r) && isSp(l.r[l.cur]) {
		l.cur++
	}
}

// one key for each editing command
var coreCmds = []editCmd{
	{keys.CtrlA, doHome}, {keys.CtrlE, doEnd}, {keys.CtrlB, doLeft}, {keys.CtrlF, doRight},
	{keys.CtrlH, doBS}, {keys.Delete, doDel}, {keys.CtrlK, doKill}, {keys.CtrlU, doDiscard},
	{keys.Escape, doKillAll}, {keys.CtrlW, doRubout}, {keys.CtrlT, doSwap},
	{keys.AltB, doWordLeft}, {keys.AltF, doWordRight},
}

// the other keys bound to the same commands
var aliasCmds = []editCmd{
	{keys.Backspace, doBS}, {keys.Left, doLeft}, {keys.Right, doRight}, {keys.Home, doHome},
	{keys.End, doEnd}, {keys.CtrlLeft, doWordLeft}, {keys.CtrlRight, doWordRight},
	{keys.CtrlD, doDel}, // on a line that is not empty
}

// commands that leave the text alone
var quietCmds = []editCmd{
	{keys.CtrlL, func(*line) {}},
	{keys.CtrlR + "!" + keys.CtrlG, func(*line) {}}, // search abandoned
}

// edWorld is an editing session under test with its model.
type edWorld struct {
	s        *session
	l        *line
	top      int // column where the line starts
	nchar    int
	kinds    []int
	queue    []string
	typed    []string // all keys delivered
	scrolled bool
	lastVS   int
	cmds     []editCmd
	extra    func(k int) string // further commands
	nextra   int
	answer   func(string) string // what is predicted
}

// newEd starts with a default text of n characters and any cursor position.
func newEd(width, n int, kinds []int) *edWorld {
	w := &edWorld{s: newSession(width), kinds: kinds}
	rs, _ := symText("kind", n, 0, kinds)
	w.nchar = n
	w.l = &line{r: rs, cur: symChoose("cur", n+1)}
	w.s.ed.Default = w.l.text()
	w.s.ed.Cursor = w.l.cur
	w.cmds = coreCmds
	return w
}

func (w *edWorld) withScreen() {
	w.s.scr = newScreen(w.s.width)
}

func (w *edWorld) checkText() {
	symAssert(w.s.b.Cursor == w.l.cur, "cursor differs from the keys typed")
	symAssert(w.s.b.String() == w.l.text(), "text differs from the keys typed")
}

// key chooses the next key: a command of the list or a character of one of the
// kinds. A key with parts is delivered over several reads.
func (w *edWorld) key() string {
	k := symChoose("key", len(w.cmds)+len(w.kinds)+w.nextra)
	if k < len(w.cmds) {
		c := w.cmds[k]
		symAssume(c.key != keys.CtrlD || len(w.l.r) > 0)
		c.do(w.l)
		if c.key[0] == keys.CtrlR[0] {
			w.queue = append(w.queue, c.key[1:2], c.key[2:])
			return c.key[:1]
		}
		return c.key
	}
	k -= len(w.cmds)
	if k < len(w.kinds) {
		r := symChar(w.kinds[k], w.nchar)
		w.nchar++
		if r < ' ' || r == 0x7F { // quoted insert
			w.queue = append(w.queue, string(r))
			w.l.insert(r)
			return keys.CtrlV
		}
		w.l.insert(r)
		return string(r)
	}
	return w.extra(k - len(w.kinds))
}

// run types the given number of keys and then Enter; check is called whenever
// the editor waits for a key of the main loop.
func (w *edWorld) run(steps int, check func()) string {
	done := 0
	w.s.next = func() string {
		k := keys.Enter
		if len(w.queue) > 0 {
			k = w.queue[0]
			w.queue = w.queue[1:]
		} else {
			check()
			if done < steps {
				done++
				k = w.key()
			}
		}
		w.typed = append(w.typed, k)
		return k
	}
	text, err := w.s.run()
	symAssert(err == nil, "error from ReadLine")
	return text
}
