package main

import (
	"github.com/atotto/clipboard"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

func init() {
	harnesses["HUndo"] = HUndo
	harnesses["HUndoSeq"] = HUndoSeq
	harnesses["HUndoLong"] = HUndoLong
}

type undoEnt struct {
	before string
	quiet  bool // changed nothing, but may count as a change
	recall bool // replaced the line: may be undone in two steps
	half   bool // a recall of the same text, one of its two steps undone
}

// undoWatch follows a session by its texts alone: what each undo may give.
type undoWatch struct {
	s    *session
	alts [][]undoEnt // the changes not yet undone, in every possible reading
	last string
	kind int // of the key just typed
	// a joiner takes back the character before it until the next key shows
	// whether anything is joined; a command first puts both into the line
	joined  string // the line with the joiner put in, "" when none waits
	isJoin  bool   // the key just typed is a joiner
	command bool   // the key just typed is a command
}

const (
	ukMotion = iota
	ukChange
	ukRecall
	ukUndo
)

// settle compares the text with the one before the key.
func (u *undoWatch) settle() {
	now := u.s.b.String()
	if u.joined != "" && u.command {
		u.add(undoEnt{before: u.last})
		u.last = u.joined
	}
	if !u.isJoin || now == u.last || now == u.joined {
		u.joined = ""
	}
	symAssert(u.s.b.Cursor >= 0 && u.s.b.Cursor <= len(u.s.b.Buffer), "cursor outside the line")
	symAssert(u.s.b.ViewStart >= 0 && u.s.b.ViewStart <= len(u.s.b.Buffer), "view outside the line")
	switch u.kind {
	case ukMotion:
		symAssert(now == u.last, "a motion changed the text")
	case ukChange, ukRecall:
		u.add(undoEnt{before: u.last, quiet: now == u.last, recall: u.kind == ukRecall})
	case ukUndo:
		u.undone(now)
	}
	u.last = now
}

// undone keeps the readings of what has been undone so far that agree with
// the text now.
func (u *undoWatch) undone(now string) {
	var alts [][]undoEnt
	for _, ents := range u.alts {
		alts = append(alts, undoStep(ents, u.last, now)...)
	}
	if len(alts) == 0 {
		symFail("undo gave a text the line did not have before the latest change")
	}
	u.alts = alts
}

// undoStep: what may be left of the changes when undo turns last into now.
func undoStep(ents []undoEnt, last, now string) [][]undoEnt {
	n := len(ents)
	if n == 0 {
		if now == last {
			return [][]undoEnt{nil}
		}
		return nil
	}
	e, rest := ents[n-1], ents[:n-1]
	with := func(e undoEnt) []undoEnt { return append(append([]undoEnt{}, rest...), e) }
	switch {
	case e.half:
		if now == e.before {
			return [][]undoEnt{rest}
		}
		return nil
	case e.quiet:
		if now == last {
			return [][]undoEnt{rest}
		}
		alts := undoStep(rest, last, now)
		if e.recall && now == "" {
			e.half = true
			alts = append(alts, with(e))
		}
		return alts
	case now == e.before:
		if e.recall && now == "" {
			return [][]undoEnt{with(undoEnt{quiet: true})} // the second step changes nothing
		}
		return [][]undoEnt{rest}
	case e.recall && now == "":
		e.recall = false
		return [][]undoEnt{with(e)}
	}
	return nil
}

// add records a change.
func (u *undoWatch) add(e undoEnt) {
	for i, ents := range u.alts {
		u.alts[i] = append(append([]undoEnt{}, ents...), e)
	}
}

// left: whether anything may be left to undo.
func (u *undoWatch) left() bool {
	for _, ents := range u.alts {
		if len(ents) > 0 {
			return true
		}
	}
	return false
}

type undoCmd struct {
	key  string
	kind int
}

var undoCmds = []undoCmd{
	{keys.CtrlZ, ukUndo}, {keys.CtrlH, ukChange}, {keys.CtrlK, ukChange}, {keys.CtrlU, ukChange},
	{keys.CtrlW, ukChange}, {keys.CtrlT, ukChange}, {keys.CtrlY, ukChange}, {keys.CtrlB, ukMotion},
	{keys.CtrlA, ukMotion}, {keys.CtrlP, ukRecall}, {keys.CtrlR, ukChange},
	{keys.Escape, ukChange}, {keys.Delete, ukChange}, {keys.CtrlN, ukRecall}, {keys.AltY, ukChange},
}

// HUndo: default text, a few commands, then undo to the bottom.
func HUndo() {
	width := symParam("width", 80) + symChoose("width", symParam("widths", 2))
	u := &undoWatch{alts: [][]undoEnt{nil}, s: newSession(width)}
	n := symChoose("n", symParam("n", 2)+1)
	rs, _ := symText("kind", n, 0, []int{kLetter, kSpace, kWide}[:symParam("kinds", 2)])
	u.s.ed.Default = string(rs)
	u.s.ed.Cursor = symChoose("cur", n+1)
	h := simplehistory.New()
	h.Add(string([]rune{symRune("h", 'a', 'f'), symRune("h", 'g', 'n')}))
	u.s.ed.History = h
	clipboard.Text = string([]rune{symRune("c", 'o', 's'), symRune("c", 't', 'z')})
	if n > 0 {
		u.add(undoEnt{before: ""})
	}
	u.last = string(rs)
	nch := n
	var queue []string
	all := undoCmds[:symParam("cmds", len(undoCmds))]
	pick := func() (string, int) {
		k := symChoose("key", len(all)+1)
		if k == len(all) {
			nch++
			return string(symChar(kLetter, nch)), ukChange
		}
		c := all[k]
		if c.key == keys.CtrlR {
			queue = append(queue, keys.Enter)
		}
		return c.key, c.kind
	}
	steps := symParam("keys", 3)
	u.run(steps, pick, &queue)
}

// run types keys chosen by pick and then undoes until nothing is left; queue
// holds keys read by the commands themselves.
func (u *undoWatch) run(steps int, pick func() (string, int), queue *[]string) {
	done, extra := 0, 0
	u.s.next = func() string {
		if len(*queue) > 0 {
			k := (*queue)[0]
			*queue = (*queue)[1:]
			return k
		}
		u.settle()
		if done < steps {
			done++
			k, kind := pick()
			u.kind = kind
			u.command = k[0] < ' '
			u.isJoin = false
			if k == "\u200D" && u.joined == "" {
				c := u.s.b.Cursor
				u.isJoin = true
				u.joined = u.s.b.SubString(0, c) + k + u.s.b.SubString(c, len(u.s.b.Buffer))
			}
			return k
		}
		u.kind = ukUndo
		u.command, u.isJoin = true, false
		if u.left() {
			return keys.CtrlZ
		}
		symAssert(u.last == "", "undo did not come back to the empty line")
		if extra < 2 {
			extra++
			return keys.CtrlUnderbar
		}
		return keys.Enter
	}
	text, err := u.s.run()
	symAssert(err == nil && text == "", "undone line returned")
	symReach("done")
}

// HUndoSeq: the same with characters that combine with their neighbours.
func HUndoSeq() {
	u := &undoWatch{alts: [][]undoEnt{nil}, s: newSession(80)}
	chars := []string{"a", "\U0001F468", "️", "\U0001F3FB", "‍", "\t"}[:symParam("chars", 5)]
	cmds := undoCmds[:symParam("cmds", 6)]
	var queue []string
	pick := func() (string, int) {
		k := symChoose("key", len(chars)+len(cmds))
		if k < len(chars) {
			return chars[k], ukChange
		}
		return cmds[k-len(chars)].key, cmds[k-len(chars)].kind
	}
	u.run(symParam("keys", 4), pick, &queue)
}

// HUndoLong: the same as HUndo for lines longer than the view.
func HUndoLong() { HUndo() }
