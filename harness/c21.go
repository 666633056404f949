package main

import (
	"context"
	"errors"
	"io"

	"github.com/atotto/clipboard"
	"github.com/mattn/go-tty"
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HSession"] = HSession
	harnesses["HSessionFaults"] = HSessionFaults
	harnesses["HSessionDeaf"] = HSessionDeaf
	harnesses["HDefaultTtyFaults"] = HDefaultTtyFaults
	harnesses["HSessionAgain"] = HSessionAgain
}

var errTty = errors.New("tty failed")

// lineFeeds counts the calls of the line-feed writer.
type lineFeeds struct {
	n    int
	last readline.Result
}

func (f *lineFeeds) write(rc readline.Result, w io.Writer) (int, error) {
	f.n++
	f.last = rc
	return io.WriteString(w, "<end>\n")
}

// checkReleased: what every end of a session has in common.
func checkReleased(s *session) {
	s.scr.flush()
	symAssert(s.opens == s.closes, "the terminal is not closed exactly once")
	symAssert(!s.scr.hidden, "the cursor is left invisible")
	symAssert(s.ed.Out.Buffered() == 0, "output is left in the buffer")
	symAssert(s.scr.odd == "", "unknown bytes sent to the terminal")
}

// keys of a session before its end
var someKeys = []string{
	"z", keys.CtrlP, keys.CtrlH, keys.CtrlA, keys.CtrlK, keys.CtrlF, keys.CtrlZ, keys.CtrlN, keys.CtrlW, keys.CtrlY,
	keys.CtrlL, keys.CtrlT, keys.Escape, keys.CtrlE, "\x1B[9~", "‍", "漢",
}

// endKeys: the ways a session ends: Enter, Ctrl-C, Ctrl-D or an error.
const (
	endEnter = iota
	endCtrlC
	endCtrlD
	endError
	endKinds
	endOwn = endKinds // and three more: a command of the caller's
)

const ownKey = "\x1Bend"

// playSession types any keys, ends the session and checks its result.
func playSession(s *session, count, nkeys int) {
	end := symChoose("end", endKinds+3*symParam("own", 1))
	if end >= endOwn {
		rc := []readline.Result{readline.ENTER, readline.INTR, readline.ABORT}[end-endOwn]
		s.ed.BindKey(ownKey, readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result { return rc }))
	}
	lf := &lineFeeds{}
	own := symBool("linefeed")
	if own {
		s.ed.LineFeedWriter = lf.write
	} else {
		s.ed.LineFeedWriter = nil
	}
	done, text := 0, ""
	clears := 0
	s.next = func() string {
		if done < count {
			done++
			k := someKeys[symChoose("key", nkeys)]
			if k == keys.CtrlL {
				clears++
			}
			return k
		}
		text = s.b.String()
		switch end {
		case endEnter:
			return keys.Enter
		case endCtrlC:
			return keys.CtrlC
		case endCtrlD:
			symAssume(text == "")
			return keys.CtrlD
		}
		if end >= endOwn {
			return ownKey
		}
		s.fail = errTty
		return ""
	}
	opens := s.opens
	got, err := s.run()
	symObserveStr("text", got)
	checkReleased(s)
	symAssert(s.opens == opens+1, "the terminal was not opened once")
	switch end {
	case endEnter:
		symAssert(err == nil, "error though Enter was typed")
		symAssert(got == text, "another text than the line")
		symAssert(!own || lf.last == readline.ENTER, "the line-feed writer got another result")
	case endCtrlC:
		symAssert(err == readline.CtrlC, "Ctrl-C is not reported")
		symAssert(got == "", "a text though Ctrl-C was typed")
		symAssert(!own || lf.last == readline.INTR, "the line-feed writer got another result")
	case endCtrlD:
		symAssert(err == io.EOF, "Ctrl-D is not reported")
		symAssert(got == "", "a text though Ctrl-D was typed")
		symAssert(!own || lf.last == readline.ABORT, "the line-feed writer got another result")
	case endError:
		symAssert(err == errTty, "the error of the key read is not returned")
		symAssert(got == "", "a text though the key read failed")
	default:
		want := []error{nil, readline.CtrlC, io.EOF}[end-endOwn]
		symAssert(err == want, "the result of a command is not reported")
		symAssert(got == text || got == "" && want != nil, "another text than the line")
		symAssert(!own || lf.last == []readline.Result{readline.ENTER, readline.INTR, readline.ABORT}[end-endOwn], "the line-feed writer got another result")
	}
	feeds := 1
	if end == endError {
		feeds = 0
	}
	symAssert(!own || lf.n == feeds, "the line-feed writer has not run exactly once")
	symAssert(s.scr.rows-clears == feeds, "the row is not left exactly once")
	s.scr.rows = 0
	s.fail = nil
}

// HSession: any keys, then any end.
func HSession() {
	s := newSession([]int{40, 6}[symChoose("width", symParam("widths", 2))])
	s.scr = newScreen(s.width)
	s.ed.Default = []string{"", "ab"}[symChoose("default", 2)]
	s.ed.Cursor = symChoose("cursor", 3)
	s.ed.History = &histStub{ents: []string{"h1", "h2"}}
	if symBool("predict") {
		s.ed.PredictColor = predictColor
	}
	playSession(s, symParam("keys", 2), imin(len(someKeys), symParam("some", 99)))
	symReach("done")
}

// HSessionFaults: opening, asking the size, reading a key inside a command or
// writing to the terminal fails.
func HSessionFaults() {
	s := newSession(40)
	s.scr = newScreen(s.width)
	s.ed.History = &histStub{ents: []string{"h1"}}
	lf := &lineFeeds{}
	s.ed.LineFeedWriter = lf.write
	kind := symChoose("fault", 4)
	ks := []string{"a", []string{keys.CtrlV, keys.CtrlR}[symChoose("inside", 2)], "h"}
	n := 0
	want := errTty
	switch kind {
	case 0:
		s.openErr = errTty
	case 1:
		s.sizeErr = errTty
	case 2: // from the n-th key on
	case 3: // a prompt that fails is still a session
		s.ed.PromptWriter = func(io.Writer) (int, error) { return 0, errTty }
		want = nil
	}
	at := symChoose("at", 4)
	s.next = func() string {
		if kind == 2 && n >= at {
			s.fail = errTty
			return ""
		}
		if n < len(ks) {
			n++
			return ks[n-1]
		}
		if kind == 2 {
			s.fail = errTty
		}
		return keys.Enter
	}
	got, err := s.run()
	checkReleased(s)
	symAssert(err == want, "another error")
	if want != nil {
		symAssert(got == "", "a text though there was an error")
		symAssert(lf.n == 0, "the line-feed writer ran though there was an error")
	}
	if kind == 0 {
		symAssert(s.opens == 0 && s.closes == 0, "a terminal that was not opened was closed")
	} else {
		symAssert(s.opens == 1 && s.closes == 1, "the terminal is not closed exactly once")
	}
	// the editor can be used again
	s.openErr, s.sizeErr, s.fail = nil, nil, nil
	s.ed.PromptWriter = func(io.Writer) (int, error) { return 0, nil }
	s.next = func() string { return keys.Enter }
	got, err = s.run()
	symAssert(err == nil && got == "", "the next session is disturbed")
	checkReleased(s)
	symReach("done")
}

// HSessionDeaf: writing to the terminal fails from some write on; the text is
// edited all the same.
func HSessionDeaf() {
	def := []string{"", "ab"}[symChoose("default", 2)]
	width := []int{40, 6}[symChoose("width", 2)]
	var ks, texts []string
	run := func(deaf bool) (string, error) {
		clipboard.Text = "clip"
		s := newSession(width)
		s.ed.Default = def
		s.ed.History = &histStub{ents: []string{"h1", "h2"}}
		if deaf {
			from := symChoose("from", symParam("from", 5)) + 1
			s.deaf = func(n int) bool { return n >= from }
		}
		n := 0
		s.next = func() string {
			if deaf {
				symAssert(s.b.String() == texts[n], "a failing write changed the text")
			} else {
				texts = append(texts, s.b.String())
			}
			n++
			if n > symParam("keys", 2) {
				return keys.Enter
			}
			if !deaf {
				ks = append(ks, someKeys[symChoose("key", imin(len(someKeys), symParam("some", 99)))])
			}
			return ks[n-1]
		}
		t, err := s.run()
		symAssert(s.opens == 1 && s.closes == 1, "the terminal is not closed exactly once")
		return t, err
	}
	t1, e1 := run(false)
	t2, e2 := run(true)
	symAssert(t1 == t2 && e1 == e2, "a failing write changed the result")
	symReach("done")
}

// HSessionAgain: the session after any other starts afresh.
func HSessionAgain() {
	s := newSession(40)
	s.scr = newScreen(s.width)
	s.ed.Default = []string{"", "ab"}[symChoose("default", 2)]
	hist := &histStub{ents: []string{"h1", "h2"}}
	s.ed.History = hist
	s.ed.HistoryCycling = symBool("cycling")
	playSession(s, symParam("keys", 2), imin(len(someKeys), symParam("some", 99)))
	if symBool("added") {
		hist.ents = append(hist.ents, "h3")
	}
	def := s.ed.Default
	s.started = false
	s.b = nil
	n := 0
	probe := symChoose("probe", 3)
	s.next = func() string {
		n++
		t := s.b.String()
		switch n {
		case 1:
			symAssert(t == def, "the session does not start with the default text")
			symAssert(s.b.Cursor >= 0 && s.b.Cursor <= len(def), "the cursor is outside the line")
			return []string{keys.CtrlZ, keys.CtrlP, keys.CtrlN}[probe]
		case 2:
			switch probe {
			case 0: // at most the default text is undone
				symAssert(t == "" || t == def, "undo brings back an earlier session")
			case 1:
				symAssert(t == hist.ents[len(hist.ents)-1], "history does not start at the newest entry")
			case 2:
				symAssert(t == def, "history does not start behind the newest entry")
			}
			if probe == 0 {
				return keys.CtrlZ
			}
			return keys.CtrlP
		case 3:
			switch probe {
			case 0:
				symAssert(t == "" || t == def, "undo brings back an earlier session")
			case 1:
				symAssert(t == hist.ents[len(hist.ents)-2], "an entry is not as recorded")
			case 2:
				symAssert(t == hist.ents[len(hist.ents)-1], "history does not start at the newest entry")
			}
		}
		return keys.Enter
	}
	_, err := s.run()
	symAssert(err == nil, "error from the second session")
	checkReleased(s)
	symReach("done")
}

// HDefaultTtyFaults: the driver used by default fails to open, to tell its
// size, to enter raw mode or to read; it is released all the same.
func HDefaultTtyFaults() {
	kind := symChoose("fault", 5)
	at := symChoose("at", symParam("at", 3))
	reads := 0
	tty.Dev.Width = 80
	tty.Dev.Read = func() (rune, error) {
		reads++
		if kind == 3 && reads > at {
			return 0, errTty
		}
		if reads > at {
			return '\r', nil
		}
		if kind == 2 && reads == at {
			tty.Dev.RawErr = errTty
		}
		return symRune("key", 'a', 'z'), nil
	}
	more := symBool("more")
	tty.Dev.More = func() bool { return more && reads < at }
	switch kind {
	case 0:
		tty.Dev.OpenErr = errTty
	case 1:
		tty.Dev.SizeErr = errTty
	case 2:
		if at == 0 {
			tty.Dev.RawErr = errTty
		}
	}
	s := newSession(80)
	s.ed.Tty = nil
	text, err := s.ed.ReadLine(context.Background())
	if kind < 4 {
		symAssert(err != nil && errors.Is(err, errTty), "the error is not passed on")
		symAssert(text == "", "a text though there was an error")
	} else {
		symAssert(err == nil && len(text) == at, "another line than the keys")
	}
	symAssert(tty.Dev.Opens == tty.Dev.Closes, "the terminal is not closed")
	symAssert(tty.Dev.Raw == 0, "raw mode not left")
	symAssert(s.ed.Out.Buffered() == 0, "output is left in the buffer")
	// once it works again, so does the editor
	tty.Dev.OpenErr, tty.Dev.SizeErr, tty.Dev.RawErr = nil, nil, nil
	tty.Dev.Read = func() (rune, error) { return '\r', nil }
	tty.Dev.More = func() bool { return false }
	_, err = s.ed.ReadLine(context.Background())
	symAssert(err == nil, "the next session is disturbed")
	symAssert(tty.Dev.Opens == tty.Dev.Closes, "the terminal is not closed")
	symReach("done")
}
