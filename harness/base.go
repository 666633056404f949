package main

import (
	"bufio"
	"context"
	"io"
	"strings"

	"github.com/nyaosorg/go-readline-ny"
)

var harnesses = map[string]func(){}

// session drives one editor through a terminal stub. next supplies the keys;
// it is called each time the editor waits for one.
type session struct {
	ed     *readline.Editor
	b      *readline.Buffer // set by the probe key
	width  int
	onSize func(int)
	next   func() string

	opens, closes, waits int
	started              bool
	scr                  *screen
	sink                 func([]byte)
	fail                 error // what GetKey returns besides the key
	openErr, sizeErr     error
	tap                  func([]byte)
	onOpen, onAsk        func()
	writes               int
	deaf                 func(n int) bool // whether the n-th write fails
}

const probeKey = "\x1Bprobe"

func newSession(width int) *session {
	s := &session{width: width}
	s.ed = &readline.Editor{
		Tty:          s,
		Writer:       s,
		PromptWriter: func(io.Writer) (int, error) { return 0, nil },
	}
	s.ed.Out = bufio.NewWriterSize(s, 1024)
	s.ed.BindKey(probeKey, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		s.b = b
		return readline.CONTINUE
	}))
	return s
}

func (s *session) prompt(p string) {
	s.ed.PromptWriter = func(w io.Writer) (int, error) { return io.WriteString(w, p) }
}

func (s *session) Open(onSize func(int)) error {
	if s.openErr != nil {
		return s.openErr
	}
	s.opens++
	s.onSize = onSize
	if s.onOpen != nil {
		s.onOpen()
	}
	return nil
}

func (s *session) Close() error {
	s.closes++
	return nil
}

func (s *session) Size() (int, int, error) {
	if s.onAsk != nil {
		s.onAsk()
	}
	return s.width, 25, s.sizeErr
}

func (s *session) GetKey() (string, error) {
	if !s.started {
		s.started = true
		return probeKey, nil
	}
	s.waits++
	k := s.next()
	return k, s.fail
}

func (s *session) Write(p []byte) (int, error) {
	s.writes++
	if s.deaf != nil && s.deaf(s.writes) {
		return 0, errTty
	}
	if s.scr != nil {
		s.scr.write(p)
	}
	if s.tap != nil {
		s.tap(p)
	}
	if s.sink != nil {
		s.sink(p)
	}
	return len(p), nil
}

func (s *session) run() (string, error) { return s.ed.ReadLine(context.Background()) }

// Character kinds used to build texts. Characters of different positions come
// from disjoint ranges (so that they cannot be equal); within its range each is
// unconstrained.
const (
	kLetter = iota // one column
	kWide          // two columns
	kSpace
	kQuote
	kCtrl // ^X
	kSquote
	kIdeoSpace // U+3000
	kLatin     // two bytes, one column
	kTab
	kDel    // <7F>
	kC1     // <80> .. <9F>
	kZero   // zero width: <200B> ..
	kAny    // any printable ASCII character, the same at every position
	kAstral // beyond the basic plane
)

func symChar(kind, i int) rune {
	switch kind {
	case kWide:
		return symRune("wide", rune(0x4E00+0x80*i), rune(0x4E7F+0x80*i))
	case kSpace:
		return ' '
	case kQuote:
		return '"'
	case kSquote:
		return '\''
	case kIdeoSpace:
		return '　'
	case kCtrl:
		if i >= 8 {
			i += 5
		}
		return rune(1 + i)
	case kLatin:
		return symRune("latin", rune(0x100+0x10*i), rune(0x10F+0x10*i))
	}
	switch kind {
	case kTab:
		return '\t'
	case kDel:
		return 0x7F
	case kC1:
		return symRune("c1", 0x80, 0x9F)
	case kZero:
		return symRune("zero", 0x200B, 0x200F)
	case kAny:
		return symRune("any", ' ', '~')
	case kAstral:
		return symRune("astral", rune(0x20000+0x100*i), rune(0x200FF+0x100*i))
	}
	return symRune("ch", rune(0x28+6*i), rune(0x2D+6*i))
}

// symText makes a text of n characters of the given kinds.
func symText(name string, n, base int, kinds []int) ([]rune, []int) {
	rs := make([]rune, n)
	ks := make([]int, n)
	for i := range rs {
		ks[i] = kinds[symChoose(name, len(kinds))]
		rs[i] = symChar(ks[i], base+i)
	}
	return rs, ks
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func join(a []string) string { return strings.Join(a, "") }

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
