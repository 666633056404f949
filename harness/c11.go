package main

import (
	"context"
	"errors"

	"github.com/mattn/go-tty"

	"github.com/nyaosorg/go-readline-ny"
)

func init() {
	harnesses["HKeys"] = HKeys
	harnesses["HKeysRaw"] = HKeysRaw
	harnesses["HDefaultTty"] = HDefaultTty
}

var errStream = errors.New("end of stream")

// streamTty is a terminal that delivers given runes; whether more is already
// buffered is any answer that is possible.
type streamTty struct {
	rs    []rune
	pos   int
	raw   int
	raws  int
	noRaw error
	more  []bool // answers of Buffered, in order
	at    []int  // position of each
}

func (t *streamTty) Raw() (func() error, error) {
	if t.noRaw != nil {
		return nil, t.noRaw
	}
	t.raw++
	t.raws++
	return func() error { t.raw--; return nil }, nil
}

func (t *streamTty) ReadRune() (rune, error) {
	symAssert(t.raw == 1, "read outside raw mode")
	if t.pos >= len(t.rs) {
		return 0, errStream
	}
	t.pos++
	return t.rs[t.pos-1], nil
}

func (t *streamTty) Buffered() bool {
	a := t.pos < len(t.rs) && symBool("buffered")
	t.more = append(t.more, a)
	t.at = append(t.at, t.pos)
	return a
}

// first answer given at a position
func (t *streamTty) moreAt(pos int) bool {
	for i := range t.at {
		if t.at[i] == pos {
			return t.more[i]
		}
	}
	return false
}

// sizes of the characters of the stream, in runes, with their text
func streamChars(rs []rune) (texts []string, ends []int) {
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if r == 0 {
			continue
		}
		if r >= 0xD800 && r <= 0xDBFF {
			r = 0x10000 + (r-0xD800)<<10 + (rs[i+1] - 0xDC00)
			i++
		}
		texts = append(texts, string(r))
		ends = append(ends, i+1)
	}
	return
}

func symStream(n int) []rune {
	var rs []rune
	esc := false
	for len(rs) < n {
		switch symChoose("kind", 4) {
		case 0:
			r := symRune("r", 1, 0xD7FF)
			rs = append(rs, r)
			if r == 0x1B {
				esc = true
			}
		case 1:
			rs = append(rs, symRune("hi", 0xD800, 0xDBFF), symRune("lo", 0xDC00, 0xDFFF))
		case 2:
			rs = append(rs, symRune("any", 0xE000, 0xFFFD))
		case 3:
			symAssume(!esc)
			rs = append(rs, 0)
		}
	}
	return rs
}

// checkKeys compares keys with the characters of the stream.
func checkKeys(t *streamTty, keys []string) {
	texts, ends := streamChars(t.rs)
	i := 0
	for _, k := range keys {
		symAssert(i < len(texts), "a key that is not in the stream")
		want := texts[i]
		end := ends[i]
		i++
		if want == "\x1B" {
			for t.moreAt(end) {
				want += texts[i]
				end = ends[i]
				i++
			}
		}
		symAssert(k == want, "key differs from the stream")
	}
	symAssert(i == len(texts), "characters of the stream lost")
}

// HKeys: GetKey or GetKeys until the stream ends.
func HKeys() {
	t := &streamTty{rs: symStream(symParam("n", 3))}
	many := symBool("many")
	var all []string
	for {
		raws := t.raws
		if many {
			ks, err := readline.GetKeys(t)
			symAssert(t.raw == 0 && t.raws == raws+1, "raw mode not left")
			if err != nil {
				symAssert(err == errStream, "error not passed on")
				break
			}
			symAssert(len(ks) > 0, "no keys")
			all = append(all, ks...)
		} else {
			k, err := readline.GetKey(t)
			symAssert(t.raw == 0 && t.raws == raws+1, "raw mode not left")
			if err != nil {
				symAssert(err == errStream, "error not passed on")
				break
			}
			all = append(all, k)
		}
	}
	// an ending NUL makes the last call of GetKeys fail with keys at hand
	if many {
		symAssume(t.rs[len(t.rs)-1] != 0)
	}
	checkKeys(t, all)
	symObserveStr("keys", join(all))
	symReach("done")
}

// HKeysRaw: an error of the terminal is passed on.
func HKeysRaw() {
	t := &streamTty{noRaw: errStream}
	_, err := readline.GetKey(t)
	symAssert(err == errStream, "error not passed on")
	_, err = readline.GetKeys(t)
	symAssert(err == errStream, "error not passed on")
	symReach("done")
}

// HDefaultTty: the terminal driver used by default delivers a stream of keys
// to two sessions, whatever is buffered when it reads.
func HDefaultTty() {
	var rs []rune
	var want [2][]rune
	for i := 0; i < 2; i++ {
		for k := symChoose("n", symParam("n", 3)+1); k > 0; k-- {
			r := symChar([]int{kLetter, kWide}[symChoose("kind", 2)], len(rs))
			rs = append(rs, r)
			want[i] = append(want[i], r)
		}
		rs = append(rs, '\r')
	}
	pos := 0
	tty.Dev.Width = 80
	tty.Dev.Read = func() (rune, error) {
		symAssert(tty.Dev.Raw == 1, "read outside raw mode")
		if pos >= len(rs) {
			return 0, errStream
		}
		pos++
		return rs[pos-1], nil
	}
	tty.Dev.More = func() bool { return pos < len(rs) && symBool("buffered") }
	s := newSession(80)
	s.ed.Tty = nil
	for i := 0; i < 2; i++ {
		text, err := s.ed.ReadLine(context.Background())
		symAssert(err == nil, "error from ReadLine")
		symAssert(text == string(want[i]), "the line is not the keys of the stream")
		symAssert(tty.Dev.Raw == 0, "raw mode not left")
		symAssert(tty.Dev.Opens == i+1 && tty.Dev.Closes == i+1, "terminal not closed")
	}
	_, err := s.ed.ReadLine(context.Background())
	symAssert(err == errStream, "error not passed on")
	symReach("done")
}
