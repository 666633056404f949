package main

import (
	"errors"
	"strconv"

	"github.com/nyaosorg/go-readline-ny"
)

func init() {
	harnesses["HColorBuild"] = HColorBuild
	harnesses["HColorWrite"] = HColorWrite
	harnesses["HColorNone"] = HColorNone
	harnesses["HColorNames"] = HColorNames
}

var errFull = errors.New("device full")

// fullWriter takes room bytes and then fails; room < 0: it never fails.
type fullWriter struct {
	got  []byte
	room int
}

func (w *fullWriter) Write(p []byte) (int, error) {
	if w.room < 0 || len(w.got)+len(p) <= w.room {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	n := w.room - len(w.got)
	w.got = append(w.got, p[:n]...)
	return n, errFull
}

func sgrText(ps []int) string {
	want := "\x1B["
	for i, p := range ps {
		if i > 0 {
			want += ";"
		}
		want += strconv.Itoa(p)
	}
	return want + "m"
}

// newColor builds a colour of the parameters: a constructor for the first ones
// and Add for the others.
func newColor(ps []int) readline.ColorSequence {
	k := 1 + symChoose("constructor", imin(4, len(ps)))
	var c readline.ColorSequence
	switch k {
	case 1:
		c = readline.SGR1(ps[0])
	case 2:
		c = readline.SGR2(ps[0], ps[1])
	case 3:
		c = readline.SGR3(ps[0], ps[1], ps[2])
	case 4:
		c = readline.SGR4(ps[0], ps[1], ps[2], ps[3])
	}
	for _, p := range ps[k:] {
		c = c.Add(p)
	}
	return c
}

// HColorBuild: up to six parameters, in one colour or in a chain of colours.
// One parameter is any, the others have three digits.
func HColorBuild() {
	n := 1 + symChoose("n", symParam("maxn", 6))
	ps := make([]int, n)
	free := symChoose("free", n)
	for i := range ps {
		if i == free {
			ps[i] = symInt("p", 0, 255)
		} else {
			ps[i] = symInt("p", 100, 255)
		}
	}
	cut := 1 + symChoose("cut", n)
	c := newColor(ps[:cut])
	for cut < n { // chain the rest, one or more colours
		m := 1 + symChoose("more", n-cut)
		c = c.Chain(newColor(ps[cut : cut+m]))
		cut += m
	}
	w := &fullWriter{room: -1}
	num, err := c.WriteTo(w)
	symObserveStr("out", string(w.got))
	symAssert(num == int64(len(w.got)), "the number returned is not the number of bytes written")
	symAssert(err == nil, "error from WriteTo")
	symAssert(string(w.got) == sgrText(ps), "parameters differ")
	symReach("done")
}

// HColorWrite: any parameters, written to a device with any room.
func HColorWrite() {
	n := 1 + symChoose("n", symParam("maxn", 3))
	ps := make([]int, n)
	for i := range ps {
		ps[i] = symInt("p", 0, 255)
	}
	c := newColor(ps)
	want := sgrText(ps)
	w := &fullWriter{room: -1}
	if symBool("full") {
		w.room = symChoose("room", len(want))
	}
	num, err := c.WriteTo(w)
	symObserveStr("out", string(w.got))
	symAssert(num == int64(len(w.got)), "the number returned is not the number of bytes written")
	if w.room < 0 {
		symAssert(err == nil, "error from WriteTo")
		symAssert(string(w.got) == want, "parameters differ")
	} else {
		symAssert(err == errFull, "write error not returned")
		symAssert(string(w.got) == want[:w.room], "bytes before the error differ")
	}
	symReach("done")
}

// HColorNone: zero and negative colours write nothing.
func HColorNone() {
	c := readline.ColorSequence(symInt("c", -1<<62, 0))
	w := &fullWriter{room: -1}
	n, err := c.WriteTo(w)
	symAssert(n == 0 && err == nil && len(w.got) == 0, "a zero or negative colour writes something")
	symReach("done")
}

// HColorNames: the named colours, alone and with a parameter added.
func HColorNames() {
	bright := []readline.ColorSequence{readline.Black, readline.Red, readline.Green, readline.Yellow,
		readline.Blue, readline.Magenta, readline.Cyan, readline.White, 0, readline.DefaultForeGroundColor}
	dark := []readline.ColorSequence{readline.DarkGray, readline.DarkRed, readline.DarkGree, readline.DarkYellow,
		readline.DarkBlue, readline.DarkMagenta, readline.DarkCyan, readline.DarkWhite, 0, readline.DarkDefaultForeGroundColor}
	k := symChoose("name", 10)
	symAssume(k != 8)
	ps := []int{30 + k, 49, 1}
	c := bright[k]
	if symBool("dark") {
		ps = []int{30 + k, 22, 49}
		c = dark[k]
	}
	switch symChoose("and", 3) {
	case 1:
		p := symInt("p", 0, 255)
		c = c.Add(p)
		ps = append(ps, p)
	case 2:
		c = c.Chain(readline.ColorReset)
		ps = append(ps, 0)
	}
	w := &fullWriter{room: -1}
	c.WriteTo(w)
	symAssert(string(w.got) == sgrText(ps), "named colour differs")
	symReach("done")
}
