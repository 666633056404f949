package main

import (
	"context"
	"io"

	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/auto"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

func init() {
	harnesses["HPilot"] = HPilot
	harnesses["HPilotLine"] = HPilotLine
	harnesses["HSimpleHistory"] = HSimpleHistory
}

// anyBytes: a text of up to n bytes.
func anyBytes(n int) string {
	b := make([]byte, symChoose("len", n+1))
	for i := range b {
		b[i] = symByte("b", 0, 255)
	}
	return string(b)
}

// HPilot: the keys of a script come one by one.
func HPilot() {
	script := make([]string, symChoose("n", symParam("n", 4)+1))
	for i := range script {
		script[i] = anyBytes(2)
	}
	p := &auto.Pilot{Text: append([]string{}, script...)}
	open := symBool("open")
	if open {
		symAssert(p.Open(func(int) { symFail("the scripted terminal changed its size") }) == nil, "error from Open")
	}
	for i := 0; i < len(script)+2; i++ {
		k, err := p.GetKey()
		symAssert(err == nil, "error from GetKey")
		if i < len(script) {
			symAssert(k == script[i], "another key than the script's")
		} else {
			symAssert(k == keys.Enter, "no Enter behind the script")
		}
		if symBool("size") {
			w, h, err := p.Size()
			symAssert(err == nil && w > 0 && h > 0, "no size")
		}
	}
	if open {
		symAssert(p.Close() == nil, "error from Close")
	}
	symReach("done")
}

// HPilotLine: a scripted session gives the text of the script.
func HPilotLine() {
	var want string
	p := &auto.Pilot{}
	for i := symChoose("n", symParam("n", 3)+1); i > 0; i-- {
		r := symRune("r", ' ', '~')
		want += string(r)
		p.Text = append(p.Text, string(r))
	}
	ed := &readline.Editor{Tty: p, Writer: io.Discard}
	for round := 0; round < 2; round++ {
		text, err := ed.ReadLine(context.Background())
		symAssert(err == nil, "error")
		symAssert(text == want, "another text than the script's")
		want = "" // nothing is left
	}
	symReach("done")
}

// HSimpleHistory: entries are added and read in any order.
func HSimpleHistory() {
	h := simplehistory.New()
	other := simplehistory.New()
	var want []string
	for i := 0; i < symParam("ops", 4); i++ {
		switch symChoose("op", 2) {
		case 0:
			s := anyBytes(1)
			h.Add(s)
			want = append(want, s)
		case 1:
			other.Add("x")
		}
		symAssert(h.Len() == len(want), "the length is not the number of entries")
		for k, s := range want {
			symAssert(h.At(k) == s, "an entry is not as added")
		}
	}
	symReach("done")
}
