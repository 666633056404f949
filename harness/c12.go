package main

import (
	"errors"
	"os"
	"time"

	"golang.org/x/term"

	"github.com/nyaosorg/go-readline-ny/tty10"
)

func init() {
	harnesses["HTty10"] = HTty10
	harnesses["HTty10Err"] = HTty10Err
	harnesses["HTty10Faults"] = HTty10Faults
	harnesses["HTty10Close"] = HTty10Close
	harnesses["HTty10Long"] = HTty10Long
	harnesses["HTty10Busy"] = HTty10Busy
	harnesses["HTty10Again"] = HTty10Again
}

// stdin is what standard input delivers, one chunk per read. When the harness
// runs natively the chunks go through a pipe.
var stdin struct {
	chunks [][]byte
	err    error
	reads  int
	w      *os.File
}

func stdinOpen() {
	term.OnRaw = func() {
		if stdin.w != nil && len(stdin.chunks) > 0 {
			stdin.w.Write(stdin.chunks[0])
			stdin.chunks = stdin.chunks[1:]
		} else if stdin.w != nil {
			stdin.w.Close()
		}
	}
	if !symSymbolic() {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		os.Stdin = r
		stdin.w = w
	}
}

var errStdin = errors.New("EOF")

// mFileRead stands for (*os.File).Read
func mFileRead(f *os.File, b []byte) (int, error) {
	symAssert(term.Raw == 1, "standard input read outside raw mode")
	if len(stdin.chunks) == 0 {
		return 0, errStdin
	}
	n := copy(b, stdin.chunks[0])
	if n == len(stdin.chunks[0]) {
		stdin.chunks = stdin.chunks[1:]
	} else {
		stdin.chunks[0] = stdin.chunks[0][n:]
	}
	return n, nil
}

func mFileFd(f *os.File) uintptr { return 0 }

// ticks: the tickers made, for the engine
var tickers []chan time.Time

func mNewTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time, 1)
	tickers = append(tickers, c)
	return &time.Ticker{C: c}
}

// nextTick lets a second pass.
func nextTick() {
	if !symSymbolic() {
		time.Sleep(1050 * time.Millisecond)
		return
	}
	select {
	case tickers[len(tickers)-1] <- time.Time{}:
	default:
	}
	symYield()
}

func mTickerStop(t *time.Ticker) {}

// keyChar: a character of any encoded length, or Escape.
func keyChar() rune {
	switch symChoose("kind", 5) {
	case 0:
		return symRune("r", 1, 0x7F)
	case 1:
		return symRune("r", 0x80, 0x7FF)
	case 2:
		return symRune("r", 0x800, 0xD7FF)
	case 3:
		return symRune("r", 0x10000, 0x10FFFF)
	}
	return 0x1B
}

// HTty10: characters cut into reads anywhere.
func HTty10() {
	stdinOpen()
	var rs []rune
	for i := 0; i < symParam("n", 3); i++ {
		rs = append(rs, keyChar())
	}
	all := string(rs)
	start := 0
	for i := 1; i <= len(all); i++ {
		if i == len(all) || symBool("cut") {
			stdin.chunks = append(stdin.chunks, []byte(all[start:i]))
			start = i
		}
	}
	readKeys(rs, all)
}

// HTty10Long: much input at once, up to more than fits in one read.
func HTty10Long() {
	stdinOpen()
	var rs []rune
	esc := symBool("esc")
	if esc {
		rs = append(rs, 0x1B)
	}
	n := []int{5, 8, 16, 1020, 1022, 1023, 1024}[symChoose("len", symParam("lens", 7))]
	for i := 0; i < n; i++ {
		rs = append(rs, 'a'+rune(i%26))
	}
	rs = append(rs, keyChar(), keyChar())
	all := string(rs)
	stdin.chunks = [][]byte{[]byte(all)}
	readKeys(rs, all)
}

// readKeys reads until the input ends.
func readKeys(rs []rune, all string) {
	t := &tty10.Tty{}
	got, i, at := "", 0, 0 // at is where rs[i] starts
	for {
		k, err := t.GetKey()
		symAssert(term.Raw == 0, "raw mode not left")
		if err != nil {
			symAssert(err.Error() == "EOF", "error not passed on")
			break
		}
		symAssert(k != "", "an empty key")
		for i < len(rs) && at < len(got) {
			at += len(string(rs[i]))
			i++
		}
		symAssert(len(got) < len(all), "a key too many")
		// an escape sequence takes what was read with it, even the first half
		// of a character; its other half then stands at no character's start
		if at == len(got) && rs[i] != 0x1B {
			symAssert(k == string(rs[i]), "a key is not one character")
		}
		got += k
	}
	symAssert(got == all, "the keys are not the bytes read")
	symObserveStr("keys", got)
	symReach("done")
}

// HTty10Err: raw mode fails or the input ends.
func HTty10Err() {
	stdinOpen()
	term.RawErr = errStdin
	t := &tty10.Tty{}
	_, err := t.GetKey()
	symAssert(err == errStdin, "error not passed on")
	term.RawErr = nil
	_, err = t.GetKey()
	symAssert(err != nil, "end of input not reported")
	symAssert(term.Raw == 0, "raw mode not left")
	w := symInt("width", 1, 200)
	term.Width = w
	got, _, err := t.Size()
	symAssert(err == nil && got == w, "size differs")
	term.SizeErr = errStdin
	_, _, err = t.Size()
	symAssert(err == errStdin, "error not passed on")
	symReach("done")
}

// HTty10Faults: as HTty10, and raw mode may fail at any read: the failure is
// reported at once, and no byte is lost by it.
func HTty10Faults() {
	stdinOpen()
	var rs []rune
	for i := 0; i < symParam("n", 2); i++ {
		rs = append(rs, keyChar())
	}
	all := string(rs)
	start := 0
	for i := 1; i <= len(all); i++ {
		if i == len(all) || symBool("cut") {
			stdin.chunks = append(stdin.chunks, []byte(all[start:i]))
			start = i
		}
	}
	left, failed := symParam("faults", 2), false
	term.FailRaw = func() error {
		if left > 0 && symBool("fault") {
			left--
			failed = true
			return errRaw
		}
		return nil
	}
	t := &tty10.Tty{}
	got := ""
	for {
		failed = false
		k, err := t.GetKey()
		symAssert(term.Raw == 0, "raw mode not left")
		symAssert(failed == (err == errRaw), "failure not reported")
		if err != nil && !failed {
			symAssert(err.Error() == "EOF", "error not passed on")
			break
		}
		if err != nil {
			symReach("fault")
			symAssert(k == "", "a key along with an error")
			continue
		}
		symAssert(k != "", "an empty key")
		got += k
		symAssert(len(got) <= len(all), "a key too many")
	}
	symAssert(got == all, "the keys are not the bytes read")
	symReach("done")
}

var errRaw = errors.New("no raw mode")

// HTty10Close: the terminal is opened and closed in pairs, closed twice or
// never opened; while it is open the size is reported at each tick.
func HTty10Close() {
	t := &tty10.Tty{}
	for i := 0; i < symParam("pairs", 2); i++ {
		if symBool("unopened") {
			symAssert(t.Close() == nil, "error from Close")
		}
		var seen []int
		term.Width = 40 + i
		term.SizeErr = nil
		symAssert(t.Open(func(w int) { seen = append(seen, w) }) == nil, "error from Open")
		symYield()
		for k := symChoose("ticks", symParam("ticks", 1)+1); k > 0; k-- {
			if symBool("sizeerr") {
				term.SizeErr = errStdin
			} else {
				term.SizeErr = nil
			}
			before := len(seen)
			nextTick()
			if term.SizeErr == nil {
				symAssert(len(seen) == before+1 && seen[before] == 40+i, "size not reported")
			} else {
				symAssert(len(seen) == before, "size reported though it is unknown")
			}
		}
		symAssert(t.Close() == nil, "error from Close")
		n := len(seen)
		nextTick()
		symAssert(len(seen) == n, "size reported after Close")
		if symBool("twice") {
			symAssert(t.Close() == nil, "error from Close")
		}
	}
	symReach("done")
}

// HTty10Again: the terminal is closed and opened again between any two keys,
// with bytes already read or not: the keys are still the bytes read.
func HTty10Again() {
	stdinOpen()
	var rs []rune
	for i := 0; i < symParam("n", 2); i++ {
		rs = append(rs, keyChar())
	}
	all := string(rs)
	start := 0
	for i := 1; i <= len(all); i++ {
		if i == len(all) || symBool("cut") {
			stdin.chunks = append(stdin.chunks, []byte(all[start:i]))
			start = i
		}
	}
	t := &tty10.Tty{}
	symAssert(t.Open(func(int) {}) == nil, "error from Open")
	got := ""
	for left := symParam("again", 2); ; {
		if left > 0 && symBool("again") {
			left--
			symAssert(t.Close() == nil, "error from Close")
			symAssert(t.Open(func(int) {}) == nil, "error from Open")
		}
		k, err := t.GetKey()
		if err != nil {
			symAssert(err.Error() == "EOF", "error not passed on")
			break
		}
		symAssert(k != "", "an empty key")
		got += k
		symAssert(len(got) <= len(all), "a key too many")
	}
	symAssert(t.Close() == nil, "error from Close")
	symAssert(got == all, "the keys are not the bytes read")
	symReach("done")
}

// HTty10Busy: the terminal is closed while a size is being reported.
func HTty10Busy() {
	t := &tty10.Tty{}
	for i := 0; i < symParam("pairs", 2); i++ {
		seen := 0
		entered := make(chan struct{}, 8)
		release := make(chan struct{})
		symAssert(t.Open(func(w int) {
			seen++
			entered <- struct{}{}
			<-release
		}) == nil, "error from Open")
		symYield()
		busy := symBool("busy")
		if busy {
			nextTick()
			<-entered
		}
		go func() {
			if !symSymbolic() {
				time.Sleep(100 * time.Millisecond)
			}
			close(release)
		}()
		symAssert(t.Close() == nil, "error from Close")
		if !busy {
			<-release
		}
		nextTick()
		nextTick()
		if busy {
			symAssert(seen == 1, "size reported after Close")
		} else {
			symAssert(seen == 0, "size reported after Close")
		}
	}
	symReach("done")
}
