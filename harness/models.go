package main

import (
	"errors"
	"io"
	"strconv"
	"sync"
	"time"
	"unicode/utf8"
)

// Models that stand for standard library functions in the symbolic run only
// (the native build uses the real ones). They cover the verbs the library uses.

func mArg(verb byte, a any) string {
	if verb != 'd' && verb != 'x' && verb != 'X' && verb != 'c' {
		switch x := a.(type) {
		case error:
			return x.Error()
		case interface{ String() string }:
			return x.String()
		case []byte:
			return string(x)
		}
	}
	return symFmt1(verb, a)
}

func mFormat(format string, args []any) string {
	var out []byte
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(format) {
			return string(out) + "%!(NOVERB)"
		}
		width, zero, minus, plus, sharp := 0, false, false, false, false
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			default:
				break flags
			}
		}
		if i < len(format) && format[i] == '*' && n < len(args) {
			width, _ = args[n].(int)
			n++
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i >= len(format) {
			return string(out) + "%!(NOVERB)"
		}
		c = format[i]
		if c == '%' {
			out = append(out, '%')
			continue
		}
		if n >= len(args) {
			out = append(out, "%!"...)
			out = append(out, c)
			out = append(out, "(MISSING)"...)
			continue
		}
		s := mArg(c, args[n])
		if sharp {
			s = symFmtSharp(c, s)
		}
		if v, ok := args[n].(int); ok && plus && v >= 0 {
			s = "+" + s
		}
		n++
		pad := width - utf8.RuneCountInString(s)
		if zero && !minus && pad > 0 && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
			out = append(out, s[0])
			s = s[1:]
		}
		if minus {
			out = append(out, s...)
		}
		for ; pad > 0; pad-- {
			if zero && !minus {
				out = append(out, '0')
			} else {
				out = append(out, ' ')
			}
		}
		if !minus {
			out = append(out, s...)
		}
	}
	return string(out)
}

func mFprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(mFormat(format, args)))
}

func mSprintf(format string, args ...any) string { return mFormat(format, args) }

func mSprint(args ...any) string {
	var out []byte
	prev := true
	for i, a := range args {
		_, str := a.(string)
		if i > 0 && !str && !prev {
			out = append(out, ' ')
		}
		prev = str
		out = append(out, mArg('v', a)...)
	}
	return string(out)
}

func mSprintln(args ...any) string {
	var out []byte
	for i, a := range args {
		if i > 0 {
			out = append(out, ' ')
		}
		out = append(out, mArg('v', a)...)
	}
	return string(append(out, '\n'))
}

func mAppendf(b []byte, format string, args ...any) []byte {
	return append(b, mFormat(format, args)...)
}

func mAppend(b []byte, args ...any) []byte { return append(b, mSprint(args...)...) }

func mAppendln(b []byte, args ...any) []byte { return append(b, mSprintln(args...)...) }

func mFprint(w io.Writer, args ...any) (int, error) {
	return w.Write([]byte(mSprint(args...)))
}

func mFprintln(w io.Writer, args ...any) (int, error) {
	return w.Write([]byte(mSprintln(args...)))
}

type mWrapError struct {
	msg string
	err error
}

func (e *mWrapError) Error() string { return e.msg }
func (e *mWrapError) Unwrap() error { return e.err }

func mErrorf(format string, args ...any) error {
	var wrapped error
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if e, ok := a.(error); ok {
					wrapped = e
				}
			}
		}
	}
	if wrapped != nil {
		return &mWrapError{mFormat(format, args), wrapped}
	}
	return errors.New(mFormat(format, args))
}

func mErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if m, ok := err.(interface{ Is(error) bool }); ok && m.Is(target) {
			return true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			err = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if mErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func mErrorsAs(err error, target any) bool {
	for err != nil {
		if symAs(err, target) {
			return true
		}
		if m, ok := err.(interface{ As(any) bool }); ok && m.As(target) {
			return true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			err = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if mErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func mStringsCompare(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func mBytesCompare(a, b []byte) int { return mStringsCompare(string(a), string(b)) }

func mSortSlice(x any, less func(i, j int) bool) {
	n := symLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			symSwap(x, j, j-1)
		}
	}
}

func mSliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := symLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func mPoolGet(p *sync.Pool) any {
	if p.New == nil {
		return nil
	}
	return p.New()
}

func mPoolPut(p *sync.Pool, x any) {}

func mCondWait(c *sync.Cond) {
	c.L.Unlock()
	symYield()
	c.L.Lock()
}

func mCondSignal(c *sync.Cond) {}

func mWaitGroupGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

func mSleep(d time.Duration) { symYield() }

func mAppendInt(b []byte, i int64, base int) []byte {
	return append(b, strconv.FormatInt(i, base)...)
}

func mAppendUint(b []byte, i uint64, base int) []byte {
	return append(b, strconv.FormatUint(i, base)...)
}
