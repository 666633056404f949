// Package term is a stand-in for golang.org/x/term that needs no terminal.
package term

import "errors"

type State struct{ n int }

var (
	Raw     int // depth of raw mode
	Raws    int
	RawErr  error
	OnRaw   func() // called when raw mode is entered
	FailRaw func() error
	Width   int
	SizeErr error
)

func MakeRaw(fd int) (*State, error) {
	if RawErr != nil {
		return nil, RawErr
	}
	if FailRaw != nil {
		if err := FailRaw(); err != nil {
			return nil, err
		}
	}
	Raw++
	Raws++
	if OnRaw != nil {
		OnRaw()
	}
	return &State{Raw}, nil
}

func Restore(fd int, s *State) error {
	if s == nil || s.n != Raw {
		return errors.New("state of another terminal")
	}
	Raw--
	return nil
}

func GetSize(fd int) (width, height int, err error) { return Width, 25, SizeErr }

func IsTerminal(fd int) bool { return true }
