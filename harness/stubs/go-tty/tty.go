// Package tty is a stand-in for github.com/mattn/go-tty that needs no terminal.
package tty

type WINSIZE struct{ W, H int }

// Dev is the device behind the terminals opened.
var Dev struct {
	OpenErr, SizeErr, RawErr error
	Width                    int
	Read                     func() (rune, error)
	More                     func() bool
	Opens, Closes, Raw, Raws int
	WS                       chan WINSIZE
}

type TTY struct{ closed bool }

func Open() (*TTY, error) {
	if Dev.OpenErr != nil {
		return nil, Dev.OpenErr
	}
	Dev.Opens++
	Dev.WS = make(chan WINSIZE)
	return &TTY{}, nil
}

func (t *TTY) Size() (int, int, error) { return Dev.Width, 25, Dev.SizeErr }

func (t *TTY) SIGWINCH() <-chan WINSIZE { return Dev.WS }

func (t *TTY) Raw() (func() error, error) {
	if Dev.RawErr != nil {
		return nil, Dev.RawErr
	}
	Dev.Raw++
	Dev.Raws++
	return func() error { Dev.Raw--; return nil }, nil
}

func (t *TTY) ReadRune() (rune, error) { return Dev.Read() }

func (t *TTY) Buffered() bool { return Dev.More() }

func (t *TTY) Close() error {
	Dev.Closes++
	close(Dev.WS)
	return nil
}
