// Package clipboard is an in-memory stand-in for github.com/atotto/clipboard:
// the real one talks to the desktop session.
package clipboard

var Unsupported bool

// Text is the clipboard's content; Fail makes reads and writes fail.
var Text string
var Fail error
var Writes int

func ReadAll() (string, error) { return Text, Fail }

func WriteAll(text string) error {
	Writes++
	if Fail != nil {
		return Fail
	}
	Text = text
	return nil
}
