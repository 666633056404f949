// Package box is a stand-in for github.com/nyaosorg/go-box/v2: the real one
// asks the terminal for its size. The lists printed are recorded.
package box

import (
	"context"
	"io"
)

var Printed [][]string

func Print(ctx context.Context, nodes []string, out io.Writer) bool {
	Printed = append(Printed, append([]string{}, nodes...))
	for _, s := range nodes {
		io.WriteString(out, s)
		io.WriteString(out, "\n")
	}
	return true
}

func PrintX(ctx context.Context, nodes []string, out io.Writer) error {
	Print(ctx, nodes, out)
	return nil
}
