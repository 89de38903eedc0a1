package main

import (
	"go/token"
	"strings"

	"modernc.org/wl"
)

// wlTree reads text with the grammar of the wl package.
func wlTree(text string) (*wl.Expression, error) {
	in, err := wl.NewInput(strings.NewReader(text), true)
	if err != nil {
		return nil, err
	}
	return in.ParseExpression(token.NewFileSet().AddFile("text", -1, 1e6))
}
