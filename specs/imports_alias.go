package gopoet

import (
	"go/token"
	"path"
	"strings"
	"unicode"
	"unicode/utf8"
)

func specAlias(importPath string) string {
	alias := strings.Map(func(r rune) rune {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			return '_'
		}
		return r
	}, path.Base(importPath))
	first, _ := utf8.DecodeRuneInString(alias)
	if unicode.IsLetter(first) && alias != "init" && !token.Lookup(alias).IsKeyword() {
		return alias
	}
	return "pkg" + alias
}
