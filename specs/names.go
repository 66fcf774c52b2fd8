package gopoet

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Unexport: the first letter becomes lower case; the rest stays.
//
//verif:P29 Unexport
func specUnexport(s string) string {
	if len(s) == 0 {
		return ""
	}
	first, n := utf8.DecodeRuneInString(s)
	if n == 1 && first == utf8.RuneError {
		panic("not valid UTF8")
	}
	lower := unicode.ToLower(first)
	if !unicode.IsUpper(lower) {
		return string(lower) + s[n:]
	}
	return "x" + s
}

//verif:P29 Export
func specExport(s string) string {
	if len(s) == 0 {
		return ""
	}
	first, n := utf8.DecodeRuneInString(s)
	if n == 1 && first == utf8.RuneError {
		panic("not valid UTF8")
	}
	switch {
	case unicode.IsUpper(first):
		return s
	case unicode.IsUpper(unicode.ToUpper(first)):
		return string(unicode.ToUpper(first)) + s[n:]
	case first == '_':
		return "X" + s[n:]
	}
	return "X" + s
}

var _ = strings.Split
