package gopoet

import (
	"bytes"
	"strconv"
	"strings"
)

//verif:P02 ImportSpec.String
func specImportSpecString(i ImportSpec) string {
	text := strconv.Quote(i.ImportPath)
	if i.PackageAlias != "" {
		text = i.PackageAlias + " " + text
	}
	return text
}

//verif:P16 writeComment
func specWriteComment(comment string, w *bytes.Buffer) {
	if comment == "" {
		return
	}
	for _, l := range strings.Split(comment, "\n") {
		w.WriteString("// " + l + "\n")
	}
}
