package gopoet

import (
	"bytes"
	"fmt"
	"strings"
)

//verif:P14 (*ConstDecl).writeTo
func specConstDecl(d *ConstDecl, b *bytes.Buffer) {
	if len(d.Consts) <= 1 && d.Comment == "" {
		writeComment(d.Consts[0].Comment, b)
		b.WriteString("const ")
		specEntry(b, d.Consts[0].Names, d.Consts[0].Type, d.Consts[0].Initializer)
		return
	}
	writeComment(d.Comment, b)
	b.WriteString("const (\n")
	for _, c := range d.Consts {
		writeComment(c.Comment, b)
		specEntry(b, c.Names, c.Type, c.Initializer)
	}
	b.WriteString(")\n")
}

//verif:P14 (*VarDecl).writeTo
func specVarDecl(d *VarDecl, b *bytes.Buffer) {
	if len(d.Vars) <= 1 && d.Comment == "" {
		writeComment(d.Vars[0].Comment, b)
		b.WriteString("var ")
		specEntry(b, d.Vars[0].Names, d.Vars[0].Type, d.Vars[0].Initializer)
		return
	}
	writeComment(d.Comment, b)
	b.WriteString("var (\n")
	for _, c := range d.Vars {
		writeComment(c.Comment, b)
		specEntry(b, c.Names, c.Type, c.Initializer)
	}
	b.WriteString(")\n")
}

func specEntry(b *bytes.Buffer, names []string, t TypeNameOrSpec, init *CodeBlock) {
	b.WriteString(strings.Join(names, ", "))
	if t != nil {
		b.WriteString(" " + fmt.Sprint(t))
	}
	if init != nil {
		b.WriteString(" = ")
		init.writeTo(b)
	}
	b.WriteString("\n")
}

//verif:P14 (*TypeDecl).writeTo
func specTypeDecl(d *TypeDecl, b *bytes.Buffer) {
	if len(d.Types) <= 1 && d.Comment == "" {
		writeComment(d.Types[0].Comment, b)
		b.WriteString("type ")
		specTypeEntry(d.Types[0], b)
		return
	}
	writeComment(d.Comment, b)
	b.WriteString("type (\n")
	for _, t := range d.Types {
		writeComment(t.Comment, b)
		specTypeEntry(t, b)
	}
	b.WriteString(")\n")
}

func specTypeEntry(t *TypeSpec, b *bytes.Buffer) {
	b.WriteString(t.Name + " ")
	if t.IsAlias() {
		b.WriteString("= ")
	}
	t.writeUnderlying(b)
	b.WriteString("\n")
}
