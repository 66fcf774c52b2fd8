package gopoet

import (
	"bytes"
	"strconv"
)

//verif:P15 (*FuncSpec).writeTo
func specFuncSpec(f *FuncSpec, b *bytes.Buffer) {
	writeComment(f.Comment, b)
	b.WriteString("func ")
	if f.Receiver != nil {
		b.WriteString("(")
		if f.Receiver.Name != "" {
			b.WriteString(f.Receiver.Name + " ")
		}
		if f.Receiver.IsPointer {
			b.WriteString("*")
		}
		b.WriteString(f.Receiver.Type + ") ")
	}
	b.WriteString(f.Name)
	signatureToBuffer(&f.Signature, b)
	b.WriteString(" {\n")
	f.CodeBlock.writeTo(b)
	b.WriteString("}\n")
}

//verif:P15,P17 (*TypeSpec).writeUnderlying
func specWriteUnderlying(t *TypeSpec, b *bytes.Buffer) {
	switch t.underlying.Kind() {
	case KindInterface:
		b.WriteString(" interface {\n")
		for _, e := range t.interfaceBody {
			switch e := e.(type) {
			case *InterfaceEmbed:
				writeComment(e.Comment, b)
				b.WriteString(e.Type.String() + "\n")
			case *InterfaceMethod:
				writeComment(e.Comment, b)
				b.WriteString(e.Name)
				signatureToBuffer(&e.Signature, b)
				b.WriteString("\n")
			}
		}
		b.WriteString("}")
	case KindStruct:
		b.WriteString(" struct {\n")
		for _, f := range t.structBody {
			specField(f, b)
		}
		b.WriteString("}")
	default:
		b.WriteString(" " + t.underlying.String())
	}
}

func specField(f *FieldSpec, b *bytes.Buffer) {
	writeComment(f.Comment, b)
	if f.Name != "" {
		b.WriteString(f.Name + " ")
	}
	switch t := f.Type.(type) {
	case TypeName:
		if t.Kind() == KindStruct || t.Kind() == KindInterface {
			NewTypeSpec("", t).writeUnderlying(b)
		} else {
			b.WriteString(t.String())
		}
	case *TypeSpec:
		if t.Name == "" {
			t.writeUnderlying(b)
		} else {
			b.WriteString(t.ToSymbol().String())
		}
	}
	if f.Tag != "" {
		if strconv.CanBackquote(string(f.Tag)) {
			b.WriteString(" `" + string(f.Tag) + "`")
		} else {
			b.WriteString(" " + strconv.Quote(string(f.Tag)))
		}
	}
	b.WriteString("\n")
}
