package gopoet

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"io"
	"os"
	"path/filepath"
	"strings"
)

// A file is qualified as a whole, rendered as a whole, formatted, and then
// written at once.
//
//verif:P10,P11,P19 WriteGoFile
func specWriteGoFile(w io.Writer, f *GoFile) error {
	for _, e := range f.elements {
		e.qualify(&f.Imports)
	}
	var b bytes.Buffer
	specFile(f, &b)
	out, err := format.Source(b.Bytes())
	if err != nil {
		return &FormatError{Unformatted: b.Bytes(), Err: err}
	}
	_, err = w.Write(out)
	return err
}

func specFile(f *GoFile, b *bytes.Buffer) {
	if f.FileComment != "" {
		writeComment(f.FileComment, b)
		b.WriteString("\n")
	}
	writeComment(f.PackageComment, b)
	b.WriteString("package " + f.PackageName)
	if f.CanonicalImportPath != "" {
		b.WriteString(fmt.Sprintf(" // import %q", f.CanonicalImportPath))
	}
	b.WriteString("\n\n")
	for _, i := range f.ImportSpecs() {
		b.WriteString("import ")
		if i.PackageAlias != "" {
			b.WriteString(i.PackageAlias + " ")
		}
		b.WriteString(fmt.Sprintf("%q", i.ImportPath))
		b.WriteString("\n")
	}
	for _, e := range f.elements {
		b.WriteString("\n")
		e.writeTo(b)
	}
}

//verif:P19 (*FormatError).Error
func specFormatError(e *FormatError) string {
	return e.Err.Error()
}

//verif:P20 WriteGoFiles
func specWriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoFile) error {
	for _, file := range files {
		w, err := outFn(filepath.Join(file.Package().ImportPath, file.Name))
		if err != nil {
			return err
		}
		err = WriteGoFile(w, file)
		if cerr := w.Close(); err == nil {
			err = cerr
		}
		if err != nil {
			return err
		}
	}
	return nil
}

//verif:P21 WriteGoFilesToFileSystem
func specWriteGoFilesToFileSystem(rootDir string, files ...*GoFile) error {
	return WriteGoFiles(func(path string) (io.WriteCloser, error) {
		full := filepath.Join(rootDir, path)
		if err := os.MkdirAll(filepath.Dir(full), os.ModePerm); err != nil {
			return nil, err
		}
		return os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	}, files...)
}

//verif:P21 WriteGoFilesToGoPath
func specWriteGoFilesToGoPath(files ...*GoFile) error {
	g := os.Getenv("GOPATH")
	if g == "" {
		return errors.New("GOPATH is empty")
	}
	return WriteGoFilesToFileSystem(strings.Split(g, string(filepath.ListSeparator))[0], files...)
}
