// Package simparser replaces go/parser in simulated code: files are read from
// the simulated file system.
package simparser

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/simfilepath"
	"sigs.k8s.io/controller-tools/verifsim/simos"
)

func read(filename string, src any) ([]byte, error) {
	switch s := src.(type) {
	case nil:
		return simos.ReadFile(filename)
	case string:
		return []byte(s), nil
	case []byte:
		return s, nil
	case *bytes.Buffer:
		return s.Bytes(), nil
	case io.Reader:
		return io.ReadAll(s)
	}
	return simos.ReadFile(filename)
}

func ParseFile(fset *token.FileSet, filename string, src any, mode parser.Mode) (*ast.File, error) {
	b, err := read(filename, src)
	if err != nil {
		return nil, err
	}
	return parser.ParseFile(fset, filename, b, mode)
}

func ParseDir(fset *token.FileSet, path string, filter func(fs.FileInfo) bool, mode parser.Mode) (map[string]*ast.Package, error) {
	list, err := simos.ReadDir(path)
	if err != nil {
		return nil, err
	}
	pkgs := map[string]*ast.Package{}
	var first error
	for _, d := range list {
		if d.IsDir() || !strings.HasSuffix(d.Name(), ".go") {
			continue
		}
		if filter != nil {
			info, _ := d.Info()
			if !filter(info) {
				continue
			}
		}
		fn := simfilepath.Join(path, d.Name())
		f, err := ParseFile(fset, fn, nil, mode)
		if err != nil {
			if first == nil {
				first = err
			}
			continue
		}
		p := pkgs[f.Name.Name]
		if p == nil {
			p = &ast.Package{Name: f.Name.Name, Files: map[string]*ast.File{}}
			pkgs[f.Name.Name] = p
		}
		p.Files[fn] = f
	}
	return pkgs, first
}
