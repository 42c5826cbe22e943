package main

import (
	"go/ast"
	"go/token"
)

// funcAfterAST names the function whose doc comment contains c.
func funcAfterAST(f interface{}, fset *token.FileSet, c interface{}) string {
	file, cm := f.(*ast.File), c.(*ast.Comment)
	for _, d := range file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil && fd.Doc.Pos() <= cm.Pos() && cm.Pos() < fd.Doc.End() {
			return fd.Name.Name
		}
	}
	return ""
}
