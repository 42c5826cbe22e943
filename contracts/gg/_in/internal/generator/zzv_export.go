package generator

import "github.com/woven-planet/go-zserio/internal/ast"

// ZVUniquePath gives the contracts access to assembleUniqueFilePath.
func ZVUniquePath(dir, fn string, max int) (string, error) { return assembleUniqueFilePath(dir, fn, max) }

// ZVForget starts with no file generated so far.
func ZVForget() { uniquePaths = nil }

var _ ast.Scope
