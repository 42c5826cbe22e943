package ga

import (
	"strings"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
)

// The integer types of zserio, with the Go type that holds them. Bit fields
// (name ending in a colon) have a width, or a width that is evaluated at run
// time (name ending in <>).
var intTypes = []struct {
	name   string
	signed bool
	bits   int
}{
	{"int8", true, 8}, {"int16", true, 16}, {"int32", true, 32}, {"int64", true, 64},
	{"uint8", false, 8}, {"uint16", false, 16}, {"uint32", false, 32}, {"uint64", false, 64},
	{"varint", true, 64}, {"varint16", true, 16}, {"varint32", true, 32}, {"varint64", true, 64},
	{"varuint", false, 64}, {"varuint16", false, 16}, {"varuint32", false, 32}, {"varuint64", false, 64},
	{"varsize", false, 64},
	{"bit:", false, 0}, {"int:", true, 0}, {"bit<>", false, 64}, {"int<>", true, 64},
}

var floatTypes = []struct {
	name string
	bits int
}{{"float16", 32}, {"float32", 32}, {"float64", 64}}

// typeOf makes a reference to integer type k, and gives the smallest Go width
// that holds all its values.
func typeOf(k int) (t *ast.TypeReference, signed bool, width int) {
	e := intTypes[k]
	t = &ast.TypeReference{IsBuiltin: true, Name: strings.TrimRight(e.name, ":<>")}
	width = e.bits
	switch {
	case strings.HasSuffix(e.name, ":"):
		t.Bits = cv.Any[int]("bits")
		cv.Requires(t.Bits >= 1 && t.Bits <= 64)
		width = cv.Ite(t.Bits <= 8, 8, cv.Ite(t.Bits <= 16, 16, cv.Ite(t.Bits <= 32, 32, 64)))
	case strings.HasSuffix(e.name, "<>"):
		t.LengthExpression = &ast.Expression{ResultType: ast.ExpressionTypeInteger}
	}
	return t, e.signed, width
}

func goName(signed bool, width int) string {
	u := ""
	if !signed {
		u = "u"
	}
	switch width {
	case 8:
		return u + "int8"
	case 16:
		return u + "int16"
	case 32:
		return u + "int32"
	}
	return u + "int64"
}

func goTypeOf(t *ast.TypeReference) string {
	s, err := ast.NewPackage("p").GoType(t)
	cv.Ensures(err == nil, "the type has a Go type")
	return s
}

func mixed(a, b *ast.TypeReference, ta, tb ast.ExpressionType) (ast.ExpressionType, *ast.TypeReference) {
	k, t, err := ast.DetermineArithmeticOperationResultType(
		&ast.Expression{ResultType: ta, NativeZserioType: a},
		&ast.Expression{ResultType: tb, NativeZserioType: b})
	cv.Ensures(err == nil, "the operands can be mixed")
	return k, t
}

// Every integer type maps to the smallest Go type that holds its values.
//
//gocv:harness prop=C14 param=t:0..20
func HGoType() {
	t, signed, width := typeOf(cv.Param("t"))
	cv.Ensures(goTypeOf(t) == goName(signed, width), "smallest Go type that holds all values")
}

// Two integers: one Go type, wide enough for both.
//
//gocv:harness prop=C14 param=t:0..20 param=u:0..20 provides=mix
func HMixInt() {
	a, sa, wa := typeOf(cv.Param("t"))
	b, sb, wb := typeOf(cv.Param("u"))
	k1, t1 := mixed(a, b, ast.ExpressionTypeInteger, ast.ExpressionTypeInteger)
	k2, t2 := mixed(b, a, ast.ExpressionTypeInteger, ast.ExpressionTypeInteger)
	cv.Ensures(k1 == ast.ExpressionTypeInteger && k2 == k1, "the result is an integer")
	g1, g2 := goTypeOf(t1), goTypeOf(t2)
	cv.Ensures(g1 == g2, "the same Go type in either order")
	cv.Ensures(widthOf(g1) >= wa && widthOf(g1) >= wb, "as wide as the Go types of both operands")
	cv.Ensures(widthOf(g1) == max(wa, wb), "no wider than needed")
	cv.Ensures(strings.HasPrefix(g1, "uint") == !(sa && sb), "unsigned exactly if one operand is")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

func widthOf(g string) int {
	switch strings.TrimPrefix(g, "u") {
	case "int8":
		return 8
	case "int16":
		return 16
	case "int32":
		return 32
	case "int64":
		return 64
	}
	return 0
}

// An integer and a literal (which has no type of its own).
//
//gocv:harness prop=C14 param=t:0..20
func HMixLiteral() {
	a, signed, width := typeOf(cv.Param("t"))
	value := cv.Any[int64]("literal")
	literal := func() *ast.Expression {
		return &ast.Expression{ResultType: ast.ExpressionTypeInteger, FullyResolved: true, ResultIntValue: value}
	}
	operand := func() *ast.Expression {
		return &ast.Expression{ResultType: ast.ExpressionTypeInteger, NativeZserioType: a}
	}
	k1, t1, err1 := ast.DetermineArithmeticOperationResultType(operand(), literal())
	k2, t2, err2 := ast.DetermineArithmeticOperationResultType(literal(), operand())
	cv.Ensures(err1 == nil && err2 == nil, "the operands can be mixed")
	cv.Ensures(k1 == ast.ExpressionTypeInteger && k2 == k1, "the result is an integer")
	g1, g2 := goTypeOf(t1), goTypeOf(t2)
	cv.Ensures(g1 == g2, "the same Go type in either order")
	fits := value>>(width-1) == value>>63
	if !signed {
		fits = value >= 0 && (width == 64 || value>>width == 0)
	}
	if fits {
		cv.Ensures(g1 == goName(signed, width), "the type of the operand, if it holds the literal")
		cv.Cover("fits")
	} else {
		cv.Ensures(g1 == "int64", "a type that holds the literal")
	}
	k, t := mixed(nil, nil, ast.ExpressionTypeInteger, ast.ExpressionTypeInteger)
	cv.Ensures(k == ast.ExpressionTypeInteger && t == nil, "two literals have no type")
}

// An integer (or integer literal) and a float: a float.
//
//gocv:harness prop=C14 param=t:0..21 param=f:0..3
func HMixIntFloat() {
	var a, f *ast.TypeReference
	width := 64
	if k := cv.Param("t"); k < len(intTypes) {
		a, _, _ = typeOf(k)
	}
	if k := cv.Param("f"); k < len(floatTypes) {
		f = &ast.TypeReference{IsBuiltin: true, Name: floatTypes[k].name}
		width = floatTypes[k].bits
	}
	k1, t1 := mixed(a, f, ast.ExpressionTypeInteger, ast.ExpressionTypeFloat)
	k2, t2 := mixed(f, a, ast.ExpressionTypeFloat, ast.ExpressionTypeInteger)
	cv.Ensures(k1 == ast.ExpressionTypeFloat && k2 == k1, "the result is a float")
	if a == nil && f == nil {
		cv.Ensures(t1 == nil && t2 == nil, "two literals have no type")
		return
	}
	cv.Ensures(goTypeOf(t1) == floatName(width), "the type of the float")
	cv.Ensures(goTypeOf(t2) == floatName(width), "the type of the float")
}

func floatName(width int) string {
	if width == 32 {
		return "float32"
	}
	return "float64"
}

// Two floats (or float literals): the wider one.
//
//gocv:harness prop=C14 param=f:0..3 param=g:0..3
func HMixFloat() {
	var a, b *ast.TypeReference
	width := 0
	if k := cv.Param("f"); k < len(floatTypes) {
		a = &ast.TypeReference{IsBuiltin: true, Name: floatTypes[k].name}
		width = floatTypes[k].bits
	}
	if k := cv.Param("g"); k < len(floatTypes) {
		b = &ast.TypeReference{IsBuiltin: true, Name: floatTypes[k].name}
		width = max(width, floatTypes[k].bits)
	}
	k1, t1 := mixed(a, b, ast.ExpressionTypeFloat, ast.ExpressionTypeFloat)
	cv.Ensures(k1 == ast.ExpressionTypeFloat, "the result is a float")
	if a == nil && b == nil {
		cv.Ensures(t1 == nil, "two literals have no type")
		return
	}
	cv.Ensures(goTypeOf(t1) == floatName(width), "the wider of the two")
}

// Operands that are not numbers are refused.
//
//gocv:harness prop=C14 param=k:0..5
func HMixOther() {
	bad := []ast.ExpressionType{ast.ExpressionTypeBool, ast.ExpressionTypeString, ast.ExpressionTypeEnum,
		ast.ExpressionTypeBitmask, ast.ExpressionTypeCompound, ""}[cv.Param("k")]
	a, _, _ := typeOf(cv.Choose("t", 0, 20))
	op1 := &ast.Expression{ResultType: ast.ExpressionTypeInteger, NativeZserioType: a}
	op2 := &ast.Expression{ResultType: bad}
	_, _, err1 := ast.DetermineArithmeticOperationResultType(op1, op2)
	_, _, err2 := ast.DetermineArithmeticOperationResultType(op2, op1)
	cv.Ensures(err1 != nil && err2 != nil, "is an error")
}
