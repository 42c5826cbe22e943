// Package ga holds the contracts of the compiler's expression evaluation.
package ga

import (
	"math/bits"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/parser"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
)

// The contracts are stated per operator over operands that are already
// evaluated to arbitrary values; by induction over the expression tree they
// give the value of every constant expression (Evaluate evaluates the operands
// first, HOperandsFirst).

func known(t ast.ExpressionType) *ast.Expression {
	return &ast.Expression{EvaluationState: ast.EvaluationStateComplete, FullyResolved: true, ResultType: t}
}

func intVal(v int64) *ast.Expression {
	e := known(ast.ExpressionTypeInteger)
	e.ResultIntValue = v
	return e
}

func floatVal(v float64) *ast.Expression {
	e := known(ast.ExpressionTypeFloat)
	e.ResultFloatValue = v
	return e
}

func boolVal(v bool) *ast.Expression {
	e := known(ast.ExpressionTypeBool)
	e.ResultBoolValue = v
	return e
}

func strVal(v string) *ast.Expression {
	e := known(ast.ExpressionTypeString)
	e.ResultStringValue = v
	return e
}

var nativeNames = []string{"", "int8", "uint16", "varint32", "uint64"}

// anyNative: the operand's declared type does not influence its value.
func anyNative(label string) *ast.TypeReference {
	n := nativeNames[cv.Choose(label, 0, len(nativeNames)-1)]
	if n == "" {
		return nil
	}
	return &ast.TypeReference{IsBuiltin: true, Name: n}
}

func done(e *ast.Expression, err error, t ast.ExpressionType) {
	cv.Ensures(err == nil, "evaluates")
	cv.Ensures(e.ResultType == t, "type of the result")
	cv.Ensures(e.FullyResolved, "is a constant")
	cv.Ensures(e.EvaluationState == ast.EvaluationStateComplete, "is evaluated")
}

var intOps = []int{
	parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY,
	parser.ZserioParserDIVIDE, parser.ZserioParserMODULO,
	parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT,
	parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR,
}

// intSem: the value of an integer operator; false if it has none.
func intSem(op int, a, b int64) (int64, bool) {
	switch op {
	case parser.ZserioParserPLUS:
		return a + b, true
	case parser.ZserioParserMINUS:
		return a - b, true
	case parser.ZserioParserMULTIPLY:
		return a * b, true
	case parser.ZserioParserDIVIDE:
		if b == 0 {
			return 0, false
		}
		return a / b, true
	case parser.ZserioParserMODULO:
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case parser.ZserioLexerLSHIFT:
		if b < 0 {
			return 0, false
		}
		return a << uint64(b), true
	case parser.ZserioParserRSHIFT:
		if b < 0 {
			return 0, false
		}
		return a >> uint64(b), true
	case parser.ZserioParserAND:
		return a & b, true
	case parser.ZserioParserOR:
		return a | b, true
	}
	return a ^ b, true
}

// Integer operators compute in 64-bit two's complement.
//
//gocv:harness prop=C13 param=op:0..9
func HFoldInt() {
	op := intOps[cv.Param("op")]
	a, b := cv.Any[int64]("a"), cv.Any[int64]("b")
	x, y := intVal(a), intVal(b)
	x.NativeZserioType, y.NativeZserioType = anyNative("type a"), anyNative("type b")
	e := &ast.Expression{Type: op, Operand1: x, Operand2: y}
	var err error
	ok := cv.NoPanic(func() { err = e.Evaluate(&ast.Package{}) })
	cv.Ensures(ok, "never panics")
	want, def := intSem(op, a, b)
	if !def {
		cv.Ensures(err != nil, "an undefined operation is an error")
		return
	}
	cv.Cover("evaluated")
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == want, "value of the operator")
	cv.Ensures(x.ResultIntValue == a && y.ResultIntValue == b, "operands keep their value")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

var cmpOps = []int{
	parser.ZserioParserLT, parser.ZserioParserLE, parser.ZserioParserGT,
	parser.ZserioParserGE, parser.ZserioParserEQ, parser.ZserioParserNE,
}

func cmpSem(op int, lt, eq, gt bool) bool {
	switch op {
	case parser.ZserioParserLT:
		return lt
	case parser.ZserioParserLE:
		return cv.Or(lt, eq)
	case parser.ZserioParserGT:
		return gt
	case parser.ZserioParserGE:
		return cv.Or(gt, eq)
	case parser.ZserioParserEQ:
		return eq
	}
	return !eq
}

// Comparison of integers, bitmasks, bools, strings and floats.
//
//gocv:harness prop=C13 param=op:0..5
func HFoldCompareInt() {
	op := cmpOps[cv.Param("op")]
	a, b := cv.Any[int64]("a"), cv.Any[int64]("b")
	x, y := intVal(a), intVal(b)
	if cv.Choose("bitmask a", 0, 1) == 1 {
		x.ResultType = ast.ExpressionTypeBitmask
	}
	if cv.Choose("bitmask b", 0, 1) == 1 {
		y.ResultType = ast.ExpressionTypeBitmask
	}
	x.NativeZserioType, y.NativeZserioType = anyNative("type a"), anyNative("type b")
	e := &ast.Expression{Type: op, Operand1: x, Operand2: y}
	err := e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == cmpSem(op, a < b, a == b, a > b), "value of the comparison")
}

//gocv:harness prop=C13 param=op:0..5
func HFoldCompareFloat() {
	op := cmpOps[cv.Param("op")]
	a, b := cv.Any[float64]("a"), cv.Any[float64]("b")
	e := &ast.Expression{Type: op, Operand1: floatVal(a), Operand2: floatVal(b)}
	err := e.Evaluate(&ast.Package{})
	if err != nil {
		cv.Ensures(op == parser.ZserioParserEQ || op == parser.ZserioParserNE, "only equality of floats is refused")
		return
	}
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == cmpSem(op, a < b, a == b, a > b), "value of the comparison")
}

//gocv:harness prop=C13 param=op:0..5
func HFoldCompareBool() {
	op := cmpOps[cv.Param("op")]
	a, b := cv.Any[bool]("a"), cv.Any[bool]("b")
	e := &ast.Expression{Type: op, Operand1: boolVal(a), Operand2: boolVal(b)}
	err := e.Evaluate(&ast.Package{})
	if op != parser.ZserioParserEQ && op != parser.ZserioParserNE {
		cv.Ensures(err != nil, "bools have no order")
		return
	}
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == ((a == b) == (op == parser.ZserioParserEQ)), "value of the comparison")
}

//gocv:harness prop=C13 param=op:0..5
func HFoldCompareString() {
	op := cmpOps[cv.Param("op")]
	a, b := cv.Any[string]("a"), cv.Any[string]("b")
	e := &ast.Expression{Type: op, Operand1: strVal(a), Operand2: strVal(b)}
	err := e.Evaluate(&ast.Package{})
	if op != parser.ZserioParserEQ && op != parser.ZserioParserNE {
		cv.Ensures(err != nil, "strings have no order")
		return
	}
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == ((a == b) == (op == parser.ZserioParserEQ)), "value of the comparison")
}

var floatOps = []int{
	parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE,
}

func floatSem(op int, a, b float64) float64 {
	switch op {
	case parser.ZserioParserPLUS:
		return a + b
	case parser.ZserioParserMINUS:
		return a - b
	case parser.ZserioParserMULTIPLY:
		return a * b
	}
	return a / b
}

// Float operators, also with one integer operand, compute in float64.
//
//gocv:harness prop=C13 param=op:0..3 param=mix:0..2
func HFoldFloat() {
	op := floatOps[cv.Param("op")]
	a, b := cv.Any[float64]("a"), cv.Any[float64]("b")
	x, y := floatVal(a), floatVal(b)
	if cv.Param("mix") == 1 {
		i := cv.Any[int64]("i")
		x, a = intVal(i), float64(i)
	}
	if cv.Param("mix") == 2 {
		i := cv.Any[int64]("i")
		y, b = intVal(i), float64(i)
	}
	e := &ast.Expression{Type: op, Operand1: x, Operand2: y}
	err := e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeFloat)
	cv.Ensures(cv.Same(e.ResultFloatValue, floatSem(op, a, b)), "value of the operator")
}

// Logical operators.
//
//gocv:harness prop=C13
func HFoldLogical() {
	a, b := cv.Any[bool]("a"), cv.Any[bool]("b")
	e := &ast.Expression{Type: parser.ZserioParserLOGICAL_AND, Operand1: boolVal(a), Operand2: boolVal(b)}
	err := e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == cv.And(a, b), "and")
	e = &ast.Expression{Type: parser.ZserioParserLOGICAL_OR, Operand1: boolVal(a), Operand2: boolVal(b)}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == cv.Or(a, b), "or")
	e = &ast.Expression{Type: parser.ZserioParserBANG, Operand1: boolVal(a)}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == !a, "not")
}

// Unary operators of integers and floats, numbits.
//
//gocv:harness prop=C13
func HFoldUnary() {
	a := cv.Any[int64]("a")
	f := cv.Any[float64]("f")
	t := anyNative("type")
	x := intVal(a)
	x.NativeZserioType = t
	e := &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: x}
	err := e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == a, "plus integer")
	e = &ast.Expression{Type: parser.ZserioParserMINUS, Operand1: x}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == -a, "minus integer")
	e = &ast.Expression{Type: parser.ZserioParserTILDE, Operand1: x}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == ^a, "bitwise negation")
	e = &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: floatVal(f)}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeFloat)
	cv.Ensures(cv.Same(e.ResultFloatValue, f), "plus float")
	e = &ast.Expression{Type: parser.ZserioParserMINUS, Operand1: floatVal(f)}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeFloat)
	cv.Ensures(cv.Same(e.ResultFloatValue, -f), "minus float")
}

// numbits(v) is the number of bits that v different values need, as at run time.
//
//gocv:harness prop=C13
func HFoldNumbits() {
	a := cv.Any[int64]("a")
	e := &ast.Expression{Type: parser.ZserioParserNUMBITS, Operand1: intVal(a)}
	err := e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeInteger)
	want := int64(bits.Len64(uint64(a) - 1))
	if a == 0 {
		want = 0
	}
	if a == 1 {
		want = 1
	}
	cv.Ensures(e.ResultIntValue == want, "number of bits")
}

// Parentheses and the conditional operator pass every kind of value on.
//
//gocv:harness prop=C13
func HFoldPass() {
	mk := func(l string) *ast.Expression {
		e := known([]ast.ExpressionType{ast.ExpressionTypeInteger, ast.ExpressionTypeFloat, ast.ExpressionTypeString,
			ast.ExpressionTypeBool, ast.ExpressionTypeBitmask}[cv.Choose(l+" type", 0, 4)])
		e.ResultIntValue = cv.Any[int64](l + " int")
		e.ResultFloatValue = cv.Any[float64](l + " float")
		e.ResultBoolValue = cv.Any[bool](l + " bool")
		e.ResultStringValue = cv.Any[string](l + " string")
		return e
	}
	eq := func(e, x *ast.Expression) bool {
		switch x.ResultType {
		case ast.ExpressionTypeInteger, ast.ExpressionTypeBitmask:
			return e.ResultIntValue == x.ResultIntValue
		case ast.ExpressionTypeFloat:
			return cv.Same(e.ResultFloatValue, x.ResultFloatValue)
		case ast.ExpressionTypeBool:
			return e.ResultBoolValue == x.ResultBoolValue
		}
		return e.ResultStringValue == x.ResultStringValue
	}
	x, y := mk("x"), mk("y")
	e := &ast.Expression{Type: parser.ZserioParserLPAREN, Operand1: x}
	err := e.Evaluate(&ast.Package{})
	done(e, err, x.ResultType)
	cv.Ensures(eq(e, x), "parentheses")
	c := cv.Any[bool]("c")
	e = &ast.Expression{Type: parser.ZserioParserQUESTIONMARK, Operand1: boolVal(c), Operand2: x, Operand3: y}
	err = e.Evaluate(&ast.Package{})
	if !c {
		x = y
	}
	done(e, err, x.ResultType)
	cv.Ensures(eq(e, x), "conditional")
}

// Strings are concatenated.
//
//gocv:harness prop=C13 param=n:0..3 param=m:0..3 bounded="strings of at most 3 bytes"
func HFoldConcat() {
	a := string(cv.AnySlice[byte]("a", cv.Param("n")))
	b := string(cv.AnySlice[byte]("b", cv.Param("m")))
	e := &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: strVal(a), Operand2: strVal(b)}
	err := e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeString)
	cv.Ensures(e.ResultStringValue == a+b, "concatenation")
}

// Bitmask operators.
//
//gocv:harness prop=C13
func HFoldBitmask() {
	a, b := cv.Any[int64]("a"), cv.Any[int64]("b")
	x, y := known(ast.ExpressionTypeBitmask), known(ast.ExpressionTypeBitmask)
	x.ResultIntValue, y.ResultIntValue = a, b
	e := &ast.Expression{Type: parser.ZserioParserISSET, Operand1: x, Operand2: y}
	err := e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeBool)
	cv.Ensures(e.ResultBoolValue == (a&b != 0), "isset")
	e = &ast.Expression{Type: parser.ZserioParserVALUEOF, Operand1: x}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == a, "valueof")
	e = &ast.Expression{Type: parser.ZserioParserTILDE, Operand1: x}
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeBitmask)
	cv.Ensures(e.ResultIntValue == ^a, "negation")
	for i, op := range []int{parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR} {
		e = &ast.Expression{Type: op, Operand1: x, Operand2: y}
		err = e.Evaluate(&ast.Package{})
		done(e, err, ast.ExpressionTypeBitmask)
		want := []int64{a & b, a | b, a ^ b}[i]
		cv.Ensures(e.ResultIntValue == want, "bitwise operator")
	}
}

var allOps = []int{
	parser.ZserioParserLPAREN, parser.ZserioParserISSET, parser.ZserioParserVALUEOF, parser.ZserioParserNUMBITS,
	parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE,
	parser.ZserioParserMODULO, parser.ZserioParserBANG, parser.ZserioParserTILDE, parser.ZserioLexerLSHIFT,
	parser.ZserioParserRSHIFT, parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR,
	parser.ZserioParserLOGICAL_AND, parser.ZserioParserLOGICAL_OR, parser.ZserioParserLT, parser.ZserioParserLE,
	parser.ZserioParserGT, parser.ZserioParserGE, parser.ZserioParserEQ, parser.ZserioParserNE,
	parser.ZserioParserQUESTIONMARK,
}

func unary(op int) bool {
	switch op {
	case parser.ZserioParserLPAREN, parser.ZserioParserVALUEOF, parser.ZserioParserNUMBITS,
		parser.ZserioParserBANG, parser.ZserioParserTILDE:
		return true
	}
	return false
}

var allTypes = []ast.ExpressionType{
	ast.ExpressionTypeInteger, ast.ExpressionTypeFloat, ast.ExpressionTypeString, ast.ExpressionTypeBool,
	ast.ExpressionTypeBitmask, ast.ExpressionTypeEnum, ast.ExpressionTypeCompound,
}

// Whatever its operands, evaluating an operator never panics, and a result that
// depends on something that is not a constant is not a constant.
//
//gocv:harness prop=C13 param=op:0..24
func HFoldAny() {
	op := allOps[cv.Param("op")]
	mk := func(l string) *ast.Expression {
		e := known(allTypes[cv.Choose(l+" type", 0, 6)])
		e.FullyResolved = cv.Any[bool](l + " constant")
		e.ResultIntValue = cv.Any[int64](l + " int")
		e.ResultFloatValue = cv.Any[float64](l + " float")
		e.ResultBoolValue = cv.Any[bool](l + " bool")
		e.ResultStringValue = cv.Any[string](l + " string")
		return e
	}
	x := mk("x")
	e := &ast.Expression{Type: op, Operand1: x}
	all := x.FullyResolved
	if !unary(op) && !((op == parser.ZserioParserPLUS || op == parser.ZserioParserMINUS) && cv.Choose("unary", 0, 1) == 1) {
		e.Operand2 = mk("y")
		all = all && e.Operand2.FullyResolved
	}
	if op == parser.ZserioParserQUESTIONMARK {
		e.Operand3 = intVal(0)
	}
	var err error
	ok := cv.NoPanic(func() { err = e.Evaluate(&ast.Package{}) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(err != nil || e.FullyResolved == all, "constant exactly if all operands are")
}

// Operands are evaluated before the operator, whatever the tree: the value of
// the root is the operator applied to the values of the subtrees.
//
//gocv:harness prop=C13 param=op:0..9
func HOperandsFirst() {
	op := intOps[cv.Param("op")]
	in := intOps[cv.Choose("left", 0, 9)]
	a, b, c := cv.Any[int64]("a"), cv.Any[int64]("b"), cv.Any[int64]("c")
	l := &ast.Expression{Type: in, Operand1: intVal(a), Operand2: intVal(b)}
	r := &ast.Expression{Type: parser.ZserioParserMINUS, Operand1: intVal(c)}
	p := &ast.Expression{Type: parser.ZserioParserLPAREN, Operand1: l}
	e := &ast.Expression{Type: op, Operand1: p, Operand2: r}
	err := e.Evaluate(&ast.Package{})
	lv, ok := intSem(in, a, b)
	var want int64
	if ok {
		want, ok = intSem(op, lv, -c)
	}
	if !ok {
		cv.Ensures(err != nil, "an undefined operation is an error")
		return
	}
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == want, "value of the tree")
	// evaluating again changes nothing
	err = e.Evaluate(&ast.Package{})
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == want, "value of the tree")
}

// A constant that depends on itself is an error.
//
//gocv:harness prop=C13
func HFoldCycle() {
	e := &ast.Expression{Type: parser.ZserioParserLPAREN}
	e.Operand1 = &ast.Expression{Type: parser.ZserioParserMINUS, Operand1: e}
	err := e.Evaluate(&ast.Package{})
	cv.Ensures(err != nil, "a cyclic expression is an error")
}
