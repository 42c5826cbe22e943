package ga

import (
	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/parser"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
)

func literal(typ int, text string, v uint64, over bool) {
	e := &ast.Expression{Type: typ, Text: text}
	err := e.Evaluate(&ast.Package{})
	if over {
		cv.Ensures(err != nil, "a literal that does not fit is an error")
		return
	}
	done(e, err, ast.ExpressionTypeInteger)
	cv.Ensures(e.ResultIntValue == int64(v), "value of the literal")
}

// Integer literals in every notation: for every length, digit patterns with
// the smallest, the largest and mixed digits (the conversion itself is
// strconv's, which is trusted; what is checked is that the whole text reaches
// it in the right notation).
//
//gocv:harness prop=C13 param=base:0..3 bounded="integer literals: six digit patterns of every length up to 64 bits"
func HLitInt() {
	k := cv.Param("base")
	base := []uint64{10, 16, 8, 2}[k]
	typ := []int{parser.ZserioParserDECIMAL_LITERAL, parser.ZserioParserHEXADECIMAL_LITERAL,
		parser.ZserioParserOCTAL_LITERAL, parser.ZserioParserBINARY_LITERAL}[k]
	max := []int{20, 17, 22, 65}[k]
	for n := 1; n <= max; n++ {
		for pat := 0; pat < 6; pat++ {
			text, v, over := "", uint64(0), false
			for i := 0; i < n; i++ {
				d := uint64(0)
				switch pat {
				case 0: // 1000...
					if i == 0 {
						d = 1
					}
				case 1: // largest digit
					d = base - 1
				case 2: // 1234...
					d = uint64(i+1) % base
				case 3: // ...9876
					d = (base - 1 - uint64(i)%base) % base
				case 4: // 10...01
					if i == 0 || i == n-1 {
						d = 1
					}
				case 5:
					d = 1
				}
				if i == 0 && d == 0 && base == 10 && n > 1 {
					d = 1
				}
				if v > (1<<63-1-d)/base {
					over = true
				}
				v = v*base + d
				digit := "0123456789abcdef"[d : d+1]
				if pat%2 == 1 {
					digit = "0123456789ABCDEF"[d : d+1]
				}
				text += digit
			}
			switch base {
			case 16:
				literal(typ, "0x"+text, v, over)
				literal(typ, "0X"+text, v, over)
			case 8:
				literal(typ, "0"+text, v, over)
			case 2:
				literal(typ, text+"b", v, over)
				literal(typ, text+"B", v, over)
			default:
				literal(typ, text, v, over)
			}
		}
	}
	literal(typ, []string{"9223372036854775807", "0x7fffffffffffffff", "0777777777777777777777",
		"111111111111111111111111111111111111111111111111111111111111111b"}[k], 1<<63-1, false)
	literal(parser.ZserioParserDECIMAL_LITERAL, "0", 0, false)
}

// Other literals, by example (floating point conversion is strconv's).
//
//gocv:harness prop=C13 bounded="float, bool and string literals: the listed texts"
func HLitOther() {
	for _, x := range []struct {
		typ  int
		text string
		want float64
	}{
		{parser.ZserioParserDOUBLE_LITERAL, "1.5", 1.5}, {parser.ZserioParserDOUBLE_LITERAL, "0.1", 0.1},
		{parser.ZserioParserDOUBLE_LITERAL, "3.", 3}, {parser.ZserioParserDOUBLE_LITERAL, ".25", 0.25},
		{parser.ZserioParserDOUBLE_LITERAL, "1e3", 1000}, {parser.ZserioParserDOUBLE_LITERAL, "2.5E-2", 0.025},
		{parser.ZserioLexerFLOAT_LITERAL, "1.5f", 1.5}, {parser.ZserioLexerFLOAT_LITERAL, "0.1F", float64(float32(0.1))},
		{parser.ZserioLexerFLOAT_LITERAL, "1e3f", 1000}, {parser.ZserioLexerFLOAT_LITERAL, ".5F", 0.5},
	} {
		e := &ast.Expression{Type: x.typ, Text: x.text}
		err := e.Evaluate(&ast.Package{})
		done(e, err, ast.ExpressionTypeFloat)
		cv.Ensures(e.ResultFloatValue == x.want, "value of the literal "+x.text)
	}
	for _, x := range []struct{ text, want string }{
		{`""`, ""}, {`"a b"`, "a b"}, {`"a\"b"`, `a"b`}, {`"\\n"`, `\n`}, {`"\n\r\t\f"`, "\n\r\t\f"}, {`"\u0041\x42"`, "AB"},
	} {
		e := &ast.Expression{Type: parser.ZserioParserSTRING_LITERAL, Text: x.text}
		err := e.Evaluate(&ast.Package{})
		done(e, err, ast.ExpressionTypeString)
		cv.Ensures(e.ResultStringValue == x.want, "value of the literal "+x.text)
	}
	for _, x := range []string{"true", "false"} {
		e := &ast.Expression{Type: parser.ZserioParserBOOL_LITERAL, Text: x}
		err := e.Evaluate(&ast.Package{})
		done(e, err, ast.ExpressionTypeBool)
		cv.Ensures(e.ResultBoolValue == (x == "true"), "value of the literal "+x)
	}
}

func id(n string) *ast.Expression { return &ast.Expression{Type: parser.ZserioParserID, Text: n} }

func dot(t, n string) *ast.Expression {
	return &ast.Expression{Type: parser.ZserioParserDOT, Text: ".", Operand1: id(t),
		Operand2: &ast.Expression{Type: parser.UnevaluatableExpressionType, Text: n}}
}

func pkg() *ast.Package { return ast.NewPackage("p") }

// A name of a constant stands for its value, in whatever order the constants
// are evaluated; constants that depend on each other are an error.
//
//gocv:harness prop=C13
func HConst() {
	p := pkg()
	a, b := cv.Any[int64]("a"), cv.Any[int64]("b")
	minus := &ast.Expression{Type: parser.ZserioParserMINUS, Operand1: id("A"), Operand2: intVal(b)}
	p.Consts["A"] = &ast.Const{Name: "A", ValueExpression: &ast.Expression{Type: parser.ZserioParserLPAREN, Operand1: intVal(a)}}
	p.Consts["B"] = &ast.Const{Name: "B", ValueExpression: minus}
	p.Consts["X"] = &ast.Const{Name: "X", ValueExpression: &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: id("Y"), Operand2: intVal(1)}}
	p.Consts["Y"] = &ast.Const{Name: "Y", ValueExpression: &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: id("X"), Operand2: intVal(1)}}
	cv.Ensures(p.CollectSymbols() == nil, "symbols")
	if cv.Choose("first", 0, 1) == 1 {
		cv.Ensures(p.Consts["A"].Evaluate(p) == nil, "evaluates")
	}
	c := p.Consts["B"]
	err := c.Evaluate(p)
	done(c.ValueExpression, err, ast.ExpressionTypeInteger)
	cv.Ensures(c.ValueExpression.ResultIntValue == a-b, "value of the constant")
	e := &ast.Expression{Type: parser.ZserioParserLPAREN, Operand1: id("X")}
	cv.Ensures(e.Evaluate(p) != nil, "a cyclic constant is an error")
	e = &ast.Expression{Type: parser.ZserioParserLPAREN, Operand1: id("Z")}
	cv.Ensures(e.Evaluate(p) != nil, "an unknown name is an error")
}

// Enum items without a value continue with the last value plus one, also when
// an item is used before the enum is evaluated.
//
//gocv:harness prop=C13 param=n:1..4 bounded="enums of at most 4 items"
func HEnum() {
	n := cv.Param("n")
	p := pkg()
	en := &ast.Enum{Name: "E", Type: &ast.TypeReference{IsBuiltin: true, Name: "int64"}}
	var want []int64
	names := []string{"A", "B", "C", "D"}
	last := int64(-1)
	for i := 0; i < n; i++ {
		it := &ast.EnumItem{Name: names[i]}
		last++
		switch cv.Choose("value", 0, 2) {
		case 1:
			last = cv.Any[int64]("v")
			it.Expression = &ast.Expression{Type: parser.ZserioParserLPAREN, Operand1: intVal(last)}
		case 2:
			d := cv.Any[int64]("d")
			if i == 0 {
				last = d
				it.Expression = &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: intVal(d)}
			} else {
				last = want[i-1] ^ d
				it.Expression = &ast.Expression{Type: parser.ZserioParserXOR, Operand1: id(names[i-1]), Operand2: intVal(d)}
			}
		}
		want = append(want, last)
		en.AddItem(it)
	}
	p.Enums["E"] = en
	cv.Ensures(p.CollectSymbols() == nil, "symbols")
	use := &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: dot("E", names[n-1]), Operand2: intVal(5)}
	early := cv.Choose("use first", 0, 1) == 1
	if early {
		err := use.Evaluate(p)
		done(use, err, ast.ExpressionTypeInteger)
	}
	cv.Ensures(en.Evaluate(p) == nil, "evaluates")
	for i := range want {
		cv.Ensures(en.Items[i].ResultType == ast.ExpressionTypeInteger, "items are integers")
		cv.Ensures(en.Items[i].ResultIntValue == want[i], "value of the item")
	}
	if !early {
		err := use.Evaluate(p)
		done(use, err, ast.ExpressionTypeInteger)
	}
	cv.Ensures(use.ResultIntValue == want[n-1]+5, "value of an expression of an item")
	cv.Ensures(en.Evaluate(p) == nil, "evaluates")
	cv.Ensures(en.Items[n-1].ResultIntValue == want[n-1], "value of the item")
}

// Bitmask values without a value continue with the next power of two.
//
//gocv:harness prop=C13 param=n:1..3 time=200 bounded="bitmasks of at most 3 values"
func HBitmask() {
	n := cv.Param("n")
	p := pkg()
	m := &ast.BitmaskType{Name: "M", Type: &ast.TypeReference{IsBuiltin: true, Name: "uint64"}}
	var want []int64
	names := []string{"A", "B", "C"}
	last := int64(0)
	for i := 0; i < n; i++ {
		it := &ast.BitmaskValue{Name: names[i]}
		if cv.Choose("explicit", 0, 1) == 1 {
			last = cv.Any[int64]("v")
			cv.Requires(last >= 0 && last < 1<<62)
			it.Expression = &ast.Expression{Type: parser.ZserioParserLPAREN, Operand1: intVal(last)}
		} else {
			next := cv.Any[int64]("next")
			// the smallest power of two above all bits of the last value
			cv.Requires(next > last && next&(next-1) == 0)
			cv.Requires(next == 1 || next>>1 <= last)
			last = next
		}
		want = append(want, last)
		m.Values = append(m.Values, it)
	}
	p.Bitmasks["M"] = m
	cv.Ensures(p.CollectSymbols() == nil, "symbols")
	use := dot("M", names[n-1])
	early := cv.Choose("use first", 0, 1) == 1
	if early {
		err := use.Evaluate(p)
		done(use, err, ast.ExpressionTypeBitmask)
	}
	cv.Ensures(m.Evaluate(p) == nil, "evaluates")
	for i := range want {
		cv.Ensures(m.Values[i].ResultIntValue == want[i], "value of the bit")
	}
	if !early {
		err := use.Evaluate(p)
		done(use, err, ast.ExpressionTypeBitmask)
	}
	cv.Ensures(use.ResultIntValue == want[n-1], "value of an expression of a bit")
}
