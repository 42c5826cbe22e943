package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/def"
)

// Constants, enum items and bitmask values have the values of the schema.
//
//gocv:harness prop=C20
func HGenConstants() {
	is := func(ok bool, what string) { cv.Ensures(ok, what) }
	is(def.SMALL == 0xff, "literal")
	is(def.NEGATIVE == -14, "expression")
	is(def.LARGE == 0x7fffffffffffffff, "large literal")
	is(def.TRUTH == true, "bool")
	is(def.TEXT == "line\n\"quoted\"", "string")
	is(def.REAL == 2.5, "float32")
	is(def.THIRD == 1.0/3.0, "float64")
	is(def.DERIVED == 256, "constant of a constant")
	is(def.LAST == 8, "constant of an enum item")
	is(def.LevelLow == -1 && def.LevelMid == 0 && def.LevelHighValue == 300, "automatic enum values follow the preceding one")
	is(def.LevelHigher == 301 && def.LevelAfterAll == 250 && def.LevelHigh == 7, "enum values")
	is(def.TinyZero == 0 && def.TinyFive == 5 && def.TinySix == 6, "bit enum")
	is(def.FlagsNONE == 0 && def.FlagsREAD == 1 && def.FlagsWRITE == 2 && def.FlagsBOTH == 3, "bitmask values")
	is(def.FlagsEXEC == 0x10 && def.FlagsMORE == 0x20, "automatic bitmask values are the next free bit")
}

// Names and values of an enum belong to each other.
//
//gocv:harness prop=C20
func HGenEnumNames() {
	items := []struct {
		v def.Level
		s string
	}{{-1, "LOW"}, {0, "MID"}, {300, "HIGH_VALUE"}, {301, "HIGHER"}, {250, "AFTER_ALL"}, {7, "HIGH"}}
	values, names := def.LevelValues(), def.LevelStrings()
	cv.Ensures(len(values) == len(items) && len(names) == len(items), "lists every item")
	for i, it := range items {
		cv.Ensures(values[i] == it.v, "values in the order of the schema")
		cv.Ensures(names[i] == it.s, "names in the order of the schema")
		cv.Ensures(it.v.String() == it.s, "name of a value")
		v, err := def.LevelString(it.s)
		cv.Ensures(err == nil && v == it.v, "value of a name")
	}
	names[0] = "changed"
	cv.Ensures(def.LevelStrings()[0] == "LOW", "the list of names is a copy")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:harness prop=C20
func HGenUnknownName() {
	s := cv.Any[string]("s")
	v, err := def.LevelString(s)
	known := false
	for _, k := range []string{"LOW", "MID", "HIGH_VALUE", "HIGHER", "AFTER_ALL", "HIGH"} {
		known = cv.Or(known, s == k)
	}
	cv.Ensures((err == nil) == known, "exactly the names of items are accepted")
	if err == nil {
		cv.Ensures(v.String() == s, "the name of the value is the name it was found by")
	}
	cv.Cover("names")
}

// LoadDefaultValues sets the defaults of the schema and nothing else.
//
//gocv:harness prop=C20
func HGenDefaults() {
	n := cv.Any[uint8]("n")
	v := def.Defaults{A: cv.Any[uint8]("a"), B: cv.Any[int16]("b"), C: cv.Any[bool]("c"), D: anyStr("d"), E: cv.Any[float32]("e"),
		F: def.Level(cv.Any[int16]("f")), G: def.Grade(cv.Any[int16]("g")), H: def.Flags(cv.Any[uint8]("h")), I: def.Id(cv.Any[uint16]("i")),
		J: cv.Any[uint8]("j"), K: cv.Any[uint64]("k"), L: def.Inner{X: cv.Any[uint8]("x"), Y: cv.Any[uint8]("y")},
		M: cv.Any[uint8]("m"), N: &n, O: []uint8{cv.Any[uint8]("o")}, P: cv.Any[float32]("p"), Q: def.Flags(cv.Any[uint8]("q"))}
	want := def.Defaults{A: 5, B: -255, C: true, D: "text", E: 0.5, F: 300, G: -1, H: 2, I: 256, J: 17, K: 1000000,
		L: def.Inner{X: 9, Y: v.L.Y}, M: v.M, N: v.N, O: v.O, P: 1.5, Q: 0x11}
	cv.Ensures(v.LoadDefaultValues() == nil, "succeeds")
	cv.Ensures(cv.Same(&v, &want), "sets the defaults and leaves other fields alone")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
	cv.Cover("loaded")
}

//gocv:harness prop=C20
func HGenMemberDefaults() {
	c := def.Which{First: cv.Any[bool]("first"), A: cv.Any[uint8]("a"), B: def.Inner{X: cv.Any[uint8]("x"), Y: cv.Any[uint8]("y")}}
	wc := def.Which{First: c.First, A: c.A, B: def.Inner{X: 9, Y: c.B.Y}}
	cv.Ensures(c.LoadDefaultValues() == nil, "succeeds")
	cv.Ensures(cv.Same(&c, &wc), "members of a choice")
	u := def.Some{UnionChoice: def.SomeUnionChoiceType(cv.Any[uint64]("tag")), A: cv.Any[uint8]("ua"), B: def.Inner{X: cv.Any[uint8]("ux"), Y: cv.Any[uint8]("uy")}}
	wu := def.Some{UnionChoice: u.UnionChoice, A: u.A, B: def.Inner{X: 9, Y: u.B.Y}}
	cv.Ensures(u.LoadDefaultValues() == nil, "succeeds")
	cv.Ensures(cv.Same(&u, &wu), "members of a union")
}

// Enums are stored in databases by their name.
//
//gocv:harness prop=C20
func HGenSQL() {
	v := def.Level(cv.Any[int16]("v"))
	x, err := v.Value()
	name, ok := x.(string)
	cv.Ensures(err == nil && ok, "the database value is a string")
	cv.Ensures(name == v.String(), "the database value is the name")
	old := def.Level(cv.Any[int16]("old"))
	a, b, c, d := old, old, old, old
	if v == -1 || v == 0 || v == 300 || v == 301 || v == 250 || v == 7 {
		cv.Ensures(a.Scan(x) == nil && a == v, "scans what was stored")
		cv.Ensures(b.Scan([]byte(name)) == nil && b == v, "scans bytes")
		cv.Ensures(c.Scan(v) == nil && c == v, "scans a stringer")
		cv.Cover("stored")
	}
	cv.Ensures(d.Scan(nil) == nil && d == old, "NULL leaves the value alone")
	s := cv.Any[string]("s")
	e := old
	err = e.Scan(s)
	w, werr := def.LevelString(s)
	cv.Ensures((err == nil) == (werr == nil), "exactly the names of items are accepted")
	cv.Ensures(e == cv.Ite(err == nil, w, old), "a name that is refused leaves the value alone")
	f := old
	cv.Ensures(f.Scan(int64(7)) != nil && f == old, "other types are refused")
	cv.Cover("scanned")
}
