package cv

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"
	"unsafe"
)

type skip struct{}
type failSig struct{ name string }

func fail(name string) { panic(failSig{name}) }

// CexChoice mirrors the verifier's counterexample format.
type CexChoice struct {
	Label string   `json:"label"`
	Vals  []uint64 `json:"vals,omitempty"`
	Bytes []byte   `json:"bytes,omitempty"`
	IsSeq bool     `json:"isseq,omitempty"`
}

// Case is an input to replay.
type Case struct {
	Harness    string         `json:"harness"`
	Obligation string         `json:"obligation"`
	Detail     string         `json:"detail"`
	Params     map[string]int `json:"params,omitempty"`
	Choices    []CexChoice    `json:"choices"`
}

var (
	params    = map[string]int{}
	queue     map[string][]CexChoice
	rng       *rand.Rand
	used      []CexChoice
	lastPanic any
	style     int
)

func record(label string, vals []uint64, bytes []byte, seq bool) {
	if len(used) < 4096 {
		used = append(used, CexChoice{Label: label, Vals: vals, Bytes: bytes, IsSeq: seq})
	}
}

func next(label string) (CexChoice, bool) {
	q := queue[label]
	if len(q) == 0 {
		return CexChoice{}, false
	}
	queue[label] = q[1:]
	return q[0], true
}

func scalar(label string, w int) uint64 {
	if c, ok := next(label); ok && len(c.Vals) > 0 {
		record(label, c.Vals[:1], nil, false)
		return c.Vals[0]
	}
	v := uint64(0)
	if rng != nil {
		switch rng.Intn(6) {
		case 0:
			v = rng.Uint64()
		case 1: // boundary
			k := uint(rng.Intn(w + 1))
			v = uint64(1)<<k + uint64(rng.Intn(5)) - 2
		case 2:
			k := uint(rng.Intn(w + 1))
			v = -(uint64(1) << k) + uint64(rng.Intn(5)) - 2
		case 3:
			v = uint64(rng.Intn(16))
		case 4:
			v = rng.Uint64() >> uint(rng.Intn(64))
		default:
			v = -(rng.Uint64() >> uint(rng.Intn(64)))
		}
	}
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	record(label, []uint64{v}, nil, false)
	return v
}

func nondet(label string) bool {
	if c, ok := next(label); ok && len(c.Vals) > 0 {
		record(label, c.Vals[:1], nil, false)
		return c.Vals[0] != 0
	}
	b := rng != nil && rng.Intn(8) == 0
	v := uint64(0)
	if b {
		v = 1
	}
	record(label, []uint64{v}, nil, false)
	return b
}

func choose(label string, lo, hi int) int {
	if c, ok := next(label); ok && len(c.Vals) > 0 {
		record(label, c.Vals[:1], nil, false)
		v := int(c.Vals[0])
		if v >= lo && v <= hi {
			return v
		}
		return lo
	}
	v := lo
	if rng != nil {
		v = lo + rng.Intn(hi-lo+1)
	}
	record(label, []uint64{uint64(v)}, nil, false)
	return v
}

func anyPos(label string) uint64 {
	if c, ok := next(label); ok && len(c.Vals) > 0 {
		record(label, c.Vals[:1], nil, false)
		return c.Vals[0] & (1<<40 - 1)
	}
	v := uint64(0)
	if rng != nil {
		v = uint64(rng.Intn(70))
	}
	record(label, []uint64{v}, nil, false)
	return v
}

func anyBits(label string, n int) uint64 { return scalar(label, n) }

func anyBytesN(label string, n int) []byte {
	b := anySeq(label)
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n]
}

func anySeq(label string) []byte {
	if c, ok := next(label); ok {
		record(label, nil, c.Bytes, true)
		return append([]byte(nil), c.Bytes...)
	}
	var b []byte
	if rng != nil {
		n := rng.Intn(12)
		if rng.Intn(10) == 0 {
			n = rng.Intn(400)
		}
		b = make([]byte, n)
		switch rng.Intn(3) {
		case 0:
			for i := range b {
				b[i] = 0xff
			}
		default:
			rng.Read(b)
		}
	}
	record(label, nil, b, true)
	return append([]byte(nil), b...)
}

func anyValue(t reflect.Type, label string) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(scalar(label, 1) != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w := t.Bits()
		x := scalar(label, w)
		v.SetInt(int64(x<<uint(64-w)) >> uint(64-w))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(scalar(label, t.Bits()))
	case reflect.Float32:
		*(*uint32)(unsafe.Pointer(v.UnsafeAddr())) = uint32(scalar(label, 32))
	case reflect.Float64:
		*(*uint64)(unsafe.Pointer(v.UnsafeAddr())) = scalar(label, 64)
	case reflect.String:
		v.SetString(string(anySeq(label)))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes(anySeq(label))
			break
		}
		panic("cv.Any: " + t.String())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			x := anyValue(t.Field(i).Type, label+"."+t.Field(i).Name)
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(x)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(anyValue(t.Elem(), fmt.Sprintf("%s[%d]", label, i)))
		}
	case reflect.Pointer:
		p := reflect.New(t.Elem())
		p.Elem().Set(anyValue(t.Elem(), label))
		v.Set(p)
	default:
		panic("cv.Any: " + t.String())
	}
	return v
}

func same(a, b reflect.Value, depth int) bool {
	if depth > 60 {
		return true
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !same(a.MapIndex(k), b.MapIndex(k), depth+1) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	}
	return true
}

func walk(obj any, path string) reflect.Value {
	v := reflect.ValueOf(obj)
	for _, st := range strings.Split(path, ".") {
		for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		f := v.FieldByName(st)
		if st[0] == '@' {
			for i := 0; i < v.NumField(); i++ {
				t := v.Type().Field(i).Type
				if t.Kind() == reflect.Pointer {
					t = t.Elem()
				}
				if t.Name() == st[1:] {
					f = v.Field(i)
				}
			}
		}
		if !f.IsValid() {
			panic("cv: no field " + st)
		}
		v = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	}
	return v
}

func peek(obj any, path string) reflect.Value     { return walk(obj, path) }
func poke(obj any, path string, nv reflect.Value) { walk(obj, path).Set(nv) }

// Harness is a registered contract harness.
type Harness struct {
	Name string
	F    func()
}

var Registry = map[string]func(){}

func Register(name string, f func()) { Registry[name] = f }

// RunOnce executes a harness on given choices; it returns the violated
// obligation, "" if none, and whether the precondition excluded the input.
func runOnce(f func()) (viol string, skipped bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case skip:
			skipped = true
		case failSig:
			viol = x.name
		default:
			viol = "no-panic"
			lastPanic = x
		}
	}()
	lastPanic = nil
	used = nil
	f()
	return
}

// ReplayMain is the replay program: replay CASE.json [seconds [seed]].
func ReplayMain() {
	var c Case
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Println("replay:", err)
		os.Exit(2)
	}
	f := Registry[c.Harness]
	if f == nil {
		fmt.Println("replay: no harness", c.Harness)
		os.Exit(2)
	}
	for k, v := range c.Params {
		params[k] = v
	}
	report := func(v string) {
		out, _ := json.Marshal(struct {
			Violated string
			Panic    string `json:",omitempty"`
			Params   map[string]int
			Choices  []CexChoice
		}{v, panicText(), c.Params, used})
		fmt.Println(string(out))
		os.Exit(1)
	}
	load := func() {
		queue = map[string][]CexChoice{}
		for _, ch := range c.Choices {
			queue[ch.Label] = append(queue[ch.Label], ch)
		}
	}
	if len(c.Choices) > 0 || len(os.Args) < 3 {
		load()
		if v, _ := runOnce(f); v != "" {
			report(v)
		}
	}
	if len(os.Args) > 2 {
		secs, seed := 5.0, int64(1)
		fmt.Sscan(os.Args[2], &secs)
		if len(os.Args) > 3 {
			fmt.Sscan(os.Args[3], &seed)
		}
		rng = rand.New(rand.NewSource(seed))
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		n := 0
		for time.Now().Before(end) {
			queue = nil
			// sometimes mutate the given case
			if len(c.Choices) > 0 && rng.Intn(3) == 0 {
				load()
				for l := range queue {
					if rng.Intn(2) == 0 {
						delete(queue, l)
					}
				}
			}
			n++
			if v, _ := runOnce(f); v != "" {
				fmt.Println("found after", n, "random cases")
				report(v)
			}
		}
		fmt.Println("no violation in", n, "random cases")
	}
	fmt.Println("not reproduced")
}

func panicText() string {
	if lastPanic == nil {
		return ""
	}
	return fmt.Sprint(lastPanic)
}
