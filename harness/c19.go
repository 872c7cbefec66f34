package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-playground/validator/v10"
	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	register(&Prop{ID: "C19", Quick: 80000, Thor: 1500000, Serial: true,
		Rule: "a case is a target type with declared constraints (flat for form-like sources; nested, by pointer, in slices, arrays and maps, wrapped in up to three pointer, slice or array layers for JSON and XML) and a value mostly within and at one or two places just outside its constraints, sent from one source, partly prefilled in the target; binding must succeed exactly if hand-written predicates accept the bound value. Non-trivial: exactly at a boundary, null elements, validation off or replaced; distinct by type, source and the violated places.",
		Need: []string{"bindings", "second_binder", "accepted", "refused", "one_violation", "null_elements", "null_targets", "deep_containers", "prefilled_invalid", "validation_off", "custom_validator", "custom_refused",
			"json", "xml", "form", "query", "header", "uri", "multipart", "file_required", "own_constraints", "through_engine", "direct", "only_further_in", "long_slices", "very_long_slices", "empty_forms", "tiny", "namesakes", "held_by_interfaces", "unconstrained"},
		Before: c19own, Case: c19})
}

// c19own declares a constraint of the application's own with the validator the package says it uses.
func c19own(e *Env) {
	engine, ok := binding.Validator.Engine().(*validator.Validate)
	if !ok || engine == nil || binding.Validator.Name() == "" {
		(&C{Env: e}).Fail("engine", "binding.Validator.Engine() is a %T, the default validator is documented to be a *validator.Validate", binding.Validator.Engine())
		return
	}
	firstNames()
	must(engine.RegisterValidation("v19even", func(f validator.FieldLevel) bool { return f.Field().Int()%2 == 0 }))
}

type v19leaf struct {
	A int    `json:"a" xml:"a" binding:"min=1,max=10"`
	S string `json:"s" xml:"s" binding:"required,len=3"`
}
type v19mid struct {
	Leaf  v19leaf    `json:"leaf" xml:"leaf"`
	Opt   *v19leaf   `json:"opt,omitempty" xml:"opt,omitempty"`
	Needs []*v19leaf `json:"needs" xml:"needs" binding:"min=1,dive,required"`
}
type v19top struct {
	XMLName xml.Name    `json:"-" xml:"top"`
	N       int         `json:"n" xml:"n" binding:"gte=0,lt=100"`
	U       *int        `json:"u,omitempty" xml:"u,omitempty" binding:"omitempty,gt=0"`
	T       string      `json:"t" xml:"t" binding:"omitempty,oneof=red green blue"`
	P       string      `json:"p" xml:"p" binding:"min=4"`
	C       string      `json:"c" xml:"c" binding:"eqfield=P"`
	L       []int       `json:"l" xml:"l" binding:"max=3,dive,min=1"`
	F       float64     `json:"f" xml:"f" binding:"gt=0,lte=1.5"`
	In      v19leaf     `json:"in" xml:"in"`
	Opt     *v19leaf    `json:"opt,omitempty" xml:"opt,omitempty"`
	Req     *v19leaf    `json:"req" xml:"req" binding:"required"`
	Many    []v19leaf   `json:"many" xml:"many" binding:"dive"`
	Ptrs    []*v19leaf  `json:"ptrs" xml:"ptrs" binding:"dive,required"`
	Mid     v19mid      `json:"mid" xml:"mid"`
	M       v19leafmaps `json:"m" xml:"-" binding:"dive"`
	B       *bool       `json:"b" xml:"b" binding:"required"`
	K       int         `json:"k" xml:"k" binding:"v19even"`
}
type v19leafmaps map[string]v19leaf

// types with no constraint of their own, only further in
type v19wrap struct {
	X    string   `json:"x" xml:"x"`
	Leaf *v19leaf `json:"leaf,omitempty" xml:"leaf,omitempty"`
}
type v19wrap2 struct {
	Y int      `json:"y" xml:"y"`
	W *v19wrap `json:"w" xml:"w"`
}
type V19base v19leaf
type v19wrap3 struct {
	*V19base
	Z float64 `json:"z" xml:"z"`
}

func (v v19wrap) bad() bool { return v.Leaf != nil && v.Leaf.bad() }

// constraints that are found only below what is not exported or holds anything
type v19wrap4 struct {
	note string
	X    v19leaf `json:"x" xml:"x"`
}
type v19base struct {
	A int    `json:"a" xml:"a" binding:"min=1,max=10"`
	S string `json:"s" xml:"s" binding:"required,len=3"`
}
type v19wrap5 struct {
	v19base
	_ int
}
type v19wrap6 struct {
	I any `json:"i" xml:"i"`
}

var v19wraps = []reflect.Type{reflect.TypeOf(v19wrap{}), reflect.TypeOf(v19wrap2{}), reflect.TypeOf(v19wrap3{}), reflect.TypeOf(v19wrap4{}), reflect.TypeOf(v19wrap5{}), reflect.TypeOf(v19wrap6{})}

func (g *g19) wrap(t reflect.Type) any {
	l := g.pleaf("inner")
	switch t {
	case v19wraps[0]:
		if g.Pct(20) {
			l = nil
		}
		return v19wrap{g.Str("", "q"), l}
	case v19wraps[1]:
		return v19wrap2{g.IntN(3), &v19wrap{g.Str("", "q"), l}}
	case v19wraps[3]:
		return v19wrap4{"note", *l}
	case v19wraps[4]:
		return v19wrap5{v19base: v19base(*l)}
	case v19wraps[5]:
		return v19wrap6{l}
	}
	return v19wrap3{(*V19base)(l), 0.5}
}

type v19sub struct {
	A int    `form:"a" header:"X-A" uri:"a" binding:"min=1,max=10"`
	S string `form:"s" header:"X-S" uri:"s" binding:"required,len=3"`
}
type v19sub2 struct {
	A2 uint8  `form:"a2" header:"X-A2" uri:"a2" binding:"gt=3"`
	S2 string `form:"s2" header:"X-S2" uri:"s2" binding:"omitempty,len=3"`
}
type v19form struct {
	N   int      `form:"n" header:"X-N" uri:"n" binding:"gte=0,lt=100"`
	U   *int     `form:"u" header:"X-U" uri:"u" binding:"omitempty,gt=0"`
	T   string   `form:"t" header:"X-T" uri:"t" binding:"omitempty,oneof=red green blue"`
	P   string   `form:"p" header:"X-P" uri:"p" binding:"min=4"`
	C   string   `form:"c" header:"X-C" uri:"c" binding:"eqfield=P"`
	L   []int    `form:"l" header:"X-L" uri:"l" binding:"max=3,dive,min=1"`
	R   []string `form:"r" header:"X-R" uri:"r" binding:"required,dive,oneof=x y"`
	F   float64  `form:"f" header:"X-F" uri:"f" binding:"gt=0,lte=1.5"`
	D   int      `form:"d,default=5" header:"X-D,default=5" uri:"d,default=5" binding:"max=10"`
	K   int      `form:"k" header:"X-K" uri:"k" binding:"v19even"`
	In  v19sub
	Ptr *v19sub2
}
type v19file struct {
	N     int                     `form:"n" binding:"gte=0,lt=100"`
	File  *multipart.FileHeader   `form:"file" binding:"required"`
	Files []*multipart.FileHeader `form:"files" binding:"max=2"`
}

func (v v19leaf) bad() bool   { return v.A < 1 || v.A > 10 || utf8.RuneCountInString(v.S) != 3 }
func (v *v19leaf) bad0() bool { return v == nil || v.bad() }
func (v v19top) bad() bool {
	b := v.N < 0 || v.N >= 100 || v.U != nil && *v.U <= 0 || v.T != "" && v.T != "red" && v.T != "green" && v.T != "blue" ||
		utf8.RuneCountInString(v.P) < 4 || v.C != v.P || len(v.L) > 3 || !(v.F > 0 && v.F <= 1.5) || v.In.bad() || v.Opt != nil && v.Opt.bad() || v.Req.bad0() ||
		v.Mid.Leaf.bad() || v.Mid.Opt != nil && v.Mid.Opt.bad() || len(v.Mid.Needs) < 1 || v.B == nil || v.K%2 != 0
	for _, n := range v.L {
		b = b || n < 1
	}
	for _, e := range v.Many {
		b = b || e.bad()
	}
	for _, e := range v.Ptrs {
		b = b || e.bad0()
	}
	for _, e := range v.Mid.Needs {
		b = b || e.bad0()
	}
	for _, e := range v.M {
		b = b || e.bad()
	}
	return b
}
func (v v19form) bad() bool {
	b := v.N < 0 || v.N >= 100 || v.U != nil && *v.U <= 0 || v.T != "" && v.T != "red" && v.T != "green" && v.T != "blue" ||
		utf8.RuneCountInString(v.P) < 4 || v.C != v.P || len(v.L) > 3 || !(v.F > 0 && v.F <= 1.5) || v.R == nil || v.D > 10 || v.K%2 != 0 ||
		v.In.A < 1 || v.In.A > 10 || utf8.RuneCountInString(v.In.S) != 3 || v.Ptr.A2 <= 3 || v.Ptr.S2 != "" && utf8.RuneCountInString(v.Ptr.S2) != 3
	for _, n := range v.L {
		b = b || n < 1
	}
	for _, s := range v.R {
		b = b || s != "x" && s != "y"
	}
	return b
}

// g19 makes values; places says how many places may be outside their constraint, hit names those chosen.
type g19 struct {
	R
	odds int
	hit  []string
}

func (g *g19) off(place string) bool {
	if g.IntN(1000) < g.odds {
		g.hit = append(g.hit, place)
		return true
	}
	return false
}
func (g *g19) leaf(place string) v19leaf {
	l := v19leaf{pick(g.R, []int{1, 10, 2, 5}), g.Str("abc", "x y", "é中z", "0.0")}
	if g.off(place + ".a") {
		l.A = pick(g.R, []int{0, 11, -1, 1 << 40, -1 << 62})
	}
	if g.off(place + ".s") {
		l.S = g.Str("", "ab", "abcd", "中é", "\u00e9\u00e9\u00e9\u00e9")
	}
	return l
}
func (g *g19) pleaf(place string) *v19leaf { l := g.leaf(place); return &l }
func (g *g19) top() v19top {
	v := v19top{N: pick(g.R, []int{0, 99, 50}), T: g.Str("", "red", "green", "blue"), P: g.Str("abcd", "éééé", "password"), F: pick(g.R, []float64{1.5, 0.25, 5e-324})}
	v.XMLName.Local = "top"
	if g.off("n") {
		v.N = pick(g.R, []int{-1, 100, 101})
	}
	if g.Pct(50) {
		u := pick(g.R, []int{1, 7})
		if g.off("u") {
			u = pick(g.R, []int{0, -1})
		}
		v.U = &u
	}
	if g.off("t") {
		v.T = g.Str("Red", "re", "red green", "black", " red")
	}
	if g.off("p") {
		v.P = g.Str("", "abc", "中中中")
	}
	v.C = v.P
	if g.off("c") {
		v.C = v.P + "x"
	}
	for i := g.IntN(4); i > 0; i-- {
		n := g.Rng(1, 3)
		if g.off("l[]") {
			n = pick(g.R, []int{0, -5})
		}
		v.L = append(v.L, n)
	}
	if g.off("l") {
		v.L = []int{1, 2, 3, 4}
	}
	if g.off("f") {
		v.F = pick(g.R, []float64{0, -1, 1.5000000000000002, 100})
	}
	v.In = g.leaf("in")
	if g.Pct(50) {
		v.Opt = g.pleaf("opt")
	}
	v.Req = g.pleaf("req")
	if g.off("req") {
		v.Req = nil
	}
	for i := g.IntN(4); i > 0; i-- {
		v.Many = append(v.Many, g.leaf("many"))
	}
	for i := g.IntN(4); i > 0; i-- {
		v.Ptrs = append(v.Ptrs, g.pleaf("ptrs"))
	}
	v.Mid.Leaf = g.leaf("mid.leaf")
	if g.Pct(50) {
		v.Mid.Opt = g.pleaf("mid.opt")
	}
	for i := g.Rng(1, 3); i > 0; i-- {
		v.Mid.Needs = append(v.Mid.Needs, g.pleaf("mid.needs"))
	}
	if g.off("mid.needs") {
		v.Mid.Needs = nil
	}
	for i := g.IntN(3); i > 0; i-- {
		if v.M == nil {
			v.M = v19leafmaps{}
		}
		v.M[fmt.Sprint("k", i)] = g.leaf("m")
	}
	if v.K = 2 * g.IntN(9); g.off("k") {
		v.K++
	}
	b := g.Pct(50)
	v.B = &b
	if g.off("b") {
		v.B = nil
	}
	return v
}

func (g *g19) form() v19form {
	v := v19form{N: pick(g.R, []int{0, 99, 50}), T: g.Str("", "red", "green", "blue"), P: g.Str("abcd", "éééé", "password"), F: pick(g.R, []float64{1.5, 0.25, 5e-324}), D: pick(g.R, []int{10, 0, -3, 5})}
	if g.off("n") {
		v.N = pick(g.R, []int{-1, 100, 101})
	}
	if g.Pct(50) {
		u := pick(g.R, []int{1, 7})
		if g.off("u") {
			u = pick(g.R, []int{0, -1})
		}
		v.U = &u
	}
	if g.off("t") {
		v.T = g.Str("Red", "re", "red green", "black")
	}
	if g.off("p") {
		v.P = g.Str("", "abc", "中中中")
	}
	v.C = v.P
	if g.off("c") {
		v.C = v.P + "x"
	}
	for i := g.IntN(4); i > 0; i-- {
		n := g.Rng(1, 3)
		if g.off("l[]") {
			n = pick(g.R, []int{0, -5})
		}
		v.L = append(v.L, n)
	}
	if g.off("l") {
		v.L = []int{1, 2, 3, 4}
	}
	for i := g.Rng(1, 4); i > 0; i-- {
		s := g.Str("x", "y")
		if g.off("r[]") {
			s = g.Str("", "z", "xy")
		}
		v.R = append(v.R, s)
	}
	if g.off("r") {
		v.R = nil
	}
	if g.off("f") {
		v.F = pick(g.R, []float64{0, -1, 1.5000000000000002, 100})
	}
	if g.off("d") {
		v.D = pick(g.R, []int{11, 1000})
	}
	l := g.leaf("in")
	v.In = v19sub{l.A, l.S}
	v.Ptr = &v19sub2{pick(g.R, []uint8{4, 255}), g.Str("", "abc")}
	if g.off("a2") {
		v.Ptr.A2 = pick(g.R, []uint8{0, 3})
	}
	if v.K = 2 * g.IntN(9); g.off("k") {
		v.K++
	}
	if g.off("s2") {
		v.Ptr.S2 = g.Str("a", "abcd")
	}
	return v
}

// v19wrong judges a bound value of any container type.
func v19wrong(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil() || v19wrong(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if v19wrong(v.Index(i)) {
				return true
			}
		}
		return false
	}
	switch x := v.Interface().(type) {
	case v19leaf:
		return x.bad()
	case v19top:
		return x.bad()
	case v19form:
		return x.bad()
	case v19wrap:
		return x.bad()
	case v19wrap2:
		return x.W != nil && x.W.bad()
	case v19wrap4:
		return x.X.bad()
	case v19wrap5:
		return v19leaf(x.v19base).bad()
	case v19wrap6:
		l, ok := x.I.(*v19leaf)
		return ok && l.bad0()
	case v19wrap3:
		return x.V19base != nil && v19leaf(*x.V19base).bad()
	}
	return false
}

type v19custom struct {
	calls []interface{}
	err   error
}

func (v *v19custom) ValidateStruct(o interface{}) error { v.calls = append(v.calls, o); return v.err }
func (v *v19custom) Engine() interface{}                { return nil }
func (v *v19custom) Name() string                       { return "custom" }

var errCustom = errors.New("custom validator says no")

type v19day time.Time

func (d *v19day) UnmarshalText(b []byte) error { return (*time.Time)(d).UnmarshalText(b) }

// c19unconstrained binds into what has no constraints at all.
func c19unconstrained(c *C) {
	r := c.R
	day := `"2020-02-03T04:05:06Z"`
	cases := []struct {
		doc    string
		target any
	}{
		{day, new(time.Time)}, {day, new(*time.Time)}, {"[" + day + "," + day + "]", new([]time.Time)}, {"[[" + day + "]]", new([][]*time.Time)}, {"[" + day + "," + day + "]", new([2]time.Time)},
		{day, new(v19day)}, {"[" + day + "]", new([]v19day)}, {"[" + day + "]", new([]*v19day)}, {`{"a":` + day + `}`, new(map[string]time.Time)}, {`{"T":` + day + `,"D":` + day + `}`, new(struct {
			T time.Time
			D *v19day
		})},
		{"7", new(int)}, {`"x"`, new(string)}, {"[1,2]", new([]int)}, {`{"a":1}`, new(map[string]any)}, {`[{"a":1}]`, new([]any)}, {`{}`, new(struct{})}, {`[{},{}]`, new([]struct{})}, {"true", new(any)}, {"[]", new([]v19leaf)}, {`"AQI="`, new([]byte)}, {"1.5", new(json.Number)}, {`{"a":1}`, new(json.RawMessage)},
	}
	x := pick(r, cases)
	req := Req(r.Str("POST", "PUT", "DELETE"), "/")
	req.Header.Set("Content-Type", "application/json")
	req.Body = io.NopCloser(strings.NewReader(x.doc))
	c.Eval()
	c.Count("unconstrained", 1)
	var err error
	p, crashed := try(func() { err = binding.JSON.Bind(req, x.target) })
	if crashed || err != nil {
		c.Fail("unconstrained", "binding %s into a %T, which has no constraints: %v %v", x.doc, x.target, err, p)
		return
	}
	got, _ := json.Marshal(x.target)
	if _, day := x.target.(*v19day); !day && string(got) != x.doc && strings.Contains(x.doc, "T04") && !strings.Contains(fmt.Sprintf("%T", x.target), "v19day") {
		c.Fail("unconstrained", "binding %s into a %T: %s", x.doc, x.target, got)
	}
}

// c19tiny binds documents that say next to nothing, so that all fields stay as they were.
func c19tiny(c *C) {
	r := c.R
	typ := pick(r, []reflect.Type{reflect.TypeOf(v19top{}), reflect.TypeOf(v19leaf{})})
	doc := pick(r, []string{"{}", "{}", " {}", "{} ", "{\"zz\":1}"})
	target := reflect.New(typ)
	if r.Pct(50) {
		doc = ""
	}
	var bd binding.Bindinger = binding.JSON
	req := Req(r.Str("POST", "PUT", "PATCH", "DELETE"), "/")
	req.Header.Set("Content-Type", "application/json")
	if doc == "" {
		doc = "<" + typ.Name() + r.Str("/>", "></"+typ.Name()+">")
		bd = binding.XML
		req.Header.Set("Content-Type", "text/xml")
	}
	req.Body = io.NopCloser(strings.NewReader(doc))
	req.ContentLength = pick(r, []int64{int64(len(doc)), int64(len(doc)), -1, 0})
	c.Eval()
	c.Count("tiny", 1)
	var err error
	if p, crashed := try(func() { err = bd.Bind(req, target.Interface()) }); crashed {
		c.Fail("crash", "%s: %v", doc, p)
		return
	}
	if wrong := v19wrong(reflect.New(typ).Elem()); wrong != (err != nil) {
		c.Fail("accepted", "binding %s, declared length %d, into a zero %s: constraints violated: %v, error %v", doc, req.ContentLength, typ, wrong, err)
	}
}

func c19(c *C) {
	r := c.R
	if r.Pct(1) {
		c19tiny(c)
		return
	}
	if r.Pct(2) {
		sameNames(c)
		return
	}
	if r.Pct(1) {
		c19unconstrained(c)
		return
	}
	orig := binding.Validator
	defer func() { binding.Validator = orig }()
	g := &g19{R: r, odds: pick(r, []int{0, 15, 30, 30, 60})}
	source := pick(r, []string{"json", "json", "json", "xml", "form", "query", "header", "uri", "multipart", "multipart"})
	c.Count(source, 1)
	var target, want reflect.Value // target is what is handed to Bind; want is the value expected below it
	var req *http.Request
	var uri map[string][]string
	var bd binding.Bindinger
	nulls, shape := 0, ""
	switch source {
	case "json", "xml":
		typ := reflect.TypeOf(v19top{})
		if r.Pct(55) {
			typ = reflect.TypeOf(v19leaf{})
		}
		if r.Pct(25) {
			typ = pick(r, v19wraps)
			c.Count("only_further_in", 1)
		}
		shape = typ.Name()
		held := typ == v19wraps[5] // what the interface holds has to be there before
		long, late := 0, 0
		if source == "json" {
			for i := r.IntN(4); i > 0 && !held; i-- {
				switch r.IntN(5) {
				case 0, 1:
					typ, shape = reflect.PtrTo(typ), "*"+shape
				case 2, 3:
					typ, shape = reflect.SliceOf(typ), "[]"+shape
				default:
					typ, shape = reflect.ArrayOf(2, typ), "[2]"+shape
				}
			}
			if strings.Count(shape, "*")+strings.Count(shape, "[") > 1 {
				c.Count("deep_containers", 1)
			}
			if strings.HasPrefix(shape, "[]v") && r.Pct(15) {
				long = r.Rng(50, 300)
				if r.Pct(10) {
					long = r.Rng(300, 4000)
					c.Count("very_long_slices", 1)
					late, g.odds = 100, 0 // only the last ones may be bad
				}
				c.Count("long_slices", 1)
				g.odds /= 20
			}
		}
		null := 0
		if source == "json" && r.Pct(35) {
			null = 25
		}
		var mk func(t reflect.Type, top bool) reflect.Value
		mk = func(t reflect.Type, top bool) reflect.Value {
			v := reflect.New(t).Elem()
			switch t.Kind() {
			case reflect.Ptr:
				if r.Pct(null) {
					nulls++
					g.hit = append(g.hit, "null")
					if top {
						c.Count("null_targets", 1)
					} else {
						c.Count("null_elements", 1)
					}
					return v
				}
				v.Set(reflect.New(t.Elem()))
				v.Elem().Set(mk(t.Elem(), top))
			case reflect.Slice:
				n := r.IntN(4)
				if long > 0 {
					n = long
				}
				v.Set(reflect.MakeSlice(t, n, n))
				fallthrough
			case reflect.Array:
				for i := 0; i < v.Len(); i++ {
					if late > 0 && i > v.Len()-3 {
						g.odds = late
					}
					v.Index(i).Set(mk(t.Elem(), false))
				}
			default:
				if strings.HasPrefix(t.Name(), "v19wrap") {
					v.Set(reflect.ValueOf(g.wrap(t)))
				} else if t == reflect.TypeOf(v19leaf{}) {
					v.Set(reflect.ValueOf(g.leaf("leaf")))
				} else {
					v.Set(reflect.ValueOf(g.top()))
				}
			}
			return v
		}
		want = mk(typ, true)
		target = reflect.New(typ)
		if held {
			target.Interface().(*v19wrap6).I = &v19leaf{}
			c.Count("held_by_interfaces", 1)
		}
		var doc []byte
		var err error
		if source == "xml" {
			if typ == reflect.TypeOf(v19top{}) {
				t := want.Interface().(v19top)
				t.M = nil
				want.Set(reflect.ValueOf(t))
			}
			if r.Pct(30) && !held {
				target = reflect.New(reflect.PtrTo(typ))
				w := reflect.New(typ)
				w.Elem().Set(want)
				want, shape = w, "*"+shape
			}
			doc, err = xml.Marshal(want.Interface())
			bd = binding.XML
		} else {
			if t, ok := want.Interface().(v19top); ok && r.Pct(30) { // some fields are not sent but there already
				m := map[string]json.RawMessage{}
				doc, err = json.Marshal(t)
				must(err)
				must(json.Unmarshal(doc, &m))
				pre := target.Interface().(*v19top)
				for _, k := range []string{"n", "t", "p", "f", "b", "in", "opt", "l", "k"} {
					if !r.Pct(40) {
						continue
					}
					delete(m, k)
					switch k {
					case "n":
						pre.N = t.N
					case "t":
						pre.T = t.T
					case "p":
						pre.P = t.P
					case "f":
						pre.F = t.F
					case "b":
						pre.B = t.B
					case "in":
						pre.In = t.In
					case "opt":
						pre.Opt = t.Opt
					case "l":
						pre.L = t.L
					case "k":
						pre.K = t.K
					}
				}
				if t.bad() {
					c.Count("prefilled_invalid", 1)
				}
				doc, err = json.Marshal(m)
			} else {
				doc, err = json.Marshal(want.Interface())
			}
			bd = binding.JSON
		}
		must(err)
		req = Req(pick(r, []string{"POST", "PUT", "PATCH", "DELETE"}), "/")
		req.Header.Set("Content-Type", map[string]string{"json": "application/json", "xml": pick(r, []string{"text/xml", "application/xml"})}[source])
		req.Body = io.NopCloser(bytes.NewReader(doc))
		if r.Pct(60) {
			req.ContentLength = int64(len(doc))
		}
	default:
		v := g.form()
		pre := &v19form{}
		target, want = reflect.ValueOf(pre), reflect.ValueOf(&v).Elem()
		shape = "v19form"
		form := map[string][]string{}
		put := func(k string, set func(), vals ...string) {
			if source == "header" {
				k = "X-" + strings.ToUpper(k[:1]) + k[1:]
			}
			if set != nil && r.Pct(20) { // not sent, there already
				set()
				if v.bad() {
					c.Count("prefilled_invalid", 1)
				}
				return
			}
			if len(vals) > 0 {
				form[k] = vals
			}
		}
		ints := func(l []int) (o []string) {
			for _, n := range l {
				o = append(o, strconv.Itoa(n))
			}
			return
		}
		put("n", func() { pre.N = v.N }, strconv.Itoa(v.N))
		if v.U != nil {
			put("u", func() { pre.U = v.U }, strconv.Itoa(*v.U))
		}
		put("t", func() { pre.T = v.T }, v.T)
		put("p", func() { pre.P = v.P }, v.P)
		put("c", nil, v.C)
		put("l", func() { pre.L = v.L }, ints(v.L)...)
		put("r", func() { pre.R = v.R }, v.R...)
		put("f", func() { pre.F = v.F }, strconv.FormatFloat(v.F, 'g', -1, 64))
		if v.D == 5 && r.Pct(50) {
			c.Count("defaulted", 1)
		} else {
			put("d", nil, strconv.Itoa(v.D))
		}
		put("k", func() { pre.K = v.K }, strconv.Itoa(v.K))
		put("a", func() { pre.In.A = v.In.A }, strconv.Itoa(v.In.A))
		put("s", func() { pre.In.S = v.In.S }, v.In.S)
		if r.Pct(50) {
			pre.Ptr = &v19sub2{}
		}
		put("a2", nil, strconv.Itoa(int(v.Ptr.A2)))
		put("s2", nil, v.Ptr.S2)
		enc := url.Values(form).Encode()
		req = Req("POST", "/")
		switch source {
		case "form":
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			req.Body = io.NopCloser(strings.NewReader(enc))
			bd = pick(r, []binding.Bindinger{binding.Form, binding.FormPost})
		case "query":
			req.Method = pick(r, []string{"GET", "DELETE"})
			req.URL.RawQuery = enc
			bd = pick(r, []binding.Bindinger{binding.Query, binding.Form})
		case "header":
			for k, l := range form {
				req.Header[k] = l
			}
			bd = binding.Header
		case "uri":
			uri = form
		case "multipart":
			var b bytes.Buffer
			w := multipart.NewWriter(&b)
			part := func(k, name, body string) {
				f, err := w.CreateFormFile(k, name)
				must(err)
				io.WriteString(f, body)
			}
			if r.Pct(50) {
				t := &v19file{}
				target, shape = reflect.ValueOf(t), "v19file"
				nf, nfs := r.IntN(3), r.IntN(4)
				if r.Pct(10) {
					v.N, nf, nfs = 0, 0, 0
					c.Count("empty_forms", 1)
				} else {
					must(w.WriteField("n", strconv.Itoa(v.N)))
				}
				if nf == 0 {
					c.Count("file_required", 1)
				}
				for i := 0; i < nf; i++ {
					part("file", "a", "x")
				}
				for i := 0; i < nfs; i++ {
					part("files", "b", "")
				}
				ok := v.N >= 0 && v.N < 100 && nf > 0 && nfs <= 2
				want = reflect.ValueOf(0)
				if !ok {
					want = reflect.ValueOf((*int)(nil))
				}
				g.hit = []string{fmt.Sprint(v.N, nf, nfs)}
			} else {
				for _, k := range sortedKeys(form) {
					for _, s := range form[k] {
						must(w.WriteField(k, s))
					}
				}
			}
			w.Close()
			req.Header.Set("Content-Type", w.FormDataContentType())
			req.Body = io.NopCloser(&b)
			bd = binding.FormMultipart
		}
	}
	wrong := v19wrong(want)
	if nulls > 0 && !wrong {
		panic("harness: null not counted")
	}
	mode := r.IntN(12)
	custom := &v19custom{}
	switch mode {
	case 0:
		binding.Validator = nil
		c.Count("validation_off", 1)
		wrong = false
	case 1:
		binding.Validator = custom
		wrong = r.Pct(50)
		if wrong {
			custom.err = errCustom
			c.Count("custom_refused", 1)
		}
		c.Count("custom_validator", 1)
	}
	var err error
	second := false // through the second, field-name based binding
	switch source {
	case "form", "query", "header", "uri", "multipart":
		second = r.Pct(25)
	}
	run := func() {
		switch {
		case second:
			c.Count("second_binder", 1)
			if source == "uri" {
				err = binding.Uri.Bind2(uri, target.Interface())
			} else {
				err = bd.(binder2).Bind2(req, target.Interface())
			}
		case source == "uri":
			err = binding.Uri.Bind(uri, target.Interface())
		case r.Pct(60):
			c.Count("through_engine", 1)
			rt := water.NewRouter()
			h := func(x *water.Context) {
				auto := source != "header" && !(source == "query" && req.Method == "GET" && bd == binding.Query)
				if auto && r.Pct(60) {
					err = x.Bind(target.Interface())
				} else {
					err = x.BindWith(target.Interface(), bd)
				}
			}
			addRoute(rt, req.Method, "/", []interface{}{h})
			Serve(rt.Handler(), req)
		default:
			c.Count("direct", 1)
			err = bd.Bind(req, target.Interface())
		}
	}
	c.Eval()
	c.Count("bindings", 1)
	c.Seen(source, shape, g.hit, nulls, mode < 2)
	show := func(v reflect.Value) string {
		b, _ := json.Marshal(v.Interface())
		return head(string(b), 1500)
	}
	desc := fmt.Sprintf("%s into %s, mode %d, second binder %v, places %q, value %s", source, shape, mode, second, g.hit, show(want))
	if p, crashed := try(run); crashed {
		c.Fail("crash", "binding %s crashed: %v", desc, p)
		return
	}
	if len(g.hit) == 1 {
		c.Count("one_violation", 1)
		if g.hit[0] == "k" && mode > 1 {
			c.Count("own_constraints", 1)
		}
	}
	if err != nil {
		c.Count("refused", 1)
	} else {
		c.Count("accepted", 1)
	}
	if wrong && err == nil {
		c.Fail("accepted", "no error although a constraint does not hold: %s, bound %s", desc, show(target))
	}
	if !wrong && err != nil {
		c.Fail("refused", "error %v although every constraint holds: %s, bound %s", err, desc, show(target))
	}
	if mode == 1 {
		if wrong && err == nil || wrong && !errors.Is(err, errCustom) {
			c.Fail("custom", "the custom validator's error came out as %v: %s", err, desc)
		}
		if len(custom.calls) == 0 {
			c.Fail("custom", "the custom validator was not asked: %s", desc)
		}
	}
	// whatever was said, an accepted value satisfies everything
	if err == nil && mode > 1 && shape != "v19file" && v19wrong(target.Elem()) {
		c.Fail("bound", "the bound value breaks a constraint: %s, bound %s", desc, show(target))
	}
	c.Sample(func() any { return map[string]any{"desc": desc, "error": fmt.Sprint(err)} })
}
