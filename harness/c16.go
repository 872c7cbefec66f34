package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"mime/multipart"
	"net/http"
	"net/textproto"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

func init() {
	before := func(e *Env) {
		time.Local = time.FixedZone("HARNESS", 5*3600+1800)
		binding.Validator = nil
	}
	register(&Prop{ID: "C16", Quick: 50000, Thor: 1000000,
		Rule:   "a case is a struct type generated by reflection (all supported kinds, pointers, slices, nested and embedded structs, JSON fields, times, with names of their own per source) and inputs for it from every source; the bound value and the error are compared with an independent decoder working from the type's description. Non-trivial: a present key for a named field; distinct by kind, source, text class and whether the target was preallocated.",
		Need:   []string{"namesakes", "bindings", "succeeded", "refused", "values_set", "from_form", "from_query", "from_header", "from_uri", "from_multipart", "from_mapform", "map_targets", "times", "json_fields", "slices", "pointers_nil", "pointers_allocated", "unsupported_kinds", "malformed_input", "long_lists", "wide_structs", "overwritten_keys"},
		Before: before,
		Case:   func(c *C) { c16(c, false) }})
	register(&Prop{ID: "C17", Quick: 50000, Thor: 1000000,
		Rule:   "a case is a generated struct type full of excluded, untagged, unexported, defaulted and prefilled fields (or one of the declared types with embedded, unexported and self-referring fields) and inputs whose keys aim at them (Go names, other sources' names, '-', paths); fields the source may not set are compared before and after, also when binding fails. Non-trivial: an excluded field whose name is sent, an absent key, or a default; distinct by field class, source and outcome.",
		Need:   []string{"bindings", "succeeded", "refused", "excluded_fields", "kept_fields", "defaults_applied", "defaults_overridden", "aimed_keys", "self_referring", "unexported_embedded", "embedded_basic"},
		Before: before,
		Case:   func(c *C) { c16(c, true) }})
}

var c16tags = []string{"form", "header", "uri"}

type bspec struct {
	lit   string // the tag as written
	all   string // the default, also of unnamed fields
	named bool
	key   string
	dash  bool
	def   string
}

type bfield struct {
	name  string
	kind  string // int..., "time", "struct", "map", or an unsupported one
	typ   reflect.Type
	ptr   bool
	slice bool
	sub   *bstruct
	spec  map[string]bspec
	tfmt  string
	tutc  string
	tloc  string
	anon  bool
	unexp bool
	arr   int // an array of so many
	wrap  int // still to come pointers around the whole
}

type bstruct struct {
	fields []*bfield
	typ    reflect.Type
}

var scalarTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
	"time": reflect.TypeOf(time.Time{}), "map": reflect.TypeOf(map[string]int(nil)), "map2": reflect.TypeOf(map[string]interface{}(nil)),
	"named": reflect.TypeOf(c16named("")), "namedint": reflect.TypeOf(c16small(0)),
}

var durationType = reflect.TypeOf(time.Duration(0))

type c16named string
type c16small int8

var scalarKinds = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "string", "string", "time", "time", "map", "map2", "named", "namedint"}

var oddTypes = map[string]reflect.Type{
	"chan": reflect.TypeOf((chan int)(nil)), "func": reflect.TypeOf((func())(nil)), "iface": reflect.TypeOf((*interface{})(nil)).Elem(),
	"complex": reflect.TypeOf(complex64(0)), "array": reflect.TypeOf([2]int{}), "pp": reflect.TypeOf((**int)(nil)), "pslice": reflect.TypeOf((*[]string)(nil)),
	"slices": reflect.TypeOf([][]int(nil)), "uintptr": reflect.TypeOf(uintptr(0)), "ppstruct": reflect.TypeOf((**struct{ A int })(nil)),
	"parray": reflect.TypeOf((*[2]int)(nil)), "ppslice": reflect.TypeOf([]**int(nil)), "ifaces": reflect.TypeOf([]interface{}(nil)),
}
var oddKinds = []string{"chan", "func", "iface", "complex", "array", "pp", "pslice", "slices", "uintptr", "ppstruct", "parray", "ppslice", "ifaces"}

var c16keys = []string{"a", "b", "c", "d", "A", "id", "name", "user.name", "x y", "é", "a[0]", "list[]", "0"}
var c16hkeys = []string{"x-a", "X-B", "x-Cc", "X-REQUEST-ID", "xUPPER-cAsE", "X_UP-a", "etag", "Accept-Thing", "x_under", "A", "name"}

type c16gen struct {
	r      R
	n      int
	hostil bool
	two    bool                            // for C35
	keys   map[string]map[string][]*bfield // tag -> key -> fields
}

func (g *c16gen) structType(depth int) *bstruct {
	r := g.r
	s := &bstruct{}
	var sf []reflect.StructField
	width := r.Rng(1, 6)
	if depth == 0 && r.Pct(3) {
		width = r.Rng(7, 70)
	}
	for i := width; i > 0; i-- {
		g.n++
		f := &bfield{name: fmt.Sprintf("F%d", g.n), spec: map[string]bspec{}}
		switch {
		case depth < 3 && r.Pct(25):
			f.kind = "struct"
			f.sub = g.structType(depth + 1)
			f.typ = f.sub.typ
			f.ptr = r.Pct(40)
			f.slice = r.Pct(15)
			f.anon = !f.slice && r.Pct(25)
		case r.Pct(6):
			f.kind = pick(r, oddKinds)
			f.typ = oddTypes[f.kind]
		default:
			f.kind = pick(r, scalarKinds)
			f.typ = scalarTypes[f.kind]
			f.ptr = r.Pct(25)
			f.slice = r.Pct(25)
		}
		leaf := g.two && f.sub == nil && oddTypes[f.kind] == nil
		if leaf && r.Pct(8) {
			f.kind, f.typ = "duration", durationType
		}
		if f.ptr {
			f.typ = reflect.PointerTo(f.typ)
		}
		if f.slice {
			f.typ = reflect.SliceOf(f.typ)
		}
		if leaf && !f.slice && !f.ptr && r.Pct(10) {
			f.arr = r.Rng(1, 3)
			f.typ = reflect.ArrayOf(f.arr, f.typ)
		}
		if leaf && r.Pct(10) {
			for k := r.Rng(1, 2); k > 0; k-- {
				f.typ = reflect.PointerTo(f.typ)
			}
		}
		un := 4
		if g.hostil {
			un = 12
		}
		if !f.anon && r.Pct(un) {
			f.unexp = true
			f.name = fmt.Sprintf("f%d", g.n)
		}
		if f.kind == "time" {
			f.tfmt = pick(r, []string{"", "", "2006-01-02", "2006-01-02 15:04:05", "unix", "UnixNano", "Jan _2 15:04 MST 2006", time.RFC1123Z, "15:04"})
			switch r.IntN(4) {
			case 0:
				f.tutc = pick(r, []string{"1", "true", "false", "0", "x"})
			case 1, 2:
				f.tloc = pick(r, []string{"Asia/Tokyo", "America/New_York", "UTC", "Nowhere/None", "Local"})
				if r.Pct(50) {
					f.tutc = pick(r, []string{"1", "true", "false"})
				}
			}
		}
		var tag []string
		for _, t := range c16tags {
			var sp bspec
			pool := c16keys
			if t == "header" {
				pool = c16hkeys
			}
			p := 75
			if g.hostil {
				p = 50
			}
			if f.kind == "struct" {
				p = 20
			}
			k := r.IntN(100)
			lit := ""
			switch {
			case k < p:
				sp.named, sp.key = true, pick(r, pool)
				lit = sp.key
			case k < p+(100-p)/2:
				sp.dash = true
				lit = "-"
			default: // unnamed
			}
			if r.Pct(20) {
				lit += pick(r, []string{",omitempty", ",", ",x=y"})
			}
			if r.Pct(20) && f.kind != "struct" {
				d := g.text(f, r.Pct(92))
				if !strings.ContainsAny(d, ",") {
					sp.def, sp.all = d, d
					lit += ",default=" + d
				}
			}
			sp.lit = lit
			if lit != "" {
				tag = append(tag, t+":"+strconv.Quote(lit))
			}
			if !sp.named {
				sp.def = ""
			}
			f.spec[t] = sp
			if sp.named && !f.unexp {
				k := sp.key
				if t == "header" {
					k = textproto.CanonicalMIMEHeaderKey(k)
				}
				if g.keys[t] == nil {
					g.keys[t] = map[string][]*bfield{}
				}
				g.keys[t][k] = append(g.keys[t][k], f)
			}
		}
		for k, v := range map[string]string{"time_format": f.tfmt, "time_utc": f.tutc, "time_location": f.tloc} {
			if v != "" {
				tag = append(tag, k+":"+strconv.Quote(v))
			}
		}
		sort.Strings(tag)
		x := reflect.StructField{Name: f.name, Type: f.typ, Tag: reflect.StructTag(strings.Join(tag, " ")), Anonymous: f.anon}
		if f.unexp {
			x.PkgPath = "main"
		}
		s.fields = append(s.fields, f)
		sf = append(sf, x)
	}
	s.typ = reflect.StructOf(sf)
	return s
}

var c16ints = []string{"0", "1", "-1", "+5", "007", "42", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-0"}
var c16badInts = []string{"1.5", "x", " 1", "1 ", "0x10", "1e3", "１", "--1", "99999999999999999999999999", "1,000", "true", "1_000", "\x00", "0b1", "-"}
var c16floats = []string{"1.5", "-0", "0.1", "3.4028235e38", "-3.4028235e38", "1e-50", ".5", "5.", "1e3", "123456789.123456789", "16777217", "0.30000000000000004", "1.7976931348623157e308", "4.9e-324", "1.401298464324817e-45", "NaN", "inf", "-Infinity", "0x1p-2"}
var c16badFloats = []string{"1e400", "-1e309", "1,5", "x", " 1.5", "1.5.1", "1e", "--1", "1_0", "1e39f", "0x", "3.5e38x"}
var c16strings = []string{"plain", "", " spaced ", "é中", "a,b", "{\"a\":1}", "-", "<b>", "100%", "a\nb", "\x00", "null", "0", strings.Repeat("long", 300), "a+b&c=d;e"}

// text makes a text for the field; good texts denote a value of the kind for some width at least.
func (g *c16gen) text(f *bfield, good bool) string {
	r := g.r
	if r.Pct(4) {
		return ""
	}
	switch f.kind {
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "namedint":
		if !good {
			if r.Pct(50) {
				return pick(r, c16badInts)
			}
			return pick(r, c16ints)
		}
		bits := scalarTypes[f.kind].Bits()
		if f.kind[0] == 'u' {
			m := uint64(math.MaxUint64) >> (64 - bits)
			return strconv.FormatUint(pick(r, []uint64{0, 1, m, m - 1, m/2 + 1, r.Uint64() & m}), 10)
		}
		m := int64(math.MaxInt64) >> (64 - bits)
		return strconv.FormatInt(pick(r, []int64{0, 1, -1, m, -m - 1, m - 1, int64(r.Uint64()) >> (64 - bits)}), 10)
	case "float32", "float64":
		if !good {
			return pick(r, append(c16badFloats, "1e39", "3.4028236e38", "1e38"))
		}
		if r.Pct(40) {
			if f.kind == "float32" {
				return strconv.FormatFloat(float64(math.Float32frombits(r.Uint32()&^(1<<30))), 'g', -1, 32)
			}
			return strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Rng(-30, 30))), 'g', -1, 64)
		}
		return pick(r, c16floats)
	case "bool":
		if !good {
			return pick(r, []string{"yes", "on", "tRUE", "2", " true", "off", "null", "-1"})
		}
		return pick(r, []string{"1", "t", "T", "true", "TRUE", "True", "0", "f", "F", "false", "FALSE", "False"})
	case "duration":
		if !good {
			return pick(r, []string{"5", "x", "1 h", "1h1", "9999999h", "1hh", "-"})
		}
		return pick(r, []string{"0", "1h", "-2m3.5s", "1ns", "300ms", "1.5h", "+1us", "2562047h47m16.854775807s"})
	case "string", "named":
		return pick(r, c16strings)
	case "time":
		if !good {
			return pick(r, []string{"yesterday", "2020-13-01", "2020-02-30", "12", "x12", "2020-01-01T00:00:00", "99999999999999999999", "1.5", "25:00", "2021-02-29T00:00:00Z"})
		}
		t := time.Unix(r.Int64N(4e9), r.Int64N(1e9)).In(pick(r, []*time.Location{time.UTC, time.Local, time.FixedZone("X", -3*3600)}))
		switch strings.ToLower(f.tfmt) {
		case "unix":
			return strconv.FormatInt(pick(r, []int64{t.Unix(), 0, -1, -t.Unix()}), 10)
		case "unixnano":
			return strconv.FormatInt(pick(r, []int64{t.UnixNano(), 0, -1, -t.UnixNano(), 999999999, 1000000001}), 10)
		case "":
			return t.Format(pick(r, []string{time.RFC3339, time.RFC3339Nano}))
		}
		return t.Format(f.tfmt)
	case "map":
		if !good {
			return pick(r, []string{"{", `{"a":"x"}`, `{"a":1.5}`, "[]", "5", `{"a":1}x`, `{"a":1,}`, "{'a':1}", `{"a":99999999999999999999}`, `{"a":20842010693523398185}`, `{"a":1}}`, `{"a":+1}`, `{"a":01}`, "nul"})
		}
		return pick(r, []string{`{"a":1,"b":-2}`, "{}", ` { "x" : 5 } `, `{"é\u0041":0}`})
	case "map2":
		if !good {
			return pick(r, []string{"{", "[]", `{"a":}`, `{"a":1}x`, `{"a":1,}`, `"s"`, "tru", `{"a":.5}`, `{a:1}`})
		}
		return pick(r, []string{`{"a":1.5,"b":[true,null,"x"],"c":{"d":"\u00e9\n"}}`, "{}", `{"n":123456789}`})
	case "struct":
		if !good {
			return pick(r, []string{"{", "[]", "5", "x", `{"` + f.sub.fields[0].name + `":`, "{}x", `"s"`})
		}
		v := reflect.New(f.sub.typ).Elem()
		h := *g
		h.fill(f.sub, v, true)
		b, err := json.Marshal(v.Interface())
		if err != nil {
			return "{}"
		}
		return string(b)
	}
	return pick(r, []string{"1", "x", "", "{}", "[1,2]"})
}

// open gives access to unexported fields too.
func open(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// fill sets random values; deterministic for the generator's state.
func (g *c16gen) fill(s *bstruct, v reflect.Value, all bool) {
	for i, f := range s.fields {
		x := open(v.Field(i))
		if f.unexp && all {
			continue
		}
		if !all && g.r.Pct(35) {
			continue
		}
		if f.sub != nil && !f.slice {
			if f.ptr {
				x.Set(reflect.New(f.sub.typ))
				x = x.Elem()
			}
			g.fill(f.sub, x, all)
			continue
		}
		g.fillAny(f, x, all)
	}
}

func (g *c16gen) fillAny(f *bfield, x reflect.Value, all bool) {
	r := g.r
	switch x.Kind() {
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			g.fillAny(f, x.Index(i), all)
		}
	case reflect.Slice:
		n := r.IntN(3)
		x.Set(reflect.MakeSlice(x.Type(), n, n))
		for i := 0; i < n; i++ {
			g.fillAny(f, x.Index(i), all)
		}
	case reflect.Ptr:
		if x.Type().Elem().Kind() == reflect.Ptr && oddTypes[f.kind] != nil {
			return
		}
		x.Set(reflect.New(x.Type().Elem()))
		g.fillAny(f, x.Elem(), all)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x.SetInt(int64(r.Rng(-100, 100)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x.SetUint(uint64(r.Rng(1, 200)))
	case reflect.Float32, reflect.Float64:
		x.SetFloat(float64(r.Rng(-8, 8)) / 4)
	case reflect.Bool:
		x.SetBool(true)
	case reflect.String:
		x.SetString("old " + r.Word())
	case reflect.Struct:
		if x.Type() == scalarTypes["time"] {
			x.Set(reflect.ValueOf(time.Unix(int64(r.IntN(1e9)), 0).UTC()))
		} else if f.sub != nil && x.Type() == f.sub.typ {
			g.fill(f.sub, x, all)
		}
	case reflect.Map:
		if x.Type() == scalarTypes["map"] {
			x.Set(reflect.ValueOf(map[string]int{"old": r.IntN(9)}))
		} else {
			x.Set(reflect.ValueOf(map[string]interface{}{"old": r.Word()}))
		}
	}
}

// conv is what the text denotes for the target; errNo says it denotes nothing. Empty texts may also be refused.
func (f *bfield) conv(text string, x reflect.Value) error {
	if x.Kind() == reflect.Ptr {
		if x.IsNil() {
			x.Set(reflect.New(x.Type().Elem()))
		}
		x = x.Elem()
	}
	if text == "" {
		switch x.Kind() {
		case reflect.Map:
		case reflect.Struct:
			if x.Type() == scalarTypes["time"] && !strings.HasPrefix(strings.ToLower(f.tfmt), "unix") {
				x.Set(reflect.ValueOf(time.Time{}))
				return errEither
			}
		default:
			x.Set(reflect.Zero(x.Type()))
			if x.Kind() == reflect.String {
				return nil
			}
			return errEither
		}
	}
	if x.Type() == durationType {
		n, err := time.ParseDuration(text)
		if err != nil {
			return err
		}
		x.SetInt(int64(n))
		return nil
	}
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(text, 10, x.Type().Bits())
		if err != nil {
			return err
		}
		x.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(text, 10, x.Type().Bits())
		if err != nil {
			return err
		}
		x.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(text, x.Type().Bits())
		if err != nil {
			return err
		}
		x.SetFloat(n)
	case reflect.Bool:
		n, err := strconv.ParseBool(text)
		if err != nil {
			return err
		}
		x.SetBool(n)
	case reflect.String:
		x.SetString(text)
	case reflect.Map:
		p := reflect.New(x.Type())
		p.Elem().Set(cloneMap(x))
		if err := json.Unmarshal([]byte(text), p.Interface()); err != nil {
			return err
		}
		x.Set(p.Elem())
	case reflect.Struct:
		if x.Type() != scalarTypes["time"] {
			return json.Unmarshal([]byte(text), x.Addr().Interface())
		}
		var t time.Time
		var err error
		switch strings.ToLower(f.tfmt) {
		case "unix", "unixnano":
			var n int64
			n, err = strconv.ParseInt(text, 10, 64)
			if strings.ToLower(f.tfmt) == "unix" {
				t = time.Unix(n, 0)
			} else {
				t = time.Unix(0, n)
			}
		default:
			loc := time.Local
			if u, _ := strconv.ParseBool(f.tutc); u {
				loc = time.UTC
			}
			if f.tloc != "" {
				if loc, err = time.LoadLocation(f.tloc); err != nil {
					return err
				}
			}
			layout := f.tfmt
			if layout == "" {
				layout = time.RFC3339
			}
			t, err = time.ParseInLocation(layout, text, loc)
		}
		if err != nil {
			return err
		}
		x.Set(reflect.ValueOf(t))
	default:
		return errOdd
	}
	return nil
}

func cloneMap(x reflect.Value) reflect.Value {
	if x.IsNil() {
		return x
	}
	n := reflect.MakeMap(x.Type())
	for _, k := range x.MapKeys() {
		n.SetMapIndex(k, x.MapIndex(k))
	}
	return n
}

type c16err string

func (e c16err) Error() string { return string(e) }

const (
	errEither = c16err("may be refused")
	errOdd    = c16err("unsupported kind")
)

// c16model applies the input to a copy of the target.
type c16model struct {
	c     *C
	tag   string
	form  map[string][]string
	class map[string]string // path -> value, default, kept, excluded, json
	must  error
	may   bool // refusal is also right
	odd   bool // an unsupported kind was addressed
	two   bool // the second binding
}

func (m *c16model) apply(s *bstruct, v reflect.Value, path string) {
	for i, f := range s.fields {
		p := path + "." + f.name
		sp := f.spec[m.tag]
		x := v.Field(i)
		if f.unexp || sp.dash {
			m.class[p] = "excluded"
			continue
		}
		if f.sub != nil && !f.slice {
			y := x
			if f.ptr {
				if x.IsNil() {
					x.Set(reflect.New(f.sub.typ))
					m.c.Count("pointers_nil", 1)
				} else {
					m.c.Count("pointers_allocated", 1)
				}
				y = x.Elem()
			}
			m.apply(f.sub, y, p)
		}
		if !sp.named {
			m.class[p] = "excluded"
			if f.sub != nil && !f.slice {
				m.class[p] = "inside"
			}
			continue
		}
		k := sp.key
		if m.tag == "header" {
			k = textproto.CanonicalMIMEHeaderKey(k)
		}
		vals := m.form[k]
		m.class[p] = "value"
		if len(vals) == 0 {
			m.class[p] = "kept"
			if f.sub != nil && !f.slice {
				m.class[p] = "inside"
			}
			if sp.def == "" {
				continue
			}
			m.class[p] = "default"
			vals = []string{sp.def}
		} else if sp.def != "" {
			m.class[p] = "overridden"
			m.c.Count("defaults_overridden", 1)
		}
		if oddTypes[f.kind] != nil {
			m.odd = true
			m.class[p] = "odd"
			continue
		}
		note := func(err error) {
			switch {
			case err == errEither:
				m.may = true
			case err != nil && m.must == nil:
				m.must = fmt.Errorf("field %s (%v): %w", p, f.typ, err)
			}
		}
		if f.kind == "time" {
			m.c.Count("times", 1)
		}
		if f.kind == "struct" || f.kind[0] == 'm' {
			m.c.Count("json_fields", 1)
		}
		m.c.Seen(f.kind, f.ptr, f.slice, m.tag, vals[0], x.Kind() == reflect.Ptr && !x.IsNil(), f.tfmt)
		if f.slice {
			m.c.Count("slices", 1)
			n := reflect.MakeSlice(f.typ, len(vals), len(vals))
			for j, t := range vals {
				note(f.conv(t, n.Index(j)))
			}
			x.Set(n)
		} else {
			if f.ptr && f.sub == nil {
				if x.IsNil() {
					m.c.Count("pointers_nil", 1)
				} else {
					m.c.Count("pointers_allocated", 1)
				}
			}
			note(f.conv(vals[0], x))
		}
	}
}

func zeroish(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil() || v.Type().Elem().Kind() == reflect.Struct && zeroish(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !zeroish(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

// diff compares deeply; times by instant and zone, NaN equals NaN.
func diff(got, want reflect.Value, path string) string {
	if got.CanAddr() && want.CanAddr() {
		got, want = open(got), open(want)
	}
	bad := func() string { return fmt.Sprintf("%s is %s, expected %s", path, showV(got), showV(want)) }
	if got.Type() == scalarTypes["time"] {
		a, b := got.Interface().(time.Time), want.Interface().(time.Time)
		an, ao := a.Zone()
		bn, bo := b.Zone()
		if !a.Equal(b) || an != bn || ao != bo {
			return bad()
		}
		return ""
	}
	switch got.Kind() {
	case reflect.Float32, reflect.Float64:
		a, b := got.Float(), want.Float()
		if math.Float64bits(a) != math.Float64bits(b) && !(math.IsNaN(a) && math.IsNaN(b)) {
			return bad()
		}
		return ""
	case reflect.Ptr:
		if got.IsNil() || want.IsNil() {
			if got.IsNil() && want.IsNil() || got.Type().Elem().Kind() == reflect.Struct && got.Type().Elem() != scalarTypes["time"] && zeroish(got) && zeroish(want) {
				return ""
			}
			return bad()
		}
		return diff(got.Elem(), want.Elem(), path)
	case reflect.Struct:
		for i := 0; i < got.NumField(); i++ {
			if d := diff(got.Field(i), want.Field(i), path+"."+got.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if got.Len() != want.Len() || got.Kind() == reflect.Slice && got.IsNil() != want.IsNil() {
			return bad()
		}
		for i := 0; i < got.Len(); i++ {
			if d := diff(got.Index(i), want.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Chan, reflect.Func:
		if got.IsNil() != want.IsNil() {
			return bad()
		}
		return ""
	}
	if !reflect.DeepEqual(got.Interface(), want.Interface()) {
		return bad()
	}
	return ""
}

func showV(v reflect.Value) string {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return "&" + showV(v.Elem())
	}
	if !v.CanInterface() {
		return v.String()
	}
	if v.Kind() == reflect.Chan || v.Kind() == reflect.Func {
		return fmt.Sprintf("%v nil=%v", v.Type(), v.IsNil())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// judge walks the fields and reports the first that is not as it should be, with its class.
func (m *c16model) judge(s *bstruct, got, want reflect.Value, path string, failed bool) (class, msg string) {
	for i, f := range s.fields {
		p := path + "." + f.name
		cl := m.class[p]
		x, y := got.Field(i), want.Field(i)
		switch cl {
		case "inside":
			if f.ptr {
				if x.IsNil() || y.IsNil() {
					if !zeroish(x) || !zeroish(y) {
						if failed || m.two && m.odd {
							continue
						}
						return "kept", fmt.Sprintf("%s is %s, expected %s", p, showV(x), showV(y))
					}
					continue
				}
				x, y = x.Elem(), y.Elem()
			}
			if c, d := m.judge(f.sub, x, y, p, failed); d != "" {
				return c, d
			}
			continue
		case "odd":
			continue
		case "value", "default", "overridden":
			if failed { // how far it came is open
				continue
			}
		}
		switch cl {
		case "excluded":
			m.c.Count("excluded_fields", 1)
		case "kept":
			m.c.Count("kept_fields", 1)
		case "default":
			m.c.Count("defaults_applied", 1)
		case "value", "overridden":
			m.c.Count("values_set", 1)
		}
		if d := diff(x, y, p); d != "" {
			return cl, d
		}
	}
	return "", ""
}

// c16bind hands the input over through one of the sources.
func c16bind(c *C, source string, form map[string][]string, target interface{}) error {
	r := c.R
	sent := cloneForm(form)
	var rq *http.Request
	defer func() { // what the client sent is still there for whoever asks next
		left := []map[string][]string{form}
		if rq != nil {
			if rq.Form != nil {
				left = append(left, rq.Form)
			}
			if rq.MultipartForm != nil {
				left = append(left, rq.MultipartForm.Value)
			}
			if source == "header" {
				left = append(left, rq.Header)
			}
		}
		for _, l := range left {
			c.Count("inputs_kept", 1)
			if len(l)+len(sent) > 0 && !reflect.DeepEqual(l, sent) && !(source == "multipart" && len(l) == 0) {
				c.Fail("input changed", "binding (source %s) left %q of the input %q, target %T", source, l, sent, target)
			}
		}
	}()
	c.Count("from_"+source, 1)
	enc := func(m map[string][]string) string { return url.Values(m).Encode() }
	switch source {
	case "mapform":
		return binding.MapForm(target, form, nil, "form")
	case "uri":
		return binding.Uri.Bind(form, target)
	case "header":
		rq = Req("GET", "/")
		for k, v := range form {
			rq.Header[k] = v
		}
		return binding.Header.Bind(rq, target)
	case "query":
		rq = Req(pick(r, []string{"GET", "GET", "DELETE"}), "/")
		rq.URL.RawQuery = enc(form)
		return c16through(c, rq, target, pick(r, []binding.Bindinger{binding.Query, binding.Form, binding.Query}))
	case "multipart":
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		keys := sortedKeys(form)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			for _, v := range form[k] {
				must(w.WriteField(k, v))
			}
		}
		must(w.Close())
		rq = Req("POST", "/")
		rq.Header.Set("Content-Type", w.FormDataContentType())
		rq.Body = io.NopCloser(&b)
		return c16through(c, rq, target, binding.FormMultipart)
	default: // form: the body's values before the query's
		q, p := map[string][]string{}, map[string][]string{}
		for _, k := range sortedKeys(form) {
			n := r.IntN(len(form[k]) + 1)
			if n > 0 {
				p[k] = form[k][:n]
			}
			if n < len(form[k]) {
				q[k] = form[k][n:]
			}
		}
		rq = Req(pick(r, []string{"POST", "PUT", "PATCH"}), "/")
		rq.URL.RawQuery = enc(q)
		rq.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		rq.Body = io.NopCloser(strings.NewReader(enc(p)))
		return c16through(c, rq, target, pick(r, []binding.Bindinger{binding.Form, binding.FormPost}))
	}
}

func cloneForm(m map[string][]string) map[string][]string {
	n := map[string][]string{}
	for k, v := range m {
		n[k] = append([]string{}, v...)
	}
	return n
}

func sortedKeys[T any](m map[string]T) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// c16through binds directly or inside a request's handler.
func c16through(c *C, req *http.Request, target interface{}, b binding.Bindinger) (err error) {
	if c.Pct(50) {
		return b.Bind(req, target)
	}
	auto := c.Pct(50) && b != binding.Query && !(req.Method == "GET" && b != binding.Form)
	rt := water.NewRouter()
	rt.ANY("/", func(x *water.Context) {
		if auto {
			err = x.Bind(target)
		} else {
			err = x.BindWith(target, b)
		}
	})
	ran := false
	e := rt.Handler()
	Serve(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { ran = true; e.ServeHTTP(w, q) }), req)
	_ = ran
	return err
}

func c16(c *C, excl bool) {
	r := c.R
	if excl && r.Pct(15) {
		c17fixed(c)
		return
	}
	if !excl && r.Pct(2) {
		namesakes(c, func(s string, f map[string][]string, t interface{}) error { return c16bind(c, s, f, t) })
		return
	}
	if !excl && r.Pct(8) {
		c16maps(c)
		return
	}
	g := &c16gen{r: r, hostil: excl, keys: map[string]map[string][]*bfield{}}
	s := g.structType(0)
	if len(s.fields) > 6 {
		c.Count("wide_structs", 1)
	}
	for trial := r.Rng(4, 10); trial > 0; trial-- {
		source := pick(r, []string{"form", "query", "header", "uri", "multipart", "mapform"})
		tag := map[string]string{"header": "header", "uri": "uri"}[source]
		if tag == "" {
			tag = "form"
		}
		good := r.Pct(70)
		form := map[string][]string{}
		keys := sortedKeys(g.keys[tag])
		for _, k := range keys {
			if !r.Pct(60) {
				continue
			}
			f := pick(r, g.keys[tag][k])
			n := 1
			if r.Pct(30) || f.slice && r.Pct(60) {
				n = r.Rng(2, 4)
				if f.sub == nil && r.Pct(1) && source != "multipart" { // Go's own limit is 1000 parts
					n = r.Rng(5, 3000)
					c.Count("long_lists", 1)
				}
			}
			for ; n > 0; n-- {
				form[k] = append(form[k], g.text(f, good || r.Pct(70)))
			}
		}
		if r.Pct(60) || excl { // keys that aim at what must not be set
			var names []string
			var walk func(s *bstruct, p string)
			walk = func(s *bstruct, p string) {
				for _, f := range s.fields {
					names = append(names, f.name, strings.ToLower(f.name), p+f.name, "-", f.name+"[]")
					for _, t := range c16tags {
						if t != tag && f.spec[t].named {
							names = append(names, f.spec[t].key)
						}
					}
					if f.sub != nil {
						walk(f.sub, p+f.name+".")
					}
				}
			}
			walk(s, "")
			for i := r.Rng(1, 8); i > 0; i-- {
				k := pick(r, names)
				if tag == "header" {
					if strings.ContainsAny(k, " \u00e9[]") {
						continue
					}
					k = textproto.CanonicalMIMEHeaderKey(k)
				}
				if _, ok := g.keys[tag][k]; !ok && form[k] == nil {
					form[k] = []string{pick(r, []string{"1", "true", "evil", "{}", "2020-01-01"})}
					c.Count("aimed_keys", 1)
				}
			}
		}
		if c.N%97 == 5 { // many more
			c.Count("crowds", 1)
			for i := 0; i < 100; i++ {
				form[fmt.Sprint("Crowd-", i)] = []string{"1"}
			}
		}
		for k, v := range form { // what cannot be sent
			if source == "multipart" && (k == "" || strings.ContainsAny(k, "\"\n\r\\")) {
				delete(form, k)
			}
			_ = v
		}
		if source == "uri" || source == "mapform" {
			if len(keys) > 0 && r.Pct(10) { // a key without any value
				k := pick(r, keys)
				if form[k] == nil {
					form[k] = []string{}
				}
			}
		}
		seed := r.Uint64()
		mk := func() reflect.Value {
			h := &c16gen{r: newR(seed, "fill", 0)}
			v := reflect.New(s.typ)
			if seed%4 != 0 {
				h.fill(s, v.Elem(), false)
			}
			return v
		}
		got, want := mk(), mk()
		m := &c16model{c: c, tag: tag, form: form, class: map[string]string{}}
		m.apply(s, want.Elem(), "")
		var err error
		show := func() string {
			return fmt.Sprintf("source %s, type %v\ninput %q\nbefore %s", source, s.typ, form, showV(mk()))
		}
		p, crashed := try(func() { err = c16bind(c, source, form, got.Interface()) })
		c.Eval()
		c.Count("bindings", 1)
		if crashed {
			if !excl {
				c.Fail("crash", "binding crashed with %v\n%s", p, show())
				return
			}
			return
		}
		if m.odd {
			c.Count("unsupported_kinds", 1)
		}
		if m.must != nil && err == nil && !excl {
			c.Fail("accepted", "no error, though %v\nbound %s\n%s", m.must, showV(got), show())
			return
		}
		if m.must == nil && !m.may && !m.odd && err != nil {
			if !excl {
				c.Fail("refused", "error %v, but every text denotes a value\n%s", err, show())
				return
			}
		}
		if err == nil {
			c.Count("succeeded", 1)
		} else {
			c.Count("refused", 1)
		}
		cl, d := m.judge(s, got.Elem(), want.Elem(), "", err != nil || m.must != nil)
		if d == "" {
			continue
		}
		if cl == "overridden" || excl == (cl != "value") {
			c.Fail(cl, "%s\nerror %v\n%s", d, err, show())
			return
		}
	}
	c.Sample(func() any { return map[string]any{"type": s.typ.String()} })
}

// c16maps binds into maps, and hands in malformed input.
func c16maps(c *C) {
	r := c.R
	form := map[string][]string{}
	for i := r.IntN(6); i > 0; i-- {
		k := pick(r, append(c16hkeys, c16keys...))
		for n := r.Rng(1, 3); n > 0; n-- {
			form[k] = append(form[k], pick(r, c16strings))
		}
	}
	source := pick(r, []string{"form", "query", "uri", "multipart", "mapform"})
	c.Eval()
	c.Count("bindings", 1)
	if r.Pct(25) { // malformed
		c.Count("malformed_input", 1)
		var t struct {
			A string `form:"a"`
			B int    `form:"b"`
		}
		req := Req("POST", "/")
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		b := binding.Bindinger(binding.Form)
		switch r.IntN(4) {
		case 0:
			req.URL.RawQuery = "a=1&b=%zz"
		case 1:
			req.Body = io.NopCloser(strings.NewReader("a=%1&b=2"))
		case 2:
			b = binding.FormMultipart
			req.Header.Set("Content-Type", "multipart/form-data; boundary=xx")
			req.Body = io.NopCloser(strings.NewReader("--xx\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n1\r\n--x"))
		case 3:
			b = binding.FormMultipart
			req.Header.Set("Content-Type", "multipart/form-data")
			req.Body = io.NopCloser(strings.NewReader("--xx--"))
		}
		var err error
		p, crashed := try(func() { err = c16through(c, req, &t, b) })
		if crashed || err == nil {
			c.Fail("malformed", "crash %v, error %v, bound %+v for %v %q", p, err, t, req.Header, req.URL.RawQuery)
		}
		c.Seen("malformed", req.URL.RawQuery, req.Header)
		return
	}
	c.Count("map_targets", 1)
	pre := r.IntN(3)
	c.Seen("map", source, form, pre)
	if r.Pct(50) {
		want := map[string]string{}
		var m map[string]string
		if pre > 0 {
			m = map[string]string{}
		}
		if pre > 1 {
			m["old"], want["old"] = "o", "o"
			for k := range form {
				m[k] = "before"
				c.Count("overwritten_keys", 1)
			}
		}
		for k, v := range form {
			want[k] = v[len(v)-1]
		}
		var err error
		if p, crashed := try(func() { err = c16bind(c, source, form, &m) }); crashed || err != nil {
			c.Fail("map", "crash %v, error %v for %s %q", p, err, source, form)
		} else if len(m)+len(want) > 0 && !reflect.DeepEqual(m, want) {
			c.Fail("map", "bound %q for %s %q", m, source, form)
		}
		return
	}
	want := map[string][]string{}
	var m map[string][]string
	if pre > 0 {
		m = map[string][]string{}
	}
	if pre > 1 {
		m["old"], want["old"] = []string{"o"}, []string{"o"}
		for k := range form {
			m[k] = []string{"before", "that"}
		}
	}
	for k, v := range form {
		want[k] = v
	}
	var err error
	if p, crashed := try(func() { err = c16bind(c, source, form, &m) }); crashed || err != nil {
		c.Fail("map", "crash %v, error %v for %s %q", p, err, source, form)
	} else if len(m)+len(want) > 0 && !reflect.DeepEqual(m, want) {
		c.Fail("map", "bound %q for %s %q", m, source, form)
	}
}
