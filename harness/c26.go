package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"
)

func init() {
	register(&Prop{ID: "C26", Quick: 60000, Thor: 1000000,
		Rule: "a case is a series of requests (matched, not found, panicking, one inside another, several at once) to one engine whose middlewares and handlers each perform random store operations before and after Next over few names, through the context and the store itself; every result, including whether it panicked, is compared with a map of the request, and the whole store is compared after refusals and at the end. Non-trivial: second stores, wrong types, nil values, reads across handlers; distinct by operation sequence.",
		Need: []string{"requests", "stored", "read", "read_in_other_handler", "double", "missing", "wrong_type", "typed", "nil_values", "absent_lookups", "notfound_requests", "after_panic", "nested", "concurrent", "whole_store", "many_names"},
		Case: c26})
}

type c26obj struct{ A, B int }

var c26ptr = &c26obj{1, 2}
var c26map = map[string]int{"a": 1}
var c26sl = []int{1, 2, 3}
var c26fn = func() int { return 7 }

func c26value(r R) interface{} {
	switch r.IntN(23) {
	case 0, 1:
		return r.Pct(50)
	case 2, 3:
		return pick(r, []int{0, 1, -1, math.MaxInt})
	case 4, 5:
		return pick(r, []int64{0, 5, math.MinInt64})
	case 6:
		return pick(r, []uint{0, 5, math.MaxUint})
	case 7:
		return pick(r, []uint64{0, 5, math.MaxUint64})
	case 8:
		return pick(r, []float64{0, 1.5, math.Inf(1), math.NaN()})
	case 9, 10:
		return r.Str("", "x", "é")
	case 11:
		return nil
	case 12:
		return c26obj{r.IntN(9), 2}
	case 13:
		return c26ptr
	case 14:
		return c26map
	case 15:
		return c26sl
	case 16:
		return c26fn
	case 17:
		return int32(7)
	case 18:
		return (*c26obj)(nil)
	case 19, 20, 21: // what a reader changes every reader sees
		return pick(r, []interface{}{[]byte("bytes"), []string{"a", "b"}, []byte{}, make([]int, 0, 5), map[string]string{}, map[string]interface{}{"a": 1}, map[string][]string{"a": nil}, http.Header{"A": {"b"}},
			&bytes.Buffer{}, make(chan int), new(int), &[]string{"x"}, new(sync.Mutex), []interface{}{1, "a"}, time.Now(), [2]int{1, 2}, url.Values{"a": {"b"}}, strings.NewReader("x"), json.RawMessage("{}"), complex(1, 2), water.H{"a": 1}})
	}
	return fmt.Errorf("e%d", r.IntN(3))
}

// c26same: the same value with the same dynamic type (functions, maps and slices: the same one).
func c26same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Func, reflect.Map:
		return x.Pointer() == y.Pointer()
	case reflect.Slice:
		return x.Pointer() == y.Pointer() && x.Len() == y.Len() && x.Cap() == y.Cap()
	case reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	}
	return a == b
}

type c26state struct {
	r      R
	m      map[string]interface{}
	by     map[string]int // the handler that stored it
	trace  []string
	nf     bool
	depth  int
	panics bool
	ran    int
	total  int
}

func c26(c *C) {
	r := c.R
	names := []string{"a", "b", "", "user", "é"}[:r.Rng(2, 5)]
	many := r.OneIn(200)
	if many {
		for i := r.Rng(20, 1500); i > 0; i-- {
			names = append(names, fmt.Sprint(r.Str("n", "", "k-"), i))
		}
		c.Count("many_names", 1)
	}
	bad := sync.Mutex{}
	failed := false
	fail := func(s *c26state, sig, format string, a ...any) {
		bad.Lock()
		defer bad.Unlock()
		if !failed {
			failed = true
			c.Fail(sig, "%s\noperations of this request: %v", fmt.Sprintf(format, a...), s.trace)
		}
	}
	var eng *water.Engine
	whole := func(s *c26state, x *water.Context) {
		c.Count("whole_store", 1)
		if len(x.Environ) != len(s.m) {
			fail(s, "store", "the store holds %d values, %d were stored", len(x.Environ), len(s.m))
			return
		}
		for k, v := range s.m {
			if !c26same(x.Environ[k], v) {
				fail(s, "store", "the store holds %T %v under %q, stored was %T %v", x.Environ[k], x.Environ[k], k, v, v)
			}
		}
	}
	op := func(s *c26state, x *water.Context, who int) {
		r := s.r
		n := pick(r, names)
		v, has := s.m[n]
		if has && s.by[n] != who {
			c.Count("read_in_other_handler", 1)
		}
		log := func(f string, a ...any) { s.trace = append(s.trace, fmt.Sprintf("h%d:%s", who, fmt.Sprintf(f, a...))) }
		loud := func(what string, want bool, f func()) {
			_, p := try(f)
			if p != want {
				fail(s, "loud", "%s: panicked %v, expected %v", what, p, want)
			}
			if p {
				whole(s, x)
			}
		}
		switch k := r.IntN(9); k {
		case 0, 1, 2:
			nv := c26value(r)
			log("set(%q,%T %v)", n, nv, nv)
			if has {
				c.Count("double", 1)
			} else {
				c.Count("stored", 1)
				if nv == nil {
					c.Count("nil_values", 1)
				}
			}
			if !has {
				// the model first: a panic in the wrong place is seen as a difference
				s.by[n] = who
			}
			_, p := try(func() {
				if k == 0 {
					x.Environ.Set(n, nv)
				} else {
					x.Set(n, nv)
				}
			})
			if p != has {
				fail(s, "set", "storing %q panicked: %v, it was stored before: %v", n, p, has)
			}
			if !has {
				s.m[n] = nv
			} else {
				whole(s, x)
			}
		case 3, 4:
			log("get(%q)", n)
			var got interface{}
			loud(fmt.Sprintf("Get(%q)", n), !has, func() {
				if k == 3 {
					got = x.Get(n)
				} else {
					got = x.Environ.Get(n)
				}
			})
			if has {
				c.Count("read", 1)
				if !c26same(got, v) {
					fail(s, "get", "Get(%q) is %T %v, stored was %T %v", n, got, got, v, v)
				}
			} else {
				c.Count("missing", 1)
			}
		case 5:
			log("maybe(%q)", n)
			got, ok := x.GetMaybe(n)
			if ok != has || !c26same(got, v) {
				fail(s, "maybe", "GetMaybe(%q) is %T %v %v, expected %v %v", n, got, got, ok, v, has)
			}
			if h := x.Environ.Has(n); h != has {
				fail(s, "has", "Has(%q) is %v", n, h)
			}
			if !has {
				c.Count("absent_lookups", 1)
			}
		default:
			kind := r.IntN(7)
			if has && r.Pct(50) { // the matching one
				for i, t := range []interface{}{true, 0, int64(0), uint(0), uint64(0), 0.0, ""} {
					if v != nil && reflect.TypeOf(v) == reflect.TypeOf(t) {
						kind = i
					}
				}
			}
			log("typed%d(%q)", kind, n)
			var got interface{}
			var want bool
			switch kind {
			case 0:
				_, want = v.(bool)
			case 1:
				_, want = v.(int)
			case 2:
				_, want = v.(int64)
			case 3:
				_, want = v.(uint)
			case 4:
				_, want = v.(uint64)
			case 5:
				_, want = v.(float64)
			case 6:
				_, want = v.(string)
			}
			loud(fmt.Sprintf("typed getter %d of %q holding %T", kind, n, v), !want, func() {
				e := x.Environ
				switch kind {
				case 0:
					got = e.GetBool(n)
				case 1:
					got = e.GetInt(n)
				case 2:
					got = e.GetInt64(n)
				case 3:
					got = e.GetUint(n)
				case 4:
					got = e.GetUint64(n)
				case 5:
					got = e.GetFloat64(n)
				case 6:
					got = e.GetString(n)
				}
			})
			if want {
				c.Count("typed", 1)
				if !c26same(got, v) {
					fail(s, "typed", "typed getter %d of %q is %v, stored was %v", kind, n, got, v)
				}
			} else if has {
				c.Count("wrong_type", 1)
			}
		}
	}
	var request func(s *c26state)
	handler := func(who int, last bool) func(*water.Context) {
		return func(x *water.Context) {
			s := Val(x.Request, "c26").(*c26state)
			s.ran++
			if s.ran == 1 {
				if len(x.Environ) != 0 {
					fail(s, "fresh", "a request starts with the store %v", x.Environ)
				}
			}
			k := s.r.IntN(8)
			if many {
				k = s.r.IntN(2 * len(names))
			}
			for ; k > 0; k-- {
				op(s, x, who)
				s.total++
			}
			if s.depth < 2 && s.r.Pct(6) {
				c.Count("nested", 1)
				request(&c26state{r: s.r, depth: s.depth + 1, nf: s.r.Pct(40)})
				whole(s, x)
			}
			if last && s.panics {
				panic("handler")
			}
			if !last && s.r.Pct(70) {
				x.Next()
				for k := s.r.IntN(5); k > 0; k-- {
					op(s, x, who)
				}
			}
			if s.r.Pct(30) {
				whole(s, x)
			}
			if last {
				x.WriteHeader(200)
			}
		}
	}
	rt := water.NewRouter()
	k := r.IntN(4)
	for i := 0; i < k; i++ {
		if i%2 == 0 {
			rt.Before(handler(i, false))
		} else {
			rt.Use(handler(i, false))
		}
	}
	rt.GET("/a", handler(10, false), handler(11, true))
	rt.GET("/p/<x>", handler(12, true))
	opts := []water.Option{water.WithStaticRouter(r.Pct(50))}
	if r.Pct(80) {
		opts = append(opts, water.WithNoFoundHandlers(handler(20, false), handler(21, true)))
	}
	eng = rt.Handler(opts...)
	request = func(s *c26state) {
		s.m, s.by = map[string]interface{}{}, map[string]int{}
		path := s.r.Str("/a", "/p/1")
		if s.nf {
			path = "/none"
			c.Count("notfound_requests", 1)
		}
		c.Eval()
		c.Count("requests", 1)
		p, crashed := try(func() { Serve(eng, With(Req("GET", path), "c26", s)) })
		if crashed && !(s.panics && p == "handler") {
			fail(s, "crash", "the request panicked: %v", p)
		}
		if len(s.trace) > 1 {
			c.Seen(s.trace)
		}
	}
	after := false
	for i := r.Rng(2, 6); i > 0; i-- {
		s := &c26state{r: r, nf: r.Pct(25), panics: r.Pct(12)}
		if after {
			c.Count("after_panic", 1)
		}
		request(s)
		after = s.panics
		c.Sample(func() any { return map[string]any{"operations": s.trace} })
	}
	if c.N%10 == 0 {
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			gr := newR(c.Seed, "C26g", c.N*8+i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 5; k++ {
					c.Count("concurrent", 1)
					request(&c26state{r: gr, nf: gr.Pct(25)})
				}
			}()
		}
		wg.Wait()
	}
}
