package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"

	"github.com/meilihao/water/binding"
)

// Types of one name: a function's own types all print alike, so nothing remembered of one under its name may
// reach another.

func nsake1() reflect.Type {
	type Item struct {
		A int    `form:"a" header:"X-A" uri:"a"`
		B string `form:"b" header:"X-B" uri:"b"`
	}
	return reflect.TypeOf(Item{})
}
func nsake2() reflect.Type {
	type Item struct {
		A int    `form:"b" header:"X-B" uri:"b"`
		B string `form:"-" header:"-" uri:"-"`
	}
	return reflect.TypeOf(Item{})
}
func nsake3() reflect.Type {
	type Item struct {
		A string `form:"a,default=dd" header:"X-A,default=dd" uri:"a,default=dd"`
		B int    `form:"c,default=9" header:"X-C,default=9" uri:"c,default=9"`
	}
	return reflect.TypeOf(Item{})
}

// namesakes binds three types of one name from the same values in turn.
func namesakes(c *C, bind func(source string, form map[string][]string, target interface{}) error) {
	r := c.R
	types := []reflect.Type{nsake1(), nsake2(), nsake3()}
	for k := r.Rng(3, 8); k > 0; k-- {
		source := pick(r, []string{"form", "query", "header", "uri", "multipart"})
		form := map[string][]string{}
		a, b := r.Rng(1, 99), r.Rng(1, 99)
		sent := r.Pct(80)
		want := []string{"{A:0 B:}", "{A:0 B:}", "{A:dd B:9}"}
		if sent {
			ka, kb := "a", "b"
			if source == "header" {
				ka, kb = "X-A", "X-B"
			}
			form[ka], form[kb] = []string{fmt.Sprint(a)}, []string{fmt.Sprint(b)}
			want = []string{fmt.Sprintf("{A:%d B:%d}", a, b), fmt.Sprintf("{A:%d B:}", b), fmt.Sprintf("{A:%d B:9}", a)}
		} else {
			form["Z"] = []string{"z"}
		}
		i := r.IntN(3)
		v := reflect.New(types[i])
		err := bind(source, form, v.Interface())
		c.Eval()
		c.Count("namesakes", 1)
		c.Seen("namesakes", source, i, sent)
		if got := fmt.Sprintf("%+v", v.Elem().Interface()); err != nil || got != want[i] {
			c.Fail("namesakes", "%s binding %v into %d of three types of one name: %s, %v, expected %s", source, form, i, got, err, want[i])
			return
		}
	}
}

func nsake4() reflect.Type {
	type Limit struct {
		A int `json:"a" form:"a"`
	}
	return reflect.TypeOf(Limit{})
}
func nsake5() reflect.Type {
	type Limit struct {
		A int `json:"a" form:"a" binding:"min=10"`
	}
	return reflect.TypeOf(Limit{})
}
func nsake6() reflect.Type {
	type Limit struct {
		A int `json:"a" form:"a" binding:"max=3"`
	}
	return reflect.TypeOf(Limit{})
}
func nsake7() reflect.Type {
	type Bound struct {
		A int `json:"a" form:"a" binding:"min=10"`
	}
	return reflect.TypeOf(Bound{})
}
func nsake8() reflect.Type {
	type Bound struct {
		A int `json:"a" form:"a"`
	}
	return reflect.TypeOf(Bound{})
}

// firstNames has the types seen first of each name: one without constraints and one with.
func firstNames() {
	for _, t := range []reflect.Type{nsake4(), nsake7()} {
		q := Req("GET", "/")
		q.URL.RawQuery = "a=20"
		must(binding.Query.Bind(q, reflect.New(t).Interface()))
	}
}

// sameNames validates types of one name with different constraints.
func sameNames(c *C) {
	r := c.R
	types := []reflect.Type{nsake4(), nsake5(), nsake6(), nsake7(), nsake8()}
	ok := []func(n int) bool{
		func(int) bool { return true }, func(n int) bool { return n >= 10 }, func(n int) bool { return n <= 3 },
		func(n int) bool { return n >= 10 }, func(int) bool { return true }}
	for k := r.Rng(4, 9); k > 0; k-- {
		i := r.IntN(len(types))
		n := r.Rng(0, 13)
		t := types[i]
		good := ok[i](n)
		v := reflect.New(t)
		doc, _ := json.Marshal(map[string]int{"a": n})
		if r.Pct(40) {
			v = reflect.New(reflect.SliceOf(t))
			if r.Pct(50) {
				v = reflect.New(reflect.SliceOf(reflect.PointerTo(t)))
			}
			doc = []byte("[" + string(doc) + "]")
		}
		var err error
		if v.Elem().Kind() == reflect.Struct && r.Pct(50) {
			q := Req("GET", "/")
			q.URL.RawQuery = fmt.Sprint("a=", n)
			err = binding.Query.Bind(q, v.Interface())
		} else {
			q := Req("POST", "/")
			q.Body = io.NopCloser(bytes.NewReader(doc))
			err = binding.JSON.Bind(q, v.Interface())
		}
		c.Eval()
		c.Count("namesakes", 1)
		c.Seen("namesakes", i, n)
		if (err == nil) != good {
			c.Fail("namesakes", "a %d bound into type %d of five with two names between them, %s: %v", n, i, v.Type(), err)
			return
		}
	}
}
