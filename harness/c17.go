package main

import (
	"fmt"
	"reflect"

	"github.com/meilihao/water/binding"
)

// declared types, for what reflection cannot make

type c17base struct {
	ID     int    `form:"id" header:"X-Id" uri:"id"`
	secret string `form:"secret" header:"X-Secret" uri:"secret"`
	Owner  string `form:"-" header:"-" uri:"-"`
	Plain  string
	Level  int `form:"level,default=3" header:"X-Level,default=3" uri:"level,default=3"`
}
type C17Exported struct {
	Tag   string `form:"tag" header:"X-Tag" uri:"tag"`
	admin bool   `form:"admin" header:"X-Admin" uri:"admin"`
	Admin bool   `json:"admin"`
}
type c17emb struct {
	c17base
	*C17Exported
	Name string `form:"name" header:"X-Name" uri:"name"`
}
type c17embPtr struct {
	*c17base
	Name string `form:"name" header:"X-Name" uri:"name"`
}
type c17node struct {
	Name   string     `form:"name" header:"X-Name" uri:"name"`
	Parent *c17node   `form:"-" header:"-" uri:"-"`
	Kids   []*c17node `form:"-" header:"-" uri:"-"`
	Index  map[string]*c17node
	List   []c17node
	Depth  int `form:"-,default=9" header:"-,default=9" uri:"-,default=9"`
}
type c17left struct {
	Name  string    `form:"name" header:"X-Name" uri:"name"`
	Right *c17right `form:"-" header:"-" uri:"-"`
}
type c17right struct {
	Name string   `form:"name" header:"X-Name" uri:"name"`
	Left c17lefty `form:"in" header:"X-In" uri:"in"`
}
type c17lefty struct {
	Up *c17right `form:"-" header:"-" uri:"-"`
	V  int       `form:"v" header:"X-V" uri:"v"`
}
type c17hidden struct {
	c17base `form:"-" header:"-" uri:"-"`
	Name    string `form:"name" header:"X-Name" uri:"name"`
}

type C17Role string
type C17Level int
type C17Tags []string
type C17Map map[string]string
type c17quiet string
type c17basic struct {
	C17Role
	*C17Level
	C17Tags
	C17Map
	c17quiet
	Name string `form:"name" header:"X-Name" uri:"name"`
}

// c17fixed binds hostile input into the declared types.
func c17fixed(c *C) {
	r := c.R
	source := pick(r, []string{"form", "query", "header", "uri", "multipart", "mapform"})
	names := []string{"id", "secret", "level", "tag", "admin", "name", "v", "Owner", "owner", "Plain", "plain", "Admin", "-", "Parent", "parent", "Kids", "Index", "List", "Depth", "Right", "Up", "c17base", "Parent.Name", "Name", "C17Role", "C17Level", "C17Tags", "C17Map", "c17quiet", "role", "tags", "C17Map[k]"}
	form := map[string][]string{}
	has := map[string]bool{}
	for i := r.Rng(3, 20); i > 0; i-- {
		n := pick(r, names)
		k := n
		if source == "header" {
			k = "X-" + string(n[0]&^32) + n[1:]
			if n == "-" {
				k = "-"
			}
		}
		v := "evil"
		switch n {
		case "id", "level", "v":
			v = fmt.Sprint(r.Rng(10, 99))
		case "admin", "Admin":
			v = "true"
		}
		form[k] = []string{v}
		has[n] = true
		c.Count("aimed_keys", 1)
	}
	val := func(n string) string {
		k := n
		if source == "header" {
			k = "X-" + string(n[0]&^32) + n[1:]
		}
		return form[k][0]
	}
	str := func(n, old string) string {
		if has[n] {
			return val(n)
		}
		if source == "header" && len(n) > 1 && has[string(n[0]&^32)+n[1:]] { // X-Name may stand for both spellings
			return val(n)
		}
		return old
	}
	num := func(n string, old int) int {
		if s := str(n, ""); s != "" {
			fmt.Sscan(s, &old)
		}
		return old
	}
	base := func() c17base { return c17base{ID: 1, secret: "kept", Owner: "me", Plain: "p", Level: 2} }
	wantBase := func(b c17base) c17base {
		b.ID, b.Level = num("id", b.ID), num("level", 3)
		return b
	}
	var got, want interface{}
	mayErr := false
	kind := r.IntN(8)
	switch kind {
	case 0, 1:
		g, w := &c17emb{c17base: base(), Name: "n"}, &c17emb{c17base: wantBase(base()), Name: str("name", "n")}
		w.C17Exported = &C17Exported{}
		if kind == 1 {
			g.C17Exported = &C17Exported{Tag: "old", admin: true}
			w.C17Exported = &C17Exported{Tag: "old", admin: true}
		}
		w.Tag = str("tag", w.Tag)
		got, want = g, w
		c.Count("unexported_embedded", 1)
	case 2:
		b, wb := base(), wantBase(base())
		got, want = &c17embPtr{c17base: &b, Name: "n"}, &c17embPtr{c17base: &wb, Name: str("name", "n")}
		c.Count("unexported_embedded", 1)
	case 3:
		got, want = &c17embPtr{Name: "n"}, &c17embPtr{Name: str("name", "n")}
		mayErr = true
		c.Count("unexported_embedded", 1)
	case 4:
		mk := func(name string) *c17node {
			up := &c17node{Name: "up"}
			return &c17node{Name: name, Parent: up, Kids: []*c17node{up}, Index: map[string]*c17node{"k": up}, List: []c17node{{Name: "in"}}, Depth: 4}
		}
		got, want = mk("n"), mk(str("name", "n"))
		if r.Pct(50) {
			got, want = &c17node{}, &c17node{Name: str("name", "")}
		}
		c.Count("self_referring", 1)
	case 5:
		if r.Pct(50) {
			got, want = &c17left{Name: "n", Right: &c17right{Name: "r"}}, &c17left{Name: str("name", "n"), Right: &c17right{Name: "r"}}
		} else {
			got = &c17right{Name: "r", Left: c17lefty{Up: &c17right{Name: "u"}, V: 5}}
			want = &c17right{Name: str("name", "r"), Left: c17lefty{Up: &c17right{Name: "u"}, V: num("v", 5)}}
		}
		c.Count("self_referring", 1)
	case 7:
		lv, lw := C17Level(4), C17Level(4)
		g, w := &c17basic{"user", &lv, C17Tags{"a"}, C17Map{"k": "v"}, "q", "n"}, &c17basic{"user", &lw, C17Tags{"a"}, C17Map{"k": "v"}, "q", str("name", "n")}
		if r.Pct(50) {
			g.C17Level, w.C17Level = nil, nil
		}
		got, want = g, w
		c.Count("embedded_basic", 1)
	case 6:
		got, want = &c17hidden{c17base: base(), Name: "n"}, &c17hidden{c17base: base(), Name: str("name", "n")}
		c.Count("unexported_embedded", 1)
	}
	c.Eval()
	c.Count("bindings", 1)
	c.Seen("fixed", kind, source, len(form))
	var err error
	p, crashed := try(func() { err = c16bind(c, source, form, got) })
	if crashed {
		c.Fail("crash", "binding %s %q into %T crashed: %v", source, form, got, p)
		return
	}
	if mayErr && err != nil {
		return
	}
	if err != nil {
		c.Fail("refused", "binding %s %q into %T: %v", source, form, got, err)
		return
	}
	if d := diff(reflect.ValueOf(got).Elem(), reflect.ValueOf(want).Elem(), fmt.Sprintf("%T", got)); d != "" {
		c.Fail("fixed", "%s after binding %s %q", d, source, form)
	}
}

var _ = binding.Form
