package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// ---- declarative reference of patterns and matching (from the property texts, not from the tree code)

const (
	kLit = iota
	kReg
	kHold
	kGlob
)

type seg struct {
	kind  int
	text  string   // canonical text, as it distinguishes patterns
	names []string // parameter names (regexp: one per group; holder, named glob: one)
	re    *regexp.Regexp
	whole bool // regexp without group: the one name gets the matched text
}

type rt struct {
	Method string
	Pat    string // as registered (joined)
	segs   []seg
	ID     int
	H      int // number of handlers of its own
}

var (
	sampleFor = map[string]func(r R) string{} // regexp text -> a matching value
)

// parsePattern is the documented reading of a pattern.
func parsePattern(pat string) []seg {
	p := strings.TrimPrefix(pat, "/")
	var out []seg
	for _, s := range strings.Split(p, "/") {
		out = append(out, parseSeg(s))
	}
	return out
}

func parseSeg(s string) seg {
	switch {
	case strings.HasPrefix(s, ":"):
		s = "<" + strings.TrimSpace(s[1:]) + ">"
	}
	switch {
	case strings.HasPrefix(s, "*"):
		sg := seg{kind: kGlob, text: s}
		if s != "*" {
			sg.names = []string{s[1:]}
		}
		return sg
	case strings.HasPrefix(s, "<"):
		in := s[1 : len(s)-1]
		if i := strings.Index(in, "~"); i >= 0 {
			names := in[:i]
			if j := strings.Index(names, ":"); j >= 0 {
				names = names[:j]
			}
			sg := seg{kind: kReg, text: s}
			for _, n := range strings.Split(names, ",") {
				sg.names = append(sg.names, strings.TrimSpace(n))
			}
			sg.re = regexp.MustCompile(strings.TrimSpace(in[i+1:]))
			sg.whole = sg.re.NumSubexp() == 0
			return sg
		}
		n := in
		if j := strings.Index(n, ":"); j >= 0 {
			n = n[:j]
		}
		return seg{kind: kHold, text: s, names: []string{strings.TrimSpace(n)}}
	default:
		return seg{kind: kLit, text: s}
	}
}

func newRt(method, pat string, id int) *rt {
	return &rt{Method: method, Pat: pat, segs: parsePattern(pat), ID: id}
}

// splitPath: one leading and one trailing slash are ignored.
func splitPath(p string) []string {
	p = strings.TrimPrefix(p, "/")
	p = strings.TrimSuffix(p, "/")
	return strings.Split(p, "/")
}

func (s *seg) matches(v string) bool {
	switch s.kind {
	case kLit:
		return s.text == v
	case kReg:
		return s.re.MatchString(v)
	}
	return true
}

// matches reports whether the route's pattern matches the path, by itself.
func (t *rt) matches(ps []string) bool {
	n := len(t.segs)
	last := t.segs[n-1]
	if len(ps) < n || len(ps) > n && last.kind != kGlob {
		return false
	}
	for i := 0; i < n-1; i++ {
		if !t.segs[i].matches(ps[i]) {
			return false
		}
	}
	return len(ps) > n || last.matches(ps[n-1])
}

// params is what the route's own pattern says about the path (which it matches).
func (t *rt) params(ps []string) map[string]string {
	m := map[string]string{}
	g := 0
	n := len(t.segs)
	for i, s := range t.segs {
		v := ps[i]
		if i == n-1 {
			v = strings.Join(ps[i:], "/")
		}
		switch s.kind {
		case kReg:
			sub := s.re.FindStringSubmatch(v)
			for k, nm := range s.names {
				if nm == "_" {
					continue
				}
				if s.whole {
					m[nm] = sub[0]
				} else {
					m[nm] = sub[k+1]
				}
			}
		case kHold:
			if s.names[0] != "_" {
				m[s.names[0]] = v
			}
		case kGlob:
			if len(s.names) == 0 {
				m["*"+strconv.Itoa(g)] = v
			} else if s.names[0] != "_" {
				m[s.names[0]] = v
			}
			g++
		}
	}
	return m
}

// rtable is a registered set, in registration order.
type rtable struct {
	rts     []*rt
	firstNF map[string]int // method + prefix text + segment (not final) -> order of first appearance
}

func newTable(rts []*rt) *rtable {
	t := &rtable{rts: rts, firstNF: map[string]int{}}
	for i, r := range rts {
		pre := r.Method
		for k := 0; k < len(r.segs)-1; k++ {
			pre += "/" + r.segs[k].text
			if _, ok := t.firstNF[pre]; !ok {
				t.firstNF[pre] = i
			}
		}
	}
	return t
}

// key orders the matching routes: smaller is better, segment by segment.
func (t *rtable) key(idx int, ps []string) []int {
	r := t.rts[idx]
	var k []int
	pre := r.Method
	n := len(r.segs)
	for i := 0; i < n-1; i++ {
		pre += "/" + r.segs[i].text
		k = append(k, r.segs[i].kind, t.firstNF[pre])
	}
	if len(ps) > n {
		k = append(k, kGlob+1, idx) // a final wildcard swallowing several segments comes last
	} else {
		k = append(k, r.segs[n-1].kind, idx)
	}
	return k
}

func less(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// best is the route that has to serve the request, or nil; nMatch counts the matching ones.
func (t *rtable) best(method, path string) (b *rt, nMatch int) {
	ps := splitPath(path)
	var bk []int
	for i, r := range t.rts {
		if r.Method != method || !r.matches(ps) {
			continue
		}
		nMatch++
		k := t.key(i, ps)
		if b == nil || less(k, bk) {
			b, bk = r, k
		}
	}
	return
}

// ---- generators

var litPool = []string{"a", "b", "c", "ab", "abc", "x1", "12", "70", "v1", "a.b", "a-b", "中文", "A", "~u", "index.html", "a:b", "x*y", "%41", "a~b", "Long-Segment_name.ofManyLetters"}

type regPat struct {
	text func(names []string) string
	n    int
	gen  func(r R) string
}

var regPool = []regPat{
	{func(n []string) string { return "<" + n[0] + ":int ~ ^([0-9]+)$>" }, 1, func(r R) string { return strconv.Itoa(r.IntN(1000)) }},
	{func(n []string) string { return "<" + n[0] + " ~ ^[0-9]+$>" }, 1, func(r R) string { return strconv.Itoa(r.IntN(1000)) }},
	{func(n []string) string { return "<" + n[0] + " ~ 70|80>" }, 1, func(r R) string { return r.Str("70", "80", "x70y", "8070") }},
	{func(n []string) string { return "<" + n[0] + "," + n[1] + " ~ ^([a-z]+)-([0-9]+)$>" }, 2, func(r R) string { return r.Word() + "-" + strconv.Itoa(r.IntN(99)) }},
	{func(n []string) string { return "<" + n[0] + ", " + n[1] + " ~ (a)|(b)>" }, 2, func(r R) string { return r.Str("a", "b", "ab", "xbx") }},
	{func(n []string) string { return "<" + n[0] + " ~ ^(?:v)([0-9])>" }, 1, func(r R) string { return "v" + strconv.Itoa(r.IntN(10)) + r.Word() }},
	{func(n []string) string { return "<" + n[0] + " ~ ^(.*)$>" }, 1, func(r R) string { return r.Word() }},
	{func(n []string) string { return "<" + n[0] + " ~ ^(?P<q>[a-c]+):?$>" }, 1, func(r R) string { return r.Str("a", "abc", "cab:", "b:") }},
	{func(n []string) string {
		return "<" + n[0] + "," + n[1] + "," + n[2] + ":date ~ ^([0-9]{4})([0-9]{2})([0-9]{2})$>"
	}, 3, func(r R) string { return r.From("0123456789", 8) }},
	{func(n []string) string { return "<" + n[0] + "~([a-z]{1,3})>" }, 1, func(r R) string { return r.Word() }},
	{func(n []string) string { return "<" + n[0] + " ~ (?i)^AB$>" }, 1, func(r R) string { return r.Str("ab", "AB", "aB") }},
	{func(n []string) string { return "<" + n[0] + " ~ x\\(y>" }, 1, func(r R) string { return r.Str("x(y", "x(y", "zx(y", "x(yz", "x(x(y") }},
	{func(n []string) string { return "<" + n[0] + " ~ a[0-9]>" }, 1, func(r R) string {
		return r.Str("a", "ba", "ab-a", "za", "1a") + strconv.Itoa(r.IntN(30)) + r.Str("", "", "q")
	}},
	{func(n []string) string { return "<" + n[0] + " ~ b(c+)>" }, 1, func(r R) string { return r.Str("bc", "abc", "bbcc", "abcbccc", "xbcx") }},
	{func(n []string) string { return "<" + n[0] + "," + n[1] + " ~ (.+)\\.(png|jpe?g)$>" }, 2, func(r R) string { return r.Word() + r.Str(".png", ".jpg", ".jpeg", ".x.png", ".png.jpg") }},
	{func(n []string) string { return "<" + n[0] + " ~ ^ab|cd$>" }, 1, func(r R) string { return r.Str("ab", "abx", "xcd", "cd", "abcd") }},
	{func(n []string) string { return "<" + n[0] + "," + n[1] + " ~ ^(a(b+))$>" }, 2, func(r R) string { return "a" + strings.Repeat("b", r.Rng(1, 4)) }},
	{func(n []string) string {
		return "<" + strings.Join(n, ",") + " ~ ^" + strings.Repeat("([a-z])?", 12) + "$>"
	}, 12, func(r R) string { return r.From("abcxyz", r.Rng(1, 12)) }},
}

type patGen struct {
	R
	lits  []string
	names int
}

// genPattern makes a well-formed pattern.
func genPattern(r R, lits []string, maxSeg int, wKind [4]int) string {
	n := r.Rng(1, maxSeg)
	if r.Pct(3) {
		return "/"
	}
	var b strings.Builder
	used := map[string]bool{}
	name := func() string {
		if r.Pct(12) {
			return "_"
		}
		for {
			nm := r.Str("id", "name", "p", "q", "user", "x", "y", "k1", "v", "a_b", "ID", "a;b", "n-1", "A") + []string{"", "", "2", "3", "4", "5", "6", "77"}[r.IntN(8)]
			if r.Pct(2) {
				nm += "_of_a_rather_talkative_route"
			}
			if len(used) > 40 {
				nm += "_" + strconv.Itoa(len(used))
			}
			if !used[nm] {
				used[nm] = true
				return nm
			}
		}
	}
	tot := wKind[0] + wKind[1] + wKind[2] + wKind[3]
	for i := 0; i < n; i++ {
		b.WriteByte('/')
		x := r.IntN(tot)
		switch {
		case x < wKind[0]:
			b.WriteString(pick(r, lits))
		case x < wKind[0]+wKind[1]:
			rp := pick(r, regPool)
			ns := make([]string, rp.n)
			for k := range ns {
				ns[k] = name()
			}
			b.WriteString(rp.text(ns))
		case x < wKind[0]+wKind[1]+wKind[2]:
			switch r.IntN(4) {
			case 0, 1:
				b.WriteString("<" + name() + ">")
			case 2:
				b.WriteString(":" + name())
			case 3:
				b.WriteString("<" + name() + ":" + r.Str("int", "string") + ">")
			}
		default:
			switch r.IntN(3) {
			case 0, 1:
				b.WriteString("*")
			default:
				b.WriteString("*" + name())
			}
		}
	}
	return b.String()
}

// instance makes a path the pattern matches (mostly).
func (t *rt) instance(r R, lits []string) string {
	var b strings.Builder
	for i, s := range t.segs {
		b.WriteByte('/')
		last := i == len(t.segs)-1
		switch s.kind {
		case kLit:
			b.WriteString(s.text)
		case kReg:
			b.WriteString(regSample(r, s.text))
		case kHold:
			b.WriteString(anySeg(r, lits))
		case kGlob:
			b.WriteString(anySeg(r, lits))
			if last {
				more := 0
				for r.Pct(45) {
					more++
				}
				if r.Pct(1) {
					more = r.Tail(10, 200, 2000)
				}
				for ; more > 0; more-- {
					b.WriteByte('/')
					b.WriteString(anySeg(r, lits))
				}
			}
		}
	}
	return b.String()
}

func regSample(r R, text string) string {
	i := strings.Index(text, "~")
	tail := strings.TrimSpace(text[i+1:])
	for _, rp := range regPool {
		t := rp.text([]string{"n", "n", "n"})
		if strings.TrimSpace(t[strings.Index(t, "~")+1:]) == tail {
			v := rp.gen(r)
			if r.Pct(2) { // long ones, which may or may not match
				v = strings.Repeat(v, r.Rng(2, 200))
			}
			return v
		}
	}
	return "0"
}

func anySeg(r R, lits []string) string {
	switch r.IntN(10) {
	case 0, 1, 2, 3:
		return pick(r, lits)
	case 4, 5:
		return regSample(r, regPool[r.IntN(len(regPool))].text([]string{"n", "n", "n"}))
	case 6:
		return strconv.Itoa(r.IntN(200))
	case 7:
		return r.Str("", ".", "..", "*", "<id>", ":id", " ", "a b", "é", "\x00", "%2F", "_", "*0")
	default:
		if r.Pct(3) {
			return strings.Repeat(r.Word(), r.Tail(5, 400, 20000))
		}
		return r.Word()
	}
}

// genPath makes a request path near the table.
func genPath(r R, t *rtable, lits []string) string {
	var p string
	if len(t.rts) > 0 && r.Pct(85) {
		p = pick(r, t.rts).instance(r, lits)
	} else {
		for i := r.Rng(0, 4); i >= 0; i-- {
			p += "/" + anySeg(r, lits)
		}
	}
	for r.Pct(35) { // mutate
		ps := strings.Split(p, "/")
		k := r.IntN(len(ps))
		switch r.IntN(7) {
		case 0:
			ps[k] = anySeg(r, lits)
		case 1:
			ps = append(ps[:k:k], append([]string{anySeg(r, lits)}, ps[k:]...)...)
		case 2:
			if len(ps) > 2 {
				ps = append(ps[:k:k], ps[k+1:]...)
			}
		case 3:
			ps = append(ps, "")
		case 4:
			ps = append(ps[:k:k], append([]string{""}, ps[k:]...)...)
		case 5:
			ps = append(ps, anySeg(r, lits))
		case 6:
			ps[k] = r.Str(strings.ToUpper(ps[k]), strings.ToLower(ps[k]), ps[k]+" ", " "+ps[k])
		}
		p = strings.Join(ps, "/")
	}
	if r.Pct(2) {
		p = r.Str("/", "", "//", "///", "/*")
	}
	if r.Pct(2) {
		p = strings.TrimPrefix(p, "/")
	}
	return p
}

var methods = []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}

// genTable makes a table of well-formed routes without exact duplicates.
func genTable(r R, max int, multiMethod bool) ([]*rt, []string) {
	lits := litPool
	if r.Pct(70) { // few literals make patterns overlap
		k := r.Rng(1, 4)
		lits = nil
		for i := 0; i < k; i++ {
			lits = append(lits, pick(r, litPool))
		}
	}
	w := [4]int{r.Rng(1, 6), r.Rng(0, 4), r.Rng(0, 4), r.Rng(0, 4)}
	n := r.Rng(1, max)
	maxSeg := r.Rng(1, 5)
	if r.Pct(10) {
		maxSeg = 14 // many wildcards: *10 and beyond
		w = [4]int{1, 0, 1, 8}
		n = r.Rng(1, 4)
		if r.Pct(10) {
			maxSeg = 40
		}
	}
	seen := map[string]bool{}
	var out []*rt
	add := func(pat, m string) {
		if !seen[m+pat] {
			seen[m+pat] = true
			out = append(out, newRt(m, pat, len(out)))
		}
	}
	for i := 0; i < n; i++ {
		m := "GET"
		if multiMethod && r.Pct(50) {
			m = pick(r, methods)
		}
		if len(out) > 0 && r.Pct(40) { // share a prefix with an earlier pattern
			o := pick(r, out)
			segs := strings.Split(strings.TrimPrefix(o.Pat, "/"), "/")
			k := r.IntN(len(segs) + 1)
			pre := strings.Join(segs[:k], "/")
			if pre != "" {
				pre = "/" + pre
			}
			tail := genPattern(r, lits, 3, w)
			if r.Pct(25) {
				tail = ""
			}
			if pre != "" && tail == "/" {
				tail = ""
			}
			cand := pre + tail
			if cand != "" && uniqueNames(cand) {
				add(cand, m)
			}
			continue
		}
		add(genPattern(r, lits, maxSeg, w), m)
	}
	if len(out) == 0 {
		add("/"+lits[0], "GET")
	}
	return out, lits
}

// wideTable has hundreds of siblings at one place.
func wideTable(r R) (out []*rt, lits []string) {
	n := r.Rng(100, 600)
	for i := 0; i < n; i++ {
		lits = append(lits, r.Str("s", "", "v-", "é")+strconv.Itoa(i))
	}
	pre, m := r.Str("", "/x", "/<p>", "/x/y"), pick(r, methods)
	tail := r.Str("", "", "/t", "/<q>", "/*")
	seen := map[string]bool{}
	add := func(pat string) {
		if !seen[pat] {
			seen[pat] = true
			out = append(out, newRt(m, pat, len(out)))
		}
	}
	for _, i := range r.Perm(n) {
		add(pre + "/" + lits[i] + tail)
		switch r.IntN(60) {
		case 0:
			add(pre + "/<h" + strconv.Itoa(i) + ">" + tail)
		case 1:
			add(pre + "/<g" + strconv.Itoa(i) + " ~ ^s?" + strconv.Itoa(r.IntN(100)) + "+$>" + tail)
		case 2:
			add(pre + "/*" + tail)
		}
	}
	return
}

func uniqueNames(pat string) bool {
	seen := map[string]bool{}
	for _, s := range parsePattern(pat) {
		for _, n := range s.names {
			if n == "_" {
				continue
			}
			if seen[n] {
				return false
			}
			seen[n] = true
		}
	}
	return true
}

func (t *rt) String() string { return fmt.Sprintf("#%d %s %s", t.ID, t.Method, t.Pat) }

func tableString(rts []*rt) string {
	s := ""
	for _, r := range rts {
		s += r.String() + "\n"
	}
	return s
}

// mount registers routes on a router, some of them through groups, keeping their order.
func mount(r R, root *water.Router, rts []*rt, h func(t *rt) []interface{}) {
	for _, t := range rts {
		rr := root
		pat := t.Pat
		for r.Pct(30) && pat != "/" { // move a prefix into a group
			segs := strings.Split(pat[1:], "/")
			k := r.IntN(len(segs)) // keep at least one segment
			pre := ""
			if k > 0 {
				pre = "/" + strings.Join(segs[:k], "/")
			}
			rr = rr.Group(pre)
			pat = "/" + strings.Join(segs[k:], "/")
		}
		addRoute(rr, t.Method, pat, h(t))
	}
}

func addRoute(rr *water.Router, method, pat string, hs []interface{}) {
	switch method {
	case "GET":
		rr.GET(pat, hs...)
	case "POST":
		rr.POST(pat, hs...)
	case "DELETE":
		rr.DELETE(pat, hs...)
	case "PUT":
		rr.PUT(pat, hs...)
	case "PATCH":
		rr.PATCH(pat, hs...)
	case "HEAD":
		rr.HEAD(pat, hs...)
	case "OPTIONS":
		rr.OPTIONS(pat, hs...)
	case "ANY":
		rr.ANY(pat, hs...)
	default:
		panic("harness: method " + method)
	}
}

// obsRoute is what a handler saw.
type obsRoute struct {
	id       int
	params   map[string]string
	full     string
	n        int
	missing  bool // a lookup of an absent name did not panic
	mismatch string
}

// routeHandler records what the handler of t sees into the request's *obsRoute.
func routeHandler(t *rt) func(*water.Context) {
	return func(c *water.Context) {
		o := Val(c.Request, "obs").(*obsRoute)
		o.n++
		o.id = t.ID
		o.full = c.FullPath()
		o.params = map[string]string{}
		for k, v := range c.Params {
			o.params[k] = v
			if c.Param(k) != v || c.Params.String(k) != v {
				o.mismatch = k
			}
		}
		for _, nm := range []string{"nope", "*0", "*1", "id", "_", ""} {
			if _, ok := c.Params[nm]; ok {
				continue
			}
			if _, p := try(func() { c.Param(nm) }); !p {
				o.missing = true
			}
		}
	}
}

func eqParams(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}
