From 638bd28bc42e483229cdcc18585c2f64c06e069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 01/56] fix: reset path params of pooled contexts (a static
 fast-path hit saw the previous request's params)

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 386dc10..ee59aa6 100644
--- a/context.go
+++ b/context.go
@@ -42,6 +42,7 @@ func (ctx *Context) reset() {
 
 	ctx.endNode = nil
 	ctx.parsedParams = false
+	ctx.Params = Params{}
 }
 
 func (ctx *Context) Next() {
-- 
2.43.0


From a985736a3040b3e1519d30a893b7235ea3e5bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 02/56] fix: middleware handed to Group belongs to the new
 group, not to its parent

---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..969a8c1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From 80fc07dfa3683fc0c4edfc5c3ed78ba70046e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 03/56] fix: set Content-Type before the status is written in
 response helpers

---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From edbeaab66a5a38512f18554be06d79ed000c7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 04/56] fix: encode JSON responses with encoding/json (the
 pinned json-iterator panics on every map under current Go)

---
 content.go | 1 +
 util.go    | 6 ------
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 23a7325..551b546 100644
--- a/content.go
+++ b/content.go
@@ -1,6 +1,7 @@
 package water
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"errors"
 	"io"
diff --git a/util.go b/util.go
index 8d895bf..4a6f6e1 100644
--- a/util.go
+++ b/util.go
@@ -9,12 +9,6 @@ import (
 	"runtime"
 	"strings"
 	"time"
-
-	jsoniter "github.com/json-iterator/go"
-)
-
-var (
-	json = jsoniter.ConfigCompatibleWithStandardLibrary
 )
 
 // from net/http
-- 
2.43.0


From fc488a2cae2a4fbac406f91450f36b99c053ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 05/56] fix: a regexp segment without capture group (<id ~
 70|80>) could never match

---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index 08f6628..afcd12d 100644
--- a/tree.go
+++ b/tree.go
@@ -99,6 +99,11 @@ func partternRegexp(pattern string, want int) (string, error) {
 		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
+	// a regexp without group, like <id ~ 70|80>: the named arg is the whole match
+	if reg, err := regexp.Compile(regExp); err == nil && want == 1 && reg.NumSubexp() == 0 {
+		regExp = "(" + regExp + ")"
+	}
+
 	return regExp, nil
 }
 
-- 
2.43.0


From cb3caf992468cfd38f0203e125ae71307ab0b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 06/56] fix: a ':' inside the regexp of a segment is not the
 type separator of its name

---
 tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index afcd12d..80700a7 100644
--- a/tree.go
+++ b/tree.go
@@ -74,10 +74,13 @@ func getparsedPattern(pattern string) string {
 
 	closeIdx := endIdx
 	typeStartIdx := strings.Index(pattern, ":")
+	regStartIdx := strings.Index(pattern, "~")
+	if regStartIdx > -1 && typeStartIdx > regStartIdx { // ":" is part of the regexp
+		typeStartIdx = -1
+	}
 	if typeStartIdx > -1 {
 		closeIdx = typeStartIdx
 	}
-	regStartIdx := strings.Index(pattern, "~")
 	if typeStartIdx == -1 && regStartIdx > -1 {
 		closeIdx = regStartIdx
 	}
-- 
2.43.0


From 27b584cf55bb7527d8e4e5bfe490f285edc4db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 07/56] fix: a regexp segment abandoned while backtracking left
 its params behind

---
 tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 80700a7..3c35055 100644
--- a/tree.go
+++ b/tree.go
@@ -293,10 +293,10 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					params[n.subNodes[i].wildcards[j]] = results[j+1]
+				}
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From 70c01d3c2782640a830617090bf36cc56a4c1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 08/56] fix: '_' in a regexp segment is ignored like in the
 other segment kinds

---
 tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 3c35055..5d532de 100644
--- a/tree.go
+++ b/tree.go
@@ -254,7 +254,9 @@ func (n *node) matchEndNode(globLevel int, uri string, params Params) *node {
 			}
 
 			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
-				params[n.endNodes[i].wildcards[j]] = results[j+1]
+				if n.endNodes[i].wildcards[j] != "_" {
+					params[n.endNodes[i].wildcards[j]] = results[j+1]
+				}
 			}
 			return n.endNodes[i]
 		case _PATTERN_HOLDER:
@@ -295,7 +297,9 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
 				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-					params[n.subNodes[i].wildcards[j]] = results[j+1]
+					if n.subNodes[i].wildcards[j] != "_" {
+						params[n.subNodes[i].wildcards[j]] = results[j+1]
+					}
 				}
 				return end
 			}
-- 
2.43.0


From 0947a63cc6a655d949567c93e8e01b2ed4c1c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 09/56] fix: of several final wildcards the first added one
 also wins for multi-segment paths

---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 5d532de..5937411 100644
--- a/tree.go
+++ b/tree.go
@@ -324,8 +324,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for _, end := range n.endNodes { //for match "/*", the first added one
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From ef1239dbb22d60dc529e67dda22364d6d849dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 10/56] fix: a named wildcard inside a pattern holds its own
 segment, like an unnamed one

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 5937411..fed0922 100644
--- a/tree.go
+++ b/tree.go
@@ -314,7 +314,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 			if end := n.subNodes[i].matchNextSegment(globLevel+1, uri, params); end != nil {
 				if n.subNodes[i].parsedPattern != "" {
 					if n.subNodes[i].parsedPattern != "_" {
-						params[n.subNodes[i].parsedPattern] = segment + "/" + uri
+						params[n.subNodes[i].parsedPattern] = segment
 					}
 				} else {
 					params["*"+strconv.Itoa(globLevel)] = segment
-- 
2.43.0


From d85accb681189da855945ec956f984c417bfd2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 11/56] fix: count a segment regexp's real capture groups, and
 read it up to the closing '>'

---
 tree.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index fed0922..9704d4a 100644
--- a/tree.go
+++ b/tree.go
@@ -95,16 +95,20 @@ func partternRegexp(pattern string, want int) (string, error) {
 	}
 
 	startIdx := strings.Index(pattern, "~")
-	closeIdx := strings.Index(pattern, ">")
+	closeIdx := strings.LastIndex(pattern, ">")
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
-	if strings.ContainsAny(pattern, "()") && !(strings.Count(regExp, "(") == want && strings.Count(regExp, "(") == strings.Count(regExp, ")")) {
-		return "", fmt.Errorf("regexp group count not match want(%d)", want)
+	reg, err := regexp.Compile(regExp)
+	if err != nil {
+		return "", err
 	}
 
 	// a regexp without group, like <id ~ 70|80>: the named arg is the whole match
-	if reg, err := regexp.Compile(regExp); err == nil && want == 1 && reg.NumSubexp() == 0 {
-		regExp = "(" + regExp + ")"
+	if want == 1 && reg.NumSubexp() == 0 {
+		return "(" + regExp + ")", nil
+	}
+	if reg.NumSubexp() != want {
+		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
 	return regExp, nil
-- 
2.43.0


From 2d26013d4f28baaab646cb5a1695ae8ae10df0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 12/56] fix: FullPath reports the route whose handlers run when
 two spellings of one pattern are registered

---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 9466b6b..b38f6b5 100644
--- a/engine.go
+++ b/engine.go
@@ -175,7 +175,9 @@ func (e *Engine) buildTree() {
 			e.routersStatic[MethodIndex(v.method)][v.variantUri] = endNode
 		}
 
-		endNode.matchNode = v
+		if endNode.matchNode == nil { // an equal pattern added earlier keeps serving
+			endNode.matchNode = v
+		}
 	}
 }
 
-- 
2.43.0


From c80b96f0a2d783e4467bffac3288146d1e636404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 13/56] fix: file responses go through the context, so
 Written() and Status() know of them

---
 content.go  | 2 +-
 m_static.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 551b546..e5364fb 100644
--- a/content.go
+++ b/content.go
@@ -147,7 +147,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From 761f364cfa8faef0daf307c878adb32fc0035182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 14/56] fix: static directories are served from the configured
 file system, not from the working directory or the host root

---
 m_static.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..bc438bb 100644
--- a/m_static.go
+++ b/m_static.go
@@ -53,7 +53,10 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	}
 
 	h := func(ctx *Context) {
-		f, err := opt.FileSystem.Open(ctx.Param("*0"))
+		// like net/http's FileServer, only ask for rooted, clean names
+		name := path.Clean("/" + ctx.Param("*0"))
+
+		f, err := opt.FileSystem.Open(name)
 		if err != nil {
 			ctx.WriteHeader(http.StatusNotFound)
 
@@ -85,8 +88,28 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
-			return
+			if !opt.hasIndex { // index.html or listing of this directory
+				req := ctx.Request.Clone(ctx.Request.Context())
+				req.URL.Path = strings.TrimRight(name, "/") + "/"
+				http.FileServer(opt.FileSystem).ServeHTTP(ctx, req)
+				return
+			}
+
+			name = path.Join(name, opt.IndexFile)
+			index, err := opt.FileSystem.Open(name)
+			if err != nil {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+			defer index.Close()
+
+			if fi, err = index.Stat(); err != nil || fi.IsDir() {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+			f = index
 		}
 
 		if opt.ETag != ETagTypeNone {
@@ -105,7 +128,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, name, fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From adc081037610520d9b754ea18e6a0f18268ba5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 15/56] fix: escape the path a static directory redirects to

---
 m_static.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index bc438bb..16b0453 100644
--- a/m_static.go
+++ b/m_static.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"net/url"
 	"path"
 	"path/filepath"
 	"strings"
@@ -84,7 +85,8 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
+				redirURL := url.URL{Path: redirPath + "/"}
+				http.Redirect(ctx, ctx.Request, redirURL.EscapedPath(), http.StatusFound)
 				return
 			}
 
-- 
2.43.0


From cd5aed5b1a36e2b8130343ff45ea2a1d1e0e80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 16/56] fix: Logger cut JSON bodies at 1MB for the handlers
 behind it

---
 m_logger.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..9cb0c00 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -62,10 +62,12 @@ func Logger() HandlerFunc {
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
 			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			// the handlers still get the whole body, also what is beyond the logged part
+			ctx.Request.Body = struct {
+				io.Reader
+				io.Closer
+			}{io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body), ctx.Request.Body}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From 63ad48452280a64b7949c958d46d51d14e456f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 17/56] fix: binding a number out of the field's range is an
 error, not a truncated value

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..bff57ed 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
-- 
2.43.0


From 8166d33a136902c460637dc3c0ac76a133d73a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 18/56] fix: binding "false" sets a bool field that was true

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index bff57ed..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From 27f1a0e547306058081f05a882ec90a2dd3b1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 19/56] fix: a field excluded by '-' is not descended into when
 binding

---
 binding/map_form.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 5ef1ecb..efdb9ef 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -54,6 +54,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			continue
 		}
 
+		if fieldTag, _ := head(typeField.Tag.Get(tag), ","); fieldTag == "-" { // excluded, with all below it
+			continue
+		}
+
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
 				structField.Set(reflect.New(typeField.Type.Elem()))
-- 
2.43.0


From 274f4ea3c03c8dde2a53dcb734b9ff2ef75edd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 20/56] fix: bind through pointers that are already allocated,
 leave absent *time.Time alone, no crash on embedded non-structs

---
 binding/map_form.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index efdb9ef..f7ed611 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -58,20 +58,28 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			continue
 		}
 
-		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
+		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType &&
+			typeField.Type.Elem().Kind() == reflect.Struct && typeField.Type.Elem() != timeType {
+			if structField.IsNil() {
+				if !structField.CanSet() {
+					return fmt.Errorf("can't set embedded pointer to unexported struct %s", typeField.Name)
+				}
 				structField.Set(reflect.New(typeField.Type.Elem()))
-
-				structField = structField.Elem()
 			}
+
+			structField = structField.Elem()
 		}
 
-		if (structField.Kind() == reflect.Struct && structField.Type() != timeType) || typeField.Anonymous { // typeField.Anonymous is an embedded field
+		if structField.Kind() == reflect.Struct && structField.Type() != timeType {
 			if err := _mapForm(structField, form, formfile, tag); err != nil {
 				return err
 			}
 		}
 
+		if !structField.CanSet() { // unexported embedded field, only what it promotes can be set
+			continue
+		}
+
 		if err := tryToSetValue2(structField, typeField, form, formfile, tag); err != nil {
 			return err
 		}
-- 
2.43.0


From 8a1f51d356bf50e19bd855572dd39ed71ccc8da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 21/56] fix: a key without values is absent, it crashed binding

---
 binding/map_form.go | 7 ++++---
 binding/mapping.go  | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index f7ed611..06e1b6c 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -102,7 +102,8 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		return nil
 	}
 
-	inputValue, existValue := form[bName]
+	inputValue := form[bName]
+	existValue := len(inputValue) > 0
 	if !existValue && bOpt.defaultValue != "" {
 		existValue = true
 		inputValue = []string{bOpt.defaultValue}
@@ -127,8 +128,8 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		return err
 	}
 
-	inputFile, existFile := formfile[bName]
-	if !existFile {
+	inputFile := formfile[bName]
+	if len(inputFile) == 0 {
 		return nil
 	}
 	num := len(inputFile)
diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..f1c3a37 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -263,6 +263,9 @@ func setFormMap2(obj interface{}, el reflect.Type, form map[string][]string) err
 		*m = make(map[string]string, len(form))
 	}
 	for k, v := range form {
+		if len(v) == 0 {
+			continue
+		}
 		(*m)[k] = v[len(v)-1] // pick last
 	}
 
-- 
2.43.0


From 0be9bd25f40855538d69210333328afcfcb06e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 22/56] fix: validating a nil pointer or nil element is an
 error, it crashed

---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..2af663d 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() {
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0


From e6e2ab344e53a818660d909970cfc29888c89619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 23/56] fix: a cookie with an invalid name sent an empty
 Set-Cookie header

---
 cookie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cookie.go b/cookie.go
index f3ffc37..1174a38 100644
--- a/cookie.go
+++ b/cookie.go
@@ -105,5 +105,7 @@ func (ctx *Context) SetCookie(name string, value string, others ...interface{})
 		}
 	}
 
-	ctx.ResponseWriter.Header().Add("Set-Cookie", cookie.String())
+	if s := cookie.String(); s != "" { // "" for an invalid name
+		ctx.ResponseWriter.Header().Add("Set-Cookie", s)
+	}
 }
-- 
2.43.0


From 267bbd584b7ded313bd26137b498163a9670c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 24/56] fix: X-Forwarded-For entries are separated by commas,
 spaces are optional

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4a6f6e1..3e985b7 100644
--- a/util.go
+++ b/util.go
@@ -27,7 +27,12 @@ func cleanPath(p string) string {
 
 func requestProxy(req *http.Request) []string {
 	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
-		return strings.Split(ips, ", ")
+		proxies := strings.Split(ips, ",")
+		for i := range proxies {
+			proxies[i] = strings.TrimSpace(proxies[i])
+		}
+
+		return proxies
 	}
 
 	return nil
-- 
2.43.0


From f23bc4356b2f412dd0eaaa62e27203cbd6e2ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 25/56] fix: broken JSON numbers like +1.5, accepted by
 json-iterator, are an error when binding

---
 binding/json.go     | 20 ++++++++++++++++++--
 binding/map_form.go |  4 ++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/binding/json.go b/binding/json.go
index 7f32eb6..ecbe862 100644
--- a/binding/json.go
+++ b/binding/json.go
@@ -1,6 +1,7 @@
 package binding
 
 import (
+	stdjson "encoding/json"
 	"fmt"
 	"net/http"
 
@@ -23,10 +24,25 @@ func (b jsonBinding) Bind(req *http.Request, obj interface{}) error {
 	}
 	defer req.Body.Close()
 
-	decoder := json.NewDecoder(req.Body)
-	if err := decoder.Decode(obj); err != nil {
+	// json-iterator accepts broken numbers, like +1.5
+	var doc stdjson.RawMessage
+	if err := stdjson.NewDecoder(req.Body).Decode(&doc); err != nil {
+		return err
+	}
+	if err := json.Unmarshal(doc, obj); err != nil {
 		return err
 	}
 
 	return validate(obj)
 }
+
+// unmarshalText decodes a form value for a struct or map field
+func unmarshalText(val string, obj interface{}) error {
+	if err := json.Unmarshal([]byte(val), obj); err != nil {
+		return err
+	}
+	if !stdjson.Valid([]byte(val)) {
+		return fmt.Errorf("invalid json: %s", val)
+	}
+	return nil
+}
diff --git a/binding/map_form.go b/binding/map_form.go
index 06e1b6c..a133f91 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -226,9 +226,9 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		case time.Time:
 			return setTimeField2(val, opt, structField)
 		}
-		return json.Unmarshal([]byte(val), structField.Addr().Interface())
+		return unmarshalText(val, structField.Addr().Interface())
 	case reflect.Map:
-		return json.Unmarshal([]byte(val), structField.Addr().Interface())
+		return unmarshalText(val, structField.Addr().Interface())
 	default:
 		return errUnknownType
 	}
-- 
2.43.0


From 75297a5cba7c6411ba8512647fbbded6b64c3989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 26/56] fix: the multipart memory limit belongs to its engine
 and defaults to 32MB again (any engine built without the option set it to 0
 for the whole process)

---
 content.go | 20 +++++++++++++++-----
 context.go |  2 ++
 engine.go  |  1 +
 router.go  |  7 +++----
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/content.go b/content.go
index e5364fb..5042b95 100644
--- a/content.go
+++ b/content.go
@@ -151,6 +151,12 @@ func (ctx *Context) File(filepath string) {
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
+	if ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
+			return nil, nil, err
+		}
+	}
+
 	return ctx.Request.FormFile(name)
 }
 
@@ -302,6 +308,12 @@ func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 		ctx.ParseFormOrMultipartForm()
 	}
 
+	if b == binding.FormMultipart && ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
+			return err
+		}
+	}
+
 	return b.Bind(ctx.Request, obj)
 }
 
@@ -320,10 +332,8 @@ func (ctx *Context) FullPath() string {
 	return ""
 }
 
-var (
-	// MultipartMemory
-	defaultMultipartMemory int64 = 32 << 20 // 32MB
-)
+// default of WithMaxMultipartMemory()
+const defaultMultipartMemory int64 = 32 << 20 // 32MB
 
 // ParseFormOrMultipartForm parses the raw query from the URL.
 func (ctx *Context) ParseFormOrMultipartForm() {
@@ -334,7 +344,7 @@ func (ctx *Context) ParseFormOrMultipartForm() {
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
-		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
 			panic(errors.New("parseMultipartForm error:" + err.Error()))
 		}
 	} else {
diff --git a/context.go b/context.go
index ee59aa6..fe953b6 100644
--- a/context.go
+++ b/context.go
@@ -20,6 +20,8 @@ type Context struct {
 
 	handlers       []Handler
 	handlersLength int
+
+	maxMultipartMemory int64 // of the engine
 	// --- follow need reset
 	index int
 
diff --git a/engine.go b/engine.go
index b38f6b5..41cc8e1 100644
--- a/engine.go
+++ b/engine.go
@@ -98,6 +98,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 
 	ctx.ResponseWriter = rw.(ResponseWriter)
 	ctx.Request = req
+	ctx.maxMultipartMemory = e.options.MaxMultipartMemory
 
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
diff --git a/router.go b/router.go
index 969a8c1..4b3a47d 100644
--- a/router.go
+++ b/router.go
@@ -5,8 +5,6 @@ import (
 	"net/http"
 	"strings"
 	"sync"
-
-	"github.com/meilihao/water/binding"
 )
 
 var (
@@ -320,8 +318,9 @@ func (r *Router) Handler(opts ...Option) *Engine {
 	w.routeStore = rs
 	w.options = o
 
-	defaultMultipartMemory = w.options.MaxMultipartMemory
-	binding.SetMultipartMemory(defaultMultipartMemory)
+	if w.options.MaxMultipartMemory == 0 {
+		w.options.MaxMultipartMemory = defaultMultipartMemory
+	}
 
 	w.buildTree()
 
-- 
2.43.0


From db11a9a06312e62cc4eb7ee7127226ef43568675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 27/56] fix: a router or group without any route is no
 configuration error

---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 4b3a47d..6d275b2 100644
--- a/router.go
+++ b/router.go
@@ -263,7 +263,7 @@ func getRoute(r *Router) *route {
 		handlers: newHandlers(hs),
 	}
 
-	if len(re.handlers) == 0 {
+	if len(re.handlers) == 0 && re.method != "" { // a group without routes needs none
 		panic(fmt.Sprintf("handler err : empty handlers in route(%s,%s)", re.method, re.uri))
 	}
 
-- 
2.43.0


From 49011bf14261c85fb99b6005596b813172de5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 28/56] fix: a nil handler function is refused at setup, it
 crashed the first request

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 41cc8e1..55ab4fa 100644
--- a/engine.go
+++ b/engine.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"reflect"
 	"sync"
 	"time"
 
@@ -20,6 +21,10 @@ func (f HandlerFunc) ServeHTTP(ctx *Context) {
 
 // support http.Handler, but not recommended
 func newHandler(handler interface{}) Handler {
+	if v := reflect.ValueOf(handler); v.Kind() == reflect.Func && v.IsNil() {
+		panic("nil handler")
+	}
+
 	switch h := handler.(type) {
 	case Handler:
 		return h
-- 
2.43.0


From e9f354a985feceae2fc8a2848c7911e5d7a334da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 29/56] fix: in the extended build a flushed or hijacked
 request counts as answered

---
 response_advanced.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/response_advanced.go b/response_advanced.go
index 472b4d4..07f7080 100644
--- a/response_advanced.go
+++ b/response_advanced.go
@@ -3,6 +3,8 @@
 package water
 
 import (
+	"bufio"
+	"net"
 	"net/http"
 )
 
@@ -12,3 +14,20 @@ type ResponseWriter interface {
 	http.Flusher
 	http.Hijacker
 }
+
+// Flush sends what was written so far, with status 200 if no status was written yet
+func (ctx *Context) Flush() {
+	if !ctx.written {
+		ctx.WriteHeader(http.StatusOK)
+	}
+	ctx.ResponseWriter.Flush()
+}
+
+// Hijack takes over the connection, the request then counts as answered
+func (ctx *Context) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	conn, rw, err := ctx.ResponseWriter.Hijack()
+	if err == nil {
+		ctx.written = true
+	}
+	return conn, rw, err
+}
-- 
2.43.0


From 31f0018c059b34007303c8090724ed5410f7f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 30/56] fix: a download name with ':', '=' or '@' gave a
 Content-Disposition no parser accepts

---
 util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index 3e985b7..a1a85dc 100644
--- a/util.go
+++ b/util.go
@@ -64,8 +64,10 @@ func contentDisposition(fileName, dispositionType string) string {
 		return dispositionType
 	}
 
-	return fmt.Sprintf(`%s; filename="%s"; filename*=UTF-8''%s`,
-		dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))
+	// not escaped in a path, but not allowed in filename*
+	name := strings.NewReplacer(":", "%3A", "=", "%3D", "@", "%40").Replace(url.PathEscape(fileName))
+
+	return fmt.Sprintf(`%s; filename="%s"; filename*=UTF-8''%s`, dispositionType, name, name)
 }
 
 // check pattern segment
-- 
2.43.0


From 953a28f3784cd248ba38d2989537518c7452002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 31/56] fix: Recovery appended its report to a response that
 was already begun

---
 m_recovery.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/m_recovery.go b/m_recovery.go
index edbbbdb..b79959d 100644
--- a/m_recovery.go
+++ b/m_recovery.go
@@ -26,14 +26,16 @@ func Recovery() HandlerFunc {
 					content += fmt.Sprintf("%v %v", file, line)
 				}
 
-				if !ctx.written {
-					ctx.WriteHeader(http.StatusInternalServerError)
-				}
-
 				logx.Errorf("panic %s : %s", time.Now().Format(LogTimeFormat), content)
 
+				if ctx.written { // the response already begun stands
+					return
+				}
+
 				if Status != Stable {
 					ctx.String(http.StatusInternalServerError, content)
+				} else {
+					ctx.WriteHeader(http.StatusInternalServerError)
 				}
 			} else {
 				if !ctx.written {
-- 
2.43.0


From 18d16986db5fe03b2b32add626782f2e7b5cdcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 32/56] fix: Logger logged status 0 for requests answered with
 the implicit 200

---
 m_logger.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/m_logger.go b/m_logger.go
index 9cb0c00..a959872 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -74,11 +74,16 @@ func Logger() HandlerFunc {
 
 		ctx.Next()
 
+		status := ctx.status
+		if !ctx.written { // net/http sends 200 then
+			status = http.StatusOK
+		}
+
 		// Layout : "prefix start_time [ status ] used_time | ip | method path"
 		logx.Infof("%s %v |%s| %13v | %16s | %7s %s%s",
 			logPrefix(ctx.Request),
 			start.Format(LogTimeFormat),
-			logStatus(ctx.status),
+			logStatus(status),
 			time.Now().Sub(start),
 			ctx.RealIp(),
 			ctx.Request.Method,
-- 
2.43.0


From 4b7a9562d111d79e5cb0b24316fe82aa06b49615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 33/56] fix: binding a malformed query or form is an error, it
 crashed

---
 content.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/content.go b/content.go
index 5042b95..0992bc0 100644
--- a/content.go
+++ b/content.go
@@ -294,18 +294,15 @@ func (ctx *Context) XML(code int, v interface{}) error {
 
 // Bind use http method and ContentType to decode req
 func (ctx *Context) Bind(obj interface{}) error {
-	b := binding.NewBindinger(ctx.Request.Method, ctx.ContentType())
-	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
-	}
-
-	return ctx.BindWith(obj, b)
+	return ctx.BindWith(obj, binding.NewBindinger(ctx.Request.Method, ctx.ContentType()))
 }
 
 // BindWith use the assigned Bindinger to decode req
 func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
+		if err := ctx.parseFormOrMultipartForm(); err != nil {
+			return err
+		}
 	}
 
 	if b == binding.FormMultipart && ctx.Request.MultipartForm == nil {
@@ -337,19 +334,27 @@ const defaultMultipartMemory int64 = 32 << 20 // 32MB
 
 // ParseFormOrMultipartForm parses the raw query from the URL.
 func (ctx *Context) ParseFormOrMultipartForm() {
+	if err := ctx.parseFormOrMultipartForm(); err != nil {
+		panic(err)
+	}
+}
+
+func (ctx *Context) parseFormOrMultipartForm() error {
 	if ctx.parsedParams {
-		return
+		return nil
 	}
 	ctx.parsedParams = true
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
 		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
-			panic(errors.New("parseMultipartForm error:" + err.Error()))
+			return errors.New("parseMultipartForm error:" + err.Error())
 		}
 	} else {
 		if err := ctx.Request.ParseForm(); err != nil {
-			panic(errors.New("parseForm error:" + err.Error()))
+			return errors.New("parseForm error:" + err.Error())
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From f89e1c5ff740a1e13a4ac0c8f7112b7c3974b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 34/56] fix: only a multipart/form-data body is parsed as one,
 also when the text occurs elsewhere in the content type

---
 content.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content.go b/content.go
index 0992bc0..f028dbf 100644
--- a/content.go
+++ b/content.go
@@ -346,7 +346,7 @@ func (ctx *Context) parseFormOrMultipartForm() error {
 	ctx.parsedParams = true
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
-		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
+		ctx.ContentType() == binding.MIMEMultipartPOSTForm {
 		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
 			return errors.New("parseMultipartForm error:" + err.Error())
 		}
-- 
2.43.0


From c034d00979a9065501ec43fbcd27309a5715b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 35/56] fix: a bound time.Time, or a slice of them, failed
 validation

---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index 2af663d..731b749 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -73,6 +73,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
+		if value.Type().ConvertibleTo(timeType) { // has no constraints, and validator.Struct refuses it
+			return nil
+		}
 		return v.validate.Struct(obj)
 	case reflect.Slice, reflect.Array:
 		count := value.Len()
-- 
2.43.0


From af4dd09eeb1f4e8f988841de2b27864b22f3019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 36/56] fix: a segment with several angle-bracket pairs was
 taken for one placeholder

---
 tree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tree.go b/tree.go
index 9704d4a..41ed6e9 100644
--- a/tree.go
+++ b/tree.go
@@ -75,6 +75,14 @@ func getparsedPattern(pattern string) string {
 	closeIdx := endIdx
 	typeStartIdx := strings.Index(pattern, ":")
 	regStartIdx := strings.Index(pattern, "~")
+	// only the regexp may contain more brackets, /<a>-<b> isn't supported
+	names := pattern[1:endIdx]
+	if regStartIdx > -1 {
+		names = pattern[1:regStartIdx]
+	}
+	if strings.ContainsAny(names, "<>") {
+		panic(fmt.Sprintf("invalid pattern[%s] without correct format.", pattern))
+	}
 	if regStartIdx > -1 && typeStartIdx > regStartIdx { // ":" is part of the regexp
 		typeStartIdx = -1
 	}
-- 
2.43.0


From e01e42e54b6fbd845e29a7ac0b608d897a31da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 37/56] fix: JSON numbers overflowing an integer were accepted
 with a wrong value, members with escaped names dropped

---
 binding/json.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/binding/json.go b/binding/json.go
index ecbe862..69e1f58 100644
--- a/binding/json.go
+++ b/binding/json.go
@@ -3,6 +3,7 @@ package binding
 import (
 	stdjson "encoding/json"
 	"fmt"
+	"io"
 	"net/http"
 
 	jsoniter "github.com/json-iterator/go"
@@ -24,25 +25,30 @@ func (b jsonBinding) Bind(req *http.Request, obj interface{}) error {
 	}
 	defer req.Body.Close()
 
-	// json-iterator accepts broken numbers, like +1.5
-	var doc stdjson.RawMessage
-	if err := stdjson.NewDecoder(req.Body).Decode(&doc); err != nil {
-		return err
-	}
-	if err := json.Unmarshal(doc, obj); err != nil {
+	if err := decodeJSON(req.Body, obj); err != nil {
 		return err
 	}
 
 	return validate(obj)
 }
 
+// decodeJSON uses encoding/json itself where json-iterator should only be
+// compatible with it: json-iterator accepts broken numbers, like +1.5, and many
+// overflowing ones, and misses escaped member names, like "\u00e9".
+func decodeJSON(r io.Reader, obj interface{}) error {
+	if json == jsoniter.ConfigCompatibleWithStandardLibrary {
+		return stdjson.NewDecoder(r).Decode(obj)
+	}
+	return json.NewDecoder(r).Decode(obj)
+}
+
 // unmarshalText decodes a form value for a struct or map field
 func unmarshalText(val string, obj interface{}) error {
 	if err := json.Unmarshal([]byte(val), obj); err != nil {
 		return err
 	}
-	if !stdjson.Valid([]byte(val)) {
-		return fmt.Errorf("invalid json: %s", val)
+	if json == jsoniter.ConfigCompatibleWithStandardLibrary { // see decodeJSON
+		return stdjson.Unmarshal([]byte(val), obj)
 	}
 	return nil
 }
-- 
2.43.0


From e771c5ee6fca1108983424a40f7d698b4d30fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 38/56] fix: extended build fails every request on a writer
 without hijacking, like HTTP/2's

---
 engine.go            |  2 +-
 response.go          |  4 ++++
 response_advanced.go | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 55ab4fa..22494f9 100644
--- a/engine.go
+++ b/engine.go
@@ -101,7 +101,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	ctx := e.ctxPool.Get().(*Context)
 	ctx.reset()
 
-	ctx.ResponseWriter = rw.(ResponseWriter)
+	ctx.ResponseWriter = newResponseWriter(rw)
 	ctx.Request = req
 	ctx.maxMultipartMemory = e.options.MaxMultipartMemory
 
diff --git a/response.go b/response.go
index ee70fb7..fad8c47 100644
--- a/response.go
+++ b/response.go
@@ -12,3 +12,7 @@ type ResponseWriter interface {
 	//http.Flusher
 	//http.Hijacker
 }
+
+func newResponseWriter(rw http.ResponseWriter) ResponseWriter {
+	return rw
+}
diff --git a/response_advanced.go b/response_advanced.go
index 07f7080..3866c60 100644
--- a/response_advanced.go
+++ b/response_advanced.go
@@ -15,6 +15,38 @@ type ResponseWriter interface {
 	http.Hijacker
 }
 
+// newResponseWriter takes writers without all of these too, like the ones of HTTP/2 or http.TimeoutHandler
+func newResponseWriter(rw http.ResponseWriter) ResponseWriter {
+	if w, ok := rw.(ResponseWriter); ok {
+		return w
+	}
+	return basicResponseWriter{rw}
+}
+
+type basicResponseWriter struct {
+	http.ResponseWriter
+}
+
+func (w basicResponseWriter) CloseNotify() <-chan bool {
+	if n, ok := w.ResponseWriter.(http.CloseNotifier); ok {
+		return n.CloseNotify()
+	}
+	return make(chan bool, 1)
+}
+
+func (w basicResponseWriter) Flush() {
+	if f, ok := w.ResponseWriter.(http.Flusher); ok {
+		f.Flush()
+	}
+}
+
+func (w basicResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	if h, ok := w.ResponseWriter.(http.Hijacker); ok {
+		return h.Hijack()
+	}
+	return nil, nil, http.ErrNotSupported
+}
+
 // Flush sends what was written so far, with status 200 if no status was written yet
 func (ctx *Context) Flush() {
 	if !ctx.written {
-- 
2.43.0


From 8684054116d0ea5e86d950cc16feef963936b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 39/56] fix: HandlerName panics if the last handler is a struct

---
 util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index a1a85dc..87b3dd6 100644
--- a/util.go
+++ b/util.go
@@ -105,7 +105,11 @@ func filterFlags(content string) string {
 }
 
 func nameOfFunction(f interface{}) string {
-	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
+	v := reflect.ValueOf(f)
+	if v.Kind() != reflect.Func { // a type with ServeHTTP()
+		return v.Type().String()
+	}
+	return runtime.FuncForPC(v.Pointer()).Name()
 }
 
 // GenerateETag generates an ETag based on file modification time and size
-- 
2.43.0


From 37485dc6c0b9d654517111ff72eb543065adc0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 40/56] fix: Logger hides a body cut short by the client

---
 m_logger.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a959872..cb3c363 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -50,6 +50,14 @@ func logPrefix(req *http.Request) string {
 	return "[ water : " + req.Header.Get("Trace-ID") + " ]"
 }
 
+type failedReader struct {
+	err error
+}
+
+func (r failedReader) Read([]byte) (int, error) {
+	return 0, r.err
+}
+
 func Logger() HandlerFunc {
 	return func(ctx *Context) {
 		if LogClose {
@@ -61,13 +69,17 @@ func Logger() HandlerFunc {
 
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
-			requestbody, _ := ioutil.ReadAll(safe)
+			requestbody, err := ioutil.ReadAll(safe)
+			rest := io.Reader(ctx.Request.Body)
+			if err != nil { // reading again may just say EOF
+				rest = failedReader{err}
+			}
 
 			// the handlers still get the whole body, also what is beyond the logged part
 			ctx.Request.Body = struct {
 				io.Reader
 				io.Closer
-			}{io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body), ctx.Request.Body}
+			}{io.MultiReader(bytes.NewReader(requestbody), rest), ctx.Request.Body}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From 0cbd28bc08ba5bbba7f024d25df922c18325ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 41/56] fix: Bind2 crashed on embedded fields of unexported
 types

---
 binding/mapping.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binding/mapping.go b/binding/mapping.go
index f1c3a37..e25e80b 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -80,6 +80,9 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 			return false, err
 		}
 		if isNew && isSetted {
+			if !value.CanSet() {
+				return false, fmt.Errorf("can't set embedded pointer to unexported struct %s", field.Name)
+			}
 			value.Set(vPtr)
 		}
 		return isSetted, nil
@@ -101,7 +104,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		var isSetted bool
 		for i := 0; i < value.NumField(); i++ {
 			sf := tValue.Field(i)
-			if sf.PkgPath != "" && !sf.Anonymous { // unexported
+			if sf.PkgPath != "" && !(sf.Anonymous && isStruct(sf.Type)) { // unexported, but it may promote fields
 				continue
 			}
 			ok, err := mapping(value.Field(i), tValue.Field(i), setter, tag)
@@ -115,6 +118,10 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 	return false, nil
 }
 
+func isStruct(t reflect.Type) bool {
+	return t.Kind() == reflect.Struct || t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct
+}
+
 func setByForm(value reflect.Value, field reflect.StructField, form map[string][]string, tagValue string, opt setOptions) (isSetted bool, err error) {
 	vs, ok := form[tagValue]
 	if !ok && opt.defaultValue == "" {
-- 
2.43.0


From e28a6cfffa441474e6f93ef347becb38035d1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 42/56] fix: form values like Filename made up an uploaded file
 in Bind2

---
 binding/mapping.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binding/mapping.go b/binding/mapping.go
index e25e80b..3b4ed12 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -13,6 +13,7 @@ import (
 var (
 	emptyField     = reflect.StructField{}
 	errUnknownType = errors.New("unknown type")
+	fileHeaderType = reflect.TypeOf(multipart.FileHeader{})
 )
 
 type setOptions struct {
@@ -98,7 +99,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		}
 	}
 
-	if vKind == reflect.Struct {
+	if vKind == reflect.Struct && value.Type() != fileHeaderType {
 		tValue := value.Type()
 
 		var isSetted bool
@@ -337,6 +338,8 @@ func setWithProperType(val string, value reflect.Value, field reflect.StructFiel
 		switch value.Interface().(type) {
 		case time.Time:
 			return setTimeField(val, field, value)
+		case multipart.FileHeader:
+			return errors.New("text is not valid value for multipart.FileHeader")
 		}
 		return json.Unmarshal([]byte(val), value.Addr().Interface())
 	case reflect.Map:
-- 
2.43.0


From b7c67a928cdb6934e620bc9f1dc5e76949941486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 43/56] fix: a key without values crashed Bind2 into a map

---
 binding/mapping.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/mapping.go b/binding/mapping.go
index 3b4ed12..0268775 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -239,6 +239,9 @@ func setFormMap(ptr interface{}, form map[string][]string) error {
 		return errors.New("cannot convert to map of strings")
 	}
 	for k, v := range form {
+		if len(v) == 0 {
+			continue
+		}
 		ptrMap[k] = v[len(v)-1] // pick last
 	}
 
-- 
2.43.0


From 7ca49c90b5a42d095672be62685d82d30da4f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 44/56] fix: Bind2 accepted broken and overflowing JSON numbers
 for struct and map fields

---
 binding/mapping.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/mapping.go b/binding/mapping.go
index 0268775..20075c5 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -344,9 +344,9 @@ func setWithProperType(val string, value reflect.Value, field reflect.StructFiel
 		case multipart.FileHeader:
 			return errors.New("text is not valid value for multipart.FileHeader")
 		}
-		return json.Unmarshal([]byte(val), value.Addr().Interface())
+		return unmarshalText(val, value.Addr().Interface())
 	case reflect.Map:
-		return json.Unmarshal([]byte(val), value.Addr().Interface())
+		return unmarshalText(val, value.Addr().Interface())
 	default:
 		return errUnknownType
 	}
-- 
2.43.0


From e75b222ccaef33ddedd0afb1c34c8b9abf13349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 45/56] fix: reusing the slice of handlers given to a route
 changed that route

---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 6d275b2..047d2f8 100644
--- a/router.go
+++ b/router.go
@@ -161,7 +161,7 @@ func (r *Router) handle(method, pattern string, handlers []interface{}) {
 		method:   method,
 		pattern:  pattern,
 		parent:   r,
-		handlers: handlers,
+		handlers: append([]interface{}(nil), handlers...), // the caller may reuse its slice
 	}
 
 	r.sub = append(r.sub, rr)
-- 
2.43.0


From a30505c24d1ae159de9a64728eb99afbe45bbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 46/56] fix: reusing the slice of handlers given to
 WithNoFoundHandlers changed the option

---
 option.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/option.go b/option.go
index 0b223c8..115c627 100644
--- a/option.go
+++ b/option.go
@@ -23,6 +23,8 @@ func WithNoFoundHandlers(hs ...interface{}) Option {
 		panic("no NoFoundHandlers")
 	}
 
+	hs = append([]interface{}(nil), hs...) // the caller may reuse its slice
+
 	return func(o *options) {
 		o.NoFoundHandlers = newHandlers(hs)
 	}
-- 
2.43.0


From eb1e72d65510797b625e8cc6659aeee6f3377b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 47/56] fix: reusing the options given to StaticAdvance changed
 what was mounted

---
 m_static.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/m_static.go b/m_static.go
index 16b0453..0620308 100644
--- a/m_static.go
+++ b/m_static.go
@@ -39,6 +39,9 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 		panic("sub router not allowed : StaticAdvance()")
 	}
 
+	own := *opt // the caller may reuse its options
+	opt = &own
+
 	if len(opt.IndexFile) != 0 {
 		opt.hasIndex = true
 	}
-- 
2.43.0


From a48f0d956713d8a39bcd331dabc08304c317f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 48/56] fix: reusing the slice of origins given to CORS changed
 what was granted

---
 m_cors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m_cors.go b/m_cors.go
index bad3644..a48b059 100644
--- a/m_cors.go
+++ b/m_cors.go
@@ -70,6 +70,7 @@ func CORS(config CORSConfig) HandlerFunc {
 	if len(config.AllowOrigins) == 0 {
 		config.AllowOrigins = DefaultCORSConfig.AllowOrigins
 	}
+	config.AllowOrigins = append([]string(nil), config.AllowOrigins...) // the caller may reuse its slice
 	if len(config.AllowMethods) == 0 {
 		config.AllowMethods = DefaultCORSConfig.AllowMethods
 	}
-- 
2.43.0


From 8609b39e8106cfe83b1a7103fc740e6149269cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 49/56] fix: a status net/http refuses counted as answered,
 Recovery then sent 200

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index fe953b6..313bf9c 100644
--- a/context.go
+++ b/context.go
@@ -75,9 +75,9 @@ func (ctx *Context) WriteHeader(code int) {
 	if ctx.written {
 		logx.Warn("water: multiple ctx.WriteHeader calls")
 	} else {
+		ctx.ResponseWriter.WriteHeader(code) // panics if there is no such code, nothing is written then
 		ctx.written = true
 		ctx.status = code
-		ctx.ResponseWriter.WriteHeader(code)
 	}
 }
 
-- 
2.43.0


From 422d0fc9909205aa22ec0dba8b301cd42b23551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 50/56] fix: QueryMap took key[a][b] and key[a]x for key[a], at
 random when both were sent

---
 query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 6bb651e..09f5f2e 100644
--- a/query.go
+++ b/query.go
@@ -93,7 +93,7 @@ func (ctx *Context) QueryMap(key string) map[string]string {
 
 	for k, v := range ctx.Request.Form {
 		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
-			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 {
+			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 {
 				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
 			}
 		}
@@ -176,7 +176,7 @@ func (ctx *Context) DefaultQueryMap(key string, defaultValue map[string]string)
 
 	for k, v := range ctx.Request.Form {
 		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
-			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 {
+			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 {
 				exist = true
 
 				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
-- 
2.43.0


From f9bfe719a56e53748c924ffbb46158fb6ee021a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 51/56] fix: a tab before the parameters of a content type hid
 the media type

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 87b3dd6..39b3121 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,7 @@ func checkMethod(method string) (string, int) {
 
 func filterFlags(content string) string {
 	for i, char := range content {
-		if char == ' ' || char == ';' {
+		if char == ' ' || char == '\t' || char == ';' {
 			return content[:i]
 		}
 	}
-- 
2.43.0


From 0b3d4ab780b5679e8ad2884020efa26c41544029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 52/56] fix: QueryMap crashed over a key without values

---
 query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 09f5f2e..6a80956 100644
--- a/query.go
+++ b/query.go
@@ -93,7 +93,7 @@ func (ctx *Context) QueryMap(key string) map[string]string {
 
 	for k, v := range ctx.Request.Form {
 		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
-			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 {
+			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 && len(v) > 0 {
 				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
 			}
 		}
@@ -176,7 +176,7 @@ func (ctx *Context) DefaultQueryMap(key string, defaultValue map[string]string)
 
 	for k, v := range ctx.Request.Form {
 		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
-			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 {
+			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 && len(v) > 0 {
 				exist = true
 
 				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
-- 
2.43.0


From e3d5413dd98448233872ad6160a359a0ac383ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 53/56] fix: an informational status such as 103 was taken for
 the answer

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 313bf9c..a67f92b 100644
--- a/context.go
+++ b/context.go
@@ -76,6 +76,9 @@ func (ctx *Context) WriteHeader(code int) {
 		logx.Warn("water: multiple ctx.WriteHeader calls")
 	} else {
 		ctx.ResponseWriter.WriteHeader(code) // panics if there is no such code, nothing is written then
+		if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+			return // informational, the response is yet to come
+		}
 		ctx.written = true
 		ctx.status = code
 	}
-- 
2.43.0


From 0b7b0a1e0f8a838eeb3a248d55aca625188ee31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:17 +0000
Subject: [PATCH 54/56] fix: the static-route map served paths with doubled
 slashes the tree does not have

---
 engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 22494f9..b85c6e5 100644
--- a/engine.go
+++ b/engine.go
@@ -178,7 +178,10 @@ func (e *Engine) buildTree() {
 			if e.routersStatic[MethodIndex(v.method)] == nil {
 				e.routersStatic[MethodIndex(v.method)] = map[string]*node{}
 			}
-			e.routersStatic[MethodIndex(v.method)][v.variantUri] = endNode
+			// "/a//b" is served as "/a/b", the map must not add a path the tree doesn't have
+			if n, _ := e.routers[MethodIndex(v.method)].Match(v.variantUri); n == endNode {
+				e.routersStatic[MethodIndex(v.method)][v.variantUri] = endNode
+			}
 		}
 
 		if endNode.matchNode == nil { // an equal pattern added earlier keeps serving
-- 
2.43.0


From cc03d3e60a32de2d680c6986fbed4a659ae55e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:32 +0000
Subject: [PATCH 55/56] fix: Recovery drops the Content-Length of the answer a
 panic cut off

---
 m_recovery.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/m_recovery.go b/m_recovery.go
index b79959d..e2a34f6 100644
--- a/m_recovery.go
+++ b/m_recovery.go
@@ -32,6 +32,8 @@ func Recovery() HandlerFunc {
 					return
 				}
 
+				ctx.Header().Del("Content-Length") // of the answer that wasn't begun
+
 				if Status != Stable {
 					ctx.String(http.StatusInternalServerError, content)
 				} else {
-- 
2.43.0


From b2474045058f2b1c165ab91465e61f861f7b9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:39 +0000
Subject: [PATCH 56/56] fix: list the directory asked for, not the directory
 index.html in it

---
 m_static.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 0620308..b8c4a4a 100644
--- a/m_static.go
+++ b/m_static.go
@@ -3,6 +3,7 @@ package water
 import (
 	"net/http"
 	"net/url"
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
@@ -16,6 +17,25 @@ const (
 	ETagType2
 )
 
+// dirFS hides an index that is a directory itself: net/http's FileServer would
+// list that one in place of the directory asked for.
+type dirFS struct {
+	http.FileSystem
+	index string
+}
+
+func (fs dirFS) Open(name string) (http.File, error) {
+	f, err := fs.FileSystem.Open(name)
+	if err != nil || name != fs.index {
+		return f, err
+	}
+	if fi, err := f.Stat(); err != nil || fi.IsDir() {
+		f.Close()
+		return nil, os.ErrNotExist
+	}
+	return f, nil
+}
+
 // StaticOptions is a struct for specifying configuration options for the Static Files middleware.
 type StaticOptions struct {
 	// Prefix is the optional prefix used to serve the static directory content
@@ -96,7 +116,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			if !opt.hasIndex { // index.html or listing of this directory
 				req := ctx.Request.Clone(ctx.Request.Context())
 				req.URL.Path = strings.TrimRight(name, "/") + "/"
-				http.FileServer(opt.FileSystem).ServeHTTP(ctx, req)
+				http.FileServer(dirFS{opt.FileSystem, path.Join(name, "index.html")}).ServeHTTP(ctx, req)
 				return
 			}
 
-- 
2.43.0

