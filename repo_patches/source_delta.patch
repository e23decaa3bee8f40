From fe31db6b3854f3b26886318d5f219e977e79b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 01/47] fix: do not leak path parameters of an earlier request
 through the static route table

A pooled Context kept Params of the request it served before when the next
request was answered by WithStaticRouter's table, which does not set them.
---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 386dc10..454534c 100644
--- a/context.go
+++ b/context.go
@@ -41,6 +41,7 @@ func (ctx *Context) reset() {
 	ctx.status = 0
 
 	ctx.endNode = nil
+	ctx.Params = nil // the static route table sets none
 	ctx.parsedParams = false
 }
 
-- 
2.43.0


From ad37c60547104f2393e67b4a5eba2e2e0063728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 02/47] fix: do not capture parameters of an abandoned regexp
 segment

/<id ~ (a)>/x + /<name>/y : GET /a/y reported id=a beside name=a.
---
 tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 08f6628..e91094a 100644
--- a/tree.go
+++ b/tree.go
@@ -285,10 +285,10 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					params[n.subNodes[i].wildcards[j]] = results[j+1]
+				}
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From a7b47cae98662b962a61d3664d9cfd0ee69fd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 03/47] fix: ignore the "_" parameter of regexp segments too

It is the documented "ignore" name and was ignored by the other segment kinds.
---
 tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index e91094a..3df6727 100644
--- a/tree.go
+++ b/tree.go
@@ -246,6 +246,9 @@ func (n *node) matchEndNode(globLevel int, uri string, params Params) *node {
 			}
 
 			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
+				if n.endNodes[i].wildcards[j] == "_" {
+					continue
+				}
 				params[n.endNodes[i].wildcards[j]] = results[j+1]
 			}
 			return n.endNodes[i]
@@ -287,6 +290,9 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
 				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					if n.subNodes[i].wildcards[j] == "_" {
+						continue
+					}
 					params[n.subNodes[i].wildcards[j]] = results[j+1]
 				}
 				return end
-- 
2.43.0


From ac4ccab032ea03b945731ac97c88fb45588e602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 04/47] fix: several catch-alls of one level match in
 registration order

/* + /*file : GET /a was answered by the first, GET /a/b by the last.
---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 3df6727..4da2b20 100644
--- a/tree.go
+++ b/tree.go
@@ -318,8 +318,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for _, end := range n.endNodes { //for match "/*"
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From 78f6e967aa3e80294e06e678ff23b4dcab50c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 05/47] fix: a regexp segment without group can match

The documented /<id ~ 70|80> never matched any request, because the number
of groups (0) never equals the number of names (1).
---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index 4da2b20..ae1616c 100644
--- a/tree.go
+++ b/tree.go
@@ -99,6 +99,10 @@ func partternRegexp(pattern string, want int) (string, error) {
 		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
+	if want == 1 && !strings.ContainsAny(regExp, "()") { // without group: the whole match is the arg
+		regExp = "(" + regExp + ")"
+	}
+
 	return regExp, nil
 }
 
-- 
2.43.0


From 41519aaaf51d7be2d37ed4a8b03aaa39d04245f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 06/47] fix: a ":" inside the regexp of a segment is not a type
 mark

/<id ~ (a:b)> captured a parameter named "id ~ (a".
---
 tree.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index ae1616c..824686b 100644
--- a/tree.go
+++ b/tree.go
@@ -73,14 +73,14 @@ func getparsedPattern(pattern string) string {
 	}
 
 	closeIdx := endIdx
-	typeStartIdx := strings.Index(pattern, ":")
-	if typeStartIdx > -1 {
-		closeIdx = typeStartIdx
-	}
 	regStartIdx := strings.Index(pattern, "~")
-	if typeStartIdx == -1 && regStartIdx > -1 {
+	if regStartIdx > -1 {
 		closeIdx = regStartIdx
 	}
+	typeStartIdx := strings.Index(pattern[:closeIdx], ":") // not the ":" in regexp
+	if typeStartIdx > -1 {
+		closeIdx = typeStartIdx
+	}
 
 	return strings.TrimSpace(pattern[startIdx+1 : closeIdx])
 }
-- 
2.43.0


From 367adeedc392f5dc8d81bac85f5f3ffd6fa00cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 07/47] fix: middleware given to Group() belongs to the new
 group

It was attached to the parent and ran for all of the parent's other routes.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..969a8c1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From c041b8ea855a8444e5cfc81433c43a3b3fb1b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 08/47] fix: static route table uses the path the route tree
 answers

GET /a//b is not found for the route /a//b (the tree builds /a/b from it),
but was answered with WithStaticRouter(true).
---
 engine.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 9466b6b..d1ee156 100644
--- a/engine.go
+++ b/engine.go
@@ -172,7 +172,7 @@ func (e *Engine) buildTree() {
 			if e.routersStatic[MethodIndex(v.method)] == nil {
 				e.routersStatic[MethodIndex(v.method)] = map[string]*node{}
 			}
-			e.routersStatic[MethodIndex(v.method)][v.variantUri] = endNode
+			e.routersStatic[MethodIndex(v.method)][staticPath(endNode)] = endNode
 		}
 
 		endNode.matchNode = v
@@ -192,6 +192,15 @@ func isStaticRoute(node *node) bool {
 	return isStaticRoute(node.parent)
 }
 
+// staticPath returns the only path that static route n answers
+func staticPath(n *node) string {
+	if n.parent == nil {
+		return ""
+	}
+
+	return staticPath(n.parent) + "/" + n.pattern
+}
+
 // handle log before invoke Logger()
 // 处理调用Logger()前的日志
 func (e *Engine) log(status int, req *http.Request) {
-- 
2.43.0


From ee7afb34dae07a0b7d198a35ae9c957b3917ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 09/47] fix: FullPath reports the route whose handlers run

With /u/:id and /u/<id>, handlers of the first ran under the name of the second.
---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index d1ee156..765fe5c 100644
--- a/engine.go
+++ b/engine.go
@@ -175,7 +175,9 @@ func (e *Engine) buildTree() {
 			e.routersStatic[MethodIndex(v.method)][staticPath(endNode)] = endNode
 		}
 
-		endNode.matchNode = v
+		if endNode.matchNode == nil { // "/:id" and "/<id>" share one node, the first one's handlers run
+			endNode.matchNode = v
+		}
 	}
 }
 
-- 
2.43.0


From 4a1a544ffbed4cbad178c6fa6d06321ab7305fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 10/47] fix: set Content-Type before the status line is sent

Headers set after WriteHeader never reach the client: JSON(), XML(), String(),
Data() and HTMLRaw() were all sent with a sniffed type.
---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From a6ad029064d6623368ca22497f0c5092bbc5eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 11/47] fix: File() and static files go through the Context

They wrote past it, so Status() stayed 0, later handlers ran, and Recovery()
sent a second status line.
---
 content.go  | 2 +-
 m_static.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 23a7325..ef681f4 100644
--- a/content.go
+++ b/content.go
@@ -146,7 +146,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From df532951e40f137a0d93e219705fa299accb4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 12/47] fix: static directories are served from the configured
 file system

The index file or listing was taken from the working directory of the process.
---
 m_static.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..e9e2c1a 100644
--- a/m_static.go
+++ b/m_static.go
@@ -85,7 +85,27 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
+			if !opt.hasIndex {
+				http.StripPrefix(filepath.Join(opt.Prefix, "/"), http.FileServer(opt.FileSystem)).ServeHTTP(ctx, ctx.Request)
+				return
+			}
+
+			index, err := opt.FileSystem.Open(path.Join(ctx.Param("*0"), opt.IndexFile))
+			if err != nil {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+			defer index.Close()
+
+			fi, err = index.Stat()
+			if err != nil || fi.IsDir() {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+
+			http.ServeContent(ctx, ctx.Request, fi.Name(), fi.ModTime(), index)
 			return
 		}
 
-- 
2.43.0


From fe9c4b7461a26c80721348f80a8ef8560e10bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 13/47] fix: form values that do not fit the field are an error

"300" was bound to an int8 as 44.
---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..bff57ed 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
-- 
2.43.0


From f663011d7d60adef5d76d6636134866d37cfa722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 14/47] fix: a form value "false" sets a bool field

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index bff57ed..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From 9af62da5e34c38f5918eeff55b760cbb203bc3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 15/47] fix: validating a nil pointer is an error, not a panic

Binding the JSON body [null] to a []*T panicked.
---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..2af663d 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() {
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0


From eb00221643c2af93150cdc1ab17441573793d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 16/47] fix: Logger() keeps JSON bodies over 1 MB complete

Handlers saw the body cut off at the part that is logged.
---
 m_logger.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..e959ccb 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -62,10 +62,12 @@ func Logger() HandlerFunc {
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
 			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			// body may be larger than the logged part
+			ctx.Request.Body = struct {
+				io.Reader
+				io.Closer
+			}{io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body), ctx.Request.Body}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From 13dbf291b5eebacb75aabbcd7556e33b58da361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 17/47] fix: split X-Forwarded-For at commas without space too

The space is optional; "1.1.1.1,2.2.2.2" was reported as the client address.
---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 8d895bf..f57df00 100644
--- a/util.go
+++ b/util.go
@@ -33,7 +33,12 @@ func cleanPath(p string) string {
 
 func requestProxy(req *http.Request) []string {
 	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
-		return strings.Split(ips, ", ")
+		ls := strings.Split(ips, ",")
+		for i := range ls {
+			ls[i] = strings.TrimSpace(ls[i])
+		}
+
+		return ls
 	}
 
 	return nil
-- 
2.43.0


From 3b96be010ab7e4c9a61856959ef21fcbbb3d030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 18/47] fix: the multipart memory limit belongs to the engine
 and defaults to 32MB

Building an engine set the limit of all engines, to 0 unless it had the option.
---
 content.go | 2 +-
 context.go | 2 ++
 engine.go  | 1 +
 router.go  | 7 +++++--
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index ef681f4..f217c26 100644
--- a/content.go
+++ b/content.go
@@ -333,7 +333,7 @@ func (ctx *Context) ParseFormOrMultipartForm() {
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
-		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
 			panic(errors.New("parseMultipartForm error:" + err.Error()))
 		}
 	} else {
diff --git a/context.go b/context.go
index 454534c..be2a49b 100644
--- a/context.go
+++ b/context.go
@@ -28,6 +28,8 @@ type Context struct {
 
 	endNode      *node // matched route node
 	parsedParams bool
+
+	maxMultipartMemory int64 // of engine
 }
 
 func newContext() *Context {
diff --git a/engine.go b/engine.go
index 765fe5c..0f842f8 100644
--- a/engine.go
+++ b/engine.go
@@ -98,6 +98,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 
 	ctx.ResponseWriter = rw.(ResponseWriter)
 	ctx.Request = req
+	ctx.maxMultipartMemory = e.options.MaxMultipartMemory
 
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
diff --git a/router.go b/router.go
index 969a8c1..6ad6fae 100644
--- a/router.go
+++ b/router.go
@@ -320,8 +320,11 @@ func (r *Router) Handler(opts ...Option) *Engine {
 	w.routeStore = rs
 	w.options = o
 
-	defaultMultipartMemory = w.options.MaxMultipartMemory
-	binding.SetMultipartMemory(defaultMultipartMemory)
+	if w.options.MaxMultipartMemory > 0 {
+		binding.SetMultipartMemory(w.options.MaxMultipartMemory)
+	} else {
+		w.options.MaxMultipartMemory = defaultMultipartMemory
+	}
 
 	w.buildTree()
 
-- 
2.43.0


From 20f2583aad9337aaafd329eed5e56ec6dc2c3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 19/47] fix: count the groups of a segment's regexp by
 compiling it

---
 tree.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 824686b..d5101b2 100644
--- a/tree.go
+++ b/tree.go
@@ -95,12 +95,16 @@ func partternRegexp(pattern string, want int) (string, error) {
 	closeIdx := strings.Index(pattern, ">")
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
-	if strings.ContainsAny(pattern, "()") && !(strings.Count(regExp, "(") == want && strings.Count(regExp, "(") == strings.Count(regExp, ")")) {
-		return "", fmt.Errorf("regexp group count not match want(%d)", want)
+	reg, err := regexp.Compile(regExp)
+	if err != nil {
+		return "", err
 	}
 
-	if want == 1 && !strings.ContainsAny(regExp, "()") { // without group: the whole match is the arg
-		regExp = "(" + regExp + ")"
+	if want == 1 && reg.NumSubexp() == 0 { // without group: the whole match is the arg
+		return "(" + regExp + ")", nil
+	}
+	if reg.NumSubexp() != want {
+		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
 	return regExp, nil
-- 
2.43.0


From bc882000ff7881ef0f89399636a8abc8cdc93951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 20/47] fix: Next() after a cut chain goes on with the next
 handler, skipping none

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index be2a49b..071fc7d 100644
--- a/context.go
+++ b/context.go
@@ -55,11 +55,11 @@ func (ctx *Context) Next() {
 func (ctx *Context) run() {
 	for ctx.index < ctx.handlersLength {
 		ctx.handlers[ctx.index].ServeHTTP(ctx)
-		ctx.index += 1
 
-		if ctx.written {
+		if ctx.written { // index stays at the last started handler, for a later Next()
 			return
 		}
+		ctx.index += 1
 	}
 }
 
-- 
2.43.0


From 1044e38fd6ae68e7a57bd08f91f07d204cea59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 21/47] fix: a refused status code does not count as written

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 071fc7d..62690f1 100644
--- a/context.go
+++ b/context.go
@@ -75,9 +75,9 @@ func (ctx *Context) WriteHeader(code int) {
 	if ctx.written {
 		logx.Warn("water: multiple ctx.WriteHeader calls")
 	} else {
+		ctx.ResponseWriter.WriteHeader(code) // panics for an invalid code, nothing is written then
 		ctx.written = true
 		ctx.status = code
-		ctx.ResponseWriter.WriteHeader(code)
 	}
 }
 
-- 
2.43.0


From 818e3b1c1d94c981ac377736ce7e540564c402f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 22/47] fix: X-Forwarded-For may come in several header lines

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index f57df00..5dbb094 100644
--- a/util.go
+++ b/util.go
@@ -32,7 +32,7 @@ func cleanPath(p string) string {
 }
 
 func requestProxy(req *http.Request) []string {
-	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
+	if ips := strings.Join(req.Header[HeaderXForwardedFor], ","); ips != "" {
 		ls := strings.Split(ips, ",")
 		for i := range ls {
 			ls[i] = strings.TrimSpace(ls[i])
-- 
2.43.0


From e9316d8c86af47cf018c3dd5b751dfd535b76d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 23/47] fix: escape the path a directory is redirected to

---
 m_static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index e9e2c1a..1bced5d 100644
--- a/m_static.go
+++ b/m_static.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"net/url"
 	"path"
 	"path/filepath"
 	"strings"
@@ -81,7 +82,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, (&url.URL{Path: redirPath + "/"}).EscapedPath(), http.StatusFound)
 				return
 			}
 
-- 
2.43.0


From d854de573418f48f5f807fe1d00d6639caedc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 24/47] fix: StaticFile serves its file under any path,
 /index.html too

---
 m_static.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 1bced5d..aceed88 100644
--- a/m_static.go
+++ b/m_static.go
@@ -154,7 +154,12 @@ func (r *Router) StaticFile(relativePath, filepath string) {
 	}
 
 	handler := func(c *Context) {
-		c.File(filepath)
+		// http.ServeFile redirects a request for ".../index.html" and refuses one with ".."
+		req := new(http.Request)
+		*req = *c.Request
+		req.URL = &url.URL{Path: "/"}
+
+		http.ServeFile(c, req, filepath)
 	}
 
 	r.GET(relativePath, handler)
-- 
2.43.0


From 6701c63487ef3fd404cae5fe0143451167051fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 25/47] fix: list a directory whose prefix was requested with
 escapes

---
 m_static.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index aceed88..b90bbb1 100644
--- a/m_static.go
+++ b/m_static.go
@@ -87,7 +87,11 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 
 			if !opt.hasIndex {
-				http.StripPrefix(filepath.Join(opt.Prefix, "/"), http.FileServer(opt.FileSystem)).ServeHTTP(ctx, ctx.Request)
+				req := new(http.Request)
+				*req = *ctx.Request
+				req.URL = &url.URL{Path: "/" + ctx.Param("*0") + "/"}
+
+				http.FileServer(opt.FileSystem).ServeHTTP(ctx, req)
 				return
 			}
 
-- 
2.43.0


From e9dcf4ad63285b9ab237830d4fc2e8003ab94351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 26/47] fix: Logger runs the next handler also when logging is
 closed

---
 m_logger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m_logger.go b/m_logger.go
index e959ccb..bb2d49c 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -53,6 +53,7 @@ func logPrefix(req *http.Request) string {
 func Logger() HandlerFunc {
 	return func(ctx *Context) {
 		if LogClose {
+			ctx.Next() // as when logging: the next handler runs even if the response was started
 			return
 		}
 
-- 
2.43.0


From f9fa0bbfdb54a0d4b718a1caf1d7bac7e53d7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 27/47] fix: Logger logs 200, not 0, for a response nothing was
 written to

---
 m_logger.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/m_logger.go b/m_logger.go
index bb2d49c..5b3737c 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -75,11 +75,16 @@ func Logger() HandlerFunc {
 
 		ctx.Next()
 
+		status := ctx.status
+		if !ctx.Written() {
+			status = http.StatusOK // what net/http sends then
+		}
+
 		// Layout : "prefix start_time [ status ] used_time | ip | method path"
 		logx.Infof("%s %v |%s| %13v | %16s | %7s %s%s",
 			logPrefix(ctx.Request),
 			start.Format(LogTimeFormat),
-			logStatus(ctx.status),
+			logStatus(status),
 			time.Now().Sub(start),
 			ctx.RealIp(),
 			ctx.Request.Method,
-- 
2.43.0


From 10f389f93cb33da194e00c886b7c8239e4f6d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 28/47] fix: leave a nil *time.Time field nil when the form
 does not name it

---
 binding/map_form.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 5ef1ecb..cccd7d0 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -55,7 +55,7 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
+			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) && typeField.Type.Elem() != timeType {
 				structField.Set(reflect.New(typeField.Type.Elem()))
 
 				structField = structField.Elem()
-- 
2.43.0


From 490c81c1f22ff82de44a80dc974342e7e97b4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 29/47] fix: bind the fields of a nested struct also through a
 pointer that is already set

---
 binding/map_form.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index cccd7d0..864cdc7 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -55,8 +55,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) && typeField.Type.Elem() != timeType {
-				structField.Set(reflect.New(typeField.Type.Elem()))
+			if (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) && typeField.Type.Elem() != timeType {
+				if structField.IsNil() {
+					structField.Set(reflect.New(typeField.Type.Elem()))
+				}
 
 				structField = structField.Elem()
 			}
-- 
2.43.0


From aebc998eee185769b12c09fa19b15b3d3dc3a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 30/47] fix: do not bind inside a nested struct tagged "-"

---
 binding/map_form.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 864cdc7..d8e07e0 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -54,6 +54,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			continue
 		}
 
+		if name, _ := head(typeField.Tag.Get(tag), ","); name == "-" { // ignored, with all it holds
+			continue
+		}
+
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			if (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) && typeField.Type.Elem() != timeType {
 				if structField.IsNil() {
-- 
2.43.0


From 3a42f289a3d985cfebc8a261d0bf986e26b38018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 31/47] fix: an empty text binds the zero time with time_format
 unix and unixnano too

---
 binding/mapping.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..e8e68ac 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -396,6 +396,11 @@ func setTimeField(val string, structField reflect.StructField, value reflect.Val
 		timeFormat = time.RFC3339
 	}
 
+	if val == "" {
+		value.Set(reflect.ValueOf(time.Time{}))
+		return nil
+	}
+
 	switch tf := strings.ToLower(timeFormat); tf {
 	case "unix", "unixnano":
 		tv, err := strconv.ParseInt(val, 10, 64)
@@ -414,11 +419,6 @@ func setTimeField(val string, structField reflect.StructField, value reflect.Val
 
 	}
 
-	if val == "" {
-		value.Set(reflect.ValueOf(time.Time{}))
-		return nil
-	}
-
 	l := time.Local
 	if isUTC, _ := strconv.ParseBool(structField.Tag.Get("time_utc")); isUTC {
 		l = time.UTC
@@ -447,6 +447,11 @@ func setTimeField2(val string, opt *setOptions, value reflect.Value) error {
 		timeFormat = time.RFC3339
 	}
 
+	if val == "" {
+		value.Set(reflect.ValueOf(time.Time{}))
+		return nil
+	}
+
 	switch tf := strings.ToLower(timeFormat); tf {
 	case "unix", "unixnano":
 		tv, err := strconv.ParseInt(val, 10, 64)
@@ -465,11 +470,6 @@ func setTimeField2(val string, opt *setOptions, value reflect.Value) error {
 
 	}
 
-	if val == "" {
-		value.Set(reflect.ValueOf(time.Time{}))
-		return nil
-	}
-
 	l := time.Local
 	if isUTC, _ := strconv.ParseBool(opt.timeUtc); isUTC {
 		l = time.UTC
-- 
2.43.0


From 9aae84b37ceec4d3772eaeb2bbd88c2e5f1d8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 32/47] fix: never make a *multipart.FileHeader out of a text
 value

---
 binding/map_form.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index d8e07e0..941cfb0 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -96,12 +96,15 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		return nil
 	}
 
+	isFile := value.Type() == multipartFileType ||
+		value.Kind() == reflect.Slice && value.Type().Elem() == multipartFileType
+
 	inputValue, existValue := form[bName]
 	if !existValue && bOpt.defaultValue != "" {
 		existValue = true
 		inputValue = []string{bOpt.defaultValue}
 	}
-	if existValue {
+	if existValue && !isFile { // a file comes only from formfile
 		var err error
 		num := len(inputValue)
 
-- 
2.43.0


From 95bc1e1a4bef4c669132c20cdac972090cee8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 33/47] fix: do not reject a bound time.Time as an invalid
 struct

---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index 2af663d..e28e0a8 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -73,6 +73,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
+		if value.Type() == timeType { // a plain value, there is nothing to validate in it
+			return nil
+		}
 		return v.validate.Struct(obj)
 	case reflect.Slice, reflect.Array:
 		count := value.Len()
-- 
2.43.0


From a902a071cca809d0dbfa78d0ca89e60aff097421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 34/47] fix: Bind and BindWith return the error of a malformed
 form instead of panicking

---
 content.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/content.go b/content.go
index f217c26..be9ac9a 100644
--- a/content.go
+++ b/content.go
@@ -287,18 +287,15 @@ func (ctx *Context) XML(code int, v interface{}) error {
 
 // Bind use http method and ContentType to decode req
 func (ctx *Context) Bind(obj interface{}) error {
-	b := binding.NewBindinger(ctx.Request.Method, ctx.ContentType())
-	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
-	}
-
-	return ctx.BindWith(obj, b)
+	return ctx.BindWith(obj, binding.NewBindinger(ctx.Request.Method, ctx.ContentType()))
 }
 
 // BindWith use the assigned Bindinger to decode req
 func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
+		if err := ctx.parseFormOrMultipartForm(); err != nil {
+			return err
+		}
 	}
 
 	return b.Bind(ctx.Request, obj)
@@ -326,19 +323,27 @@ var (
 
 // ParseFormOrMultipartForm parses the raw query from the URL.
 func (ctx *Context) ParseFormOrMultipartForm() {
+	if err := ctx.parseFormOrMultipartForm(); err != nil {
+		panic(err)
+	}
+}
+
+func (ctx *Context) parseFormOrMultipartForm() error {
 	if ctx.parsedParams {
-		return
+		return nil
 	}
 	ctx.parsedParams = true
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
 		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
-			panic(errors.New("parseMultipartForm error:" + err.Error()))
+			return errors.New("parseMultipartForm error:" + err.Error())
 		}
 	} else {
 		if err := ctx.Request.ParseForm(); err != nil {
-			panic(errors.New("parseForm error:" + err.Error()))
+			return errors.New("parseForm error:" + err.Error())
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From fc3da3440cc038b6af9869ae1e7a84bf8833ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 35/47] fix: BindWith does not parse the body for the query and
 header binders

---
 content.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/content.go b/content.go
index be9ac9a..7ac14ae 100644
--- a/content.go
+++ b/content.go
@@ -292,7 +292,9 @@ func (ctx *Context) Bind(obj interface{}) error {
 
 // BindWith use the assigned Bindinger to decode req
 func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
-	if b != binding.JSON && b != binding.XML {
+	switch b {
+	case binding.JSON, binding.XML, binding.Query, binding.Header: // they read no form
+	default:
 		if err := ctx.parseFormOrMultipartForm(); err != nil {
 			return err
 		}
-- 
2.43.0


From e644d078f523d388e257e4b6f7225ce2118018a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 36/47] fix: Bind2 never makes a multipart.FileHeader out of a
 text value

---
 binding/mapping.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/binding/mapping.go b/binding/mapping.go
index e8e68ac..f444004 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -95,7 +95,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		}
 	}
 
-	if vKind == reflect.Struct {
+	if vKind == reflect.Struct && value.Type() != multipartFileType.Elem() { // a file comes only from a file part
 		tValue := value.Type()
 
 		var isSetted bool
@@ -116,6 +116,10 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 }
 
 func setByForm(value reflect.Value, field reflect.StructField, form map[string][]string, tagValue string, opt setOptions) (isSetted bool, err error) {
+	if value.Type() == multipartFileType.Elem() { // a file comes only from a file part
+		return false, nil
+	}
+
 	vs, ok := form[tagValue]
 	if !ok && opt.defaultValue == "" {
 		return false, nil
@@ -327,6 +331,8 @@ func setWithProperType(val string, value reflect.Value, field reflect.StructFiel
 		switch value.Interface().(type) {
 		case time.Time:
 			return setTimeField(val, field, value)
+		case multipart.FileHeader: // a file comes only from a file part
+			return errUnknownType
 		}
 		return json.Unmarshal([]byte(val), value.Addr().Interface())
 	case reflect.Map:
-- 
2.43.0


From 75487863359c6212694a7eb21f2052e7755c6ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 37/47] fix: refuse nil functions as handlers when the engine
 is built

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 0f842f8..09cf552 100644
--- a/engine.go
+++ b/engine.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"reflect"
 	"sync"
 	"time"
 
@@ -20,6 +21,10 @@ func (f HandlerFunc) ServeHTTP(ctx *Context) {
 
 // support http.Handler, but not recommended
 func newHandler(handler interface{}) Handler {
+	if v := reflect.ValueOf(handler); v.Kind() == reflect.Func && v.IsNil() {
+		panic("nil handler")
+	}
+
 	switch h := handler.(type) {
 	case Handler:
 		return h
-- 
2.43.0


From 179b45d01fc89cd4933f5eb26dd51558534201fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 38/47] fix: routes and the NoFound option keep their own list
 of handlers

---
 option.go | 1 +
 router.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 0b223c8..4fcbe57 100644
--- a/option.go
+++ b/option.go
@@ -22,6 +22,7 @@ func WithNoFoundHandlers(hs ...interface{}) Option {
 	if len(hs) == 0 {
 		panic("no NoFoundHandlers")
 	}
+	hs = append([]interface{}(nil), hs...)
 
 	return func(o *options) {
 		o.NoFoundHandlers = newHandlers(hs)
diff --git a/router.go b/router.go
index 6ad6fae..4375840 100644
--- a/router.go
+++ b/router.go
@@ -163,7 +163,7 @@ func (r *Router) handle(method, pattern string, handlers []interface{}) {
 		method:   method,
 		pattern:  pattern,
 		parent:   r,
-		handlers: handlers,
+		handlers: append([]interface{}(nil), handlers...),
 	}
 
 	r.sub = append(r.sub, rr)
-- 
2.43.0


From f482d987fe2958c8126b877211b9bc86fd3ea1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 39/47] fix: StaticAdvance keeps its own options

---
 m_static.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/m_static.go b/m_static.go
index b90bbb1..5579c2b 100644
--- a/m_static.go
+++ b/m_static.go
@@ -39,6 +39,9 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 		panic("sub router not allowed : StaticAdvance()")
 	}
 
+	own := *opt // the caller may use its options again
+	opt = &own
+
 	if len(opt.IndexFile) != 0 {
 		opt.hasIndex = true
 	}
-- 
2.43.0


From dd3e01f9b87b22b045567da5b09b6a98ac6898c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 40/47] fix: CORS keeps its own list of allowed origins

---
 m_cors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m_cors.go b/m_cors.go
index bad3644..dddc5d6 100644
--- a/m_cors.go
+++ b/m_cors.go
@@ -74,6 +74,7 @@ func CORS(config CORSConfig) HandlerFunc {
 		config.AllowMethods = DefaultCORSConfig.AllowMethods
 	}
 
+	config.AllowOrigins = append([]string(nil), config.AllowOrigins...)
 	allowMethods := strings.Join(config.AllowMethods, ",")
 	allowHeaders := strings.Join(config.AllowHeaders, ",")
 	exposeHeaders := strings.Join(config.ExposeHeaders, ",")
-- 
2.43.0


From 162ae62c28b82192771efa28254486a2a3e9204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 41/47] fix: Recovery answers a panic(nil) too

---
 m_recovery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/m_recovery.go b/m_recovery.go
index edbbbdb..5c618a6 100644
--- a/m_recovery.go
+++ b/m_recovery.go
@@ -11,8 +11,10 @@ import (
 
 func Recovery() HandlerFunc {
 	return func(ctx *Context) {
+		finished := false
+
 		defer func() {
-			if err := recover(); err != nil {
+			if err := recover(); err != nil || !finished { // panic(nil) recovers nil before go 1.21
 				content := fmt.Sprintf("HandlerFunc crashed with error: %v", err)
 				for skip := 1; ; skip += 1 {
 					//当前goroutine的栈上的函数调用信息，主要有当前的PC值和被调用的文件及其行号.
@@ -43,5 +45,6 @@ func Recovery() HandlerFunc {
 		}()
 
 		ctx.Next()
+		finished = true
 	}
 }
-- 
2.43.0


From 1ea8b7fbacd47fb410f5c62719f05348f14ad5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:27 +0000
Subject: [PATCH 42/47] fix: binding: embedded fields that are no structs (Bind
 panicked: NumField of non-struct type)

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 941cfb0..35410e8 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -59,7 +59,7 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) && typeField.Type.Elem() != timeType {
+			if typeField.Type.Elem().Kind() == reflect.Struct && typeField.Type.Elem() != timeType {
 				if structField.IsNil() {
 					structField.Set(reflect.New(typeField.Type.Elem()))
 				}
@@ -68,7 +68,7 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			}
 		}
 
-		if (structField.Kind() == reflect.Struct && structField.Type() != timeType) || typeField.Anonymous { // typeField.Anonymous is an embedded field
+		if structField.Kind() == reflect.Struct && structField.Type() != timeType {
 			if err := _mapForm(structField, form, formfile, tag); err != nil {
 				return err
 			}
-- 
2.43.0


From 84df6acb9615196595e7a70151213fcaf473cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 43/47] fix: binding: embedded fields of unexported types that
 cannot be set (Bind and Bind2 panicked)

---
 binding/map_form.go |  7 +++++++
 binding/mapping.go  | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 35410e8..53d1fc2 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -53,6 +53,9 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		if typeField.PkgPath != "" && !typeField.Anonymous { // unexported
 			continue
 		}
+		if isHidden(structField, typeField) {
+			continue
+		}
 
 		if name, _ := head(typeField.Tag.Get(tag), ","); name == "-" { // ignored, with all it holds
 			continue
@@ -74,6 +77,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			}
 		}
 
+		if typeField.PkgPath != "" { // embedded and unexported: only its fields can be set
+			continue
+		}
+
 		if err := tryToSetValue2(structField, typeField, form, formfile, tag); err != nil {
 			return err
 		}
diff --git a/binding/mapping.go b/binding/mapping.go
index f444004..25c4a00 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -61,6 +61,19 @@ func tryToSetValue(value reflect.Value, field reflect.StructField, setter setter
 	return setter.TrySet(value, field, tagValue, setOpt)
 }
 
+// isHidden reports whether a field is embedded by an unexported type and holds no struct:
+// then nothing in it can be set
+func isHidden(value reflect.Value, field reflect.StructField) bool {
+	if field.PkgPath == "" {
+		return false
+	}
+	if value.Kind() == reflect.Ptr {
+		value = value.Elem()
+	}
+
+	return value.Kind() != reflect.Struct
+}
+
 func mapping(value reflect.Value, field reflect.StructField, setter setter, tag string) (bool, error) {
 	if field.Tag.Get(tag) == "-" { // just ignoring this field
 		return false, nil
@@ -104,6 +117,9 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 			if sf.PkgPath != "" && !sf.Anonymous { // unexported
 				continue
 			}
+			if isHidden(value.Field(i), sf) {
+				continue
+			}
 			ok, err := mapping(value.Field(i), tValue.Field(i), setter, tag)
 			if err != nil {
 				return false, err
-- 
2.43.0


From a6240adb23214c14df5b41beb57ee77a098c0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:06 +0000
Subject: [PATCH 44/47] fix: the 500 of Recovery() kept a Content-Length
 declared before the panic, clients got a cut answer

---
 m_recovery.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m_recovery.go b/m_recovery.go
index 5c618a6..2fe4d0d 100644
--- a/m_recovery.go
+++ b/m_recovery.go
@@ -29,6 +29,7 @@ func Recovery() HandlerFunc {
 				}
 
 				if !ctx.written {
+					ctx.Header().Del("Content-Length") // of the body that will not come
 					ctx.WriteHeader(http.StatusInternalServerError)
 				}
 
-- 
2.43.0


From 17bc59742db310798a49c23da66f37360bfd4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 45/47] fix: --tags extended: the context did not know of a
 response started by Flush() or taken over by Hijack()

---
 response_advanced.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/response_advanced.go b/response_advanced.go
index 472b4d4..12f74a7 100644
--- a/response_advanced.go
+++ b/response_advanced.go
@@ -3,6 +3,8 @@
 package water
 
 import (
+	"bufio"
+	"net"
 	"net/http"
 )
 
@@ -12,3 +14,20 @@ type ResponseWriter interface {
 	http.Flusher
 	http.Hijacker
 }
+
+// Flush sends what was written so far and so starts the response.
+func (ctx *Context) Flush() {
+	if !ctx.written {
+		ctx.WriteHeader(http.StatusOK)
+	}
+	ctx.ResponseWriter.Flush()
+}
+
+// Hijack gives the connection to the caller, nobody else answers the request then.
+func (ctx *Context) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	c, rw, err := ctx.ResponseWriter.Hijack()
+	if err == nil {
+		ctx.written = true
+	}
+	return c, rw, err
+}
-- 
2.43.0


From 41d238464896384a8c112be5e2d282b67f0640fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:12 +0000
Subject: [PATCH 46/47] fix: --tags extended: requests over HTTP/2 panicked in
 ServeHTTP(), their writers can't be hijacked

---
 engine.go            |  2 +-
 response.go          |  4 ++++
 response_advanced.go | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 09cf552..63c77f4 100644
--- a/engine.go
+++ b/engine.go
@@ -101,7 +101,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	ctx := e.ctxPool.Get().(*Context)
 	ctx.reset()
 
-	ctx.ResponseWriter = rw.(ResponseWriter)
+	ctx.ResponseWriter = asResponseWriter(rw)
 	ctx.Request = req
 	ctx.maxMultipartMemory = e.options.MaxMultipartMemory
 
diff --git a/response.go b/response.go
index ee70fb7..735f7e3 100644
--- a/response.go
+++ b/response.go
@@ -12,3 +12,7 @@ type ResponseWriter interface {
 	//http.Flusher
 	//http.Hijacker
 }
+
+func asResponseWriter(rw http.ResponseWriter) ResponseWriter {
+	return rw
+}
diff --git a/response_advanced.go b/response_advanced.go
index 12f74a7..be57423 100644
--- a/response_advanced.go
+++ b/response_advanced.go
@@ -31,3 +31,35 @@ func (ctx *Context) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 	}
 	return c, rw, err
 }
+
+func asResponseWriter(rw http.ResponseWriter) ResponseWriter {
+	if w, ok := rw.(ResponseWriter); ok {
+		return w
+	}
+	return partialWriter{rw}
+}
+
+// partialWriter is for writers that can't do everything, such as those of HTTP/2.
+type partialWriter struct {
+	http.ResponseWriter
+}
+
+func (w partialWriter) Flush() {
+	if f, ok := w.ResponseWriter.(http.Flusher); ok {
+		f.Flush()
+	}
+}
+
+func (w partialWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	if h, ok := w.ResponseWriter.(http.Hijacker); ok {
+		return h.Hijack()
+	}
+	return nil, nil, http.ErrNotSupported
+}
+
+func (w partialWriter) CloseNotify() <-chan bool {
+	if n, ok := w.ResponseWriter.(http.CloseNotifier); ok {
+		return n.CloseNotify()
+	}
+	return make(chan bool, 1)
+}
-- 
2.43.0


From a7e3f5676fdf2be332b998937aa369e167c276ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:28 +0000
Subject: [PATCH 47/47] fix: HandlerName() panicked (or was empty) when the
 last handler is no function

---
 util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 5dbb094..4fe8513 100644
--- a/util.go
+++ b/util.go
@@ -109,7 +109,11 @@ func filterFlags(content string) string {
 }
 
 func nameOfFunction(f interface{}) string {
-	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
+	v := reflect.ValueOf(f)
+	if v.Kind() != reflect.Func { // a Handler of another type
+		return v.Type().String()
+	}
+	return runtime.FuncForPC(v.Pointer()).Name()
 }
 
 // GenerateETag generates an ETag based on file modification time and size
-- 
2.43.0

