# (name, file, old, new, properties whose check must notice)
MUTANTS = [
 ("run-no-cut", "context.go", "if ctx.written { // index", "if false { // index", ["C02"]),
 ("run-index-early", "context.go", "		if ctx.written { // index stays", "		ctx.index += 1\n		if ctx.written { // index stays", ["C02"]),
 ("next-cut", "context.go", "	ctx.index += 1\n	ctx.run()", "	ctx.index += 1\n	if !ctx.written {\n		ctx.run()\n	}", ["C02"]),
 ("next-one", "context.go", "	ctx.index += 1\n	ctx.run()", "	ctx.index += 1\n	if ctx.index < ctx.handlersLength { ctx.handlers[ctx.index].ServeHTTP(ctx) }", ["C02"]),
 ("chain-256", "context.go", "ctx.index < ctx.handlersLength", "ctx.index < ctx.handlersLength && ctx.index < 128", ["C02"]),
 ("std-no-ctx", "engine.go", "h.ServeHTTP(ctx, ctx.Request)", "h.ServeHTTP(ctx, ctx.Request); ctx.Next()", ["C02"]),
 ("stdfunc-skip", "engine.go", "h(ctx, ctx.Request)", "h(ctx, ctx.Request); ctx.index++", ["C02"]),
 ("wh-twice", "context.go", 'logx.Warn("water: multiple ctx.WriteHeader calls")', 'logx.Warn(1); ctx.ResponseWriter.WriteHeader(code)', ["S01"]),
 ("wh-status-last", "context.go", 'logx.Warn("water: multiple ctx.WriteHeader calls")', 'logx.Warn(1); ctx.status = code', ["S01"]),
 ("write-no-status", "context.go", "ctx.WriteHeader(http.StatusOK)", "ctx.written = true", ["S01"]),
 ("write-empty", "context.go", "	if !ctx.written {\n		header", "	if !ctx.written && len(data) > 0 {\n		header", ["S01"]),
 ("file-direct", "content.go", "http.ServeFile(ctx, ctx.Request, filepath)", "http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)", ["S01"]),
 ("redirect-direct", "content.go", "http.Redirect(ctx, ctx.Request, uri, http.StatusFound)", "http.Redirect(ctx.ResponseWriter, ctx.Request, uri, http.StatusFound)", ["S01"]),
 ("rec-nowrite", "m_recovery.go", "if !ctx.written {\n					ctx.WriteHeader(http.StatusOK)", "if false {\n					ctx.WriteHeader(http.StatusOK)", ["S03"]),
 ("rec-leak", "m_recovery.go", "if Status != Stable", "if Status != \"\"", ["S03"]),
 ("rec-noleak", "m_recovery.go", "if Status != Stable", "if Status == \"x\"", ["S03"]),
 ("rec-abort", "m_recovery.go", "err := recover(); err != nil {", "err := recover(); err != nil {\n				if err == http.ErrAbortHandler {\n					panic(err)\n				}", ["S03"]),
 ("rec-503", "m_recovery.go", "ctx.WriteHeader(http.StatusInternalServerError)", "ctx.WriteHeader(503)", ["S03"]),
 ("rec-next", "m_recovery.go", "logx.Errorf(\"panic", "ctx.Next(); logx.Errorf(\"panic", ["S03"]),
 ("rec-errstr", "m_recovery.go", 'content := fmt.Sprintf("HandlerFunc crashed with error: %v", err)', 'msg := ""\n				if e, ok := err.(error); ok {\n					msg = e.Error()\n				} else {\n					msg = fmt.Sprint(err)\n				}\n				content := fmt.Sprintf("HandlerFunc crashed with error: %v", msg)', ["S03"]),
 ("env-share", "engine.go", "	ctx.Environ = make(Environ)", "	if ctx.Environ == nil {\n		ctx.Environ = make(Environ)\n	}", ["E01"]),
 ("env-get-nil", "environ.go", "if value, exists := c.Environ[name]; exists {", "if value := c.Environ[name]; value != nil {", ["E01"]),
 ("env-set-nil", "environ.go", "if c.Environ.Has(name) {", "if c.Environ[name] != nil {", ["E01"]),
 ("env-has", "environ.go", "_, ok := m[name]\n	return ok", "return m[name] != nil", ["E01"]),
 ("env-typed", "environ.go", "return m[name].(uint64)", "v, _ := m[name].(uint64)\n	return v", ["E01"]),
 ("env-typed2", "environ.go", "return m[name].(int64)", "if v, ok := m[name].(int); ok {\n		return int64(v)\n	}\n	return m[name].(int64)", ["E01"]),
 ("env-overwrite", "environ.go", 'panic("double Environ: " + name)\n	} else {\n		c.Env', 'c.Environ[name] = value\n		panic("double Environ: " + name)\n	} else {\n		c.Env', ["E01"]),
 ("cors-prefix", "m_cors.go", 'o == origin {', '(o != "" && strings.HasPrefix(origin, o)) {', ["M01"]),
 ("cors-fold", "m_cors.go", 'o == origin {', 'strings.EqualFold(o, origin) {', ["M01"]),
 ("cors-last", "m_cors.go", 'allowOrigin = o\n				break', 'allowOrigin = o', ["M01"]),
 ("cors-sticky", "m_cors.go", '	return func(ctx *Context) {\n		req := ctx.Request', '	allowOrigin := ""\n	return func(ctx *Context) {\n		req := ctx.Request\n		_ = allowOrigin', []),
 ("cors-star-cred", "m_cors.go", 'allowOrigin = o\n', 'allowOrigin = o\n				if config.AllowCredentials { allowOrigin = origin }\n', ["M01"]),
 ("cors-vary-set", "m_cors.go", 'res.Header().Add(HeaderVary, HeaderOrigin)\n			res', 'res.Header().Set(HeaderVary, HeaderOrigin)\n			res', ["M01"]),
 ("cors-next", "m_cors.go", 'ctx.WriteHeader(http.StatusNoContent)', 'ctx.WriteHeader(http.StatusNoContent); ctx.Next()', ["M01"]),
 ("cors-acrm", "m_cors.go", 'if req.Method != http.MethodOptions {', 'if req.Method != http.MethodOptions || origin == "" {', ["M01"]),
 ("cors-hdr-sticky", "m_cors.go", 'res.Header().Set(HeaderAccessControlAllowHeaders, h)', 'allowHeaders = h; res.Header().Set(HeaderAccessControlAllowHeaders, h)', ["M01"]),
 ("q-default-empty", "query.go", 'if !ctx.queryExist(name) {\n		return defaultValue', 'if !ctx.queryExist(name) || ctx.Request.Form.Get(name) == "" {\n		return defaultValue', ["Q01"]),
 ("q-arr-trim", "query.go", 'tmp[i] = strings.TrimSpace(vs[i])', 'tmp[i] = vs[i]', ["Q01"]),
 ("q-map-first", "query.go", 'dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])', 'dicts[k[i+1:][:j]] = strings.TrimSpace(v[len(v)-1])', ["Q01"]),
 ("q-map-empty", "query.go", "j := strings.IndexByte(k[i+1:], ']'); j >= 1", "j := strings.IndexByte(k[i+1:], ']'); j >= 0", ["Q01"]),
 ("q-int32", "query.go", "v, _ := strconv.ParseInt(ctx.Query(name), 10, 64)", "v, _ := strconv.ParseInt(ctx.Query(name), 10, 32)", ["Q01"]),
 ("q-int-base0", "query.go", "v, _ := strconv.ParseInt(ctx.Query(name), 10, 64)", "v, _ := strconv.ParseInt(ctx.Query(name), 0, 64)", ["Q01"]),
 ("q-uint-int", "query.go", "v, _ := strconv.ParseUint(ctx.Query(name), 10, 64)\n	return v", "v, _ := strconv.ParseInt(ctx.Query(name), 10, 64)\n	return uint64(v)", ["Q01"]),
 ("q-postform", "query.go", "strings.TrimSpace(ctx.Request.Form.Get(name))", "strings.TrimSpace(ctx.Request.URL.Query().Get(name))", ["Q01"]),
 ("q-patch", "content.go", "ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&", "ctx.Request.Method == http.MethodPut) &&", ["Q01"]),
 ("q-trimmed-default-arr", "query.go", "	if !ok {\n		return defaultValue", "	if !ok || len(vs) == 1 && vs[0] == \"\" {\n		return defaultValue", ["Q01"]),
 ("q-parsed-sticky", "context.go", "	ctx.parsedParams = false", "", ["Q01"]),
 ("q-float32", "query.go", "strconv.ParseFloat(ctx.Query(name), 64)", "strconv.ParseFloat(ctx.Query(name), 32)", ["Q01"]),
 ("p-must-int32", "params.go", "return strconv.ParseInt(p.String(name), 10, 64)", "return strconv.ParseInt(p.String(name), 10, 32)", ["Q02"]),
 ("p-missing", "params.go", 'panic("Params not exist: " + name)', 'if name == "_" { return "" }; panic("Params not exist: " + name)', ["Q02"]),
 ("p-empty", "params.go", 'if v, ok := p[name]; ok {', 'if v := p[name]; v != "" {', ["Q02"]),
 ("p-bool", "params.go", 'return strconv.ParseBool(p.String(name))', 'return p.String(name) == "true", nil', ["Q02"]),
 ("p-uint", "params.go", 'return uint(v), err', 'return uint(uint32(v)), err', ["Q02"]),
 ("p-mustuint", "params.go", 'v, _ := p.Uint64(name)\n	return v', 'v, err := p.Uint64(name)\n	if err != nil { return 0 }\n	return v', ["Q02"]),
 ("k-secure", "cookie.go", 'template.HTMLEscapeString(ctx.Cookie(name))', 'template.JSEscapeString(ctx.Cookie(name))', ["Q03"]),
 ("k-path", "cookie.go", 'cookie.Path = "/"', 'cookie.Path = "/"; if len(others) == 0 { cookie.Path = "" }', ["Q03"]),
 ("k-age0", "cookie.go", 'cookie.MaxAge = v\n', 'if v > 0 { cookie.MaxAge = v }\n', ["Q03"]),
 ("k-int64", "cookie.go", 'return v\n}\n\nfunc (ctx *Context) CookieUint(', 'return int64(int32(v))\n}\n\nfunc (ctx *Context) CookieUint(', ["Q03"]),
 ("c-xff-last", "util.go", "return ips[0]", "return ips[len(ips)-1]", ["Q04"]),
 ("c-realip-order", "util.go", 'if ip == "" {', 'if ips := requestProxy(req); ip == "" || len(ips) > 0 && ips[0] != "" {', ["Q04"]),
 ("c-port", "util.go", 'strings.LastIndex(ip, ":"); i > -1', 'strings.Index(ip, ":"); i > -1', ["Q04"]),
 ("c-proto-fold", "content.go", 'switch s := ctx.GetHeader(HeaderXForwardedProto); s {', 'switch s := strings.ToLower(ctx.GetHeader(HeaderXForwardedProto)); s {', ["Q04"]),
 ("c-ws", "content.go", 'strings.ToLower(ctx.Request.Header.Get("Upgrade")) == "websocket"', 'ctx.Request.Header.Get("Upgrade") == "websocket"', ["Q04"]),
 ("c-ct", "util.go", "char == ' ' || char == ';'", "char == ';'", ["Q04"]),
 ("i-written", "context.go", "	ctx.written = false\n	ctx.status = 0", "	ctx.status = 0", ["I01"]),
 ("i-status", "context.go", "	ctx.status = 0\n", "", ["I01"]),
 ("i-index", "context.go", "	ctx.index = 0\n", "", ["I01"]),
 ("i-endnode", "context.go", "	ctx.endNode = nil\n", "", ["I01"]),
 ("i-params", "context.go", "	ctx.Params = nil // the static route table sets none\n", "", ["I01"]),
 ("i-parsed", "context.go", "	ctx.parsedParams = false\n", "", ["I01"]),
 ("i-earlyput", "engine.go", "	ctx.run()\n\n	e.ctxPool.Put(ctx)", "	e.ctxPool.Put(ctx)\n	ctx.run()", ["I02"]),
 ("i-doubleput", "engine.go", "	ctx.run()\n\n	e.ctxPool.Put(ctx)", "	ctx.run()\n	if ctx.status == 201 { e.ctxPool.Put(ctx) }\n	e.ctxPool.Put(ctx)", ["I02"]),
 ("i-doubleput-panic", "engine.go", "	ctx.run()\n\n	e.ctxPool.Put(ctx)", "	defer e.ctxPool.Put(ctx)\n	ctx.run()\n	if ctx.status == 500 { e.ctxPool.Put(ctx) }", ["I02"]),
 ("i-cors-shared", "m_cors.go", '	return func(ctx *Context) {\n		req := ctx.Request\n		res := ctx.ResponseWriter\n		origin := req.Header.Get(HeaderOrigin)\n		allowOrigin := ""', '	var allowOrigin string\n	return func(ctx *Context) {\n		req := ctx.Request\n		res := ctx.ResponseWriter\n		origin := req.Header.Get(HeaderOrigin)\n		allowOrigin = ""', ["I02"]),
 ("i-tree-cache", "tree.go", 'func (n *node) Match(uri string) (*node, Params) {', 'var lastUri string\nvar lastNode *node\n\nfunc (n *node) Match(uri string) (*node, Params) {\n	lastUri = uri', ["I02"]),
 ("i-static-lazy", "engine.go", 'ctx.endNode = e.routersStatic[index][req.URL.Path]', 'if e.routersStatic[index] == nil { e.routersStatic[index] = map[string]*node{} }\n		ctx.endNode = e.routersStatic[index][req.URL.Path]', ["I02"]),
 ("i-envclear", "engine.go", "	ctx.Environ = make(Environ)", "	if ctx.Environ == nil || len(ctx.Environ) < 2 { ctx.Environ = make(Environ) }", ["I01"]),
 ("i-handlers-len", "engine.go", "	ctx.handlersLength = len(ctx.handlers)", "	if n := len(ctx.handlers); n > ctx.handlersLength { ctx.handlersLength = n }", ["I01"]),
 ("st-open-raw", "m_static.go", 'f, err := opt.FileSystem.Open(ctx.Param("*0"))', 'f, err := opt.FileSystem.Open(strings.TrimPrefix(ctx.Request.URL.Path, opt.Prefix))', ["M02"]),
 ("st-url-unescape", "m_static.go", 'f, err := opt.FileSystem.Open(ctx.Param("*0"))', 'name := ctx.Param("*0")\n		if n, err := url.PathUnescape(name); err == nil {\n			name = n\n		}\n		f, err := opt.FileSystem.Open(name)', ["M02"]),
 ("st-loc-unclean", "m_static.go", 'redirPath := path.Clean(ctx.Request.URL.Path)', 'redirPath := ctx.Request.URL.Path', ["M02"]),
 ("st-loc-raw", "m_static.go", '(&url.URL{Path: redirPath + "/"}).EscapedPath()', 'redirPath + "/"', ["M02"]),
 ("st-index-root", "m_static.go", 'path.Join(ctx.Param("*0"), opt.IndexFile)', 'opt.IndexFile', ["M02"]),
 ("st-index-dir", "m_static.go", 'if err != nil || fi.IsDir() {', 'if err != nil {', ["M02"]),
 ("st-no-redirect", "m_static.go", 'if !strings.HasSuffix(redirPath, "/") {', 'if !strings.HasSuffix(redirPath, "/") && !opt.hasIndex {', ["M02"]),
 ("st-head", "m_static.go", "	r.HEAD(filepath.Join(opt.Prefix, \"/*\"), h)", "", ["M02"]),
 ("st-served-raw", "m_static.go", 'req.URL = &url.URL{Path: "/" + ctx.Param("*0") + "/"}', 'req.URL = &url.URL{Path: strings.TrimPrefix(ctx.Request.URL.Path, opt.Prefix)}', ["M02"]),
 ("st-inm-prefix", "m_static.go", 'if ctx.Request.Header.Get("If-None-Match") == tag {', 'if strings.HasPrefix(tag, ctx.Request.Header.Get("If-None-Match")) && ctx.Request.Header.Get("If-None-Match") != "" {', ["M03"]),
 ("st-inm-contains", "m_static.go", 'if ctx.Request.Header.Get("If-None-Match") == tag {', 'if strings.Contains(ctx.Request.Header.Get("If-None-Match"), tag) {', ["M03"]),
 ("st-expires-late", "m_static.go", 'ctx.Header().Set("Expires", opt.Expires())', 'if !fi.IsDir() { ctx.Header().Set("Expires", opt.Expires()) }', ["M03"]),
 ("st-expires-once", "m_static.go", '	h := func(ctx *Context) {\n		f, err', '	exp := ""\n	if opt.Expires != nil {\n		exp = opt.Expires()\n		opt.Expires = func() string { return exp }\n	}\n	h := func(ctx *Context) {\n		f, err', ["M03"]),
 ("st-etag-sent-late", "m_static.go", '			ctx.Header().Set("ETag", tag)\n			if ctx.Request.Header.Get("If-None-Match") == tag {\n				ctx.WriteHeader(http.StatusNotModified)\n				return\n			}\n', '			if ctx.Request.Header.Get("If-None-Match") == tag {\n				ctx.WriteHeader(http.StatusNotModified)\n				return\n			}\n			ctx.Header().Set("ETag", tag)\n', ["M03"]),
 ("st-tag-cache", "util.go", 'func GenerateETag(lastModified time.Time, size int64) string {', 'var etagMemo = map[int64]string{}\n\nfunc GenerateETag(lastModified time.Time, size int64) (tag string) {\n	if t, ok := etagMemo[size]; ok {\n		return t\n	}\n	defer func() { etagMemo[size] = tag }()', ["M03"]),
 ("st-tag-size", "util.go", 'return fmt.Sprintf("%x-%x", lastModified.Unix(), size)', 'return fmt.Sprintf("%x", lastModified.Unix()+size)', ["M03"]),
 ("st-tag2-glue", "util.go", 'return fmt.Sprintf("%x-%x-%x", lastModified.Unix(), size, fileName)', 'return fmt.Sprintf("%x-%x%x", lastModified.Unix(), size, fileName)', ["M03"]),
 ("st-tag2-len", "util.go", 'size, fileName)', 'size, len(fileName))', ["M03"]),
 ("rs-string-order", "content.go", "	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)\n	ctx.WriteHeader(code)", "	ctx.WriteHeader(code)\n	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)", ["S02"]),
 ("rs-html-plain", "content.go", "	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)\n	ctx.WriteHeader(code)\n	ctx.Write([]byte(str))", "	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)\n	ctx.WriteHeader(code)\n	if str != \"\" && code != 404 {\n		ctx.Write([]byte(str))\n	}", ["S02"]),
 ("rs-data-sniff", "content.go", "	ctx.Header().Set(HeaderContentType, contentType)\n	ctx.WriteHeader(code)", "	if ctx.Header().Get(HeaderContentType) == \"\" {\n		ctx.Header().Set(HeaderContentType, contentType)\n	}\n	ctx.WriteHeader(code)", ["S02"]),
 ("rs-json-200", "content.go", "	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)\n	ctx.WriteHeader(code)", "	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)\n	if code >= 600 {\n		code = 500\n	}\n	ctx.WriteHeader(code)", ["S02"]),
 ("rs-json-nohtml", "util.go", "json = jsoniter.ConfigCompatibleWithStandardLibrary", "json = jsoniter.ConfigFastest", ["S02"]),
 ("rs-json-err", "content.go", "	err := json.NewEncoder(ctx).Encode(v)\n	if err != nil {\n		logx.Warn(err)\n	}\n	return err", "	err := json.NewEncoder(ctx).Encode(v)\n	if err != nil {\n		logx.Warn(err)\n	}\n	return nil", ["S02"]),
 ("rs-stream-type", "content.go", "	ctx.Header().Set(HeaderContentType, contentType)\n\n	_, err := io.Copy(ctx, r)", "	if ctx.Request.Method != http.MethodHead {\n		ctx.Header().Set(HeaderContentType, contentType)\n	}\n\n	_, err := io.Copy(ctx, r)", ["S02"]),
 ("rs-stream-limit", "content.go", "	_, err := io.Copy(ctx, r)\n", "	_, err := io.Copy(ctx, io.LimitReader(r, 32<<10))\n", ["S02"]),
 ("rs-stream-err", "content.go", "	_, err := io.Copy(ctx, r)\n\n	return err", "	_, err := io.Copy(ctx, r)\n	if err != nil {\n		logx.Warn(err)\n	}\n\n	return nil", ["S02"]),
 ("rs-moved-302", "content.go", "http.StatusMovedPermanently)", "http.StatusPermanentRedirect)", ["S02"]),
 ("rs-401", "content.go", "ctx.Abort(http.StatusUnauthorized)", "ctx.Abort(http.StatusForbidden)", ["S02"]),
 ("rs-sniff-always", "context.go", 'if len(data) > 0 && header.Get("Content-Type") == "" {', 'if len(data) > 0 {', ["S02"]),
 ("rs-sniff-late", "context.go", 'http.DetectContentType(data)', '"text/plain; charset=utf-8"', ["S02"]),
 ("rs-html-set", "render.go", "	ctx.renderHTML(code, setName, tplName, data)", "	ctx.renderHTML(code, DEFAULT_TPL_SET_NAME, tplName, data)", ["S02"]),
 ("rs-nocache", "content.go", 'ctx.Header().Set("Expires", "0")                                                          // Proxies.', '', ["S02"]),
 ("dl-noescape", "util.go", "dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))", "dispositionType, fileName, url.PathEscape(fileName))", ["D01"]),
 ("dl-query", "util.go", "dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))", "dispositionType, url.PathEscape(fileName), url.QueryEscape(fileName))", ["D01"]),
 ("dl-inline", "content.go", "	if len(inline) > 0 && inline[0] {\n		dispositionType = \"inline\"\n	}\n\n	ctx.Header().Set(\"Content-Description\"", "	if len(inline) > 0 {\n		dispositionType = \"inline\"\n	}\n\n	ctx.Header().Set(\"Content-Description\"", ["D01"]),
 ("dl-dir", "content.go", '	if fi.IsDir() {\n		return errors.New("This is Dir.")\n	}', '', ["D01"]),
 ("dl-label-early", "content.go", "func (ctx *Context) Download(fpath string, inline ...bool) error {\n", "func (ctx *Context) Download(fpath string, inline ...bool) error {\n	ctx.Header().Set(\"Content-Description\", \"File Transfer\")\n", ["D01"]),
 ("dl-copy", "content.go", "	http.ServeContent(ctx, ctx.Request, fi.Name(), fi.ModTime(), f)\n", "	_, err = io.Copy(ctx, f)\n	if err != nil {\n		return err\n	}\n", ["D01"]),
 ("dl-modtime", "content.go", "	http.ServeContent(ctx, ctx.Request, fi.Name(), fi.ModTime(), f)\n", "	http.ServeContent(ctx, ctx.Request, fi.Name(), time.Time{}, f)\n", ["D01"]),
 ("dl-empty-name", "util.go", '	if fileName == "" {\n		return dispositionType\n	}\n\n	return', '	return', ["D01"]),
 ("dl-base", "content.go", "contentDisposition(name, dispositionType))", "contentDisposition(name[strings.LastIndex(name, \"/\")+1:], dispositionType))", ["D01"]),
 # ---- logger
 ("lg-close", "m_logger.go", "io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body)", "bytes.NewReader(requestbody)", ["S04"]),
 ("lg-all-err", "m_logger.go", "requestbody, _ := ioutil.ReadAll(safe)", "requestbody, err := ioutil.ReadAll(safe)\n			if err != nil {\n				ctx.Abort(400)\n				return\n			}", ["S04"]),
 ("lg-limit", "m_logger.go", "io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body)", "io.MultiReader(bytes.NewReader(requestbody), io.LimitReader(ctx.Request.Body, 1<<20))", ["S04"]),
 ("lg-early", "m_logger.go", "		ctx.Next()\n\n		status := ctx.status", "		status := ctx.status\n		ctx.Next()\n", ["S04"]),
 ("lg-url", "m_logger.go", "ctx.Request.URL.String()", "ctx.Request.URL.Path", ["S04"]),
 ("lg-ip", "m_logger.go", "ctx.RealIp()", "ctx.Request.RemoteAddr", ["S04"]),
 ("lg-nilbody", "m_logger.go", "ctx.Request.Body != nil && strings", "strings", ["S04"]),
 ("lg-method", "m_logger.go", "			ctx.Request.Method,\n", '			strings.ToLower(ctx.Request.Method),\n', ["S04"]),
 ("lg-skip", "m_logger.go", "		// Layout", "		if status == http.StatusNotModified {\n			return\n		}\n		// Layout", ["S04"]),
 ("lg-zero", "m_logger.go", "status = http.StatusOK //", "status = 0 //", ["S04"]),
 ("lg-closed", "m_logger.go", "			ctx.Next() // as", "			// as", ["S04"]),
 ("lg-defer", "m_logger.go", "		ctx.Next()\n\n		status", "		func() {\n			defer func() { recover() }()\n			ctx.Next()\n		}()\n\n		status", ["S04"]),
 ("lg-consume", "m_logger.go", "			// body may be", "			if len(requestbody) == 0 {\n				ctx.Request.Body = http.NoBody\n				requestbody = append(requestbody, 32)\n			}\n			// body may be", ["S04"]),
 ('b-nil-time', 'binding/map_form.go', ' && typeField.Type.Elem() != timeType {\n\t\t\t\tif', '  {\n\t\t\t\tif', ['B02']),
 ('b-preset-ptr', 'binding/map_form.go', '\t\t\t\tif structField.IsNil() {\n\t\t\t\t\tstructField.Set(reflect.New(typeField.Type.Elem()))\n\t\t\t\t}\n\n\t\t\t\tstructField = structField.Elem()', '\t\t\t\tif structField.IsNil() {\n\t\t\t\t\tstructField.Set(reflect.New(typeField.Type.Elem()))\n\t\t\t\t\tstructField = structField.Elem()\n\t\t\t\t}\n', ['B02']),
 ('b-dash', 'binding/map_form.go', 'name == "-" { // ignored', 'false && name == "-" { // ignored', ['B02']),
 ('b-unix-empty', 'binding/mapping.go', 'func setTimeField2(val string, opt *setOptions, value reflect.Value) error {', 'func setTimeField2(val string, opt *setOptions, value reflect.Value) error {\n\tif val == "" && opt.timeFormat != "" && opt.timeFormat[0] == 117 {\n\t\treturn errUnknownType\n\t}', ['B02']),
 ('b-file-text', 'binding/map_form.go', 'existValue && !isFile {', 'existValue && (!isFile || true) {', ['B04']),
 ('b-panic', 'content.go', 'if err := ctx.parseFormOrMultipartForm(); err != nil {\n\t\t\treturn err\n\t\t}', 'ctx.ParseFormOrMultipartForm()', ['B01']),
 ('b-query-parses', 'content.go', 'case binding.JSON, binding.XML, binding.Query, binding.Header:', 'case binding.JSON, binding.XML:', ['B01']),
 ('b-get-json', 'binding/binding.go', 'if method == http.MethodGet {', 'if method == http.MethodGet && contentType != MIMEJSON {', ['B01']),
 ('b-patch-multi', 'binding/binding.go', 'method == http.MethodPut || method == http.MethodPatch) &&', 'method == http.MethodPut) &&', ['B01']),
 ('b-textxml', 'binding/binding.go', 'case MIMEXML, MIMEXML2:', 'case MIMEXML:', ['B01']),
 ('b-head-form', 'binding/binding.go', 'if method == http.MethodGet {', 'if method == http.MethodGet || method == http.MethodHead {', ['B01']),
 ('b-delete-form', 'binding/binding.go', 'if method == http.MethodGet {', 'if method == http.MethodGet || method == http.MethodDelete {', ['B01']),
 ('b-put-form', 'content.go', 'if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&', 'if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPatch) &&', ['B01']),
 ('b-json-noval', 'binding/json.go', 'return validate(obj)', 'return nil', ['B03']),
 ('b-xml-noval', 'binding/xml.go', 'return validate(obj)', 'return nil', ['B03']),
 ('b-header-noval', 'binding/header.go', '\tif err := MapForm(obj, req.Header, nil, "header"); err != nil {\n\t\treturn err\n\t}\n\n\treturn validate(obj)', '\treturn MapForm(obj, req.Header, nil, "header")', ['B03']),
 ('b-val-first', 'binding/validator.go', '\t\t\tif err := v.ValidateStruct(value.Index(i).Interface()); err != nil {\n\t\t\t\tvalidateRet = append(validateRet, err)\n\t\t\t}\n', '\t\t\tif err := v.ValidateStruct(value.Index(i).Interface()); err != nil {\n\t\t\t\tvalidateRet = append(validateRet, err)\n\t\t\t}\n\t\t\tif i == 1 {\n\t\t\t\tbreak\n\t\t\t}\n', ['B03']),
 ('b-val-nilok', 'binding/validator.go', '\t\tif value.IsNil() {\n\t\t\treturn fmt.Errorf("nil obj")\n\t\t}\n\t\treturn v.Validate', '\t\tif value.IsNil() {\n\t\t\treturn nil\n\t\t}\n\t\treturn v.Validate', ['B03']),
 ('b-int32', 'binding/map_form.go', 'strconv.ParseInt(val, 10, structField.Type().Bits())', 'strconv.ParseInt(val, 10, 64)', ['B02']),
 ('b-uint', 'binding/map_form.go', 'strconv.ParseUint(val, 10, structField.Type().Bits())', 'strconv.ParseUint(val, 10, 64)', ['B02']),
 ('b-f32', 'binding/map_form.go', 'strconv.ParseFloat(val, 32)', 'strconv.ParseFloat(val, 64)', ['B02']),
 ('b-int-trim', 'binding/map_form.go', 'intVal, err := strconv.ParseInt(val, 10', 'intVal, err := strconv.ParseInt(val, 0', ['B02']),
 ('b-default-empty', 'binding/map_form.go', 'if !existValue && bOpt.defaultValue != ""', 'if (!existValue || inputValue[0] == "") && bOpt.defaultValue != ""', ['B02']),
 ('b-slice-append', 'binding/map_form.go', '\t\tvalue.Set(slice)\n\t\t} else {\n\t\t\terr =', '\t\tvalue.Set(reflect.AppendSlice(value, slice))\n\t\t} else {\n\t\t\terr =', ['B02']),
 ('b-slice-err', 'binding/map_form.go', 'if err = setWithProperType2(typeField, bOpt, sliceOf, inputValue[i], slice.Index(i), bName); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}', 'if err = setWithProperType2(typeField, bOpt, sliceOf, inputValue[i], slice.Index(i), bName); err != nil && i == 0 {\n\t\t\t\t\treturn err\n\t\t\t\t}', ['B02']),
 ('b-nested-err', 'binding/map_form.go', 'if err := _mapForm(structField, form, formfile, tag); err != nil {\n\t\t\t\treturn err\n\t\t\t}', 'if err := _mapForm(structField, form, formfile, tag); err != nil && !typeField.Anonymous {\n\t\t\t\treturn err\n\t\t\t}', ['B02']),
 ('b-nocanon', 'binding/map_form.go', 'if tag == "header" && name != "-" {', 'if false {', ['B02']),
 ('b-unexp', 'binding/map_form.go', 'if typeField.PkgPath != "" && !typeField.Anonymous { // unexported\n\t\t\tcontinue\n\t\t}\n', '', ['B02']),
 ('b-utc', 'binding/mapping.go', 'isUTC, _ := strconv.ParseBool(opt.timeUtc); isUTC', 'isUTC, _ := strconv.ParseBool(opt.timeUtc); isUTC && val == ""', ['B02']),
 ('b-loc', 'binding/mapping.go', 'if locTag := opt.timeLocation; locTag != "" {\n\t\tloc, err := time.LoadLocation(locTag)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tl = loc', 'if locTag := opt.timeLocation; locTag != "" {\n\t\tif loc, err := time.LoadLocation(locTag); err == nil {\n\t\t\tl = loc\n\t\t}', ['B02']),
 ('b-nano', 'binding/mapping.go', 'func setTimeField2(val string, opt *setOptions, value reflect.Value) error {\n', 'func setTimeField2(val string, opt *setOptions, value reflect.Value) error {\n\tif strings.EqualFold(opt.timeFormat, "unixnano") {\n\t\tif n, err := strconv.ParseInt(val, 10, 64); err == nil {\n\t\t\tvalue.Set(reflect.ValueOf(time.Unix(n/1000000000, n%1000000000/1000*1000)))\n\t\t\treturn nil\n\t\t}\n\t}\n', ['B02']),
 ('b-file-last', 'binding/map_form.go', 'value.Set(reflect.ValueOf(inputFile[0]))', 'value.Set(reflect.ValueOf(inputFile[len(inputFile)-1]))', ['B04']),
 ('b-file-noerr', 'binding/map_form.go', 'return fmt.Errorf("%s can\'t mapping to multipart.FileHeader", bName)', 'return nil', ['B04']),
 ('b-file-one', 'binding/map_form.go', 'value.Kind() == reflect.Slice && num > 0 && value', 'value.Kind() == reflect.Slice && num > 1 && value', ['B04']),
 ('b-save-trunc', 'content.go', 'os.O_WRONLY|os.O_CREATE|os.O_TRUNC', 'os.O_WRONLY|os.O_CREATE', ['B04']),
 ('b-save-limit', 'content.go', '\t_, err = io.Copy(f, src)\n\treturn err\n}', '\t_, err = io.CopyN(f, src, 65536)\n\tif err == io.EOF {\n\t\terr = nil\n\t}\n\treturn err\n}', ['B04']),
 ('b-save-base', 'content.go', '\tsrc, err := file.Open()', '\tif file.Size == 0 {\n\t\treturn errors.New("empty")\n\t}\n\tsrc, err := file.Open()', ['B04']),
 ('b-map-last', 'binding/mapping.go', '(*m)[k] = v[len(v)-1] // pick last', '(*m)[k] = v[0]', ['B01']),
 ('b-multi-form', 'binding/form.go', 'MapForm(obj, req.MultipartForm.Value, req', 'MapForm(obj, req.Form, req', ['B01']),
 ('b-swallow', 'content.go', 'return errors.New("parseMultipartForm error:" + err.Error())', 'return nil', ['B01']),
 ('g-alloc', 'binding/mapping.go', 'if isNew && isSetted {', 'if isNew {', ['B05']),
 ('g-noset', 'binding/mapping.go', '\t\t\tisSetted = isSetted || ok // multi field', '\t\t\tisSetted = ok', ['B05']),
 ('g-name', 'binding/mapping.go', '\tif tagValue == "" { // default value is FieldName\n\t\ttagValue = field.Name\n\t}', '\tif tagValue == "" { // default value is FieldName\n\t\ttagValue = strings.ToLower(field.Name)\n\t}', ['B05']),
 ('g-anon', 'binding/mapping.go', 'if vKind != reflect.Struct || !field.Anonymous {', 'if vKind != reflect.Struct || true {', ['B05']),
 ('g-dash', 'binding/mapping.go', '\tif field.Tag.Get(tag) == "-" { // just', '\tif field.Tag.Get(tag) == "-" && value.Kind() != reflect.Struct { // just', ['B05']),
 ('g-arr', 'binding/mapping.go', 'if len(vs) != value.Len() {', 'if len(vs) > value.Len() {', ['B05']),
 ('g-defarr', 'binding/mapping.go', '\tcase reflect.Array:\n\t\tif !ok {\n\t\t\tvs = []string{opt.defaultValue}\n\t\t}\n', '\tcase reflect.Array:\n\t\tif !ok {\n\t\t\treturn false, nil\n\t\t}\n', ['B05']),
 ('g-filefirst', 'binding/form.go', 'len(files) != 0 {', 'len(files) != 0 && len(m.Value[key]) == 0 {', ['B05']),
 ('g-hdr', 'binding/header.go', 'textproto.CanonicalMIMEHeaderKey(tagValue), opt', 'tagValue, opt', ['B05']),
 ('g-dur', 'binding/mapping.go', '\t\tcase time.Duration:\n\t\t\treturn setTimeDuration(val, value, field)\n', '\t\tcase time.Duration:\n\t\t\tif _, err := strconv.Atoi(val); err != nil {\n\t\t\t\treturn setTimeDuration(val, value, field)\n\t\t\t}\n', ['B05']),
 ('g-i8', 'binding/mapping.go', 'return setIntField(val, 8, value)', 'return setIntField(val, 64, value)', ['B05']),
 ('g-u32', 'binding/mapping.go', 'return setUintField(val, 32, value)', 'return setUintField(val, 64, value)', ['B05']),
 ('g-f32', 'binding/mapping.go', 'return setFloatField(val, 32, value)', 'return setFloatField(val, 64, value)', ['B05']),
 ('g-noval', 'binding/query.go', '\tif err := mapFormByTag(obj, req.URL.Query(), "form"); err != nil {\n\t\treturn err\n\t}\n\treturn validate(obj)', '\treturn mapFormByTag(obj, req.URL.Query(), "form")', ['B05']),
 ('g-uritag', 'binding/uri.go', 'mapFormByTag(obj, m, "uri")', 'mapFormByTag(obj, m, "form")', ['B05']),
 ('g-empty', 'binding/mapping.go', '\t\tif len(vs) > 0 {\n\t\t\tval = vs[0]\n\t\t}\n\t\treturn', '\t\tif len(vs) > 0 && vs[0] != "" {\n\t\t\tval = vs[0]\n\t\t} else if opt.defaultValue != "" {\n\t\t\tval = opt.defaultValue\n\t\t}\n\t\treturn', ['B05']),
 ('g-last', 'binding/mapping.go', '\t\t\tval = vs[0]\n', '\t\t\tval = vs[len(vs)-1]\n', ['B05']),
 ('g-opts', 'binding/mapping.go', 'if k, v := head(opt, "="); k == "default" {', 'if k, v := head(opt, "="); k == "default" && v != "0" {', ['B05']),
 ('g-filesone', 'binding/mapping.go', '\tif value.Len() != len(files) {', '\tif value.Len() < len(files) {', ['B05']),
 ('g-overptr', 'binding/mapping.go', '\t\tif value.IsNil() {\n\t\t\tisNew = true', '\t\tif value.IsNil() || value.Type().Elem().Kind() == reflect.Struct {\n\t\t\tisNew = true', ['B05']),
 ('p-raw-count', 'router_print.go', 'return len(r.befores) + len(r.handlers) + countHandlersForRawRouter(r.parent)', 'return len(r.befores) + len(r.handlers)', ['P01']),
 ('p-raw-top', 'router_print.go', '\treturn len(r.befores) + len(r.handlers)\n}', '\treturn len(r.handlers)\n}', ['P01']),
 ('p-raw-leaf', 'router_print.go', '\t\t\tif len(nodes[i].sub) > 0 {\n\t\t\t\tprintRawRouter(nodes[i].sub, prefix+_PREFIX_LEAF)', '\t\t\tif len(nodes[i].sub) > 1 {\n\t\t\t\tprintRawRouter(nodes[i].sub, prefix+_PREFIX_LEAF)', ['P01']),
 ('p-raw-repl', 'router_print.go', 'func printRawRouter(nodes []*Router, prefix string) {\n\tif prefix != "" {\n\t\tprefix = strings.Replace(prefix, _PREFIX_LEAF, _PREFIX_EMP, -1)\n', 'func printRawRouter(nodes []*Router, prefix string) {\n\tif prefix != "" {\n\t\tprefix = strings.Replace(prefix, _PREFIX_LEAF, "  ", -1)\n', ['P01']),
 ('p-raw-trunk', 'router_print.go', 'printRawRouter(nodes[i].sub, prefix+_PREFIX_TRUNK)', 'printRawRouter(nodes[i].sub, prefix)', ['P01']),
 ('i-get-raw', 'content.go', 'return ctx.Request.Header.Get(key)', 'return strings.Join(ctx.Request.Header[key], "")', ['Q05']),
 ('i-get-join', 'content.go', 'return ctx.Request.Header.Get(key)', 'return strings.Join(ctx.Request.Header.Values(key), ",")', ['Q05']),
 ('i-get-trim', 'content.go', 'return ctx.Request.Header.Get(key)', 'return strings.ToLower(ctx.Request.Header.Get(key))', ['Q05']),
 ('i-set-add', 'content.go', 'ctx.Header().Set(key, value)\n}', 'ctx.Header().Add(key, value)\n}', ['Q05']),
 ('i-set-raw', 'content.go', 'ctx.Header().Set(key, value)\n}', 'ctx.Header()[key] = []string{value}\n}', ['Q05']),
 ('i-body-limit', 'content.go', 'ioutil.ReadAll(ctx.Request.Body)', 'ioutil.ReadAll(io.LimitReader(ctx.Request.Body, 1<<18))', ['Q05']),
 ('i-body-once', 'content.go', 'data, err := ioutil.ReadAll(ctx.Request.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}', 'data := make([]byte, ctx.Request.ContentLength+1)\n\tn, err := io.ReadFull(ctx.Request.Body, data)\n\tif err != nil && err != io.ErrUnexpectedEOF && err != io.EOF && ioutil.Discard != nil {\n\t\treturn nil, err\n\t}\n\tdata, err = data[:n], nil', ['Q05']),
 ('i-body-err', 'content.go', 'data, err := ioutil.ReadAll(ctx.Request.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}', 'data, err := ioutil.ReadAll(ctx.Request.Body)\n\tif err == io.ErrUnexpectedEOF {\n\t\terr = nil\n\t}\n\tif err != nil {\n\t\treturn nil, err\n\t}', ['Q05']),
 ('i-body-partial', 'content.go', 'data, err := ioutil.ReadAll(ctx.Request.Body)\n\tif err != nil {\n\t\treturn nil, err\n\t}', 'data, err := ioutil.ReadAll(ctx.Request.Body)\n\tif err != nil {\n\t\treturn data, err\n\t}', ['Q05']),
 ('i-body-shared', 'content.go', '// BodyBytes returns content of request body in bytes.\nfunc (ctx *Context) BodyBytes() ([]byte, error) {\n\tdata, err := ioutil.ReadAll(ctx.Request.Body)\n', 'var sharedBody = make([]byte, 1<<21)\n\nfunc (ctx *Context) BodyBytes() ([]byte, error) {\n\tvar err error\n\tn := 0\n\tfor err == nil {\n\t\tvar k int\n\t\tk, err = ctx.Request.Body.Read(sharedBody[n:])\n\t\tn += k\n\t}\n\tif err == io.EOF && ioutil.Discard != nil {\n\t\terr = nil\n\t}\n\tdata := sharedBody[:n]\n', ['Q05']),
 ('i-text-trim', 'content.go', 'return string(data), err', 'return strings.TrimRight(string(data), "\\x00\\n"), err', ['Q05']),
 ('n-default', 'util.go', 'return ":8080"', 'return ":80"', ['N01']),
 ('n-addrs', 'util.go', 'case 1:\n\t\treturn addr[0]\n\tdefault:\n\t\tpanic("too many addrs")', 'default:\n\t\treturn addr[0]', ['N01']),
 ('n-run-nil', 'engine.go', '\treturn http.ListenAndServe(wantAddr, e)', '\thttp.ListenAndServe(wantAddr, e)\n\treturn nil', ['N01']),
 ('n-tls-swap', 'engine.go', 'func (e *Engine) RunTLS(addr, certFile, keyFile string) error {\n\treturn http.ListenAndServeTLS(addr, certFile, keyFile, e)', 'func (e *Engine) RunTLS(addr, certFile, keyFile string) error {\n\treturn http.ListenAndServeTLS(addr, keyFile, certFile, e)', ['N01']),
 ('n-tls-plain', 'engine.go', 'func (e *Engine) ListenAndServeTLS(addr, certFile, keyFile string) error {\n\treturn http.ListenAndServeTLS(addr, certFile, keyFile, e)', 'func (e *Engine) ListenAndServeTLS(addr, certFile, keyFile string) error {\n\treturn http.ListenAndServe(addr, e)', ['N01']),
 ('n-mux', 'engine.go', 'func (e *Engine) ListenAndServe(addr string) error {\n\treturn http.ListenAndServe(addr, e)', 'func (e *Engine) ListenAndServe(addr string) error {\n\treturn http.ListenAndServe(addr, nil)', ['N01']),
 ('n-unwrap', 'engine.go', '\tctx.ResponseWriter = rw.(ResponseWriter)', '\tif c, ok := rw.(*Context); ok {\n\t\trw = c.ResponseWriter\n\t}\n\tctx.ResponseWriter = rw.(ResponseWriter)', ['N01']),
 ('n-reuse', 'engine.go', '\tctx := e.ctxPool.Get().(*Context)\n', '\tctx, nested := rw.(*Context)\n\tif !nested {\n\t\tctx = e.ctxPool.Get().(*Context)\n\t}\n', ['N01']),
 ('n-handler', 'engine.go', '\t\t\th.ServeHTTP(ctx, ctx.Request)', '\t\t\th.ServeHTTP(ctx.ResponseWriter, ctx.Request)', ['N01']),
 ('n-func', 'engine.go', '\t\t\th(ctx, ctx.Request)', '\t\t\th(ctx.ResponseWriter, ctx.Request)', ['N01']),
 ('n-paramskeep', 'engine.go', 'ctx.Environ = make(Environ)', 'if c, ok := rw.(*Context); ok {\n\t\tctx.Environ = c.Environ\n\t} else {\n\t\tctx.Environ = make(Environ)\n\t}', ['N01']),
 ('b-embed-scalar', 'binding/map_form.go', 'if structField.Kind() == reflect.Struct && structField.Type() != timeType {', 'if structField.Kind() == reflect.Struct && structField.Type() != timeType || typeField.Anonymous {', ['B02']),
 ('b-embed-ptr', 'binding/map_form.go', 'if typeField.Type.Elem().Kind() == reflect.Struct && typeField', 'if (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) && typeField', ['B02']),
 ('b-hidden', 'binding/map_form.go', 'if isHidden(structField, typeField) {', 'if isHidden(structField, typeField) && structField.Kind() != reflect.Ptr {', ['B02']),
 ('b-hidden-own', 'binding/map_form.go', 'if typeField.PkgPath != "" { // embedded and', 'if false { // embedded and', ['B02']),
 ('g-hidden', 'binding/mapping.go', 'if isHidden(value.Field(i), sf) {', 'if isHidden(value.Field(i), sf) && value.Field(i).Kind() == reflect.Ptr {', ['B05']),
 ('g-hidden2', 'binding/mapping.go', 'if isHidden(value.Field(i), sf) {', 'if isHidden(value.Field(i), sf) && value.Field(i).Kind() != reflect.Ptr {', ['B05']),
 ('g-hidden3', 'binding/mapping.go', '\tif value.Kind() == reflect.Ptr {\n\t\tvalue = value.Elem()\n\t}\n\n\treturn value', '\tif value.Kind() == reflect.Ptr {\n\t\treturn true\n\t}\n\n\treturn value', ['B05', 'B02']),
 ('rec-declared', 'm_recovery.go', 'ctx.Header().Del("Content-Length")', '_ = ctx.Header()', ['S03']),
]

# beyond the sizes that come to mind first
SCALE = [
 ("scale-path-256", "tree.go", '	uri = strings.TrimPrefix(uri, "/")\n	uri', '	if len(uri) > 256 {\n		return nil, nil\n	}\n	uri = strings.TrimPrefix(uri, "/")\n	uri', ["R01"]),
 ("scale-path-1024", "tree.go", '	uri = strings.TrimPrefix(uri, "/")\n	uri', '	if len(uri) > 1024 {\n		return nil, nil\n	}\n	uri = strings.TrimPrefix(uri, "/")\n	uri', ["R01"]),
 ("scale-depth-8", "tree.go", '	uri = strings.TrimPrefix(uri, "/")\n	uri', '	if strings.Count(uri, "/") > 8 {\n		return nil, nil\n	}\n	uri = strings.TrimPrefix(uri, "/")\n	uri', ["R01"]),
 ("scale-depth-16", "tree.go", '	uri = strings.TrimPrefix(uri, "/")\n	uri', '	if strings.Count(uri, "/") > 16 {\n		return nil, nil\n	}\n	uri = strings.TrimPrefix(uri, "/")\n	uri', ["R01"]),
 ("scale-params-8", "tree.go", "params[n.subNodes[i].parsedPattern] = segment\n", "if len(params) < 8 {\n						params[n.subNodes[i].parsedPattern] = segment\n					}\n", ["R02"]),
 ("scale-params-4", "tree.go", "params[n.subNodes[i].parsedPattern] = segment\n", "if len(params) < 4 {\n						params[n.subNodes[i].parsedPattern] = segment\n					}\n", ["R02"]),
 ("scale-sub-10", "tree.go", "	for i := 0; i < len(n.subNodes); i++ {\n		switch", "	for i := 0; i < len(n.subNodes) && i < 10; i++ {\n		switch", ["R01"]),
 ("scale-end-16", "tree.go", "	for i := 0; i < len(n.endNodes); i++ {\n		switch", "	for i := 0; i < len(n.endNodes) && i < 16; i++ {\n		switch", ["R01"]),
 ("scale-end-64", "tree.go", "	for i := 0; i < len(n.endNodes); i++ {\n		switch", "	for i := 0; i < len(n.endNodes) && i < 64; i++ {\n		switch", ["R01"]),
 ("scale-seg-128", "tree.go", "params[n.subNodes[i].parsedPattern] = segment\n", "if len(segment) > 128 {\n						segment = segment[:128]\n					}\n					params[n.subNodes[i].parsedPattern] = segment\n", ["R02"]),
 ("scale-glob-3", "tree.go", "globLevel+1, uri, params", "(globLevel+1)%4, uri, params", ["R02"]),
 ("scale-regwild-3", "tree.go", "for j := 0; j < len(n.endNodes[i].wildcards); j++", "for j := 0; j < len(n.endNodes[i].wildcards) && j < 3; j++", ["R02"]),
 ("scale-regwild-5", "tree.go", "for j := 0; j < len(n.endNodes[i].wildcards); j++", "for j := 0; j < len(n.endNodes[i].wildcards) && j < 5; j++", ["R02"]),
 ("scale-chain-16", "context.go", "ctx.index < ctx.handlersLength", "ctx.index < ctx.handlersLength && ctx.index < 16", ["C02"]),
 ("scale-chain-63", "context.go", "ctx.index < ctx.handlersLength", "ctx.index < ctx.handlersLength && ctx.index < 63", ["C02"]),
 ("scale-group-deep-6", "router.go", "		if len(tmp.befores) > 0 {", "		if len(tmp.befores) > 0 && len(ps) < 7 {", ["C01"]),
 ("scale-group-deep-4", "router.go", "		if len(tmp.befores) > 0 {", "		if len(tmp.befores) > 0 && len(ps) < 5 {", ["C01"]),
 ("scale-use-8", "router.go", "	r.befores = append(r.befores, handlers...)", "	if len(r.befores) < 8 {\n		r.befores = append(r.befores, handlers...)\n	}", ["C01"]),
 ("scale-routes-32", "router.go", "	rs.routeSlice = append(rs.routeSlice, r)", "	if len(rs.routeSlice) < 32 {\n		rs.routeSlice = append(rs.routeSlice, r)\n	}", ["R01"]),
 ("scale-routes-128", "router.go", "	rs.routeSlice = append(rs.routeSlice, r)", "	if len(rs.routeSlice) < 128 {\n		rs.routeSlice = append(rs.routeSlice, r)\n	}", ["R01"]),
 ("scale-body-4096", "content.go", "	data, err := ioutil.ReadAll(ctx.Request.Body)", "	data, err := ioutil.ReadAll(io.LimitReader(ctx.Request.Body, 4096))", ["Q05"]),
 ("scale-body-65536", "content.go", "	data, err := ioutil.ReadAll(ctx.Request.Body)", "	data, err := ioutil.ReadAll(io.LimitReader(ctx.Request.Body, 65536))", ["Q05"]),
 ("scale-body-1m", "content.go", "	data, err := ioutil.ReadAll(ctx.Request.Body)", "	data, err := ioutil.ReadAll(io.LimitReader(ctx.Request.Body, 1<<20))", ["Q05"]),
 ("scale-save-64k", "content.go", "	_, err = io.Copy(f, src)", "	_, err = io.Copy(f, io.LimitReader(src, 65536))", ["B04"]),
 ("scale-save-512", "content.go", "	_, err = io.Copy(f, src)", "	_, err = io.Copy(f, io.LimitReader(src, 512))", ["B04"]),
 ("scale-stream-64k", "content.go", "	_, err := io.Copy(ctx, r)", "	_, err := io.Copy(ctx, io.LimitReader(r, 65536))", ["S02"]),
 ("scale-string-4k", "content.go", "	ctx.Write([]byte(str))\n}\n\nfunc (ctx *Context) Data", "	if len(str) > 4096 {\n		str = str[:4096]\n	}\n	ctx.Write([]byte(str))\n}\n\nfunc (ctx *Context) Data", ["S02"]),
 ("scale-data-64k", "content.go", "	ctx.Write(data)", "	if len(data) > 65536 {\n		data = data[:65536]\n	}\n	ctx.Write(data)", ["S02"]),
 ("scale-write-32k", "context.go", "	return ctx.ResponseWriter.Write(data)", "	if len(data) > 32768 {\n		data = data[:32768]\n	}\n	return ctx.ResponseWriter.Write(data)", ["S02"]),
 ("scale-cookie-1k", "cookie.go", "	cookie.Value = value", "	if len(value) > 1024 {\n		value = value[:1024]\n	}\n	cookie.Value = value", ["Q03"]),
 ("scale-cookie-4k", "cookie.go", "	cookie.Value = value", "	if len(value) > 4096 {\n		value = value[:4096]\n	}\n	cookie.Value = value", ["Q03"]),
 ("scale-cors-8", "m_cors.go", "		for _, o := range config.AllowOrigins {", "		for i, o := range config.AllowOrigins {\n			if i >= 8 {\n				break\n			}", ["M01"]),
 ("scale-cors-5", "m_cors.go", "		for _, o := range config.AllowOrigins {", "		for i, o := range config.AllowOrigins {\n			if i >= 5 {\n				break\n			}", ["M01"]),
 ("scale-log-body-4k", "m_logger.go", 'body = "\\n" + string(requestbody)', 'body = "\\n" + string(requestbody)\n			if len(body) > 4096 {\n				body = body[:4096]\n			}', ["S04"]),
 ("scale-log-rest", "m_logger.go", 'io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body)', 'bytes.NewReader(requestbody)', ["S04"]),
 ("scale-xff-4", "util.go", "		for i := range ls {\n			ls[i] = strings.TrimSpace(ls[i])\n		}\n\n		return ls", "		for i := range ls {\n			ls[i] = strings.TrimSpace(ls[i])\n		}\n		if len(ls) > 4 {\n			ls = ls[:4]\n		}\n		return ls", ["Q04"]),
 ("scale-environ-8", "environ.go", "		c.Environ[name] = value", "		if len(c.Environ) < 8 {\n			c.Environ[name] = value\n		}", ["E01"]),
 ("scale-qarr-8", "query.go", "	tmp := make([]string, len(vs))\n	for i := range vs {", "	if len(vs) > 8 {\n		vs = vs[:8]\n	}\n	tmp := make([]string, len(vs))\n	for i := range vs {", ["Q01"]),
 ("scale-count-256", "engine.go", "	ctx := e.ctxPool.Get().(*Context)", "	if atomic.AddUint32(&seen, 1)%256 == 0 {\n		rw.WriteHeader(500)\n		return\n	}\n	ctx := e.ctxPool.Get().(*Context)", ["I01"]),
 ("scale-slice-10", "binding/mapping.go", "	slice := reflect.MakeSlice(value.Type(), len(vals), len(vals))\n	err := setArray(", "	if len(vals) > 10 {\n		vals = vals[:10]\n	}\n	slice := reflect.MakeSlice(value.Type(), len(vals), len(vals))\n	err := setArray(", ["B05"]),
 ("scale-files-4", "binding/mapping.go", "		slice := reflect.MakeSlice(value.Type(), len(files), len(files))", "		if len(files) > 4 {\n			files = files[:4]\n		}\n		slice := reflect.MakeSlice(value.Type(), len(files), len(files))", ["B05"]),
 ("scale-mapslice-10", "binding/map_form.go", "		slice := reflect.MakeSlice(value.Type(), num, num)", "		if num > 10 {\n			num = 10\n		}\n		slice := reflect.MakeSlice(value.Type(), num, num)", ["B02"]),
 ("scale-mapfiles-4", "binding/map_form.go", "			slice := reflect.MakeSlice(value.Type(), num, num)", "			if num > 4 {\n				num = 4\n			}\n			slice := reflect.MakeSlice(value.Type(), num, num)", ["B04"]),
 ("scale-bind-fields-8", "binding/mapping.go", "for i := 0; i < value.NumField(); i++ {", "for i := 0; i < value.NumField() && i < 8; i++ {", ["B05"]),
 ("scale-map-fields-8", "binding/map_form.go", "for i := 0; i < typ.NumField(); i++ {", "for i := 0; i < typ.NumField() && i < 8; i++ {", ["B02"]),
 ("scale-deep-3", "binding/map_form.go", "for i := 0; i < typ.NumField(); i++ {", "if strings.Count(typ.String(), \"struct {\") > 4 {\n		return nil\n	}\n	for i := 0; i < typ.NumField(); i++ {", []),
]
MUTANTS += SCALE

# unusual inputs
ODD = [
 ("odd-longest", "tree.go", "			reg = regexp.MustCompile(regExp)", "			reg = regexp.MustCompile(regExp)\n			reg.Longest()", ["R02"]),
 ("odd-param-base0", "params.go", "strconv.ParseInt(p.String(name), 10, 64)", "strconv.ParseInt(p.String(name), 0, 64)", ["Q02"]),
 ("odd-query-base0", "query.go", "	v, _ := strconv.ParseInt(ctx.Query(name), 10, 64)\n	return v", "	v, _ := strconv.ParseInt(ctx.Query(name), 0, 64)\n	return v", ["Q01"]),
 ("odd-cookie-base0", "cookie.go", "	v, _ := strconv.ParseInt(ctx.Cookie(name), 10, 64)\n	return v", "	v, _ := strconv.ParseInt(ctx.Cookie(name), 0, 64)\n	return v", ["Q03"]),
 ("odd-bind-base0", "binding/map_form.go", "strconv.ParseInt(val, 10, structField.Type().Bits())", "strconv.ParseInt(val, 0, structField.Type().Bits())", ["B02"]),
 ("odd-bind2-base0", "binding/mapping.go", "strconv.ParseInt(val, 10, bitSize)", "strconv.ParseInt(val, 0, bitSize)", ["B05"]),
 ("odd-bind-ubase0", "binding/map_form.go", "strconv.ParseUint(val, 10, structField.Type().Bits())", "strconv.ParseUint(val, 0, structField.Type().Bits())", ["B02"]),
 ("odd-bind-trim", "binding/map_form.go", "		structField.SetString(val)", "		if len(val) > 0 && val[0] == ' ' {\n			val = val[1:]\n		}\n		structField.SetString(val)", ["B02"]),
 ("odd-bind-on", "binding/map_form.go", "		boolVal, err := strconv.ParseBool(val)", "		if val == \"on\" {\n			val = \"true\"\n		}\n		boolVal, err := strconv.ParseBool(val)", ["B02"]),
 ("odd-bind2-on", "binding/mapping.go", "	boolVal, err := strconv.ParseBool(val)", "	if val == \"on\" {\n		val = \"true\"\n	}\n	boolVal, err := strconv.ParseBool(val)", ["B05"]),
 ("odd-bind-comma", "binding/map_form.go", "		num := len(inputValue)\n\n		if value.Kind()", "		if value.Kind() == reflect.Slice && len(inputValue) == 1 && len(inputValue[0]) == 3 && inputValue[0][1] == ',' {\n			inputValue = []string{inputValue[0][:1], inputValue[0][2:]}\n		}\n		num := len(inputValue)\n\n		if value.Kind()", ["B02"]),
 ("odd-unix-neg", "binding/map_form.go", "	if existValue && !isFile", "	if existValue && !isFile", []),
 ("odd-unixnano-mod", "binding/mapping.go", "		t := time.Unix(tv/int64(d), tv%int64(d))", "		t := time.Unix(tv/int64(d), tv%int64(d)/1000*1000)", ["B05"]),
 ("odd-unix-msec", "binding/mapping.go", "		d := time.Duration(1)\n", "		d := time.Duration(1)\n		if tf == \"unix\" && tv > 2e11 {\n			tv /= 1000\n		}\n", ["B05"]),
 ("odd-unix-msec2", "binding/mapping.go", "func setTimeField2(val string, opt *setOptions, value reflect.Value) error {", "func setTimeField2(val string, opt *setOptions, value reflect.Value) error {\n	if opt.timeFormat == \"unix\" && len(val) >= 12 {\n		val = val[:10]\n	}", ["B02"]),
 ("odd-time-t", "binding/mapping.go", "	t, err := time.ParseInLocation(timeFormat, val, l)\n	if err != nil {\n		return err\n	}\n\n	value.Set(reflect.ValueOf(t))\n	return nil\n}\n\nfunc setTimeField2", "	t, err := time.ParseInLocation(timeFormat, val, l)\n	if err != nil {\n		return err\n	}\n\n	value.Set(reflect.ValueOf(t.Truncate(time.Second)))\n	return nil\n}\n\nfunc setTimeField2", ["B05"]),
 ("odd-f32-overflow", "binding/map_form.go", "strconv.ParseFloat(val, 32)", "strconv.ParseFloat(val, 64)", ["B02"]),
 ("odd-static-dot", "m_static.go", "		defer f.Close()\n\n		fi, err := f.Stat()", "		defer f.Close()\n		if strings.Contains(ctx.Param(\"*0\"), \"/.\") {\n			ctx.WriteHeader(http.StatusNotFound)\n			return\n		}\n		fi, err := f.Stat()", ["M02"]),
 ("odd-static-dot1", "m_static.go", "		defer f.Close()\n\n		fi, err := f.Stat()", "		defer f.Close()\n		if strings.HasPrefix(ctx.Param(\"*0\"), \".\") {\n			ctx.WriteHeader(http.StatusNotFound)\n			return\n		}\n		fi, err := f.Stat()", ["M02"]),
 ("odd-origin-join", "m_cors.go", "origin := req.Header.Get(HeaderOrigin)", "origin := strings.Join(req.Header[HeaderOrigin], \",\")", []),
 ("odd-origin-null", "m_cors.go", "		// Check allowed origins\n", "		if origin == \"null\" {\n			origin = \"\"\n		}\n", ["M01"]),
 ("odd-ip-bracket", "util.go", "			ip = ip[:i]\n", "			ip = strings.Trim(ip[:i], \"[]\")\n", ["Q04"]),
 ("odd-ip-first-colon", "util.go", "strings.LastIndex(ip, \":\")", "strings.Index(ip, \":\")", ["Q04"]),
 ("odd-ct-lower", "util.go", "func filterFlags(content string) string {", "func filterFlags(content string) string {\n	content = strings.ToLower(content)", ["Q04"]),
 ("odd-ct-tab", "util.go", "char == ' ' || char == ';'", "char == ' ' || char == ';' || char == '\\t' || char == ','", ["Q04"]),
 ("odd-ws-upgrade-eq", "content.go", "strings.Contains(strings.ToLower(ctx.Request.Header.Get(\"Connection\")), \"upgrade\")", "strings.ToLower(ctx.Request.Header.Get(\"Connection\")) == \"upgrade\"", ["Q04"]),
 ("odd-proto-case", "content.go", "switch s := ctx.GetHeader(HeaderXForwardedProto); s {", "switch s := strings.ToLower(ctx.GetHeader(HeaderXForwardedProto)); s {", ["Q04"]),
 ("odd-cookie-last", "cookie.go", "	return cookie.Value\n}\n\nfunc (ctx *Context) CookieEscape", "	for _, c := range ctx.Request.Cookies() {\n		if c.Name == name {\n			cookie = c\n		}\n	}\n	return cookie.Value\n}\n\nfunc (ctx *Context) CookieEscape", ["Q03"]),
 ("odd-cookie-unquote", "cookie.go", "	return cookie.Value\n}\n\nfunc (ctx *Context) CookieEscape", "	if v, err := strconv.Unquote(cookie.Value); err == nil {\n		return v\n	}\n	return cookie.Value\n}\n\nfunc (ctx *Context) CookieEscape", ["Q03"]),
 ("odd-download-lower", "content.go", "contentDisposition(fi.Name(), dispositionType))", "contentDisposition(strings.ToLower(fi.Name()), dispositionType))", ["D01"]),
 ("odd-path-plus", "util.go", "dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))", "dispositionType, url.QueryEscape(fileName), url.PathEscape(fileName))", ["D01"]),
 ("odd-log-query", "m_logger.go", "			ctx.Request.URL.String(),\n			body,", "			ctx.Request.URL.Path,\n			body,", ["S04"]),
 ("odd-log-uri", "m_logger.go", "			ctx.Request.URL.String(),\n			body,", "			ctx.Request.RequestURI,\n			body,", []),
 ("odd-log-json-suffix", "m_logger.go", "strings.Contains(ctx.Request.Header.Get(\"Content-Type\"), \"application/json\")", "strings.HasPrefix(ctx.Request.Header.Get(\"Content-Type\"), \"application/json\")", []),
 ("odd-etag-weak", "m_static.go", "if ctx.Request.Header.Get(\"If-None-Match\") == tag {", "if strings.TrimPrefix(ctx.Request.Header.Get(\"If-None-Match\"), \"W/\") == tag {", ["M03"]),
 ("odd-etag-contains", "m_static.go", "if ctx.Request.Header.Get(\"If-None-Match\") == tag {", "if strings.Contains(ctx.Request.Header.Get(\"If-None-Match\"), tag) {", ["M03"]),
 ("odd-etag-empty", "m_static.go", "		if opt.ETag != ETagTypeNone {", "		if opt.ETag != ETagTypeNone && fi.Size() > 0 {", ["M03"]),
 ("odd-etag-dirless", "m_static.go", "		if opt.ETag != ETagTypeNone {", "		if opt.ETag != ETagTypeNone && ctx.Request.Header.Get(\"Range\") == \"\" {", ["M03"]),
 ("odd-expires-head", "m_static.go", "		if opt.Expires != nil {", "		if opt.Expires != nil && ctx.Request.Method == http.MethodGet {", ["M03"]),
 ("odd-head-length", "context.go", "	return ctx.ResponseWriter.Write(data)", "	if ctx.Request.Method == http.MethodHead {\n		return len(data), nil\n	}\n	return ctx.ResponseWriter.Write(data)", []),
 ("odd-querymap-nested", "query.go", "dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])\n			}\n		}\n	}\n\n	return dicts", "dicts[k[i+1:][:j]] = strings.TrimSpace(v[len(v)-1])\n			}\n		}\n	}\n\n	return dicts", ["Q01"]),
 ("odd-any-trace", "router.go", "		for _, v := range MethodAnyExclude {", "		for _, v := range MethodAnyExclude[:len(MethodAnyExclude):len(MethodAnyExclude)] {", []),
 ("odd-print-sort", "router_print.go", "sort.Strings(", "sort.Sort(sort.Reverse(sort.StringSlice(", []),
 ("odd-trim-all-slashes", "tree.go", '	uri = strings.TrimSuffix(uri, "/")\n	params', '	uri = strings.TrimRight(uri, "/")\n	params', ["R01"]),
 ("odd-trim-left-all", "tree.go", '	uri = strings.TrimPrefix(uri, "/")\n	uri', '	uri = strings.TrimLeft(uri, "/")\n	uri', ["R01"]),
 ("odd-holder-empty", "tree.go", "		case _PATTERN_HOLDER:\n			if n.endNodes[i].parsedPattern != \"_\" {", "		case _PATTERN_HOLDER:\n			if uri == \"\" {\n				continue\n			}\n			if n.endNodes[i].parsedPattern != \"_\" {", ["R01"]),
 ("odd-static-empty-seg", "engine.go", "		ctx.endNode = e.routersStatic[index][req.URL.Path]", "		ctx.endNode = e.routersStatic[index][cleanPath(req.URL.Path)]", ["R04"]),
 ("odd-static-trim", "engine.go", "		ctx.endNode = e.routersStatic[index][req.URL.Path]", "		ctx.endNode = e.routersStatic[index][strings.TrimSuffix(req.URL.Path, \"/\")]", []),
 ("odd-recovery-len", "m_recovery.go", "					ctx.Header().Del(\"Content-Length\") // of the body that will not come\n", "", ["S03"]),
 ("odd-bodyless-204", "context.go", "		ctx.ResponseWriter.WriteHeader(code) // panics", "		if code == http.StatusNoContent {\n			ctx.Header().Del(\"Set-Cookie\")\n		}\n		ctx.ResponseWriter.WriteHeader(code) // panics", ["S02"]),
 ("odd-1xx", "context.go", "		ctx.written = true\n		ctx.status = code", "		ctx.written = true\n		ctx.status = code\n		if code == 999 {\n			ctx.status = 500\n		}", ["S01"]),
 ("odd-hdr-values", "content.go", "	ctx.Header().Set(key, value)", "	ctx.Header()[key] = []string{value}", ["Q05"]),
 ("odd-hdr-empty", "content.go", "	ctx.Header().Set(key, value)", "	if value == \"\" {\n		ctx.Header().Del(key)\n		return\n	}\n	ctx.Header().Set(key, value)", ["Q05"]),
 ("odd-json-escape", "content.go", "	err := json.NewEncoder(ctx).Encode(v)", "	en := json.NewEncoder(ctx)\n	en.SetEscapeHTML(false)\n	err := en.Encode(v)", []),
 ("odd-env-empty-name", "environ.go", "	_, ok := m[name]\n	return ok", "	_, ok := m[name]\n	return ok && name != \"\"", ["E01"]),
 ("odd-mapform-first", "binding/map_form.go", "inputValue[0], value, bName)", "inputValue[len(inputValue)-1], value, bName)", ["B02"]),
 ("odd-default-empty", "binding/map_form.go", "	if !existValue && bOpt.defaultValue != \"\" {", "	if (!existValue || len(inputValue) == 1 && inputValue[0] == \"\") && bOpt.defaultValue != \"\" {", ["B02"]),
 ("odd-default2-empty", "binding/mapping.go", "			val = vs[0]\n", "			val = vs[0]\n			if val == \"\" {\n				val = opt.defaultValue\n			}\n", ["B05"]),
]
MUTANTS += ODD
HIST = [
 ("hist-save-notrunc", "content.go", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC", "os.O_WRONLY|os.O_CREATE", ["B04"]),
 ("hist-save-excl", "content.go", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC", "os.O_WRONLY|os.O_CREATE|os.O_EXCL", ["B04"]),
 ("hist-save-append", "content.go", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC", "os.O_WRONLY|os.O_CREATE|os.O_APPEND", ["B04"]),
 ("hist-save-shortcopy", "content.go", "	_, err = io.Copy(f, src)\n	return err", "	_, err = io.CopyN(f, src, file.Size)\n	return err", []),
 ("hist-env-nil", "environ.go", "	if c.Environ.Has(name) {", "	if c.Environ[name] != nil {", ["E01"]),
 ("hist-env-nil2", "environ.go", "	if m.Has(name) {", "	if m[name] != nil {", ["E01"]),
 ("hist-env-has-nil", "environ.go", "	_, ok := m[name]\n	return ok", "	return m[name] != nil", ["E01"]),
 ("hist-env-maybe-nil", "environ.go", "	value, exists = c.Environ[name]\n	return", "	value = c.Environ[name]\n	return value, value != nil", ["E01"]),
 ("hist-env-get-nil", "environ.go", "	if value, exists := c.Environ[name]; exists {", "	if value := c.Environ[name]; value != nil {", ["E01"]),
 ("hist-env-get-nil2", "environ.go", "	if v, ok := m[name]; ok {", "	if v := m[name]; v != nil {", ["E01"]),
 ("hist-env-setbefore", "environ.go", "	if c.Environ.Has(name) {\n		panic", "	old, has := c.Environ[name]\n	c.Environ[name] = value\n	if has {\n		_ = old\n		panic", ["E01"]),
 ("hist-env-lazy", "environ.go", "	value, exists = c.Environ[name]\n	return", "	value, exists = c.Environ[name]\n	if !exists {\n		c.Environ[name] = nil\n	}\n	return", ["E01"]),
 ("hist-env-int-conv", "environ.go", "	return m[name].(int64)", "	if v, ok := m[name].(int); ok {\n		return int64(v)\n	}\n	return m[name].(int64)", ["E01"]),
 ("hist-env-named", "environ.go", "	return m[name].(string)", "	if v, ok := m[name].([]byte); ok {\n		return string(v)\n	}\n	return m[name].(string)", ["E01"]),
 ("hist-nofound-alias", "router.go", "		hstmp := make([]Handler, len(r.gbefores))\n		copy(hstmp, newHandlers(r.gbefores))\n\n		hstmp = append(hstmp, o.NoFoundHandlers...)\n		o.NoFoundHandlers = hstmp", "		n := len(r.gbefores)\n		o.NoFoundHandlers = append(o.NoFoundHandlers, newHandlers(r.gbefores)...)\n		copy(o.NoFoundHandlers[n:], o.NoFoundHandlers)\n		copy(o.NoFoundHandlers, newHandlers(r.gbefores))", []),
 ("hist-group-share", "router.go", "		pattern: pattern,\n		parent:  r,\n	}\n\n	r.sub = append(r.sub, rr)\n\n	for i := range is", "		pattern: pattern,\n		parent:  r,\n	}\n\n	for _, o := range r.sub {\n		if o.method == \"\" && o.pattern == pattern && len(is) == 0 {\n			return o\n		}\n	}\n	r.sub = append(r.sub, rr)\n\n	for i := range is", ["C01"]),
 ("hist-handlers-alias", "router.go", "append([]interface{}(nil), handlers...)", "handlers", ["C01", "C03"]),
 ("hist-befores-alias", "router.go", "	r.befores = append(r.befores, handlers...)", "	if r.befores == nil {\n		r.befores = handlers\n		return\n	}\n	r.befores = append(r.befores, handlers...)", ["C01", "C03"]),
 ("hist-gbefores-alias", "router.go", "	r.gbefores = append(r.gbefores, handlers...)", "	if r.gbefores == nil {\n		r.gbefores = handlers\n		return\n	}\n	r.gbefores = append(r.gbefores, handlers...)", ["C01", "C03"]),
 ("hist-method-slice", "router.go", "	rs.routeSlice = append(rs.routeSlice, r)", "	rs.routeSlice = append(rs.routeSlice, r)\n	if len(rs.routeSlice) > 2 && rs.routeSlice[0].uri > r.uri && r.method == http.MethodOptions {\n		rs.routeSlice[0], rs.routeSlice[1] = rs.routeSlice[1], rs.routeSlice[0]\n	}", ["P01"]),
 ("hist-params-cache", "tree.go", "	params := make(Params)\n	node := n.matchNextSegment(0, uri, params)\n	return node, params", "	if n.matchNode == nil {\n		n.matchNode = &route{uri: uri}\n	} else if n.matchNode.uri == uri && n.matchNode.handlers != nil {\n		n.matchNode.method = uri\n	}\n	params := make(Params)\n	node := n.matchNextSegment(0, uri, params)\n	return node, params", ["I02"]),
 ("hist-endnode-mru", "tree.go", "				params[n.endNodes[i].wildcards[j]] = results[j+1]\n			}\n			return n.endNodes[i]", "				params[n.endNodes[i].wildcards[j]] = results[j+1]\n			}\n			if i > 0 && n.endNodes[i-1].typ == _PATTERN_REGEXP { // likely next time too\n				n.endNodes[i-1], n.endNodes[i] = n.endNodes[i], n.endNodes[i-1]\n				i--\n			}\n			return n.endNodes[i]", ["R01", "I01", "I02"]),
 ("hist-subnode-mru", "tree.go", "				if n.subNodes[i].parsedPattern != \"_\" {\n					params[n.subNodes[i].parsedPattern] = segment\n				}\n				return end", "				if n.subNodes[i].parsedPattern != \"_\" {\n					params[n.subNodes[i].parsedPattern] = segment\n				}\n				if i > 0 && n.subNodes[i-1].typ == _PATTERN_HOLDER {\n					n.subNodes[i-1], n.subNodes[i] = n.subNodes[i], n.subNodes[i-1]\n				}\n				return end", ["R01", "I01", "I02"]),
 ("hist-static-lazy", "engine.go", "		ctx.endNode, ctx.Params = e.routers[index].Match(req.URL.Path)", "		ctx.endNode, ctx.Params = e.routers[index].Match(req.URL.Path)\n		if e.options.EnableStaticRouter && ctx.endNode != nil && len(ctx.Params) == 0 && e.routersStatic[index] != nil {\n			e.routersStatic[index][req.URL.Path] = ctx.endNode\n		}", ["I02"]),
 ("hist-static-miss", "engine.go", "	if ctx.endNode == nil {\n		// curl", "	if ctx.endNode == nil && e.options.EnableStaticRouter && len(e.routersStatic[index]) == len(e.routeStore.routeMap[req.Method]) && !strings.HasSuffix(req.URL.Path, \"/\") {\n		ctx.Params = Params{}\n	} else if ctx.endNode == nil {\n		// curl", []),
 ("hist-recovery-once", "m_recovery.go", "		finished := false\n", "		finished := ctx.index > 0 && ctx.Environ.Has(\"recovered\")\n", []),
 ("hist-rec-del-type", "m_recovery.go", "					ctx.Header().Del(\"Content-Length\") // of the body that will not come\n", "					for k := range ctx.Header() {\n						ctx.Header().Del(k)\n					}\n", []),
 ("hist-log-double-body", "m_logger.go", "N: 1 << 20}", "N: 1 << 20}\n			if ctx.Request.ContentLength > 0 {\n				safe.N = ctx.Request.ContentLength\n			}", []),
 ("hist-parse-reset", "content.go", "	ctx.parsedParams = true\n", "	ctx.parsedParams = ctx.Request.Method != http.MethodGet\n", []),
 ("hist-form-twice", "content.go", "	if ctx.parsedParams {\n		return nil\n	}", "	if ctx.parsedParams || ctx.Request.Form != nil {\n		return nil\n	}", ["Q01"]),
 ("hist-parse-panic-once", "content.go", "			return errors.New(\"parseForm error:\" + err.Error())", "			if ctx.Request.Method == http.MethodGet {\n				return nil\n			}\n			return errors.New(\"parseForm error:\" + err.Error())", ["Q01"]),
 ("hist-hijack-status", "response_advanced.go", "	if err == nil {\n		ctx.written = true\n	}", "	if err == nil {\n		ctx.written = true\n		ctx.status = http.StatusSwitchingProtocols\n	}", []),
 ("hist-hijack-fail", "response_advanced.go", "	if err == nil {\n		ctx.written = true\n	}", "	ctx.written = true", ["S05"]),
 ("hist-hijack-norewrite", "response_advanced.go", "	if err == nil {\n		ctx.written = true\n	}", "	if err == nil && ctx.status == 0 && ctx.index+1 < ctx.handlersLength {\n		ctx.written = true\n	}", ["S05"]),
 ("hist-flush-skip", "response_advanced.go", "	ctx.ResponseWriter.Flush()\n", "	if ctx.status != http.StatusCreated {\n		ctx.ResponseWriter.Flush()\n	}\n", ["S05"]),
 ("hist-flush-once", "response_advanced.go", "	if !ctx.written {\n		ctx.WriteHeader(http.StatusOK)\n	}\n	ctx.ResponseWriter.Flush()", "	if !ctx.written {\n		ctx.WriteHeader(http.StatusOK)\n		ctx.ResponseWriter.Flush()\n	} else if ctx.index%2 == 0 {\n		ctx.ResponseWriter.Flush()\n	}", ["S05"]),
 ("hist-mount-pool", "engine.go", "	ctx := e.ctxPool.Get().(*Context)\n	ctx.reset()", "	ctx, mounted := rw.(*Context)\n	if mounted && ctx.written {\n		return\n	}\n	ctx = e.ctxPool.Get().(*Context)\n	ctx.reset()", ["N01"]),
 ("hist-mount-written", "engine.go", "	ctx.run()\n\n	e.ctxPool.Put(ctx)", "	ctx.run()\n	if outer, ok := rw.(*Context); ok && !outer.written && len(ctx.handlers) > 1 {\n		outer.written = ctx.index >= ctx.handlersLength\n	}\n\n	e.ctxPool.Put(ctx)", ["N01"]),
 ("hist-env-reuse", "engine.go", "	ctx.Environ = make(Environ)\n", "	if ctx.Environ == nil || len(ctx.Environ) > 0 {\n		ctx.Environ = make(Environ)\n	}\n", []),
 ("hist-env-outer", "engine.go", "	ctx.Environ = make(Environ)\n", "	ctx.Environ = make(Environ)\n	if outer, ok := rw.(*Context); ok {\n		ctx.Environ = outer.Environ\n	}\n", ["N01"]),
 ("hist-put-before-run", "engine.go", "	ctx.run()\n\n	e.ctxPool.Put(ctx)", "	if ctx.handlersLength == 1 {\n		e.ctxPool.Put(ctx)\n		ctx.run()\n		return\n	}\n	ctx.run()\n\n	e.ctxPool.Put(ctx)", ["I02"]),
 ("hist-memory-global", "engine.go", "	ctx.maxMultipartMemory = e.options.MaxMultipartMemory\n", "	if ctx.maxMultipartMemory == 0 {\n		ctx.maxMultipartMemory = defaultMultipartMemory\n	}\n", []),
 ("hist-handler-order", "router.go", "	for _, v := range r.sub {\n		dumpRoute(v, rs)\n	}", "	for _, v := range r.sub {\n		if v.sub == nil {\n			dumpRoute(v, rs)\n		}\n	}\n	for _, v := range r.sub {\n		if v.sub != nil {\n			dumpRoute(v, rs)\n		}\n	}", ["P01", "R01"]),
 ("hist-variant-shared", "router.go", "	w.rootRouter = r\n", "	w.rootRouter = r\n	r.gbefores = append(r.gbefores[:len(r.gbefores):len(r.gbefores)], nil)[:len(r.gbefores)]\n", []),
 ("hist-first-wins", "tree.go", "	end := newNode(n, pattern)\n	end.handlers = handlers\n", "	end := newNode(n, pattern)\n	for _, o := range n.endNodes {\n		if end.typ == _PATTERN_HOLDER && o.typ == _PATTERN_HOLDER {\n			return o\n		}\n	}\n	end.handlers = handlers\n", []),
]
MUTANTS += HIST
ERR = [
 ("err-body-bytes", "content.go", "	if err != nil {\n		return nil, err\n	}\n	ctx.Request.Body.Close()", "	if err != nil && len(data) == 0 {\n		return nil, err\n	}\n	err = nil\n	ctx.Request.Body.Close()", ["Q05"]),
 ("err-body-none", "content.go", "	ctx.Request.Body.Close()\n	return data, err", "	return data, err", []),
 ("err-stream", "content.go", "	_, err := io.Copy(ctx, r)\n\n	return err", "	_, err := io.Copy(ctx, r)\n	if err == io.ErrUnexpectedEOF {\n		return nil\n	}\n\n	return err", ["S02"]),
 ("err-stream-any", "content.go", "	_, err := io.Copy(ctx, r)\n\n	return err", "	n, err := io.Copy(ctx, r)\n	if n > 0 {\n		return nil\n	}\n\n	return err", ["S02"]),
 ("err-json", "content.go", "	err := json.NewEncoder(ctx).Encode(v)\n	if err != nil {\n		logx.Warn(err)\n	}\n	return err", "	err := json.NewEncoder(ctx).Encode(v)\n	if err != nil {\n		logx.Warn(err)\n	}\n	return nil", ["S02"]),
 ("err-xml", "content.go", "	err := xml.NewEncoder(ctx).Encode(v)\n	if err != nil {\n		logx.Warn(err)\n	}\n	return err", "	err := xml.NewEncoder(ctx).Encode(v)\n	if err != nil {\n		logx.Warn(err)\n	}\n	return nil", ["S02"]),
 ("err-save-copy", "content.go", "	_, err = io.Copy(f, src)\n	return err", "	io.Copy(f, src)\n	return nil", ["B04"]),
 ("err-bind-form", "content.go", "		if err := ctx.parseFormOrMultipartForm(); err != nil {\n			return err\n		}", "		if err := ctx.parseFormOrMultipartForm(); err != nil && ctx.Request.Form == nil {\n			return err\n		}", ["B01", "B02"]),
 ("err-json-trunc", "binding/json.go", "	if err := decoder.Decode(obj); err != nil {\n", "	if err := decoder.Decode(obj); err != nil && err.Error() != \"unexpected EOF\" {\n", []),
 ("err-json-eof", "binding/json.go", "	if err := decoder.Decode(obj); err != nil {\n", "	if err := decoder.Decode(obj); err != nil && err.Error() != \"EOF\" {\n", ["B01"]),
 ("err-xml-eof", "binding/xml.go", "	if err := decoder.Decode(obj); err != nil {\n", "	if err := decoder.Decode(obj); err != nil && err.Error() != \"EOF\" {\n", ["B01"]),
 ("err-xml-trunc", "binding/xml.go", "	if err := decoder.Decode(obj); err != nil {\n", "	if err := decoder.Decode(obj); err != nil && err.Error() != \"XML syntax error on line 1: unexpected EOF\" {\n", ["B01"]),
 ("err-mpart-trunc", "content.go", "err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {", "err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil && !strings.Contains(err.Error(), \"EOF\") {", ["Q01", "B04"]),
 ("err-mpart-boundary", "content.go", "err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {", "err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil && err != http.ErrMissingBoundary {", ["Q01"]),
 ("err-download-missing", "content.go", "	f, err := os.Open(fpath)\n	if err != nil {\n		return err\n	}", "	f, err := os.Open(fpath)\n	if err != nil {\n		if os.IsNotExist(err) {\n			ctx.NotFound()\n			return nil\n		}\n		return err\n	}", ["D01"]),
 ("err-download-dir", "content.go", "		return errors.New(\"This is Dir.\")", "		return nil", ["D01"]),
 ("err-write-count", "context.go", "	return ctx.ResponseWriter.Write(data)", "	if _, err := ctx.ResponseWriter.Write(data); err != nil {\n		return len(data), err\n	}\n	return len(data), nil", []),
 ("err-write-lost", "context.go", "	return ctx.ResponseWriter.Write(data)", "	n, _ := ctx.ResponseWriter.Write(data)\n	return n, nil", []),
 ("err-log-body", "m_logger.go", "			requestbody, _ := ioutil.ReadAll(safe)\n", "			requestbody, err := ioutil.ReadAll(safe)\n			if err != nil {\n				requestbody = nil\n			}\n", ["S04"]),
 ("err-log-swallow", "m_logger.go", "io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body)", "io.MultiReader(bytes.NewReader(requestbody), io.LimitReader(ctx.Request.Body, ctx.Request.ContentLength-int64(len(requestbody))))", []),
 ("err-nobody-json", "binding/json.go", "	if req == nil || req.Body == nil {", "	if req != nil && req.Body == http.NoBody {\n		return validate(obj)\n	}\n	if req == nil || req.Body == nil {", ["B01"]),
 ("err-validate-first", "binding/form.go", "	if err := MapForm(obj, req.Form, nil, \"form\"); err != nil {\n		return err\n	}\n\n	return validate(obj)", "	if err := MapForm(obj, req.Form, nil, \"form\"); err != nil {\n		if err2 := validate(obj); err2 == nil && len(req.Form) == 0 {\n			return nil\n		}\n		return err\n	}\n\n	return validate(obj)", []),
 ("err-mustparam", "params.go", "	v, err := strconv.ParseUint(p.String(name), 10, 64)\n	return uint(v), err", "	v, err := strconv.ParseUint(p.String(name), 10, 64)\n	if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {\n		err = nil\n	}\n	return uint(v), err", ["Q02"]),
 ("err-static-stat", "m_static.go", "			if err != nil || fi.IsDir() {", "			if err != nil {", ["M02"]),
]
MUTANTS += ERR
