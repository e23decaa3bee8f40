import json
F = '''fe31db6 I01,R02,R04 with the static-route option a request answered by the static table saw the path parameters of an earlier request
ad37c60 R02 parameters of a regexp segment stayed captured after the route they belong to was abandoned
a7b47ca R02 a regexp segment captured a parameter named "_"
ac4ccab R01 of several catch-alls at one level the last registered one answered
78f6e96 R01 a regexp segment without a group (<id ~ 70|80>) could never match
41519aa R02 a ":" inside a segment's regexp cut the parameter name / expression short
367adee C01 middleware given to Group() was attached to the parent instead of the new group
c041b8e R04 with the static-route option, patterns such as "/a//b" answered other paths than without it
ee7afb3 R01 FullPath reported the pattern of a later alias ("/:id" and "/<id>") instead of the route whose handlers run
4a1a544 S02 JSON and other helpers set Content-Type after the status line, so clients never got it
a6ad029 S01 File() and static files bypassed the Context: written flag and status stayed unset, so further handlers ran
df53295 M02 directories and index files were read from the working directory instead of the configured file system
fe9c4b7 B02 form values that do not fit the field's width were stored truncated
f663011 B02 the form value "false" could not be stored in a bool
9af62da B03 validating a nil pointer element panicked
eb00221 S04 Logger() cut JSON request bodies over 1 MB
13dbf29 Q04 X-Forwarded-For entries without a space after the comma were not split
3b96be0 C03 WithMaxMultipartMemory of one engine changed all others, default was 0
20f2583 R06 a regexp without groups was accepted for several names, and one with escaped or non-capturing parentheses refused
bc88200 C02 Next() after a cut chain skipped a handler
1044e38 S03,S01 a refused status code (WriteHeader panics) was recorded as written, so the recovery could not answer 500
818e3b1 Q04 only the first X-Forwarded-For line counted
e9316d8 M02 the Location a directory is redirected to was not escaped ("100%", "a?b")
d854de5 M02 StaticFile redirected requests for ".../index.html" and refused paths with ".."
6701c63 M02 the listing of a directory answered 404 when the prefix was requested with needless escapes
e9dcf4a S04 with logging closed, Logger() kept the handler after it from running when the response was already started
f9fa0bb S04 Logger() logged status 0 for a response nothing was written to, the client got 200
10f389f B02 a nil *time.Time field the form does not name was set to the zero time
490c81c B02 the fields of a nested struct were not bound when the pointer to it was already set
aebc998 B02 the fields of a nested struct tagged "-" were bound (and the pointer to it set)
3a42f28 B02 an empty text for a time field with time_format unix or unixnano failed instead of giving the zero time
9aae84b B04 a text value under a file field's name was decoded as JSON into a *multipart.FileHeader (and an empty file input failed)
95bc1e1 B03 a bound time.Time, alone or in a list, was rejected as an invalid struct
a902a07 B01 Bind and BindWith panicked on a malformed form instead of returning an error
fc3da34 B01 binding the query or the headers through a context parsed (consumed, and failed on) the body
e644d07 B05 Bind2 made a *multipart.FileHeader out of a text value (JSON or the fields of the header)
7548786 R06 nil functions were accepted as handlers when the engine was built
179b45d C01,C03 routes and the NoFound option shared the list of handlers with the caller, who may use it again
f482d98 M02 StaticAdvance changed and kept the caller's options
dd3e01f M01 CORS kept the caller's list of origins
162ae62 S03 Recovery took a panic(nil) under the semantics before go 1.21 (this module's) for success: 200 instead of 500
1ea8b7f B02 Bind panicked on an embedded field that is no struct (type Color string, embedded): NumField of non-struct type
84df6ac B02,B05 Bind and Bind2 panicked on embedded fields of unexported types that cannot be set (no structs, nil pointers)
a6240ad S03 the 500 of Recovery() kept a Content-Length declared before the panic: clients got a cut answer
17bc597 S05 extended build: after Flush() or Hijack() the context said nothing was written; later handlers ran and a second status was given
41d2384 S05 extended build: every request over HTTP/2 (or a wrapped writer) panicked in ServeHTTP(), not having all of Flusher, Hijacker, CloseNotifier
a7e3f56 C01 HandlerName() panicked when the last handler is a struct, and was empty for a pointer'''
fixed = []
for l in F.splitlines():
    c, ps, what = l.split(' ', 2)
    for p in ps.split(','):
        fixed.append("fixed: property=%s %s %s" % (p, c, what))
json.dump({"findings": [], "fixed": fixed}, open('/verif/KNOWN_FINDINGS.json', 'w'), indent=1)
