package main

import (
	"encoding/json"
	"fmt"
	"html"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/meilihao/water"
)

// Family "static": files and directories served from a file system (M02, M03).

type stOpt struct {
	Prefix  string `json:"prefix"`
	Index   string `json:"index"`
	Fs      string `json:"fs"`
	Etag    int    `json:"etag"`
	Expires bool   `json:"expires"`
	Form    string `json:"form"` // how the prefix is written
}
type stSingle struct {
	Uri     string `json:"uri"`
	Text    string `json:"text"`
	Missing bool   `json:"missing"`
}
type stFile struct {
	Path string `json:"path"`
	Dir  bool   `json:"dir"`
	Text string `json:"text"`
	Mt   int64  `json:"mt"`
	Era  int64  `json:"era"` // multiples of 2^32 seconds more
	Big  int64  `json:"big"` // multiples of 4 GB more (a hole)
	Ns   int64  `json:"ns"`
}
type stOp struct {
	A    string `json:"a"`
	M    string `json:"m"`
	Path string `json:"path"`
	Raw  string `json:"raw"`
	Inm  string `json:"inm"`
	Hs   bool   `json:"hs"` // with headers that must not matter
	Rg   string `json:"rg"` // the part asked for: "", "all", "first", "last" or "beyond"
	Text string `json:"text"`
	Mt   int64  `json:"mt"`
	Era  int64  `json:"era"`
	Big  int64  `json:"big"`
	Ns   int64  `json:"ns"`
}
type stObs struct {
	Err     string   `json:"err"`
	Code    int      `json:"code"`
	Body    string   `json:"body"`
	Loc     string   `json:"loc"`
	Names   []string `json:"names"`
	Etag    string   `json:"etag"`
	Expires string   `json:"expires"`
	Inm     string   `json:"inm"`
}
type stScen struct {
	Id      string     `json:"id"`
	Opts    []stOpt    `json:"opts"`
	Singles []stSingle `json:"singles"`
	Files   []stFile   `json:"files"`
	Ops     []stOp     `json:"ops"`
	Obs     []stObs    `json:"obs"`
	Open    int        `json:"open"` // files left open
}

func init() { families["static"] = Family{Gen: staticGen, Exec: staticExec} }

var hrefRx = regexp.MustCompile(`<a href="[^"]*">([^<]*)</a>`)
var stDecoys bool

// decoys puts files of the same names where a lost lookup would find them: the
// working directory and the directory above the served one.
func decoys(dir string) {
	for _, n := range []string{"f", "a.txt", "d/f", "d/a.txt", "index.html", "d/index.html", "p/f", "secret", "d/secret", "main.html", "d/main.html", "f.txt"} {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte("SECRET "+n), 0644)
	}
}

// stWrite makes a file; it gives up what the file system cannot hold.
func stWrite(root string, f *stFile) {
	p := filepath.Join(root, filepath.FromSlash(f.Path))
	if f.Dir {
		die(os.MkdirAll(p, 0755))
		return
	}
	die(os.MkdirAll(filepath.Dir(p), 0755))
	die(os.WriteFile(p, []byte(f.Text), 0644))
	if f.Big > 0 && os.Truncate(p, f.Big<<32+int64(len(f.Text))) != nil {
		f.Big = 0
		die(os.WriteFile(p, []byte(f.Text), 0644))
	}
	t := time.Unix(f.Era<<32+f.Mt, f.Ns)
	die(os.Chtimes(p, t, t))
	if i, err := os.Stat(p); f.Era > 0 && (err != nil || i.ModTime().Unix() != t.Unix()) {
		f.Era = 0
		t = time.Unix(f.Mt, f.Ns)
		die(os.Chtimes(p, t, t))
	}
}

func staticExec(e *Env, raw json.RawMessage) (interface{}, error) {
	var s stScen
	if err := dec(raw, &s); err != nil {
		return nil, err
	}
	s.Obs = []stObs{}
	base, err := os.MkdirTemp(e.Scratch, "st")
	die(err)
	defer os.RemoveAll(base)
	if !stDecoys {
		decoys(".") // the scratch directory
		stDecoys = true
	}
	decoys(base)
	root := filepath.Join(base, "root")
	die(os.Mkdir(root, 0755))
	for i := range s.Files {
		stWrite(root, &s.Files[i])
	}
	now := 0
	exp := func() string { return "E" + itoa(now) }
	r := water.NewRouter()
	for i, o := range s.Opts {
		var fs http.FileSystem = http.Dir(root)
		if o.Fs == "fs" {
			fs = http.FS(os.DirFS(root))
		}
		prefix := o.Prefix
		switch o.Form {
		case "bare":
			prefix = strings.TrimPrefix(prefix, "/")
		case "slash":
			prefix += "/"
		}
		if o.Index == "" && o.Etag == 0 && !o.Expires && o.Fs == "dir" && i%2 == 0 {
			r.Static(prefix, root)
			continue
		}
		so := &water.StaticOptions{Prefix: prefix, IndexFile: o.Index, FileSystem: fs, ETag: water.ETagType(o.Etag)}
		if o.Expires {
			so.Expires = exp
		}
		r.StaticAdvance(so)
		*so = water.StaticOptions{Prefix: "/reused", FileSystem: http.Dir("/nonexistent"), IndexFile: "f", ETag: water.ETagType2} // used for something else
	}
	for i, o := range s.Singles {
		p := filepath.Join(base, "single"+itoa(i)+".txt")
		if !o.Missing {
			die(os.WriteFile(p, []byte(o.Text), 0644))
		}
		r.StaticFile(o.Uri, p)
	}
	v := newSrv(r.Handler())
	defer v.close()
	last := map[string]string{} // path -> tags seen
	prev := map[string]string{}
	for i, op := range s.Ops {
		o := stObs{Names: []string{}}
		switch op.A {
		case "write":
			f := stFile{Path: op.Path, Text: op.Text, Mt: op.Mt, Era: op.Era, Big: op.Big, Ns: op.Ns}
			stWrite(root, &f)
			s.Ops[i].Era, s.Ops[i].Big = f.Era, f.Big
		case "rm":
			die(os.Remove(filepath.Join(root, filepath.FromSlash(op.Path))))
		case "get":
			now = i + 1
			hs := [][]string{}
			switch op.Inm {
			case "":
			case "cur":
				o.Inm = last[op.Path]
			case "old":
				o.Inm = prev[op.Path]
			case "quoted":
				o.Inm = `"` + last[op.Path] + `"`
			case "weak":
				o.Inm = "W/" + last[op.Path]
			case "list":
				o.Inm = last[op.Path] + ", " + last[op.Path] + "1"
			case "spaced":
				o.Inm = "x " + last[op.Path]
			case "longer":
				o.Inm = last[op.Path] + "0"
			case "shorter":
				if t := last[op.Path]; t != "" {
					o.Inm = t[:len(t)-1]
				}
			default:
				o.Inm = op.Inm
			}
			if o.Inm != "" {
				hs = append(hs, []string{"If-None-Match", o.Inm})
			}
			if rg := map[string]string{"all": "bytes=0-", "first": "bytes=0-0", "last": "bytes=-1", "beyond": "bytes=99999-"}[op.Rg]; rg != "" {
				hs = append(hs, []string{"Range", rg})
			}
			if op.Hs {
				hs = append(hs, []string{"Accept-Encoding", "gzip, deflate, br"}, []string{"Accept", "text/html"}, []string{"Accept-Language", "de"},
					[]string{"User-Agent", "Mozilla/5.0"}, []string{"X-Requested-With", "XMLHttpRequest"}, []string{"Origin", "http://a.example"})
			}
			a := v.do(op.M, op.Raw, hs, nil)
			o.Err, o.Code, o.Body, o.Etag, o.Expires = a.Err, a.Code, string(a.Body), a.H.Get("ETag"), a.H.Get("Expires")
			if l := a.H.Get("Location"); l != "" {
				b, _ := url.ParseRequestURI(op.Raw)
				if u, err := url.Parse(l); err == nil && b != nil {
					o.Loc = b.ResolveReference(u).Path
				} else {
					o.Loc = "unreadable " + l
				}
			}
			for _, x := range hrefRx.FindAllStringSubmatch(o.Body, -1) {
				o.Names = append(o.Names, html.UnescapeString(x[1]))
			}
			if o.Etag != last[op.Path] && o.Code != 416 {
				prev[op.Path], last[op.Path] = last[op.Path], o.Etag
			}
		}
		s.Obs = append(s.Obs, o)
	}
	s.Open = openUnder(base)
	return s, nil
}

func staticGen(e *Env) []interface{} {
	r := e.R
	out := []interface{}{}
	etags := e.Profile == "M03"
	segs := []string{"f", "a.txt", "d", "e", "index.html", "main.html", "a b", "x&y", "100%", "q?r", "h#i", ".hid", "..x", "f.txt", "日本", "%41", "p", "+", "a=b;c", "~t", "secret", "<t>"}
	for i := 0; i < e.N; i++ {
		s := stScen{Id: "s" + itoa(i), Opts: []stOpt{}, Singles: []stSingle{}, Files: []stFile{{Path: "/", Dir: true}}}
		r.Shuffle(len(segs), func(a, b int) { segs[a], segs[b] = segs[b], segs[a] })
		mine := append([]string{}, segs[:6]...)
		index := ""
		if r.Intn(2) == 0 {
			index = pick(r, "index.html", "main.html", "f", "sub/i.html")
		}
		mts := []int64{100000000, 1600000005, 1600000000, 1, 1700000000 + int64(r.Intn(1000))}
		twins := etags && r.Intn(2) == 0 // files whose tags are easily confused
		if twins {
			mine = [][]string{{"a", "b", "aa", "1a", "6a", "ab"}, {"a", "A", "aa", "AA", "aA", "b"},
				{"a.txt", "a.TXT", "A.txt", "a.md", "b.txt", "a"}, {"a b", "ab", "a", "b", "日", "日本"}}[r.Intn(4)]
			mts = [][]int64{{0x5f5e100, 0x5f5e1001, 0x5f5e101, 0x5f5e111, 0x5f5e1000}, {1600000000, 1600000001, 1600000059, 1600003600, 1600086400},
				{1600000000}}[r.Intn(3)]
		}
		text := func() string {
			if twins {
				return strings.Repeat("z", []int{1, 2, 0, 17, 16, 1, 0x161}[r.Intn(7)])
			}
			switch r.Intn(6) {
			case 0:
				return strings.Repeat("z", []int{0, 1, 81, 16, 256}[r.Intn(5)])
			case 1:
				return pick(r, "<html>page</html>", "a\r\nb\n", "x")
			}
			return fmt.Sprintf("text %d of %+q", r.Intn(100), pick(r, mine...))
		}
		if twins && r.Intn(3) == 0 {
			z := func(n int) string { return strings.Repeat("z", n) }
			l := [][]stFile{
				{{Path: "/a", Text: z(0x161), Mt: 9}, {Path: "/aa", Text: z(1), Mt: 9}},
				{{Path: "/a", Text: z(0x11), Mt: 0x5f5e100}, {Path: "/b", Text: z(1), Mt: 0x5f5e1001}},
				{{Path: "/a", Text: z(0x11), Mt: 0x5f5e100}, {Path: "/a", Text: z(1), Mt: 0x5f5e1001}},
				{{Path: "/a", Text: z(7), Mt: 2000}, {Path: "/a", Text: z(2000), Mt: 7}},
				{{Path: "/a", Text: z(7), Mt: 1<<30 + 5}, {Path: "/b", Text: z(7), Mt: 5}},
				{{Path: "/a", Text: z(7), Mt: 100}, {Path: "/a", Text: z(107), Mt: 100}, {Path: "/a", Text: z(263), Mt: 100}},
				{{Path: "/a", Text: z(7), Mt: 100}, {Path: "/b", Text: z(7), Mt: 100, Big: 1}, {Path: "/c", Text: z(7), Mt: 100, Big: 3}},
				{{Path: "/a", Text: z(7), Mt: 100}, {Path: "/a", Text: z(7), Mt: 100, Era: 1}, {Path: "/a", Text: z(7), Mt: 100, Era: 2}},
				{{Path: "/a", Text: z(7), Mt: 100, Ns: 5}, {Path: "/b", Text: z(7), Mt: 100, Ns: 999999999}, {Path: "/a", Text: z(7), Mt: -100, Ns: 500000000},
					{Path: "/a", Text: z(7), Mt: 99, Ns: 999999999}},
				{{Path: "/a", Text: z(7), Mt: 4}, {Path: "/a", Text: z(7), Mt: -4}, {Path: "/b", Text: z(7), Mt: -1}, {Path: "/b", Text: z(7), Mt: 1}},
				{{Path: "/a", Text: z(7), Mt: 0}, {Path: "/a", Text: z(0), Mt: 0}, {Path: "/a", Text: z(7), Mt: 0, Ns: 1}, {Path: "/a", Text: z(0), Mt: 7}},
			}[r.Intn(11)]
			s.Opts = []stOpt{{Prefix: "/st", Fs: "dir", Etag: 1 + r.Intn(2)}}
			for _, f := range l {
				m := pick(r, "GET", "HEAD")
				if f.Big > 0 {
					m = "HEAD"
				}
				s.Ops = append(s.Ops, stOp{A: "write", Path: f.Path, Text: f.Text, Mt: f.Mt, Era: f.Era, Big: f.Big, Ns: f.Ns},
					stOp{A: "get", M: m, Path: "/st" + f.Path, Raw: "/st" + f.Path, Inm: pick(r, "", "cur", "old")})
			}
			out = append(out, s)
			continue
		}
		near := func(n string) string {
			return pick(r, n+".html", n+".html", n+".gz", n+".br", n+".htm", strings.ToUpper(n), strings.ToLower(n), "_"+n, n+"~", n+".txt", n+".", n+" ", strings.TrimSuffix(n, ".txt"), n+".index.html")
		}
		dirs := []string{""}
		seen := map[string]bool{"/": true}
		addF := func(p string, dir bool) {
			if seen[p] {
				return
			}
			seen[p] = true
			f := stFile{Path: p, Dir: dir}
			if dir {
				dirs = append(dirs, p)
			} else {
				f.Text, f.Mt = text(), mts[r.Intn(len(mts))]
				if r.Intn(3) == 0 {
					f.Ns = int64(r.Intn(1000000000))
				}
			}
			s.Files = append(s.Files, f)
		}
		for x := 4 + r.Intn(8); x > 0; x-- {
			d := dirs[r.Intn(len(dirs))]
			n := pick(r, mine...)
			if r.Intn(5) == 0 { // only a relative of the name
				n = near(n)
			}
			addF(d+"/"+n, n != "index.html" && r.Intn(3) == 0 && strings.Count(d, "/") < 3)
		}
		for _, d := range dirs {
			if index == "sub/i.html" {
				if r.Intn(3) == 0 {
					addF(d+"/sub", true)
					addF(d+"/sub/i.html", false)
				}
			} else if index != "" && r.Intn(2) == 0 {
				addF(d+"/"+index, r.Intn(8) == 0 && index != "index.html")
			}
		}
		prefixes := []string{"", "/st", "/d", "/a/b", "/a b", "/日本", "/p", "/st/x"}
		r.Shuffle(len(prefixes), func(a, b int) { prefixes[a], prefixes[b] = prefixes[b], prefixes[a] })
		for x := 0; x < 1+r.Intn(2); x++ {
			o := stOpt{Prefix: prefixes[x], Fs: pick(r, "dir", "dir", "fs"), Form: pick(r, "", "", "bare", "slash")}
			if r.Intn(2) == 0 {
				o.Index = index
			}
			if twins {
				o.Etag = 1 + r.Intn(2)
			} else if etags || r.Intn(6) == 0 {
				o.Etag = r.Intn(3)
				o.Expires = r.Intn(2) == 0
			}
			s.Opts = append(s.Opts, o)
		}
		if r.Intn(3) == 0 && !etags {
			for _, u := range []string{"/favicon.ico", "/index.html", "/st/one", "/x/*"}[:1+r.Intn(4)] {
				s.Singles = append(s.Singles, stSingle{Uri: u, Text: "single " + u, Missing: r.Intn(6) == 0})
			}
		}
		// requests
		enc := func(p string) string {
			u := (&url.URL{Path: p}).EscapedPath()
			if r.Intn(6) == 0 { // needless escapes
				b := ""
				for j := 0; j < len(p); j++ {
					if p[j] != '/' && r.Intn(2) == 0 || strings.IndexByte("%?# <>\"", p[j]) >= 0 || p[j] > 126 {
						b += fmt.Sprintf("%%%02X", p[j])
					} else {
						b += string(p[j : j+1])
					}
				}
				u = b
			}
			return u
		}
		tree := map[string]bool{}
		for _, f := range s.Files {
			tree[f.Path] = f.Dir
		}
		used := []string{}
		rounds := 5 + r.Intn(6)
		if twins {
			rounds = 14
		}
		for x := rounds; x > 0; x-- {
			if etags && r.Intn(5) == 0 { // change a file
				l := []string{}
				for _, f := range s.Files {
					if !f.Dir {
						l = append(l, f.Path)
					}
				}
				if len(l) > 0 {
					p := pick(r, l...)
					if _, ok := tree[p]; ok && r.Intn(5) == 0 {
						s.Ops = append(s.Ops, stOp{A: "rm", Path: p})
						delete(tree, p)
					} else {
						s.Ops = append(s.Ops, stOp{A: "write", Path: p, Text: text(), Mt: mts[r.Intn(len(mts))], Ns: int64(r.Intn(2) * r.Intn(1000000000))})
						tree[p] = false
					}
					continue
				}
			}
			o := s.Opts[r.Intn(len(s.Opts))]
			f := s.Files[r.Intn(len(s.Files))]
			p := o.Prefix + f.Path
			if f.Dir && r.Intn(2) == 0 {
				p += "/"
			}
			switch r.Intn(14) {
			case 0: // up and down again
				p = strings.Replace(p, "/", pick(r, "/../", "/./", "//", "/d/../", "/../../../"), 1+r.Intn(1))
			case 1:
				p += pick(r, "/", "//", "/..", "/.", "/../", "/secret", "/f", "x")
			case 2:
				p = o.Prefix + "/" + pick(r, "../secret", "../../etc/passwd", "..", ".", "secret", "../root/f", "d/../../secret", "", "...", "..\\secret", "./f")
			case 3:
				j := strings.LastIndex(p, "/")
				p = p[:j] + pick(r, "/..", "//", "/.", "/nope", "/d/..") + p[j:]
			case 4:
				if len(s.Singles) > 0 {
					p = strings.Replace(s.Singles[r.Intn(len(s.Singles))].Uri, "*", pick(r, "a", "a/b", "../z", "index.html"), 1)
				}
			}
			if f.Path != "/" && r.Intn(7) == 0 { // a name much like one that is there
				j := strings.LastIndex(f.Path, "/")
				n := f.Path[j+1:]
				if r.Intn(2) == 0 {
					n = near(n)
				} else if k := strings.LastIndex(n, "."); k > 0 {
					n = n[:k]
				} else {
					n = strings.ToUpper(n)
				}
				p = o.Prefix + f.Path[:j+1] + n
			}
			if len(used) > 0 && r.Intn(2) == 0 && etags {
				p = pick(r, used...)
			}
			if twins && r.Intn(3) > 0 {
				p = o.Prefix + f.Path
			}
			used = append(used, p)
			op := stOp{A: "get", M: pick(r, "GET", "GET", "GET", "HEAD"), Path: p, Raw: enc(p), Hs: r.Intn(3) == 0}
			if r.Intn(5) == 0 {
				op.Rg = pick(r, "all", "first", "last", "beyond")
			}
			if etags && r.Intn(2) == 0 {
				op.Inm = pick(r, "cur", "cur", "cur", "old", "quoted", "weak", "list", "spaced", "longer", "shorter", "nonsense", "5f5e10051")
			}
			s.Ops = append(s.Ops, op)
		}
		out = append(out, s)
	}
	return out
}
