// Command vh executes scenarios against github.com/meilihao/water and records
// what the real code did, one JSON line per scenario, for validation by TLC.
//
//	vh -family F -profile P -seed N -n COUNT -tier T [-in scenarios] -out trace
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"github.com/meilihao/water"
)

// Env is what generators get.
type Env struct {
	R       *rand.Rand
	Profile string
	N       int
	Tier    string
	Seed    int64
	Scratch string // private scratch directory of this run
}

// Family is one kind of scenario.
type Family struct {
	Gen  func(e *Env) []interface{}                             // random scenarios
	Exec func(e *Env, raw json.RawMessage) (interface{}, error) // run one, return it with observations filled in
}

var families = map[string]Family{}

// stats are reported to the evidence file.
var stats = map[string]int{}

func count(k string) { stats[k]++ }

var hung bool

func main() {
	family := flag.String("family", "", "")
	profile := flag.String("profile", "", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "")
	tier := flag.String("tier", "quick", "")
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	scratch := flag.String("scratch", "", "")
	statsOut := flag.String("stats", "", "")
	limit := flag.Duration("limit", 60*time.Second, "per scenario time limit")
	flag.Parse()

	f, ok := families[*family]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", *family)
		os.Exit(2)
	}
	debug.SetMaxStack(64 << 20)
	water.LogClose = true
	h := int64(0)
	for _, c := range *family + "/" + *profile {
		h = h*131 + int64(c)
	}
	os.Setenv("TMPDIR", *scratch) // large uploads go there
	e := &Env{R: rand.New(rand.NewSource(*seed*1000003 + h)), Profile: *profile, N: *n, Tier: *tier, Seed: *seed, Scratch: *scratch}

	var raws []json.RawMessage
	if *in != "" {
		b, err := os.ReadFile(*in)
		die(err)
		for _, l := range bytes.Split(b, []byte("\n")) {
			if len(bytes.TrimSpace(l)) > 0 {
				raws = append(raws, json.RawMessage(l))
			}
		}
	}
	if *n > 0 && f.Gen != nil {
		for _, s := range f.Gen(e) {
			raws = append(raws, enc(s))
		}
	}

	// the default renderer can be used until another one is set, and never again
	sort.SliceStable(raws, func(i, j int) bool {
		return bytes.Contains(raws[i], []byte(`"HTMLdef"`)) && !bytes.Contains(raws[j], []byte(`"HTMLdef"`))
	})

	o, err := os.Create(*out)
	die(err)
	w := bufio.NewWriterSize(o, 1<<20)
	realStdout = os.Stdout
	cur, err := os.Create(*out + ".cur")
	die(err)
	for i, raw := range raws {
		cur.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		cur.WriteAt(append(raw, '\n'), 12)
		cur.Truncate(int64(13 + len(raw)))
		type result struct {
			v   interface{}
			err error
		}
		ch := make(chan result, 1)
		go func() {
			v, err := f.Exec(e, raw)
			ch <- result{v, err}
		}()
		select {
		case r := <-ch:
			if r.err != nil {
				fmt.Fprintln(os.Stderr, "harness error in scenario", i, ":", r.err)
				os.Exit(2)
			}
			w.Write(enc(r.v))
			w.WriteByte('\n')
		case <-time.After(*limit):
			fmt.Fprintln(os.Stderr, "HANG in scenario", i)
			w.Flush()
			o.Close()
			os.Exit(3)
		}
	}
	die(w.Flush())
	die(o.Close())
	cur.Close()
	os.Remove(*out + ".cur")
	if *statsOut != "" {
		stats["scenarios"] = len(raws)
		die(os.WriteFile(*statsOut, enc(stats), 0644))
	}
}

var realStdout *os.File

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
}

// enc marshals v without HTML escaping and with null replaced by [] (TLC's Json has no null).
func enc(v interface{}) json.RawMessage {
	if r, ok := v.(json.RawMessage); ok {
		return r
	}
	var b bytes.Buffer
	j := json.NewEncoder(&b)
	j.SetEscapeHTML(false)
	die(j.Encode(v))
	raw := bytes.TrimSpace(b.Bytes())
	if bytes.Contains(raw, []byte("null")) {
		d := json.NewDecoder(bytes.NewReader(raw))
		d.UseNumber()
		var x interface{}
		die(d.Decode(&x))
		b.Reset()
		die(j.Encode(denull(x)))
		raw = bytes.TrimSpace(b.Bytes())
	}
	return append(json.RawMessage(nil), raw...)
}

func denull(x interface{}) interface{} {
	switch v := x.(type) {
	case nil:
		return []interface{}{}
	case []interface{}:
		for i := range v {
			v[i] = denull(v[i])
		}
	case map[string]interface{}:
		for k := range v {
			v[k] = denull(v[k])
		}
	}
	return x
}

func dec(raw json.RawMessage, v interface{}) error {
	return json.Unmarshal(raw, v)
}

// pairs turns a string map into a sorted list of pairs.
func pairs(m map[string]string) [][]string {
	r := [][]string{}
	for k, v := range m {
		r = append(r, []string{k, v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	return r
}

func itoa(i int) string { return strconv.Itoa(i) }

// caught runs f and returns the text of its panic, "" if none.
func caught(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

// silence runs f with os.Stdout redirected to a file and returns what was printed.
func captureStdout(e *Env, f func()) string {
	t, err := os.CreateTemp(e.Scratch, "stdout")
	die(err)
	old := os.Stdout
	os.Stdout = t
	defer func() {
		os.Stdout = old
		t.Close()
		os.Remove(t.Name())
	}()
	f()
	t.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(t)
	return string(b)
}
