package main

import (
	"reflect"
	"strings"
	"time"
	"unsafe"

	"mime/multipart"
)

// Target types as programs write them: what package reflect cannot make
// (embedded unexported types, named scalar types). Their description is read
// off the type.

type (
	Color  string
	Level  int8
	Ratio  float32
	Flag   bool
	Count  uint16
	shade  string
	Any    interface{}
	depth  int
	marker interface{}
)

type catInner struct {
	A string `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	B int    `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
}
type catDeep struct {
	catInner
	C uint8 `form:"c" header:"c" uri:"c" json:"c" xml:"c"`
}
type CatOpen struct {
	D string  `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
	E *int16  `form:"e" header:"e" uri:"e" json:"e" xml:"e"`
	F []Color `form:"f" header:"f" uri:"f" json:"f" xml:"f"`
}
type CatAddr struct {
	City Color  `form:"g" header:"g" uri:"g" json:"g" xml:"g"`
	Zip  *Level `form:"h" header:"h" uri:"h" json:"h" xml:"h"`
	Tags []Flag `form:"i" header:"i" uri:"i" json:"i" xml:"i"`
}

// embedded, unexported
type catT1 struct {
	catInner
	D Level `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
}
type catT2 struct {
	D Level `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
	catDeep
	G *Color `form:"g" header:"g" uri:"g" json:"g" xml:"g"`
}
type catT3 struct {
	*catInner        // cannot be made from outside
	D         string `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
}
type catT4 struct {
	*CatOpen
	catDeep
	U string `form:"u" header:"u" uri:"u" json:"u" xml:"u"`
}
type catT5 struct {
	CatOpen `form:"-" header:"-" uri:"-" json:"-" xml:"-"`
	catInner
	K Count `form:"k" header:"k" uri:"k" json:"k" xml:"k"`
}
type catT6 struct {
	catInner `form:"-" header:"-" uri:"-" json:"-" xml:"-"`
	K        []Count `form:"k" header:"k" uri:"k" json:"k" xml:"k"`
}

// named kinds
type catT7 struct {
	A Color    `form:"a,default=red" header:"a,default=red" uri:"a,default=red" json:"a" xml:"a"`
	B Level    `form:"b,default=7" header:"b,default=7" uri:"b,default=7" json:"b" xml:"b"`
	C Ratio    `form:"c" header:"c" uri:"c" json:"c" xml:"c"`
	D Flag     `form:"d,default=true" header:"d,default=true" uri:"d,default=true" json:"d" xml:"d"`
	E Count    `form:"e" header:"e" uri:"e" json:"e" xml:"e"`
	F []Color  `form:"f" header:"f" uri:"f" json:"f" xml:"f"`
	G []Level  `form:"g" header:"g" uri:"g" json:"g" xml:"g"`
	H *Color   `form:"h" header:"h" uri:"h" json:"h" xml:"h"`
	I *Level   `form:"i,default=-3" header:"i,default=-3" uri:"i,default=-3" json:"i" xml:"i"`
	J []Flag   `form:"j,default=true" header:"j,default=true" uri:"j,default=true" json:"j" xml:"j"`
	K [2]Level `form:"k" header:"k" uri:"k" json:"k" xml:"k"`
}

// the same type twice, and through a pointer
type catT8 struct {
	Home CatAddr
	Work *CatAddr
	L    Level `form:"l" header:"l" uri:"l" json:"l" xml:"l"`
}
type catT9 struct {
	Home struct {
		catInner
		Place CatAddr
	}
	M *struct {
		*CatAddr
		N Color `form:"n" header:"n" uri:"n" json:"n" xml:"n"`
	}
}

// embedded, and no struct
type catT10 struct {
	Color `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	B     int `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
}
type catT11 struct {
	*Level `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	B      string `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
	Ratio
}
type catT12 struct {
	shade `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	depth
	B string `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
}
type catT13 struct {
	Any    `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	marker `form:"c" header:"c" uri:"c" json:"c" xml:"c"`
	B      string `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
}
type catT14 struct {
	time.Time `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	B         string `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
}
type catT15 struct {
	*time.Time    `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	B             *time.Time `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
	time.Duration `form:"c" header:"c" uri:"c" json:"c" xml:"c"`
}
type catT16 struct {
	*multipart.FileHeader `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	B                     string `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
}
type catT17 struct {
	catInner `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
	D        string `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
}

// an outer field by the same name
type catT18 struct {
	catInner
	CatOpen
	A Level  `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	D *Color `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
}
type catT19 struct {
	_ string `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	a string `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	A string `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	_ int    `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
	B *bool  `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
}
type catT20 struct {
	catDeep
	P struct {
		Q struct {
			catDeep
			R []Level `form:"r" header:"r" uri:"r" json:"r" xml:"r"`
		}
		*CatOpen
	}
}
type catT21 struct {
	F func()   `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
	G chan int `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
	H Color    `form:"c" header:"c" uri:"c" json:"c" xml:"c"`
}

var catTypes = map[string]reflect.Type{
	"1":  reflect.TypeOf(catT1{}),
	"2":  reflect.TypeOf(catT2{}),
	"3":  reflect.TypeOf(catT3{}),
	"4":  reflect.TypeOf(catT4{}),
	"5":  reflect.TypeOf(catT5{}),
	"6":  reflect.TypeOf(catT6{}),
	"7":  reflect.TypeOf(catT7{}),
	"8":  reflect.TypeOf(catT8{}),
	"9":  reflect.TypeOf(catT9{}),
	"10": reflect.TypeOf(catT10{}),
	"11": reflect.TypeOf(catT11{}),
	"12": reflect.TypeOf(catT12{}),
	"13": reflect.TypeOf(catT13{}),
	"14": reflect.TypeOf(catT14{}),
	"15": reflect.TypeOf(catT15{}),
	"16": reflect.TypeOf(catT16{}),
	"17": reflect.TypeOf(catT17{}),
	"18": reflect.TypeOf(catT18{}),
	"19": reflect.TypeOf(catT19{}),
	"20": reflect.TypeOf(catT20{}),
	"21": reflect.TypeOf(catT21{}),
}

// those that documents can fill, too ("7" has an array)
var catXML = []string{"1", "2", "4", "8", "9"}
var catJSON = append([]string{"7"}, catXML...)
var catAll = func() []string {
	l := []string{}
	for i := 1; i <= len(catTypes); i++ {
		l = append(l, itoa(i))
	}
	return l
}()

// Types of one name, told apart by where they are declared: with and without
// constraints.
func catSame1() reflect.Type {
	type form struct {
		A string `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
		B int    `form:"b" header:"b" uri:"b" json:"b" xml:"b"`
	}
	return reflect.TypeOf(form{})
}
func catSame2() reflect.Type {
	type form struct {
		A string `form:"a" header:"a" uri:"a" json:"a" xml:"a" binding:"required,min=2"`
		B int    `form:"b" header:"b" uri:"b" json:"b" xml:"b" binding:"max=3"`
	}
	return reflect.TypeOf(form{})
}
func catSame3() reflect.Type {
	type form struct {
		A string `form:"a" header:"a" uri:"a" json:"a" xml:"a" binding:"max=1"`
		B int    `form:"b" header:"b" uri:"b" json:"b" xml:"b" binding:"required"`
	}
	return reflect.TypeOf(form{})
}
func catSame4() reflect.Type {
	type item struct {
		C int    `form:"c" header:"c" uri:"c" json:"c" xml:"c" binding:"gte=2"`
		D string `form:"d" header:"d" uri:"d" json:"d" xml:"d" binding:"len=1"`
	}
	type form struct {
		A string `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
		B item
	}
	return reflect.TypeOf(form{})
}
func catSame5() reflect.Type {
	type item struct {
		C int    `form:"c" header:"c" uri:"c" json:"c" xml:"c"`
		D string `form:"d" header:"d" uri:"d" json:"d" xml:"d"`
	}
	type form struct {
		A string `form:"a" header:"a" uri:"a" json:"a" xml:"a"`
		B item
	}
	return reflect.TypeOf(form{})
}

func init() {
	for i, t := range []reflect.Type{catSame1(), catSame2(), catSame3(), catSame4(), catSame5()} {
		catTypes["s"+itoa(i+1)] = t
	}
}

var catSame = []string{"s1", "s2", "s3", "s4", "s5"}

// catFields describes the fields of a struct type.
func catFields(t reflect.Type) []bField {
	l := []bField{}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		f := bField{N: sf.Name, R: []bRule{}, Sub: []bField{}}
		k := sf.Type
		if k.Kind() == reflect.Slice {
			f.L, k = true, k.Elem()
		} else if k.Kind() == reflect.Array {
			f.L, f.A, k = true, k.Len(), k.Elem()
		}
		if k.Kind() == reflect.Ptr {
			f.P, k = true, k.Elem()
		}
		f.K = k.Kind().String()
		switch {
		case k == bKinds["time"]:
			f.K, f.E = "time", sf.Anonymous
		case k == bKinds["dur"]:
			f.K = "dur"
		case k == bKinds["file"]:
			f.K, f.E = "file", sf.Anonymous
		case f.K == "struct":
			f.E, f.Sub = sf.Anonymous, catFields(k)
		case f.K == "interface" || f.K == "func" || f.K == "chan":
			f.K = "any"
		}
		f.Ex = sf.PkgPath == "" || f.K == "struct" && f.E && !f.P
		tag := strings.Split(sf.Tag.Get("form"), ",default=")
		if f.T = tag[0]; len(tag) > 1 {
			f.D = tag[1]
		}
		if sf.PkgPath != "" && f.E && f.T != "-" {
			f.T = ""
		}
		if b := sf.Tag.Get("binding"); b != "" {
			for _, x := range strings.Split(b, ",") {
				rp := append(strings.SplitN(x, "=", 2), "")
				f.R = append(f.R, bRule{rp[0], rp[1]})
			}
		}
		l = append(l, f)
	}
	return l
}

// catPre lets some fields hold something before.
func (g *bGen) catPre(fs []bField, t reflect.Type) {
	for i := range fs {
		f := &fs[i]
		if f.K == "struct" {
			g.catPre(f.Sub, t)
		}
		if f.K == "file" || f.K == "any" || f.A > 0 || f.K == "struct" && !f.P || g.r.Intn(3) > 0 {
			continue
		}
		if f.K == "struct" && f.E && f.N[0] >= 'a' && f.N[0] <= 'z' {
			f.Ex = true // bound when it is there
		}
		f.Pre = f.Ex
	}
}

// settable gives access to an unexported field.
func settable(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}
