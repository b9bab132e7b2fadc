package main

import (
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
)

// constGetter formats every row as the text it is given
type constGetter struct{}

func (constGetter) Value(item any) (any, error)                    { return item, nil }
func (constGetter) ValueString(_ string, item any) (string, error) { return item.(string), nil }
func (constGetter) Format(_ any, value any) (string, error)        { return value.(string), nil }

// measure is the width a fresh table records for the text
func measure(s string) int {
	t := table.NewTable(nil)
	t.AddColumn(&table.Column{Name: "c", Getter: constGetter{}})
	if _, err := t.FormatItem(s); err != nil {
		panic(err)
	}
	return int(t.Width("c"))
}

var alignments = map[string]table.Alignment{
	"L": table.AlignmentLeft,
	"R": table.AlignmentRight,
	"C": table.AlignmentCenter,
}

// ---- C01: single texts, and all texts over an alphabet ----

type WidthCase struct {
	K  string `json:"k"` // "one", "rep" or "enum"
	EA bool   `json:"ea"`
	P  Text   `json:"p"` // rep: before
	T  Text   `json:"t"` // one: the text; rep: the repeated unit; enum: the alphabet
	Q  Text   `json:"q"` // rep: after
	N  int    `json:"n"` // rep: repetitions; enum: length
	F  int    `json:"f"` // enum: index of the first text
	C  int    `json:"c"` // enum: how many
	W  []int  `json:"w"` // observed
	Outcome
}

func enumText(alpha []rune, n, idx int) string {
	rs := make([]rune, n)
	for k := n - 1; k >= 0; k-- {
		rs[k] = alpha[idx%len(alpha)]
		idx /= len(alpha)
	}
	return string(rs)
}

func pow(b, e int) int {
	p := 1
	for ; e > 0; e-- {
		p *= b
	}
	return p
}

func execWidth(x any) {
	c := x.(*WidthCase)
	c.EA = runewidth.DefaultCondition.EastAsianWidth
	c.W = []int{}
	switch c.K {
	case "one":
		c.W = append(c.W, measure(string(c.T)))
	case "rep":
		c.W = append(c.W, measure(string(c.P)+strings.Repeat(string(c.T), c.N)+string(c.Q)))
	case "enum":
		alpha := []rune(string(c.T))
		for i := c.F; i < c.F+c.C; i++ {
			c.W = append(c.W, measure(enumText(alpha, c.N, i)))
		}
	}
}

func genEnum(emit func(alpha string, n, from, count int), alpha string, n, chunk int) {
	total := pow(chars(alpha), n)
	for f := 0; f < total; f += chunk {
		c := chunk
		if f+c > total {
			c = total - f
		}
		emit(alpha, n, f, c)
	}
}

func genWidth(emit func(any)) {
	r := newRng(*flagSeed)
	ea := runewidth.DefaultCondition.EastAsianWidth
	one := func(s string) { emit(&WidthCase{K: "one", T: Text(s)}) }
	// every final character after every shape of prefix
	prefixes := []string{"\x1b", "\x1b[", "\u009b", "\x1b[1", "\x1b[12;", "\x1b[1;34", "\x1b(", "\x1b[?25", "\x1b[1234", "\x1b[12345", "\x1b[1;23456", "\x1b[;;1", "\x1b[1;;", "\u009b38;5;200", "\x1b[38;2;1;2;3", "a\x1b[0mb\x1b[", "\x1b[#?();"}
	for _, p := range prefixes {
		for c := 0; c < 0x100; c++ {
			one(p + string(rune(c)))
		}
		for i := 0; i < 20; i++ {
			one(p + r.anyRune() + r.piece())
		}
		one(p)
	}
	// number of digits, parameters and leads
	for d := 0; d <= 12; d++ {
		for _, sep := range []string{"", ";", ";;", "[", "?"} {
			for _, fin := range []string{"", "m", "x", ";", "あ"} {
				one("\x1b[" + strings.Repeat("7", d) + sep + strings.Repeat("3", d/2) + fin + "z")
				one("\u009b" + strings.Repeat("1;", d) + sep + fin + "é")
				one(strings.Repeat("\x1b[1m", d) + sep + "ab" + fin + strings.Repeat("\x1b[0m", d))
				one(strings.Repeat("\x1b", d) + "[1m" + sep + fin)
			}
		}
	}
	// far more parameters, leads and sequences than anybody writes
	rep := func(p, u string, n int, q string) {
		emit(&WidthCase{K: "rep", P: Text(p), T: Text(u), N: n, Q: Text(q)})
	}
	for _, n := range []int{13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300} {
		rep("a\x1b[", "1;", n, "5mb")
		rep("\u009b", "38;", n, "mあ")
		rep("x\x1b[4", ";", n, "mé")
		rep("\x1b[4", ";1234", n, "K☆")
		rep("\x1b", "[", n, "mz")
		rep("\x1b[", "?", n, "25hz")
		rep("\x1b", "(;", n, "1mz")
		rep("\x1b[", "7", n, "mz")
		rep("", "\x1b", n, "[1mz")
		rep("q", "\x1b[1m", n, "z")
		rep("\x1b[0", ";;1", n, "z")
	}
	// what comes after, or before, a lot of text
	for _, n := range []int{61, 62, 63, 64, 126, 127, 128, 254, 255, 256, 510, 511, 512, 1020, 1023, 1024, 2047, 2048, 4090, 4095, 4096, 8190, 8191, 8192, 16384, 32766, 32768} {
		for _, q := range []string{"\x1b[31mあ\x1b[0m", "\u009b1mé", "e\u0301", "👩\u200d🍳", "\x1b[1", "あ\u200b☆"} {
			u := r.pick("a", "a", "あ", "é", "xy ")
			if n > 5000 {
				u = "a"
			}
			rep("", u, n, q)
			if n <= 4096 {
				rep(q, u, n, "")
				rep(q, u, n, q)
			}
		}
	}
	for _, n := range []int{65490, 65527, 65530, 65533, 65534, 65535} {
		if (n%2 == 0) == ea {
			rep("\x1b[1m", "a", n, r.pick("あ\x1b[0m", "\x1b[31mab\x1b[0m", "👩\u200d🍳☆", "e\u0301あ\x1b[m"))
		}
	}
	// every code point of some blocks between plain letters
	for c := 0; c < 0x600; c++ {
		if c%3 == int(*flagSeed)%3 || c < 0x200 {
			one("a" + string(rune(c)) + "b")
		}
	}
	for i, n := 0, scale(12000, 120000); i < n; i++ {
		one(r.text(r.length()))
	}
	// long texts
	for i, n := 0, scale(12, 60); i < n; i++ {
		one(r.text(r.between(200, 900)))
	}
	for _, u := range []string{"a", "あ", "👩\u200d🍳", "e\u0301", "\x1b[1mx", "\x1b[31m", "\u009b0m", "\u0301", "x\x1b[0mあ"} {
		ns := []int{127, 128, 255, 256, 257, 300, 1000, 4096}
		if u == "a" || u == "あ" {
			ns = append(ns, 32767, 32768, 65534, 65535, 65536, 65537)
		}
		if u == "x\x1b[0mあ" {
			ns = append(ns, 22000)
		}
		if u == "a" && !ea {
			ns = append(ns, 131071, 131072, 131100, 200000)
		}
		for _, n := range ns {
			emit(&WidthCase{K: "rep", T: Text(u), N: n})
		}
	}
	enum := func(alpha string, n, from, count int) {
		emit(&WidthCase{K: "enum", T: Text(alpha), N: n, F: from, C: count})
	}
	a1 := "\x1b\u009b[;1mpあ☆\u0301"
	a2 := "\x1b[;?1mxあ"
	a3 := "\x1b[(;0A~👩\u200d\u0301\u0e31가"
	for n := 1; n <= scale(4, 5); n++ {
		genEnum(enum, a1, n, 500)
	}
	genEnum(enum, a2, scale(5, 6), 500)
	genEnum(enum, a3, scale(3, 4), 500)
}

// ---- C03: alignment ----

type AlignCase struct {
	EA   bool   `json:"ea"`
	Al   string `json:"al"`
	T    Text   `json:"t"`
	W    int    `json:"w"`
	Out  Text   `json:"out"`
	Kept bool   `json:"kept"` // the result stays what it was
	Outcome
}

func execAlign(x any) {
	c := x.(*AlignCase)
	c.EA = runewidth.DefaultCondition.EastAsianWidth
	out := alignments[c.Al](string(c.T), uint16(c.W))
	c.Out = Text(strings.Clone(out))
	for _, al := range alignments {
		al("others", uint16(len(out)))
		al(out, uint16(len(out)))
	}
	c.Kept = out == string(c.Out)
}

func genAlign(emit func(any)) {
	r := newRng(*flagSeed + 100)
	all := func(s string, w int) {
		if w < 0 {
			w = 0
		}
		if w > 65535 {
			w = 65535
		}
		for _, al := range []string{"L", "R", "C"} {
			emit(&AlignCase{Al: al, T: Text(s), W: w})
		}
	}
	// all small widths
	for _, s := range []string{"", "a", "ab", "あ", "\x1b[31mab\x1b[0m", "\u0301", "x y ", " p", "e\u0301あ", "\t", "\u009b1mq"} {
		for w := 0; w <= scale(40, 130); w++ {
			all(s, w)
		}
	}
	for _, w := range []int{63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 1023, 1024, 1025, 4095, 4096} {
		for _, s := range []string{"", "abc", "あいう", r.simple(300), "\x1b[1m" + r.simple(20)} {
			all(s, w)
		}
	}
	for _, w := range []int{32767, 32768, 65534, 65535} {
		all("abc", w)
	}
	all(strings.Repeat("a", 65534), 65535)
	all(strings.Repeat("a", 65536), 10)
	all(strings.Repeat("あ", 32768), 65535)
	for i, n := 0, scale(4000, 40000); i < n; i++ {
		s := r.text(r.length())
		m := measure(s)
		all(s, m+r.between(-3, 7))
		if r.chance(0.2) {
			all(s, r.Intn(300))
		}
	}
}

func init() {
	suites["width"] = suite{genWidth, loader[WidthCase](), execWidth}
	suites["align"] = suite{genAlign, loader[AlignCase](), execAlign}
}
