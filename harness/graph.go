package main

import (
	"runtime"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/ilius/go-table/runewidth/uniseg"
)

// ---- segmentation (C16, C17, C23) ----

type GraphCase struct {
	K string `json:"k"`
	T Text   `json:"t"` // seg: the text

	Gr     [][]int `json:"gr"`     // code points per piece of the iterator
	St     []Text  `json:"st"`     // pieces from stepping by hand
	Sw     []int   `json:"sw"`     // reported widths
	RestOK bool    `json:"restok"` // piece + remainder is always what was passed in
	Before int     `json:"before"` // number of code points before the first piece, -1 nil
	After  []int   `json:"after"`
	More   []bool  `json:"more"`
	R      int     `json:"r"` // the text is T this many times, between P and Q
	P      Text    `json:"p"`
	Q      Text    `json:"q"`
	Kept   bool    `json:"kept"` // code points reported earlier are still the same in the end, and other iterators do not matter

	N    int   `json:"n"` // cls: length, first index, count
	F    int   `json:"f"`
	C    int   `json:"c"`
	Reps []int `json:"reps"`
	Bits []int `json:"bits"`
	Ws   []int `json:"ws"` // cls: the widths reported, packed

	Kind string   `json:"kind"` // runs: "b" boundaries, "w" widths
	Ctxs [][]int  `json:"ctxs"` // 0 stands for the code point
	Runs [][3]any `json:"runs"`
	Outcome
}

func runesLen(r []rune) int {
	if r == nil {
		return -1
	}
	return len(r)
}

const stepLimit = 1 << 22 // more steps than any text has bytes

func iterate(s string) (gr [][]int) {
	gr = [][]int{}
	g := uniseg.NewGraphemes(s)
	for n := 0; g.Next(); n++ {
		if n > len(s)+5 {
			panic("iteration does not end")
		}
		p := []int{}
		for _, r := range g.Runes() {
			p = append(p, int(r))
		}
		gr = append(gr, p)
	}
	return
}

func execGraph(x any) {
	c := x.(*GraphCase)
	c.Gr, c.St, c.Sw, c.After, c.More = [][]int{}, []Text{}, []int{}, []int{}, []bool{}
	c.Bits, c.Ws, c.Runs = []int{}, []int{}, [][3]any{}
	if c.Reps == nil {
		c.Reps = []int{}
	}
	if c.Ctxs == nil {
		c.Ctxs = [][]int{}
	}
	switch c.K {
	case "seg":
		s := string(c.T)
		if c.R > 0 {
			s = string(c.P) + strings.Repeat(s, c.R) + string(c.Q)
		}
		c.RestOK, c.Kept = true, true
		g := uniseg.NewGraphemes(s)
		// two more iterators in step with it, over the same text and over another
		g2, g3 := uniseg.NewGraphemes(strings.Clone(s)), uniseg.NewGraphemes("🇦"+s)
		c.Before = runesLen(g.Runes())
		kept := [][]rune{}
		for n := 0; g.Next(); n++ {
			if n > len(s)+5 {
				panic("iteration does not end")
			}
			p := []int{}
			kept = append(kept, g.Runes())
			if g3.Next() {
				g3.Runes()
			}
			for _, r := range kept[n] {
				p = append(p, int(r))
			}
			if !g2.Next() || string(g2.Runes()) != string(kept[n]) {
				c.Kept = false
			}
			if n%3 == 0 && len(g.Runes()) != len(p) {
				p = append(p, -1)
			}
			c.Gr = append(c.Gr, p)
		}
		if g2.Next() {
			c.Kept = false
		}
		for i, k := range kept {
			for j := range c.Gr[i] {
				if j >= len(k) || c.Gr[i][j] != int(k[j]) {
					c.Kept = false
				}
			}
		}
		for i := 0; i < 3; i++ {
			c.After = append(c.After, runesLen(g.Runes()))
			c.More = append(c.More, g.Next())
		}
		rest, state := s, -1
		for n := 0; len(rest) > 0; n++ {
			if n > len(s)+5 {
				panic("stepping does not end")
			}
			cl, rs, b, st := uniseg.StepString(rest, state)
			if cl+rs != rest {
				c.RestOK = false
			}
			c.St = append(c.St, Text(cl))
			c.Sw = append(c.Sw, b>>uniseg.ShiftWidth)
			rest, state = rs, st
		}
		if cl, rs, b, _ := uniseg.StepString("", state); cl != "" || rs != "" || b != 0 {
			c.RestOK = false
		}
	case "cls":
		c.Bits = make([]int, 0, c.C)
		rs := make([]rune, c.N)
		for i := c.F; i < c.F+c.C; i++ {
			idx := i
			for k := c.N - 1; k >= 0; k-- {
				rs[k] = rune(c.Reps[idx%15])
				idx /= 15
			}
			b, w := stepBits(string(rs))
			c.Bits = append(c.Bits, b)
			c.Ws = append(c.Ws, w)
		}
	case "runs":
		c.Runs = allRuns(func(r rune) []int {
			sig := make([]int, len(c.Ctxs))
			for k, ctx := range c.Ctxs {
				var sb strings.Builder
				for _, x := range ctx {
					if x == 0 {
						sb.WriteRune(r)
					} else {
						sb.WriteRune(rune(x))
					}
				}
				if c.Kind == "b" {
					sig[k] = boundaryBits(sb.String())
				} else {
					_, _, b, _ := uniseg.StepString(sb.String(), -1)
					sig[k] = b >> uniseg.ShiftWidth
				}
			}
			return sig
		}, false)
	}
}

// bit i-1 is set if there is a boundary after the i-th character
func boundaryBits(s string) int {
	b, _ := stepBits(s)
	return b
}

// and the widths of the clusters, packed
func stepBits(s string) (bits, ws int) {
	pos := 0
	rest, state := s, -1
	for len(rest) > 0 {
		var cl string
		var b int
		cl, rest, b, state = uniseg.StepString(rest, state)
		if cl == "" {
			return -1, -1
		}
		ws = (ws*101 + b>>uniseg.ShiftWidth) % 10000019
		pos += utf8.RuneCountInString(cl)
		if pos < 32 {
			bits |= 1 << (pos - 1)
		}
	}
	return bits, ws
}

// allRuns groups all code points by the signature f gives them.
func allRuns(f func(rune) []int, surrogates bool) [][3]any {
	type run struct {
		a, b int
		sig  []int
	}
	const parts = 64
	res := make([][]run, parts)
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	var failed any
	var mu sync.Mutex
	for p := 0; p < parts; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					failed = x
					mu.Unlock()
				}
			}()
			per := 0x110000 / parts
			for x := p * per; x < (p+1)*per; x++ {
				if !surrogates && x >= 0xd800 && x <= 0xdfff {
					continue
				}
				s := f(rune(x))
				l := res[p]
				if n := len(l); n > 0 && l[n-1].b == x-1 && eqInts(l[n-1].sig, s) {
					l[n-1].b = x
				} else {
					res[p] = append(l, run{x, x, s})
				}
			}
		}(p)
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
	var all []run
	for _, l := range res {
		for _, x := range l {
			if n := len(all); n > 0 && all[n-1].b == x.a-1 && eqInts(all[n-1].sig, x.sig) {
				all[n-1].b = x.b
			} else {
				all = append(all, x)
			}
		}
	}
	out := [][3]any{}
	for _, x := range all {
		out = append(out, [3]any{x.a, x.b, x.sig})
	}
	return out
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// representatives of the grapheme classes 0..14
var classReps = [15][]int{
	{'a', 0x4e00, 0xe9, 0x1f1a0, 0x20, 0x10000, 0xfffd, 0x2e3a, 0x3ee1}, // Any
	{'\r'}, {'\n'},
	{0, 7, 0x7f, 0x85, 0x200b, 0x2028, 0xfeff, 0xe0001, 0x1b},        // Control
	{0x301, 0xfe0f, 0xfe0e, 0x1f3fb, 0x200c, 0x94d, 0x20dd, 0x1f3ff}, // Extend
	{0x1f469, 0x2764, 0xa9, 0x231a, 0x1f308, 0x2640, 0x3030},         // pictographic
	{0x1100, 0xa960, 0x115f}, {0x1160, 0xd7b0, 0x1175}, {0x11a8, 0xd7cb}, {0xac00, 0xc774}, {0xac01, 0xd7a3},
	{0x600, 0x70f, 0x110bd}, {0x1f1e6, 0x1f1ff}, {0x903, 0x93e, 0xe33}, {0x200d},
}

func randReps(r *rng) []int {
	out := []int{}
	for _, l := range classReps {
		out = append(out, l[r.Intn(len(l))])
	}
	return out
}

// contexts that tell all grapheme classes apart
var boundaryContexts = [][]int{
	{'a', 0}, {0, 'a'}, {0, 0x301}, {'\r', 0}, {0, '\n'}, {0x1100, 0}, {0, 0x1160}, {0, 0x11a8}, {0xac00, 0}, {0xac01, 0},
	{0x1f469, 0x200d, 0}, {0, 0x200d, 0x1f469}, {0x1f1e6, 0}, {0, 0x1f1e6}, {0x1f469, 0, 0x200d, 0x1f469}, {0x600, 0}, {0, 0}, {0, 0, 0},
	{7, 0}, {0, 7}, {'a', 0, 0x1f1e6, 0x1f1e6}, {0x1f469, 0x200d, 0, 0x1f469},
}

var widthContexts = [][]int{
	{0}, {0, 0x301}, {0, 0xfe0f}, {0, 0xfe0e}, {0, 0x200d, 0x1f469}, {0, 0x903}, {0x600, 0}, {0x600, 0, 0xfe0f}, {'a', 0}, {0x1f469, 0}, {0, 0},
	{0x1f469, 0x200d, 0}, {0x1100, 0}, {0x1f1e6, 0}, {'a', 0, 0}, {0x600, 0, 0x301, 0}, {0, 0xfe0f, 0x301}, {0, 0xfe0f, 0x903},
}

func genGraph(emit func(any)) {
	r := newRng(*flagSeed + 600)
	seg := func(s string) { emit(&GraphCase{K: "seg", T: Text(s)}) }
	seg("")
	for i, n := 0, scale(10000, 100000); i < n; i++ {
		seg(r.text(r.length()))
	}
	// sequences of classes with random representatives, long runs included
	for i, n := 0, scale(6000, 60000); i < n; i++ {
		var sb strings.Builder
		m := r.between(1, 12)
		if r.chance(0.03) {
			m = r.between(12, 200)
		}
		last := r.Intn(15)
		for k := 0; k < m; k++ {
			if !r.chance(0.25) {
				last = r.Intn(15)
			}
			l := classReps[last]
			sb.WriteRune(rune(l[r.Intn(len(l))]))
			if r.chance(0.02) {
				sb.WriteString(r.badUTF8())
			}
		}
		seg(sb.String())
	}
	for _, u := range []string{"\x1f", "🇦", "👩\u200d", "\u0301", "각", "ᄀ", "\r\n", "\xff", "\u0600", "a"} {
		for _, n := range []int{2, 3, 31, 32, 33, 64, 255, 256, 257, 1000, 1001} {
			seg(strings.Repeat(u, n))
			seg("x" + strings.Repeat(u, n) + "👩\u200d👩y")
		}
	}
	// very long pieces and very many of them, with something particular at the end
	long := func(p, u string, n int, q string) {
		emit(&GraphCase{K: "seg", T: Text(u), R: n, P: Text(p), Q: Text(q)})
	}
	ends := []string{"", "a", "👩\u200d👩y", "🇦🇦🇦", "\u0301b", "\r\n", "가각", "\xe3\x81", "\u0600x"}
	for _, u := range []string{"a", "\u0301", "🇦", "👩\u200d", "각", "ᄀ", "\r\n", "\xff", "\u0600", "あ", "e\u0301", "👩🏽\u200d🍳"} {
		for k := 0; k < scale(2, 5); k++ {
			long(r.pick("", "a", "👩", "ᄀ"), u, r.pick2(r.between(2000, 9000), 4095, 4096, 4097, 8192), ends[r.Intn(len(ends))])
		}
	}
	// a rule that looks back over a long run
	for _, n := range []int{2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, r.between(300, 2000)} {
		for _, u := range []string{"\u0301", "\ufe0f", "🏽", "\u0301\ufe0f"} {
			long(r.pick("👩", "x👩", "\u0600❤"), u, n, r.pick("\u200d👩y", "\u200d👩\u200d👩", "\u200d\u200d👩", "\u200da", "👩"))
			long("👩\u200d", u, n, "\u200d👩y")
		}
		long(r.pick("a", "ᄀ", "\u0600"), "🇦", n, r.pick("🇧c", "\u0301🇦🇦", "\u200d🇦🇧"))
		long("ᄀ", "ᅡ", n, r.pick("ᆨᅡ", "ᆨᆨᄀ", "각"))
		long("ᄀ", "ᄀ", n, r.pick("가ᅡ", "각ᆨ", "ᆨ"))
		long("가", "ᆨ", n, r.pick("ᆨᅡ", "\u0301ᆨ", "ᄀ"))
		long("a", "\u0600", n, r.pick("b", "\u0301a", "🇦🇧", "👩\u200d👩", "\n", "각"))
		long("a", "\u0903", n, r.pick("b", "\u0301a", "\u200d👩"))
	}
	for i := 0; i < scale(2, 8); i++ {
		long("x", r.text(5), r.between(300, 900), ends[r.Intn(len(ends))])
	}
	for _, u := range []string{"a", "\u0301", "🇦", "👩\u200d"} {
		long(r.pick("", "b", "👩"), u, r.pick2(65535, 65536, 65537, 70001), ends[r.Intn(len(ends))])
	}
}

func genGraphCls(emit func(any)) {
	r := newRng(*flagSeed + 700)
	for n := 1; n <= scale(4, 5); n++ {
		total := pow(15, n)
		chunk := 1000
		for f := 0; f < total; f += chunk {
			c := chunk
			if f+c > total {
				c = total - f
			}
			emit(&GraphCase{K: "cls", N: n, F: f, C: c, Reps: randReps(r)})
		}
	}
	// and a sample of longer ones
	for i, k := 0, scale(60, 600); i < k; i++ {
		n := r.between(5, 7)
		total := pow(15, n)
		emit(&GraphCase{K: "cls", N: n, F: r.Intn(total - 1000), C: 1000, Reps: randReps(r)})
	}
}

func genGraphRuns(emit func(any)) {
	emit(&GraphCase{K: "runs", Kind: "b", Ctxs: boundaryContexts})
	emit(&GraphCase{K: "runs", Kind: "w", Ctxs: widthContexts})
}

func init() {
	suites["graph"] = suite{genGraph, loader[GraphCase](), execGraph}
	suites["graphcls"] = suite{genGraphCls, loader[GraphCase](), execGraph}
	suites["graphruns"] = suite{genGraphRuns, loader[GraphCase](), execGraph}
}
