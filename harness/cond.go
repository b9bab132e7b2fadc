package main

import (
	"math"
	"strings"

	"github.com/ilius/go-table/runewidth"
)

// ---- code point widths (C18), conditions and their tables (C19), string widths (C20) ----

type CondOp struct {
	Op     string `json:"op"` // new, set, lut, copy (new from I), assign (I = J), pkglut, flags (package-wide), newflags, replace (the default by I)
	I      int    `json:"i"`  // from 1; condition 1 is the default condition
	J      int    `json:"j"`
	EA     bool   `json:"ea"`
	Strict bool   `json:"strict"`
	// observed: per condition the widths of the sample
	W  [][]int `json:"w"`
	SW [][]int `json:"sw"` // per condition the widths of the texts
	PW []int   `json:"pw"` // the package-level widths of the texts
	TW []int   `json:"tw"` // the column widths of the texts
	AW []int   `json:"aw"` // and their widths as alignment sees them
	// the text measured last before the operation and first after it, and its width then
	Last  int `json:"last"`
	LastW int `json:"lastw"`
}

type CondCase struct {
	K     string   `json:"k"` // "runs", "outs", "hist", "sw", "swenum"
	Order string   `json:"order"`
	Confs [][]bool `json:"confs"` // runs: configurations asked in turn
	Runs  [][3]any `json:"runs"`
	Xs    []int    `json:"xs"` // outs, hist: the code points asked
	Ts    []Text   `json:"ts"` // hist: the texts asked
	Ws    [][]int  `json:"ws"`

	Ops  []CondOp   `json:"ops"`
	Full bool       `json:"full"`
	Priv bool       `json:"priv"` // hist: the default condition is left alone
	Glob []bool     `json:"glob"` // runs, outs: the package-wide flags meanwhile
	Fin  [][][3]any `json:"fin"`  // hist: per condition, the runs in the end

	P   Text `json:"p"` // sw: before
	T   Text `json:"t"` // sw
	Q   Text `json:"q"` // sw: after
	N   int  `json:"n"`
	F   int  `json:"f"`
	C   int  `json:"c"`
	EA  bool `json:"ea"`
	Pkg int  `json:"pkg"`

	base []*runewidth.Condition // hist: as the first operations left them
	pre  int
	last []*runewidth.Condition
	Outcome
}

var fourConfs = [][]bool{{false, true}, {false, false}, {true, true}, {true, false}}

func ordered(order string, f func(x int)) {
	const n = 0x110000
	switch order {
	case "desc":
		for x := n - 1; x >= 0; x-- {
			f(x)
		}
	case "stride":
		for k, x := 0, 12345; k < n; k++ {
			f(x)
			x = (x + 7919) % n
		}
	default:
		for x := 0; x < n; x++ {
			f(x)
		}
	}
}

func runsOf(get func(x int) []int) [][3]any {
	out := [][3]any{}
	var last []int
	from := 0
	for x := 0; x < 0x110000; x++ {
		s := get(x)
		if x > 0 && !eqInts(s, last) {
			out = append(out, [3]any{from, x - 1, last})
			from = x
		}
		last = s
	}
	return append(out, [3]any{from, 0x10ffff, last})
}

var lutConds []*runewidth.Condition

func stringConds() []*runewidth.Condition {
	if lutConds == nil {
		for _, c := range fourConfs {
			lutConds = append(lutConds, &runewidth.Condition{EastAsianWidth: c[0], StrictEmojiNeutral: c[1]})
			l := &runewidth.Condition{EastAsianWidth: c[0], StrictEmojiNeutral: c[1]}
			l.CreateLUT()
			lutConds = append(lutConds, l)
		}
	}
	return lutConds
}

func execCond(x any) {
	c := x.(*CondCase)
	c.EA = runewidth.DefaultCondition.EastAsianWidth
	c.Runs, c.Ws, c.Fin = [][3]any{}, [][]int{}, [][][3]any{}
	if c.Confs == nil {
		c.Confs = [][]bool{}
	}
	if c.Xs == nil {
		c.Xs = []int{}
	}
	if c.Ts == nil {
		c.Ts = []Text{}
		if c.K == "hist" {
			c.Ts = histTexts
		}
	}
	if c.Ops == nil {
		c.Ops = []CondOp{}
	}
	if c.Glob == nil {
		c.Glob = []bool{}
	}
	if len(c.Glob) == 2 || (c.K == "hist" && !c.Priv) {
		a, b := runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral
		defer func() { runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = a, b }()
		if len(c.Glob) == 2 {
			runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = c.Glob[0], c.Glob[1]
		}
	}
	switch c.K {
	case "runs", "outs":
		conds := []*runewidth.Condition{}
		for _, f := range c.Confs {
			conds = append(conds, &runewidth.Condition{EastAsianWidth: f[0], StrictEmojiNeutral: f[1]})
		}
		if c.K == "outs" {
			for _, x := range c.Xs {
				w := []int{}
				for _, cd := range conds {
					w = append(w, cd.RuneWidth(rune(x)))
				}
				c.Ws = append(c.Ws, w)
			}
			return
		}
		vec := make([][]int, 0x110000)
		ordered(c.Order, func(x int) {
			w := make([]int, len(conds))
			for k, cd := range conds {
				w[k] = cd.RuneWidth(rune(x))
			}
			vec[x] = w
		})
		c.Runs = runsOf(func(x int) []int { return vec[x] })
	case "hist":
		var conds []*runewidth.Condition
		if c.pre > 0 {
			for _, b := range c.base {
				n := *b
				conds = append(conds, &n)
			}
		} else if c.Priv {
			conds = append(conds, &runewidth.Condition{EastAsianWidth: c.EA, StrictEmojiNeutral: true})
		} else {
			ptr, saved := runewidth.DefaultCondition, *runewidth.DefaultCondition
			defer func() { runewidth.DefaultCondition, *ptr = ptr, saved }()
			*ptr = runewidth.Condition{EastAsianWidth: c.EA, StrictEmojiNeutral: true}
			conds = append(conds, ptr)
		}
		for k := range c.Ops {
			o := &c.Ops[k]
			if k < c.pre {
				continue
			}
			pin := func() int { return 0 }
			if !c.Priv && len(c.Ts) > 0 {
				o.Last = 1 + (k*5+len(c.Ops)*3)%len(c.Ts)
				if k%2 == 0 && len(c.Ts) > 5 {
					o.Last = []int{3, 6}[k/2%2] // depends on the configuration
				}
				how := (k*3 + len(c.Ops)) % 6
				pin = func() int { return observe(string(c.Ts[o.Last-1]), how) }
			}
			pin()
			pin()
			switch o.Op {
			case "new":
				conds = append(conds, &runewidth.Condition{EastAsianWidth: o.EA, StrictEmojiNeutral: o.Strict})
			case "newcond":
				n := runewidth.NewCondition()
				n.EastAsianWidth, n.StrictEmojiNeutral = o.EA, o.Strict
				conds = append(conds, n)
			case "set":
				conds[o.I-1].EastAsianWidth, conds[o.I-1].StrictEmojiNeutral = o.EA, o.Strict
			case "lut":
				conds[o.I-1].CreateLUT()
			case "copy":
				n := *conds[o.I-1]
				conds = append(conds, &n)
			case "assign":
				*conds[o.I-1] = *conds[o.J-1]
			case "pkglut":
				runewidth.CreateLUT()
			case "flags":
				runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = o.EA, o.Strict
			case "newflags":
				conds = append(conds, runewidth.NewCondition())
			case "replace":
				runewidth.DefaultCondition = conds[o.I-1]
			default:
				panic("no such operation " + o.Op)
			}
			o.LastW = pin()
			o.W = [][]int{}
			for _, cd := range conds {
				w := []int{}
				for _, x := range c.Xs {
					w = append(w, cd.RuneWidth(rune(x)))
				}
				o.W = append(o.W, w)
			}
			o.SW, o.PW = [][]int{}, []int{}
			for _, cd := range conds {
				w := make([]int, len(c.Ts))
				for i := range c.Ts {
					if k%2 == 1 { // what was measured last comes first
						i = len(c.Ts) - 1 - i
					}
					w[i] = cd.StringWidth(string(c.Ts[i]))
				}
				o.SW = append(o.SW, w)
			}
			for _, t := range c.Ts {
				if c.Priv {
					break
				}
				o.PW = append(o.PW, runewidth.StringWidth(string(t)))
			}
			o.TW, o.AW = []int{}, []int{}
			for i, t := range c.Ts {
				if c.Priv {
					break
				}
				a := observe(string(t), 1+(i+k)%5)
				o.TW, o.AW = append(o.TW, measure(string(t))), append(o.AW, a)
			}
		}
		if c.Full {
			for _, cd := range conds {
				cd := cd
				c.Fin = append(c.Fin, runsOf(func(x int) []int { return []int{cd.RuneWidth(rune(x))} }))
			}
		}
		c.last = conds
	case "sw", "swenum":
		ts := []string{string(c.T)}
		if c.K == "swenum" {
			ts = ts[:0]
			alpha := []rune(string(c.T))
			for i := c.F; i < c.F+c.C; i++ {
				ts = append(ts, enumText(alpha, c.N, i))
			}
		} else if c.N > 1 {
			ts[0] = string(c.P) + strings.Repeat(ts[0], c.N) + string(c.Q)
		}
		for _, t := range ts {
			w := []int{}
			for _, cd := range stringConds() {
				w = append(w, cd.StringWidth(t))
			}
			w = append(w, runewidth.StringWidth(t))
			c.Ws = append(c.Ws, w)
		}
	}
}

var histTexts = []Text{"", "a", "☆", "☆☆b", "あ☆", "🌡", "↔x", "©\u0301", "\u070f☆", "👩\u200d☆", "\xff☆",
	Text(strings.Repeat("¡", 20)), Text("☆" + strings.Repeat("a☆", 40)), Text("☆" + strings.Repeat("x", 300) + "☆🌡")}

func genRuneWidth(emit func(any)) {
	r := newRng(*flagSeed + 800)
	for _, f := range fourConfs {
		emit(&CondCase{K: "runs", Order: "asc", Confs: [][]bool{f}})
	}
	emit(&CondCase{K: "runs", Order: "desc", Confs: fourConfs})
	emit(&CondCase{K: "runs", Order: "stride", Confs: [][]bool{fourConfs[3], fourConfs[0], fourConfs[2], fourConfs[1]}})
	xs := []int{-1, -2, -128, -129, -255, -256, -0x10ffff, -0x110000, math.MinInt32, math.MinInt32 + 1, math.MinInt32 + 'a', math.MinInt32 + 0x3042,
		0x110000, 0x110001, 0x1fffff, 0x200000, 0x200000 + 0x3042, math.MaxInt32, math.MaxInt32 - 1, 0x1000000 + 'a', 0x10000000, 0x7fff0041}
	for i := 0; i < 5000; i++ {
		x := int(int32(r.Uint32()))
		if x >= 0 && x <= 0x10ffff {
			x += 0x110000
		}
		xs = append(xs, x)
	}
	for i := 0; i < 1000; i++ {
		xs = append(xs, 0x110000+i, -1-i)
	}
	emit(&CondCase{K: "outs", Confs: fourConfs, Xs: xs})
	for _, g := range fourConfs {
		emit(&CondCase{K: "runs", Order: "asc", Confs: fourConfs, Glob: g})
	}
}

// code points that tell the configurations apart, and others
func condSample(r *rng) []int {
	xs := []int{'a', 0x3042, 0xa1, 0x2606, 0x2194, 0x1f321, 0x23, 0xa9, 0, 0x300, 0xd800, 0x10ffff, 0x10fffe, 0x110000, -1, math.MaxInt32, math.MinInt32, 0x110001}
	for i := 0; i < 14; i++ {
		for _, c := range []rune(r.anyRune()) {
			xs = append(xs, int(c))
		}
	}
	return xs
}

func genCondHist(emit func(any)) {
	r := newRng(*flagSeed + 900)
	for i, n := 0, scale(130, 1300); i < n; i++ {
		c := &CondCase{K: "hist", Xs: condSample(r), Full: i%4 == 0}
		// options, and whether a table exists that was built with others
		type st struct{ ea, strict, lut, stale bool }
		conds := []st{{}}
		def := 0
		fresh := func(k int) { conds[k].stale = conds[k].lut }
		for k, m := 0, r.between(3, 9); k < m; k++ {
			o := CondOp{EA: r.chance(0.5), Strict: r.chance(0.5)}
			i := r.Intn(len(conds))
			o.I = i + 1
			switch x := r.Intn(100); {
			case x < 12 && len(conds) < 5:
				o.Op = r.pick("new", "newcond", "newflags")
				conds = append(conds, st{})
			case x < 40:
				o.Op = "set"
				fresh(i)
			case x < 70:
				o.Op = "lut"
				conds[i].lut, conds[i].stale = true, false
			case x < 85 && len(conds) < 5:
				o.Op = "copy"
				conds = append(conds, conds[i])
			case x < 88:
				o.Op = "flags"
			case x < 92:
				o.Op = "replace"
				def = i
			case x < 95:
				o.Op = "assign"
				o.J = r.Intn(len(conds)) + 1
				conds[i] = conds[o.J-1]
			default:
				if conds[def].stale {
					continue
				}
				o.Op = "pkglut"
				conds[def].lut = true
			}
			c.Ops = append(c.Ops, o)
		}
		if len(c.Ops) > 0 {
			emit(c)
		}
	}
}

func genStringWidth(emit func(any)) {
	r := newRng(*flagSeed + 1000)
	sw := func(s string) { emit(&CondCase{K: "sw", T: Text(s), N: 1}) }
	sw("")
	for i, n := 0, scale(12000, 120000); i < n; i++ {
		sw(r.text(r.length()))
	}
	for _, u := range []string{"a", "あ", "👩\u200d🍳", "🇯", "e\u0301", "\u0301", "\u0600", "ᄀ", "\xff", "☆", "\u0600あ", "\u200d"} {
		for _, n := range []int{2, 3, 31, 32, 33, 127, 128, 255, 256, 257, 1000, 1001} {
			emit(&CondCase{K: "sw", T: Text(u), N: n})
		}
	}
	for _, n := range []int{32767, 32768, 65535, 65536, 70001} {
		emit(&CondCase{K: "sw", T: "a", N: n})
	}
	for _, n := range []int{61, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4095, 4096, 8192, 16384, 32768, 65536} {
		for _, q := range []string{"あ", "☆e\u0301", "👩\u200d🍳", "\u0600あ", "🇯🇵🇯", "\xff", "\u0301☆", "각"} {
			u := r.pick("a", "a", "あ", "é", "☆", "\u200b")
			if n > 3000 {
				u = "a"
			}
			emit(&CondCase{K: "sw", T: Text(u), N: n, Q: Text(q)})
			if n <= 4096 {
				emit(&CondCase{K: "sw", P: Text(q), T: Text(u), N: n})
			}
		}
	}
	// clusters that begin with many characters without width
	for n := 1; n <= 40; n++ {
		for _, u := range []string{"\u070f", "\u0600", "\u06dd", "\u0301", "\u200d"} {
			for _, e := range []string{"a", "あ", "☆", "👩", "\u0301☆", "\u070f", "あ\u0301\u0301b"} {
				if r.chance(0.4) {
					sw(strings.Repeat(u, n) + e)
					sw(r.pick("x", "あ", "\r", "\u070f") + strings.Repeat(u, n) + e + r.pick("y", "\n", ""))
				}
			}
		}
	}
	enum := func(alpha string, n, from, count int) {
		emit(&CondCase{K: "swenum", T: Text(alpha), N: n, F: from, C: count})
	}
	// one of each kind of width, joined and not
	a := "aあ☆\u0301\u200d\u0600👩🇯\u0903\u00ad각\ufe0f"
	for n := 1; n <= scale(3, 4); n++ {
		genEnum(enum, a, n, 250)
	}
	genEnum(enum, "あ\u0301\u200d\u0600👩🇯", scale(4, 5), 250)
	// every code point of some blocks, alone and after a zero-width prepended mark
	for c := 0; c < 0x3100; c++ {
		if c%7 == int(*flagSeed)%7 {
			sw(string(rune(c)))
			sw("\u0600" + string(rune(c)) + "\u0301")
		}
	}
}

func init() {
	suites["runewidth"] = suite{genRuneWidth, loader[CondCase](), execCond}
	suites["condhist"] = suite{genCondHist, loader[CondCase](), execCond}
	suites["stringwidth"] = suite{genStringWidth, loader[CondCase](), execCond}
}
