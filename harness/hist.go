package main

import (
	"errors"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"
)

// ---- C02: what is measured never depends on what was measured before ----

// HistCase is one text of a history and every width observed for it.
type HistCase struct {
	EA bool  `json:"ea"`
	T  Text  `json:"t"`
	R  int   `json:"r"` // the text is T this many times
	Ws []int `json:"ws"`
	N  int   `json:"n"` // observations
	Outcome
}

const histField = 600

// observe measures the text through operation op; -1 if op cannot tell
func observe(s string, op int) int {
	pad := func(out string) int {
		if len(out) == len(s) {
			return -1 // at least histField wide
		}
		return histField - (len(out) - len(s))
	}
	switch op {
	case 1:
		return pad(table.AlignmentLeft(s, histField))
	case 2:
		return pad(table.AlignmentRight(s, histField))
	case 3:
		return pad(table.AlignmentCenter(s, histField))
	case 4:
		t := table.NewTable(nil)
		t.AddColumn(&table.Column{Name: "c", Title: s})
		t.UpdateWidth(map[string]uint16{"c": histField})
		h := t.FormatHeader("")
		if len(h) == 1+histField && s != "" && !strings.Contains(h, s) {
			return -1 // did not fit
		}
		return pad(h[:len(h)-1])
	case 5:
		t := table.NewTable(nil)
		t.AddColumn(&table.Column{Name: "c", Alignment: table.AlignmentRight})
		t.UpdateWidth(map[string]uint16{"c": histField})
		out, err := t.AlignFormattedItem([]string{s})
		if err != nil {
			panic(err)
		}
		return pad(out[0])
	case 6:
		// a column of its own width beside it in a compact merge
		t := table.NewTable(nil)
		t.AddColumn(&table.Column{Name: "c"})
		t.UpdateWidth(map[string]uint16{"c": 2 * histField})
		var b strings.Builder
		t.MergeRowsHorizontal(&b, itemList{{s}, {"|"}, {strings.Repeat("_", histField)}, {"|"}}, 65535, "", false)
		return -1
	}
	return measure(s)
}

type history struct {
	ws  map[string]map[int]int
	ord []string
}

func (h *history) see(s string, op int) {
	m, ok := h.ws[s]
	if !ok {
		m = map[int]int{}
		h.ws[s] = m
		h.ord = append(h.ord, s)
	}
	if w := observe(s, op); w >= 0 || op == 0 {
		m[w]++
	}
}

func families(r *rng) []string {
	var out []string
	tails := []string{"", "a", "あ", "aa", "\x1b[1m", "☆", "\u0301", " ", "\x00", "\x00あ", "b", "いい"}
	for _, base := range []string{"x", "あ", "ab ", "\x1b[32mq"} {
		for _, n := range []int{1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1024, 2048} {
			k := n / len(base)
			if k == 0 {
				continue
			}
			p := strings.Repeat(base, k)
			for _, t := range tails {
				if n > 300 && len(t) > 4 {
					continue
				}
				out = append(out, p+t, t+p)
				if n <= 256 {
					out = append(out, p+t+p) // same ends, different middle
				}
			}
		}
	}
	// same bytes, case, spaces, truncation, normal forms
	for _, s := range []string{"\x1b[1q", "\x1b[1Q", "\x1b[3P", "\x1b[3p", "\x1b[2s", "\x1b[2S", "ＡＢ", "AB", "ab", "ａｂ", "é", "e\u0301", "İ", "i\u0307", "K", "k", "ǅ", "ǆ", " a", "a ", " a ", "a", "a\t", "a\n", "a\x00", "a\x00b", "\ufeffa", "a\u200b", "ab\u200d", "\xff", "\ufffd", "a\xff", "a\ufffd", "\xe3\x81", "\xe3\x81\x82",
		"\x1b[0m", "\x1b[0", "\x1b[", "\x1b", "\x1b[0ma", "a\x1b[0m", "\u009b0m", "\u009b0ma", "", "\u0301", "\u200d", "\u0301\u0302", "\r\n", "\n"} {
		out = append(out, s, s+s, strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s))
	}
	// permutations with the same letters
	for i := 0; i < 300; i++ {
		rs := []rune("\x1b[1m2;あQ")
		r.Shuffle(len(rs), func(a, b int) { rs[a], rs[b] = rs[b], rs[a] })
		out = append(out, string(rs))
	}
	for i := 0; i < scale(900, 4000); i++ {
		out = append(out, r.text(r.length()))
	}
	// first and last characters that join with their neighbours, or not
	for _, e := range []string{"\u0600", "\u070f", "\u0d4e", "\U000110bd", "\u0301", "\u200d", "\u0903", "\U0001f1e9", "\u1100", "\u1161", "\u11a8", "👩", "👩\u200d", "\x1b", "\x1b[", "\x1b[1", "\x1b[1;", "\u009b", "\u009b(", "\r", "\n", "\xe3", "\xe3\x81", "\x81\x82"} {
		for _, b := range []string{"", "a", "あ", "ab\x1b[0m"} {
			out = append(out, b+e, e+b, e+b+e)
		}
	}
	return append(out, collisions(r)...)
}

// derived gives texts made from s by the operations themselves, which may have been remembered on the way
func derived(r *rng, s, o string) []string {
	var out []string
	w := measure(s)
	if w > 300 {
		return nil
	}
	for _, d := range []int{1, 2, 5} {
		out = append(out, table.AlignmentLeft(s, uint16(w+d)), table.AlignmentRight(s, uint16(w+d)), table.AlignmentCenter(s, uint16(w+d)))
	}
	t := table.NewTable(nil)
	t.AddColumn(&table.Column{Name: "c", Title: s, Getter: constGetter{}, Alignment: table.AlignmentLeft})
	t.AddColumn(&table.Column{Name: "d", Title: o, ShortTitle: s, Getter: constGetter{}})
	t.FormatItem(s)
	t.UpdateWidth(map[string]uint16{"c": uint16(w + 3), "d": uint16(w + 1)})
	h := t.FormatHeader("")
	out = append(out, h, h[:len(h)-1])
	if row, err := t.AlignFormattedItem([]string{s, o}); err == nil {
		out = append(out, row...)
		out = append(out, row[0]+" "+row[1])
	}
	if b, err := t.FormatItemBasic(s, "|"); err == nil {
		out = append(out, b)
	}
	var b strings.Builder
	t.MergeRowsHorizontal(&b, itemList{{s, o}, {o, s}, {"a", "b"}}, 2*w+20, " ", r.chance(0.5))
	t.MergeRowsVertical(&b, itemList{{s, o}, {o, s}, {"a", "b"}}, 2*w+20, "", r.chance(0.5))
	out = append(out, strings.Split(b.String(), "\n")...)
	out = append(out, s+o, o+s)
	if n := len(s); n > 1 {
		k := r.between(1, n-1)
		out = append(out, s[:k], s[k:])
	}
	return out
}

// pairs of texts of different widths that common short hashes cannot tell apart
func collisions(r *rng) []string {
	hashes := []func(s string) uint64{
		func(s string) uint64 { return uint64(crc32.ChecksumIEEE([]byte(s))) },
		func(s string) uint64 { return uint64(adler32.Checksum([]byte(s))) },
		func(s string) uint64 { h := fnv.New32(); h.Write([]byte(s)); return uint64(h.Sum32()) },
		func(s string) uint64 { h := fnv.New32a(); h.Write([]byte(s)); return uint64(h.Sum32()) },
		func(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() & 0xffffffff },
		func(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() >> 32 },
		func(s string) (x uint64) {
			for i := 0; i < len(s); i++ {
				x = x*31 + uint64(s[i])
			}
			return uint64(uint32(x))
		},
		func(s string) (x uint64) {
			x = 5381
			for i := 0; i < len(s); i++ {
				x = x*33 + uint64(s[i])
			}
			return uint64(uint32(x))
		},
	}
	var out []string
	for _, h := range hashes {
		seen := map[uint64]string{}
		found := 0
		for i := 0; i < 400000 && found < 8; i++ {
			// 12 bytes: letters and 3-byte wide letters
			var sb strings.Builder
			for k := 0; k < 4; k++ {
				if r.Intn(2) == 0 {
					sb.WriteString(r.cp(0x3041, 0x3096))
				} else {
					sb.WriteByte(byte('a' + r.Intn(26)))
					sb.WriteByte(byte('a' + r.Intn(26)))
					sb.WriteByte(byte('a' + r.Intn(26)))
				}
			}
			s := sb.String()
			k := h(s)
			if o, ok := seen[k]; ok && o != s && chars(o) != chars(s) {
				out = append(out, o, s)
				found++
				continue
			}
			seen[k] = s
		}
	}
	return out
}

func genHist(emit func(any)) {
	r := newRng(*flagSeed + 1100)
	h := &history{ws: map[string]map[int]int{}}
	run := func() {
		fam := families(r)
		r.Shuffle(len(fam), func(a, b int) { fam[a], fam[b] = fam[b], fam[a] })
		op := func() int { return r.Intn(7) }
		for _, s := range fam {
			h.see(s, 0)
			h.see(s, op())
			if r.chance(0.3) {
				h.see(fam[r.Intn(len(fam))], op())
			}
		}
		// through every operation, after everything
		for _, s := range fam {
			h.see(s, op())
		}
		// texts made from those measured
		for i := 0; i < scale(500, 3000); i++ {
			s, o := fam[r.Intn(len(fam))], fam[r.Intn(len(fam))]
			if len(s)+len(o) > 300 {
				continue
			}
			for _, d := range derived(r, s, o) {
				if len(d) < 600 {
					h.see(d, []int{0, 1, 2, 3}[r.Intn(4)])
				}
			}
		}
		// zero width and long ones over and over
		for i := 0; i < 50; i++ {
			for _, s := range []string{"", "\u0301", "\x1b[0m", "a", "あ", strings.Repeat("あ", 150)} {
				h.see(s, op())
			}
		}
		// more distinct texts than fit, with revisits, then the first ones again
		n := scale(24000, 60000)
		name := func(i int) string {
			return fmt.Sprintf("%d", i) + strings.Repeat("あ", i%4) + strings.Repeat("\x1b[1m", i%3) + strings.Repeat("z", i%7)
		}
		for i := 0; i < n; i++ {
			h.see(name(i), []int{0, 0, 1, 2, 3, 5}[r.Intn(6)])
			if r.chance(0.15) {
				h.see(name(r.Intn(i+1)), op())
			}
			if r.chance(0.02) {
				h.see(fam[r.Intn(len(fam))], 0)
			}
		}
		for i := 0; i < n; i += 1 + r.Intn(5) {
			h.see(name(i), op())
		}
		// a very long life: many more texts, of which only some are looked at again
		flood := scale(160000, 1200000)
		at := func(i int) string { return name(i) + "." }
		var again []string
		for i := 0; i < flood; i++ {
			table.AlignmentLeft(at(i), 3)
			if i%4099 == 0 || (i > 65520 && i < 65560) || (i > 131056 && i < 131090) {
				again = append(again, at(i), at(i/2))
				for k := len(again) - 1; k >= 0 && k >= len(again)-8; k-- {
					s := again[k]
					h.see(s, []int{0, 1, 2, 3}[r.Intn(4)])
				}
				h.see(fam[r.Intn(len(fam))], 0)
			}
		}
		for i := flood - 400; i < flood+50; i++ {
			h.see(at(i), []int{0, 1, 2, 3}[r.Intn(4)])
		}
		for _, s := range again {
			h.see(s, op())
		}
		for _, s := range fam {
			h.see(s, 0)
			h.see(s, 1+r.Intn(5))
		}
	}
	res := guarded2(run, 300)
	if res != "ok" {
		emit(&HistCase{R: 1, Ws: []int{-99}, T: Text(res)})
	}
	for _, s := range h.ord {
		m := h.ws[s]
		c := &HistCase{T: Text(s), R: 1, Ws: []int{}}
		for w, n := range m {
			c.Ws = append(c.Ws, w)
			c.N += n
		}
		sort.Ints(c.Ws)
		if len(s) > 600 { // unit and repetitions
			for _, u := range []string{"x", "あ", "ab ", "\x1b[32mq"} {
				if k := len(s) / len(u); strings.Repeat(u, k) == s {
					c.T, c.R = Text(u), k
				}
			}
		}
		emit(c)
	}
	runtime.KeepAlive(h)
}

func execHist(x any) {
	c := x.(*HistCase)
	c.EA = runewidth.DefaultCondition.EastAsianWidth
	if c.N > 0 {
		return // observed already
	}
	// alone: through every operation, twice
	c.Ws = []int{}
	h := &history{ws: map[string]map[int]int{}}
	s := strings.Repeat(string(c.T), c.R)
	for k := 0; k < 2; k++ {
		for op := 0; op <= 6; op++ {
			h.see(s, op)
		}
	}
	for w := range h.ws[s] {
		c.Ws = append(c.Ws, w)
	}
	sort.Ints(c.Ws)
}

// a case from a file is always observed again
func loadHist(b []byte) (any, error) {
	x, err := loader[HistCase]()(b)
	if err == nil {
		x.(*HistCase).N = 0
	}
	return x, err
}

// ---- C25: memory kept ----

type MemCase struct {
	What  string `json:"what"`
	N     int    `json:"n"`     // distinct texts
	Bytes int    `json:"bytes"` // length of each
	Live  int    `json:"live"`  // KB kept afterwards
	Outcome
}

func liveKB() int {
	var m runtime.MemStats
	best := uint64(1 << 62)
	for i := 0; i < 4; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		if m.HeapAlloc < best {
			best = m.HeapAlloc
		}
	}
	return int(best / 1024)
}

func memText(what string, i, n int) string {
	k := fmt.Sprintf("%d|", i)
	fill := func(u string) string {
		s := k + strings.Repeat(u, (n-len(k))/len(u))
		return s
	}
	switch {
	case strings.HasPrefix(what, "zero"):
		// no visible character at all
		k = "\x1b[" + fmt.Sprintf("%d", i%10000) + ";" + fmt.Sprintf("%d", i/10000) + "m"
		return k + strings.Repeat("\u0301", (n-len(k))/2)
	case strings.HasPrefix(what, "wide"):
		return fill("あ")
	case strings.HasPrefix(what, "esc"):
		return fill("\x1b[1m")
	}
	return fill("x")
}

var memTable, memFail *table.Table

var memCond = &runewidth.Condition{EastAsianWidth: true}

// failGetter fails after the first column has formatted its cell
type failGetter struct{ constGetter }

var errMem = errors.New("refused")

func (failGetter) Format(any, any) (string, error) { return "", errMem }

func execMem(x any) {
	c := x.(*MemCase)
	memTable = table.NewTable(nil)
	memTable.AddColumn(&table.Column{Name: "c", Getter: constGetter{}, Alignment: table.AlignmentLeft})
	memFail = table.NewTable(nil)
	memFail.AddColumn(&table.Column{Name: "c", Getter: constGetter{}})
	memFail.AddColumn(&table.Column{Name: "d", Getter: failGetter{}})
	op := c.What[strings.Index(c.What, "/")+1:]
	for i := 0; i < c.N; i++ {
		s := memText(c.What, i, c.Bytes)
		switch op {
		case "align":
			table.AlignmentLeft(s, 10)
		case "right":
			table.AlignmentRight(s, 10)
		case "center":
			table.AlignmentCenter(s, 10)
		case "format":
			if _, err := memTable.FormatItem(s); err != nil {
				panic(err)
			}
		case "row":
			if _, err := memTable.AlignFormattedItem([]string{s}); err != nil {
				panic(err)
			}
		case "header":
			t := table.NewTable(nil)
			t.AddColumn(&table.Column{Name: "c", Title: s, ShortTitle: s[:len(s)/2]})
			t.UpdateWidth(map[string]uint16{"c": 5})
			t.FormatHeader("|")
		case "merge":
			var b strings.Builder
			memTable.MergeRowsHorizontal(&b, itemList{{s}, {"a"}}, 100, " ", true)
			memTable.MergeRowsVertical(&b, itemList{{s}, {"a"}}, 100, " ", true)
		case "hot":
			measure(s)
			for k := 0; k < 3; k++ {
				measure(memText(c.What, i-i%50, c.Bytes))
			}
		case "twice":
			measure(s)
			measure(strings.Clone(s))
		case "sub":
			// short texts that are parts of long ones
			measure(s[:12])
		case "string":
			runewidth.StringWidth(s)
		case "condition":
			memCond.StringWidth(s)
		case "graphemes":
			g := uniseg.NewGraphemes(s)
			for g.Next() {
				g.Runes()
			}
		case "step":
			for rest, st := s, -1; rest != ""; {
				_, rest, _, st = uniseg.StepString(rest, st)
			}
		case "basic":
			if _, err := memTable.FormatItemBasic(s, "|"); err != nil {
				panic(err)
			}
		case "fail":
			if _, err := memFail.FormatItem(s); err == nil {
				panic("no error")
			}
			memTable.AlignFormattedItem([]string{s, s})
		case "width":
			if w := memTable.Width(s); w != 0 {
				panic("width of an unknown column")
			}
			memTable.HasColumn(s)
		case "sep":
			memTable.FormatHeader(s)
			var b strings.Builder
			memTable.MergeRowsHorizontal(&b, itemList{{"a"}, {"b"}}, 100, s[:20], false)
		case "tables":
			t := table.NewTable(nil)
			for k := 0; k < 3; k++ {
				t.AddColumn(&table.Column{Name: s[:10] + fmt.Sprint(k), Getter: constGetter{}})
			}
			if _, err := t.FormatItem(s[:len(s)/3]); err != nil {
				panic(err)
			}
		default:
			measure(s)
		}
	}
	c.Live = liveKB()
	runtime.KeepAlive(memTable)
	runtime.KeepAlive(memFail)
	memTable, memFail = nil, nil
}

func genMem(emit func(any)) {
	// one of four shares of the patterns
	share, k := int((*flagOpt)[0]-'0'), 0
	one := func(c *MemCase) {
		if k++; k%4 == share {
			emit(c)
		}
	}
	for _, what := range []string{"plain/format", "zero/format", "wide/align", "esc/center", "plain/header", "plain/merge", "zero/hot", "plain/hot", "wide/twice", "zero/right", "plain/row", "plain/string", "plain/sub", "plain/tables", "zero/header", "wide/merge", "plain/graphemes", "wide/step", "plain/basic", "plain/fail", "esc/condition", "plain/sep"} {
		one(&MemCase{What: what, N: scale(30000, 120000), Bytes: 600})
	}
	for _, what := range []string{"plain/", "zero/", "plain/hot", "wide/align", "zero/header", "esc/merge", "plain/tables", "zero/row", "plain/width", "plain/graphemes", "zero/fail", "wide/condition"} {
		one(&MemCase{What: what, N: scale(150000, 1500000), Bytes: 26})
	}
}

func init() {
	suites["history"] = suite{genHist, loadHist, execHist}
	suites["memory"] = suite{genMem, loader[MemCase](), execMem}
}
