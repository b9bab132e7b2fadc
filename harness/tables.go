package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
)

// ---- histories of operations on specifications and tables (C04-C07, C26, C27) ----

// colNames are the names of the first set; other sets hold names that are easily confused
var colNames = nameSets[0]

var nameSets = [][]string{
	{"a", "b", "name", "", "あ", "a "},
	{"name", "Name", "NAME", "name ", " name", "name\t"},
	{"é", "e\u0301", "É", "e", "\u00e9\u200b", "\xc3"},
	{strings.Repeat("n", 64) + "1", strings.Repeat("n", 64) + "2", strings.Repeat("n", 64), "1" + strings.Repeat("n", 64), strings.Repeat("n", 300), strings.Repeat("n", 301)},
	{"a", "a\x00", "a.b", "a/b", "a%s", "*"},
	{"0", "1", "01", "1.0", "-1", "10"},
	{"k", "\u212a", "K", "ſ", "s", "S"}, // equal when case is folded
}

type ColDef struct {
	Name  int    `json:"name"` // 1-based index of colNames
	Al    string `json:"al"`
	Title Text   `json:"title"`
	Short Text   `json:"short"`
	Ty    int    `json:"ty"` // declared type of the values, which means nothing to the table
}

var colTypes = []reflect.Type{nil, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(&rowValue{}), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(time.Time{})}

type TabEv struct {
	Op  string   `json:"op"`
	T   int      `json:"t"`   // table, from 1
	S   int      `json:"s"`   // specification, from 1; 0 none
	Via int      `json:"via"` // add: 1 through a table of that specification, if there is one
	Col ColDef   `json:"col"`
	Old int      `json:"old"` // add, set: a column made before, from 1
	Mp  int      `json:"mp"`  // map, update: a width map the caller keeps, from 1
	Rep int      `json:"rep"` // this many times more
	Ups [][2]int `json:"ups"`
	Row []Text   `json:"row"`
	Ri  int      `json:"ri"` // align, merge: not Row or Items, but rows returned earlier (the Ri-th last; the last eight)
	// kind of value per column ("s", "nil", "int", "ptr"), and failures ("", "v", "f", "vf")
	Vk   []string `json:"vk"`
	Fail []string `json:"fail"`
	Err  string   `json:"errkind"`
	Ik   string   `json:"ik"` // kind of item; "": a pointer
	Sep  Text     `json:"sep"`
	M    int      `json:"m"` // margin
	// merge
	Dir     string   `json:"dir"`
	Items   [][]Text `json:"items"`
	Max     int      `json:"max"`
	Compact bool     `json:"compact"`
	// conf: what the default condition is from now on
	EA     bool `json:"ea"`
	Strict bool `json:"strict"`

	// observed
	Res   []Text `json:"res"`
	Txt   Text   `json:"txt"`
	Num   int    `json:"num"`
	Own   int    `json:"own"`   // column whose error came back; 0 no error; -1 another error
	Again bool   `json:"again"` // reading operations: the same when repeated
	Kept  bool   `json:"kept"`  // rows returned earlier are still what they were
	O     string `json:"o"`
	Post  Snap   `json:"post"`
}

type Snap struct {
	Specs []SpecSnap `json:"specs"`
	Tabs  []TabSnap  `json:"tabs"`
	Maps  [][]int    `json:"maps"` // per name; -1: not in the map; at the end -2 if anything else is
	// columns that are not what their caller last set
	Changed []int `json:"changed"`
}
type SpecSnap struct {
	Ids   []int  `json:"ids"`
	By    []int  `json:"by"`
	Has   []bool `json:"has"`
	Count int    `json:"count"`
}
type TabSnap struct {
	Spec int   `json:"spec"`
	W    []int `json:"w"`
}

type TabCase struct {
	EA  bool    `json:"ea"`
	K   int     `json:"k"`
	Ns  int     `json:"ns"` // set of names
	Evs []TabEv `json:"evs"`

	Pre   int       `json:"-"` // the first events happened already, in world
	world *tabWorld // on tables of a shared specification
	Outcome
}

// a row: the cells, the kind of value, and where it fails
type tabRow struct {
	ev   *TabEv
	cols []*table.Column
	errs []error
	item any
}

// the row being formatted, for items that are not a *tabRow
var curRow *tabRow

func itemOf(kind string, r *tabRow) any {
	switch kind {
	case "nil":
		return nil
	case "str":
		return "item"
	case "empty":
		return ""
	case "int":
		return 7
	case "err":
		return io.EOF
	case "val":
		return struct{ r *tabRow }{r}
	case "slice":
		return []string{"x", "y"}
	case "map":
		return map[string]string{"a": "A", "name": "N"}
	case "tnil":
		return (*tabRow)(nil)
	case "func":
		return func() string { return "f" }
	case "time":
		return time.Unix(1, 0)
	}
	return r
}

func rowOf(item any) *tabRow {
	if r, ok := item.(*tabRow); ok && r != nil {
		return r
	}
	r := curRow
	same := false
	if reflect.TypeOf(item) == reflect.TypeOf(r.item) {
		if v := reflect.ValueOf(item); item != nil && !v.Comparable() {
			same = v.Pointer() == reflect.ValueOf(r.item).Pointer()
		} else {
			same = item == r.item
		}
	}
	if !same {
		panic("a getter was given another item")
	}
	return r
}

type rowValue struct {
	row *tabRow
	col int
}

// The getter only knows its own column. Where a row's column occurs more than once,
// the cell is that of the first occurrence.
type posGetter struct {
	col  *table.Column
	name string
}

func (g *posGetter) at(r *tabRow) int {
	for i, c := range r.cols {
		if c == g.col {
			return i
		}
	}
	panic("a column that is not in the table was asked")
}

// nested use of the library by a getter
func nested() string {
	t := table.NewTable(nil)
	for i, n := range []string{"a", "in"} {
		t.AddColumn(&table.Column{Name: n, Title: n, Getter: cellGetter{i}, Alignment: table.AlignmentRight})
	}
	a, err := t.FormatItem([]string{"x", "yyy"})
	b, err2 := t.FormatItem([]string{"zz", "あ"})
	if err != nil || err2 != nil {
		return "nested error"
	}
	res := strings.Join(a, ",") + strings.Join(b, ",")
	func() { // only C07 is judged here
		defer func() { recover() }()
		t.AlignFormattedItem(append([]string{}, a...))
		t.FormatHeader("|")
		t.MergeRowsHorizontal(&bytes.Buffer{}, itemList{a, b}, 80, "|", true)
	}()
	return res
}

const nestedResult = "x,yyyzz,あ"

func (g *posGetter) Value(item any) (any, error) {
	r := rowOf(item)
	pos := g.at(r)
	var err error
	if strings.Contains(r.ev.Fail[pos], "v") {
		err = r.errs[pos]
	}
	if r.ev.Fail[pos] == "p" {
		panic(r.errs[pos])
	}
	switch k := r.ev.Vk[pos]; k {
	case "ptr":
		return &rowValue{r, pos}, err
	case "nest":
		return nested(), err
	case "s":
		return fmt.Sprintf("%p/%d", r, pos), err
	default:
		return values[k], err
	}
}

type stringer string

func (s stringer) String() string { return "S:" + string(s) }

var values = map[string]any{
	"nil": nil, "int": 0, "empty": "", "text": "value", "err": io.ErrUnexpectedEOF, "stringer": stringer("v"), "bool": false, "float": 1.5,
	"tnil": (*rowValue)(nil), "time": time.Unix(86400, 0).UTC(), "bytes": &[]byte{1, 2}, "rune": 'x', "struct": struct{}{}, "dur": time.Second,
}

func (g *posGetter) Format(item any, value any) (string, error) {
	r := rowOf(item)
	pos := g.at(r)
	var err error
	if strings.Contains(r.ev.Fail[pos], "f") {
		err = r.errs[pos]
	}
	if r.ev.Fail[pos] == "q" {
		panic(r.errs[pos])
	}
	ok := false
	switch k := r.ev.Vk[pos]; k {
	case "ptr":
		p, is := value.(*rowValue)
		ok = is && p.row == r && p.col == pos
	case "nest":
		ok = value == nestedResult && nested() == nestedResult
	case "s":
		ok = value == fmt.Sprintf("%p/%d", r, pos)
	default:
		ok = value == values[k]
	}
	if !ok {
		return "WRONG VALUE", err
	}
	return string(r.ev.Row[pos]), err
}

func (g *posGetter) ValueString(colName string, item any) (string, error) {
	r := rowOf(item)
	pos := g.at(r)
	if colName != g.name {
		return "WRONG NAME", nil
	}
	if k := r.ev.Fail[pos]; k == "p" || k == "q" {
		panic(r.errs[pos])
	} else if k != "" {
		return "partial", r.errs[pos]
	}
	return string(r.ev.Row[pos]), nil
}

type tabWorld struct {
	names []string
	rows  [][]string // returned by FormatItem, and what they were
	want  []string
	strs  []string // strings returned, and copies
	clone []string
	specs []*table.TableSpec
	tabs  []*table.Table
	ids   map[*table.Column]int
	cols  []*table.Column
	defs  []ColDef
	maps  []map[string]uint16
	lut   bool // the default condition has a table
}

func (w *tabWorld) keep(row []string) {
	if len(w.rows) > 400 {
		return
	}
	w.rows = append(w.rows, row)
	w.want = append(w.want, strings.Join(row, "\x00,"))
}

func (w *tabWorld) keepStr(s string) {
	if len(w.strs) < 400 {
		w.strs, w.clone = append(w.strs, s), append(w.clone, strings.Clone(s))
	}
}

func (w *tabWorld) specIndex(s *table.TableSpec) int {
	for i, x := range w.specs {
		if x == s {
			return i + 1
		}
	}
	w.specs = append(w.specs, s)
	return len(w.specs)
}

func (w *tabWorld) snap() Snap {
	sn := Snap{Specs: []SpecSnap{}, Tabs: []TabSnap{}, Maps: [][]int{}, Changed: []int{}}
	for _, t := range w.tabs {
		ts := TabSnap{Spec: w.specIndex(t.TableSpec), W: []int{}}
		for _, n := range w.names {
			ts.W = append(ts.W, int(t.Width(n)))
		}
		sn.Tabs = append(sn.Tabs, ts)
	}
	for _, s := range w.specs {
		ss := SpecSnap{Ids: []int{}, Count: s.ColumnCount()}
		for _, c := range s.Columns {
			ss.Ids = append(ss.Ids, w.id(c))
		}
		for _, n := range w.names {
			ss.By = append(ss.By, w.id(s.ColumnByName[n]))
			ss.Has = append(ss.Has, s.HasColumn(n))
		}
		sn.Specs = append(sn.Specs, ss)
	}
	for _, m := range w.maps {
		l, n := []int{}, 0
		for _, name := range w.names {
			if x, ok := m[name]; ok {
				l = append(l, int(x))
				n++
			} else {
				l = append(l, -1)
			}
		}
		if n != len(m) {
			l = append(l, -2)
		}
		sn.Maps = append(sn.Maps, l)
	}
	for i, c := range w.cols {
		d := w.defs[i]
		g, ok := c.Getter.(*posGetter)
		if c.Name != w.names[d.Name-1] || c.Title != string(d.Title) || c.ShortTitle != string(d.Short) ||
			(c.Alignment == nil) != (d.Al == "N") || !ok || g.col != c || c.Type != colTypes[d.Ty] {
			sn.Changed = append(sn.Changed, i+1)
		}
	}
	return sn
}

func (w *tabWorld) id(c *table.Column) int {
	if c == nil {
		return 0
	}
	if n, ok := w.ids[c]; ok {
		return n
	}
	return -1
}

func texts(ss []string) []Text {
	out := []Text{}
	for _, s := range ss {
		out = append(out, Text(s))
	}
	return out
}

func (w *tabWorld) step(e *TabEv) {
	e.Res, e.Txt, e.Num, e.Own, e.Again, e.O = []Text{}, "", 0, 0, true, "ok"
	if e.Ups == nil {
		e.Ups = [][2]int{}
	}
	if e.Row == nil {
		e.Row = []Text{}
	}
	if e.Vk == nil {
		e.Vk = []string{}
	}
	if e.Fail == nil {
		e.Fail = []string{}
	}
	if e.Items == nil {
		e.Items = [][]Text{}
	}
	defer func() {
		if p := recover(); p != nil {
			e.O = fmt.Sprintf("panic: %v", p)
		}
		e.Post = w.snap()
		e.Kept = true
		for _, row := range w.rows {
			_ = append(row, "appended", "by", "the caller")
		}
		for i := range w.strs {
			e.Kept = e.Kept && w.strs[i] == w.clone[i]
		}
		for i, row := range w.rows {
			if strings.Join(row, "\x00,") != w.want[i] {
				e.Kept = false
			}
		}
	}()
	var t *table.Table
	if e.T > 0 {
		t = w.tabs[e.T-1]
	}
	switch e.Op {
	case "conf":
		switch e.M {
		case 1:
			runewidth.DefaultCondition = &runewidth.Condition{EastAsianWidth: e.EA, StrictEmojiNeutral: e.Strict}
		case 2:
			c := *runewidth.DefaultCondition
			c.EastAsianWidth, c.StrictEmojiNeutral = e.EA, e.Strict
			c.CreateLUT()
			runewidth.DefaultCondition = &c
		default:
			runewidth.DefaultCondition.EastAsianWidth, runewidth.DefaultCondition.StrictEmojiNeutral = e.EA, e.Strict
			if e.M == 3 || w.lut {
				runewidth.DefaultCondition.CreateLUT()
			}
		}
		w.lut = e.M == 2 || e.M == 3 || (w.lut && e.M != 1)
	case "spec":
		s := table.NewTableSpec()
		if e.M > 0 {
			s.TimeFormat = "2006-01-02"
		}
		w.specs = append(w.specs, s)
	case "table":
		if e.S == 0 {
			t = table.NewTable(nil)
		} else {
			t = table.NewTable(w.specs[e.S-1])
		}
		w.specIndex(t.TableSpec)
		w.tabs = append(w.tabs, t)
	case "add":
		s := w.specs[e.S-1]
		var c *table.Column
		if e.Old > 0 {
			c = w.cols[e.Old-1]
		} else {
			name := w.names[e.Col.Name-1]
			c = &table.Column{Name: name, Title: string(e.Col.Title), ShortTitle: string(e.Col.Short), Alignment: alignmentOf(e.Col.Al), Type: colTypes[e.Col.Ty]}
			c.Getter = &posGetter{col: c, name: name}
			w.ids[c] = len(w.ids) + 1
			w.cols = append(w.cols, c)
			w.defs = append(w.defs, e.Col)
		}
		if e.Via == 1 {
			for _, t := range w.tabs {
				if t.TableSpec == s {
					t.AddColumn(c)
					return
				}
			}
		}
		s.AddColumn(c)
	case "update":
		m := map[string]uint16{}
		if e.Mp > 0 {
			m = w.maps[e.Mp-1]
		}
		for _, u := range e.Ups {
			m[w.names[u[0]-1]] = uint16(u[1])
		}
		if e.Mp == 0 && len(e.Ups) == 0 {
			m = nil
		}
		for k := 0; k <= e.Rep; k++ {
			t.UpdateWidth(m)
		}
	case "map":
		if e.Mp > len(w.maps) {
			w.maps = append(w.maps, map[string]uint16{})
		}
		for _, u := range e.Ups {
			if u[1] < 0 {
				delete(w.maps[e.Mp-1], w.names[u[0]-1])
			} else {
				w.maps[e.Mp-1][w.names[u[0]-1]] = uint16(u[1])
			}
		}
	case "set":
		c := w.cols[e.Old-1]
		c.Title, c.ShortTitle, c.Alignment, c.Type = string(e.Col.Title), string(e.Col.Short), alignmentOf(e.Col.Al), colTypes[e.Col.Ty]
		e.Col.Name = w.defs[e.Old-1].Name
		w.defs[e.Old-1] = e.Col
	case "format", "basic":
		row := &tabRow{ev: e, errs: make([]error, len(e.Row)), cols: append([]*table.Column{}, t.Columns...)}
		for i, c := range row.cols {
			for j := 0; j < i; j++ {
				if row.cols[j] == c {
					e.Row[i], e.Vk[i], e.Fail[i] = e.Row[j], e.Vk[j], e.Fail[j]
					break
				}
			}
		}
		for i := range row.errs {
			row.errs[i] = fmt.Errorf("col %d: %w", i, writerError(e.Err))
			if e.Err == "eof" || e.Err == "temp" {
				row.errs[i] = writerError(e.Err)
			}
		}
		var err error
		row.item = itemOf(e.Ik, row)
		if e.Ik != "" {
			curRow = row
		}
		if x := strings.Join(e.Fail, ""); strings.ContainsAny(x, "pq") { // a getter panics; the caller recovers
			func() {
				defer func() { recover() }()
				if e.Op == "format" {
					t.FormatItem(row.item)
				} else {
					t.FormatItemBasic(row.item, string(e.Sep))
				}
			}()
			return
		}
		if e.Op == "format" {
			var res []string
			res, err = t.FormatItem(row.item)
			for k := 0; k < e.Rep; k++ {
				res2, err2 := t.FormatItem(row.item)
				if strings.Join(res, "\x00,") != strings.Join(res2, "\x00,") || err != err2 {
					e.Again = false
				}
			}
			e.Res = texts(res)
			w.keep(res)
		} else {
			var res string
			res, err = t.FormatItemBasic(row.item, string(e.Sep))
			e.Txt = Text(res)
			w.keepStr(res)
			for k := 0; k <= e.Rep; k++ {
				res2, err2 := t.FormatItemBasic(row.item, string(e.Sep))
				e.Again = e.Again && res == res2 && err == err2
			}
		}
		if err != nil {
			e.Own = -1
			for i, x := range row.errs {
				if x == err && i < len(e.Fail) && e.Fail[i] != "" {
					e.Own = i + 1
					break
				}
			}
		}
	case "align":
		row := strs(e.Row)
		own := -1
		if n := len(w.rows); e.Ri > 0 && e.Ri <= n && w.rows[n-e.Ri] != nil {
			own = n - e.Ri
			row = w.rows[own]
			e.Row = texts(row)
		}
		res, err := t.AlignFormattedItem(row)
		if own >= 0 { // may have been aligned in place
			for i, x := range w.rows {
				if i == own || (len(x) > 0 && len(row) > 0 && &x[0] == &row[0]) {
					w.want[i] = strings.Join(x, "\x00,")
				}
			}
		}
		e.Res = texts(res)
		w.keep(res)
		if err != nil {
			e.Own = -1
		}
		for k := 0; k <= e.Rep; k++ {
			res2, err2 := t.AlignFormattedItem(strs(e.Row))
			e.Again = e.Again && (err == nil) == (err2 == nil) && strings.Join(res, "\x00") == strings.Join(res2, "\x00")
		}
	case "header":
		s := t.FormatHeader(string(e.Sep))
		e.Txt = Text(s)
		w.keepStr(s)
		for k := 0; k <= e.Rep; k++ {
			e.Again = e.Again && s == t.FormatHeader(string(e.Sep))
		}
	case "twidth":
		e.Num = int(t.TableWidth(uint16(e.M)))
		for k := 0; k <= e.Rep; k++ {
			e.Again = e.Again && e.Num == int(t.TableWidth(uint16(e.M)))
		}
	case "merge":
		var own itemList
		for i := len(w.rows) - 8; e.Ri > 0 && i < len(w.rows); i++ {
			if i >= 0 && w.rows[i] != nil && len(w.rows[i]) == t.ColumnCount() {
				own = append(own, w.rows[i])
			}
		}
		if own != nil {
			e.Items = [][]Text{}
			for _, row := range own {
				e.Items = append(e.Items, texts(row))
			}
		}
		run := func() string {
			var b bytes.Buffer
			l := own
			if l == nil {
				l = itemList{}
				for _, it := range e.Items {
					l = append(l, strs(it))
				}
			}
			if e.Dir == "H" {
				t.MergeRowsHorizontal(&b, l, e.Max, string(e.Sep), e.Compact)
			} else {
				t.MergeRowsVertical(&b, l, e.Max, string(e.Sep), e.Compact)
			}
			return b.String()
		}
		s := run()
		e.Txt = Text(s)
		for k := 0; k <= e.Rep; k++ {
			e.Again = e.Again && s == run()
		}
	default:
		panic("no such operation " + e.Op)
	}
}

func execTab(x any) {
	c := x.(*TabCase)
	c.EA = runewidth.DefaultCondition.EastAsianWidth
	c.K = len(colNames)
	w := &tabWorld{ids: map[*table.Column]int{}}
	if c.world != nil {
		w = c.world
	}
	w.names = nameSets[c.Ns]
	for _, e := range c.Evs {
		if e.Op == "conf" {
			ptr, saved := runewidth.DefaultCondition, *runewidth.DefaultCondition
			defer func() { runewidth.DefaultCondition, *ptr = ptr, saved }()
			break
		}
	}
	for i := c.Pre; i < len(c.Evs); i++ {
		w.step(&c.Evs[i])
	}
}

// ---- random histories ----

type tabGen struct {
	r     *rng
	specs []int // number of columns
	tabs  []int // specification of each table
	ncols int
	nmaps int
	evs   []TabEv

	conf   bool // the default condition changes in between
	frozen bool // the first specification gets no more columns
}

func (g *tabGen) title() Text {
	r := g.r
	if g.conf && r.chance(0.3) {
		return Text(r.pick("¡¡", "☆", "🌡🌡", "αβγ", "↔"))
	}
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return Text("名" + r.simple(4))
	case 2:
		return Text("\x1b[1m" + r.simple(6) + "\x1b[0m")
	case 3:
		return Text(oneLine(r.text(r.Intn(5))))
	case 4:
		return Text(strings.Repeat("é", r.Intn(6)) + r.simple(3))
	}
	return Text(r.simple(9))
}

func (g *tabGen) row(t int) []Text {
	out := []Text{}
	for i := 0; i < g.specs[g.tabs[t]]; i++ {
		if g.conf && g.r.chance(0.4) {
			out = append(out, Text(g.r.pick("¡", "☆☆b", "🌡a", "α\x1b[1mβ\x1b[0m", "↔x", "a☆", "©🌡¡", "あ☆")))
		} else if g.r.chance(0.15) {
			out = append(out, Text(g.r.text(g.r.Intn(6)))) // anything, also newlines and bad UTF-8
		} else if g.r.chance(0.1) {
			// more bytes than cells, or fewer
			out = append(out, Text(strings.Repeat(g.r.pick("\xff", "\xff", "\xe3", "¡", "\u0301", "🌡", "あ"), g.r.between(1, 14))))
		} else {
			out = append(out, Text(g.r.cell(8)))
		}
	}
	return out
}

func (g *tabGen) step() {
	r := g.r
	if len(g.tabs) == 0 || (len(g.tabs) < 4 && r.chance(0.08)) {
		if len(g.specs) < 3 && r.chance(0.5) {
			g.specs = append(g.specs, 0)
			g.evs = append(g.evs, TabEv{Op: "spec", M: r.Intn(2)})
		}
		s := r.Intn(len(g.specs) + 1)
		if s == 0 {
			g.specs = append(g.specs, 0)
			g.tabs = append(g.tabs, len(g.specs)-1)
		} else {
			g.tabs = append(g.tabs, s-1)
		}
		g.evs = append(g.evs, TabEv{Op: "table", S: s})
		return
	}
	if g.conf && r.chance(0.1) {
		g.evs = append(g.evs, TabEv{Op: "conf", M: r.Intn(4), EA: r.chance(0.5), Strict: r.chance(0.5)})
		return
	}
	t := r.Intn(len(g.tabs))
	nc := g.specs[g.tabs[t]]
	e := TabEv{T: t + 1}
	x := r.Intn(100)
	if nc == 0 && x > 5 && r.chance(0.7) {
		x = 0
	}
	switch {
	case x < 15 && !(g.frozen && g.tabs[t] == 0):
		e = TabEv{Op: "add", S: g.tabs[t] + 1, Via: r.Intn(2), Col: ColDef{Name: r.between(1, len(colNames)), Al: r.pick("L", "R", "C", "N", "X", "Y"), Title: g.title(), Short: g.title()}}
		if r.chance(0.6) {
			e.Col.Name = r.between(1, 3)
		}
		if r.chance(0.3) {
			e.Col.Ty = r.Intn(len(colTypes))
		}
		if g.ncols > 0 && r.chance(0.25) {
			e.Old = r.between(1, g.ncols)
		} else {
			g.ncols++
		}
		g.specs[g.tabs[t]]++
	case x < 18 && g.ncols > 0 && !g.frozen:
		e = TabEv{Op: "set", Old: r.between(1, g.ncols), Col: ColDef{Name: 1, Al: r.pick("L", "R", "C", "N", "X", "Y"), Title: g.title(), Short: g.title()}}
	case x < 21:
		e.T = 0
		e.Op = "map"
		e.Mp = r.between(1, 2)
		if e.Mp > g.nmaps {
			g.nmaps++
			e.Mp = g.nmaps
		}
		for k := 1; k <= len(colNames); k++ {
			if r.chance(0.3) {
				e.Ups = append(e.Ups, [2]int{k, r.Intn(14) - 1})
			}
		}
	case x < 23 && g.nmaps > 0:
		e.Op = "update"
		e.Mp = r.between(1, g.nmaps)
	case x < 27:
		e.Op = "update"
		for k := 1; k <= len(colNames); k++ {
			if r.chance(0.3) {
				w := r.Intn(14)
				if r.chance(0.03) {
					w = r.pick2(255, 256, 300, 32767, 32768, 65535)
				}
				e.Ups = append(e.Ups, [2]int{k, w})
			}
		}
	case x < 45, x < 55:
		e.Op = "format"
		if x >= 45 {
			e.Op = "basic"
			e.Sep = Text(r.pick(",", "", "\t", ", ", "、", "\n", "%s", "\x00", "\\", "\"", ";", "||"))
		}
		e.Row = g.row(t)
		for i := 0; i < nc; i++ {
			e.Vk = append(e.Vk, r.pick("s", "s", "nil", "int", "ptr", "s", "nest", "s", "empty", "text", "err", "stringer", "bool", "float", "tnil", "time", "bytes", "rune", "struct", "dur"))
			e.Fail = append(e.Fail, "")
		}
		if !g.frozen && r.chance(0.3) {
			e.Ik = r.pick("nil", "str", "empty", "int", "err", "val", "slice", "map", "tnil", "func", "time")
		}
		if nc > 0 && r.chance(0.25) {
			for k := 0; k < 1+r.Intn(2); k++ {
				e.Fail[r.Intn(nc)] = r.pick("v", "f", "vf")
			}
			if r.chance(0.2) {
				for i := range e.Fail {
					e.Fail[i] = ""
				}
				e.Fail[r.Intn(nc)] = r.pick("p", "q")
			}
			e.Err = errKinds[r.Intn(len(errKinds))]
		}
	case x < 68:
		e.Op = "align"
		if r.chance(0.4) {
			e.Ri = r.between(1, 5)
		}
		e.Row = g.row(t)
		if r.chance(0.15) {
			if r.chance(0.5) || nc == 0 {
				e.Row = append(e.Row, "more")
			} else {
				e.Row = e.Row[:r.Intn(nc)]
			}
		}
	case x < 80:
		e.Op = "header"
		e.Sep = Text(r.pick(" ", "", " | ", "│", "\t", "\n", "%d", "  ", "あ", "\x1b[0m", "\u0301"))
	case x < 88:
		e.Op = "twidth"
		e.M = r.pick2(0, 1, 2, 3, 7, 255, 256, 65535)
	default:
		e.Op = "merge"
		if r.chance(0.4) {
			e.Ri = 1
		}
		e.Dir, e.Compact = r.pick("H", "V"), r.chance(0.5)
		e.Max = r.between(-2, 60)
		e.Sep = Text(r.pick(" ", "", " | ", "│", "  "))
		for i, n := 0, r.Intn(6); i < n; i++ {
			e.Items = append(e.Items, g.row(t))
		}
	}
	g.evs = append(g.evs, e)
}

func genTab(emit func(any)) {
	r := newRng(*flagSeed + 400)
	for i, n := 0, scale(700, 7000); i < n; i++ {
		g := &tabGen{r: r, conf: r.chance(0.3)}
		for k, m := 0, r.between(6, 40); k < m; k++ {
			g.step()
		}
		c := &TabCase{Evs: g.evs}
		if r.chance(0.5) {
			c.Ns = r.Intn(len(nameSets))
		}
		emit(c)
	}
	// long lives: thousands of rows, headers, updates; every now and then a slightly wider one
	for nc := 1; nc <= 3; nc++ {
		g := &tabGen{r: r, frozen: true, specs: []int{0}, tabs: []int{0}, evs: []TabEv{{Op: "table"}}}
		for i := 0; i < nc; i++ {
			g.evs = append(g.evs, TabEv{Op: "add", S: 1, Col: ColDef{Name: i + 1, Al: r.pick("L", "R", "C", "N"), Title: g.title(), Short: g.title()}})
			g.specs[0]++
			g.ncols++
		}
		w, done := 1, 0
		for _, n := range []int{100, 128, 256, 500, 512, 1000, 1024, 2000, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 70000, 100000} {
			row := func(x int) (out []Text) {
				for i := 0; i < nc; i++ {
					out = append(out, Text(uniqueCell(i, x)))
				}
				return
			}
			ev := func(op string, cells []Text, rep int) {
				e := TabEv{Op: op, T: 1, Row: cells, Rep: rep, Sep: "|"}
				for range cells {
					e.Vk, e.Fail = append(e.Vk, "int"), append(e.Fail, "")
				}
				g.evs = append(g.evs, e)
			}
			// until n calls have been made, the next row is wider
			if n > done {
				ev("format", row(w), n-done-1)
				done = n
			}
			w += r.between(1, 2)
			ev("format", row(w), 0)
			ev("format", row(w+1), 0)
			w++
			done += 2
			if n <= 10000 {
				ev("basic", row(2), n/10)
				ev("align", row(2), n/10)
				ev("header", nil, n/10)
				g.evs = append(g.evs, TabEv{Op: "twidth", T: 1, M: 3, Rep: n / 10})
			}
			ev("align", row(2), 0)
			ev("header", nil, 0)
			w++
			g.evs = append(g.evs, TabEv{Op: "update", T: 1, Ups: [][2]int{{r.between(1, nc), w}}, Rep: n / 50})
			g.step()
		}
		emit(&TabCase{Evs: g.evs})
	}
	// many columns, wide ones
	for _, n := range []int{17, 64, 258} {
		evs := []TabEv{{Op: "table"}}
		for i := 0; i < n; i++ {
			evs = append(evs, TabEv{Op: "add", S: 1, Via: i % 2, Col: ColDef{Name: 1 + r.Intn(len(colNames)), Al: r.pick("L", "R", "C", "N"), Title: Text(r.simple(3)), Short: Text(r.simple(1))}})
		}
		add := func(e TabEv) {
			e.T = 1
			evs = append(evs, e)
		}
		row := func() (out []Text) {
			for i := 0; i < n; i++ {
				out = append(out, Text(r.simple(3)))
			}
			return
		}
		ok := func() (vk, fail []string) {
			for i := 0; i < n; i++ {
				vk, fail = append(vk, "s"), append(fail, "")
			}
			return
		}
		for _, w := range []int{0, 3, 40, 218, 255, 1000, 40000, 65535} {
			vk, fail := ok()
			add(TabEv{Op: "format", Row: row(), Vk: vk, Fail: fail})
			add(TabEv{Op: "align", Row: row()})
			add(TabEv{Op: "basic", Row: row(), Vk: vk, Fail: fail, Sep: ","})
			add(TabEv{Op: "update", Ups: [][2]int{{r.between(1, len(colNames)), w}}})
			for _, m := range []int{0, 1, 2, 219, 255, 3855, 65535} {
				add(TabEv{Op: "twidth", M: m})
			}
			if w < 300 {
				add(TabEv{Op: "header", Sep: "|"})
				add(TabEv{Op: "merge", Dir: r.pick("H", "V"), Max: r.pick2(-1, 100, 70000), Sep: " ", Items: [][]Text{row(), row()}, Compact: r.chance(0.5)})
			}
			f2 := append([]string{}, fail...)
			f2[r.Intn(n)] = r.pick("v", "f")
			if n > 256 {
				f2[256] = "v"
			}
			add(TabEv{Op: "format", Row: row(), Vk: vk, Fail: f2})
			add(TabEv{Op: "basic", Row: row(), Vk: vk, Fail: f2, Sep: ","})
		}
		emit(&TabCase{Evs: evs})
	}
}

// headers: every combination of title lengths, short title lengths and widths
func genHeader(emit func(any)) {
	r := newRng(*flagSeed + 500)
	mk := func(w int) []string {
		return []string{strings.Repeat("t", w), strings.Repeat("é", w), strings.Repeat("あ", w/2) + strings.Repeat("i", w%2), "\x1b[31m" + strings.Repeat("c", w) + "\x1b[0m"}
	}
	for tw := 0; tw <= 6; tw++ {
		for sw := 0; sw <= 6; sw++ {
			ts, ss := mk(tw), mk(sw)
			evs := []TabEv{{Op: "table"}}
			for i := 0; i < 3; i++ {
				evs = append(evs, TabEv{Op: "add", S: 1, Col: ColDef{Name: i + 1, Al: r.pick("L", "R", "C", "N", "X"), Title: Text(ts[r.Intn(4)]), Short: Text(ss[r.Intn(4)])}})
			}
			for w := 0; w <= scale(9, 16); w++ {
				evs = append(evs, TabEv{Op: "update", T: 1, Ups: [][2]int{{1 + w%3, w}}}, TabEv{Op: "header", T: 1, Sep: Text(r.pick("|", " ", ""))})
			}
			for w := 0; w <= 9; w++ {
				evs = append(evs, TabEv{Op: "update", T: 1, Ups: [][2]int{{1, w}, {2, w}, {3, w}}}, TabEv{Op: "header", T: 1, Sep: Text(r.pick("|", " ", ""))})
			}
			emit(&TabCase{Evs: evs})
		}
	}
	// wide columns and long titles
	for _, w := range []int{20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 32768, 65534, 65535} {
		for d := -1; d <= 1; d++ {
			for e := -1; e <= 1; e++ {
				if w > 2000 && !r.chance(0.3) {
					continue
				}
				ts, ss := mk(w+d), mk(w+e)
				emit(&TabCase{Evs: []TabEv{{Op: "table"}, {Op: "add", S: 1, Col: ColDef{Name: 1, Al: "L", Title: Text(ts[r.Intn(4)]), Short: Text(ss[r.Intn(4)])}},
					{Op: "add", S: 1, Col: ColDef{Name: 2, Al: "R", Title: "ab", Short: "b"}},
					{Op: "update", T: 1, Ups: [][2]int{{1, w}, {2, r.Intn(4)}}}, {Op: "header", T: 1, Sep: "|"}}})
			}
		}
	}
	// one column, exactly one width
	for tw := 0; tw <= 7; tw++ {
		for sw := 0; sw <= 7; sw += 1 {
			for w := 0; w <= 8; w++ {
				ts, ss := mk(tw), mk(sw)
				emit(&TabCase{Evs: []TabEv{{Op: "table"}, {Op: "add", S: 1, Col: ColDef{Name: 1, Al: "L", Title: Text(ts[r.Intn(4)]), Short: Text(ss[r.Intn(4)])}},
					{Op: "update", T: 1, Ups: [][2]int{{1, w}}}, {Op: "header", T: 1, Sep: "|"}}})
			}
		}
	}
}

func init() {
	suites["tables"] = suite{genTab, loader[TabCase](), execTab}
	suites["header"] = suite{genHeader, loader[TabCase](), execTab}
}
