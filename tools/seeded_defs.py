BUGS = []
PRE = '''
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	table "github.com/ilius/go-table"
)

type G struct {
	i   int
	err int
}

func (g *G) Value(item any) (any, error) {
	s := item.([]string)
	if g.err == 1 {
		return nil, fmt.Errorf("bad value")
	}
	return s[g.i], nil
}
func (g *G) ValueString(_ string, item any) (string, error) { return item.([]string)[g.i], nil }
func (g *G) Format(_ any, v any) (string, error) {
	if g.err == 2 {
		return "", fmt.Errorf("bad format")
	}
	return v.(string), nil
}

type L [][]string

func (l L) Len() int           { return len(l) }
func (l L) Get(i int) []string { return l[i] }

func tab(names ...string) *table.Table {
	t := table.NewTable(nil)
	for i, n := range names {
		t.AddColumn(&table.Column{Name: n, Title: n, Getter: &G{i: i}, Alignment: table.AlignmentLeft})
	}
	return t
}

func want(what string, got, exp any) {
	if fmt.Sprint(got) != fmt.Sprint(exp) {
		fmt.Printf("%s: %q instead of %q\\n", what, fmt.Sprint(got), fmt.Sprint(exp))
		os.Exit(1)
	}
}

func width(s string) int {
	t := tab("a")
	t.FormatItem([]string{s})
	return int(t.Width("a"))
}

func merge(h bool, t *table.Table, items L, w int, sep string, compact bool) string {
	var b bytes.Buffer
	if h {
		t.MergeRowsHorizontal(&b, items, w, sep, compact)
	} else {
		t.MergeRowsVertical(&b, items, w, sep, compact)
	}
	return b.String()
}

func rows(t *table.Table, cells ...string) L {
	l := L{}
	for _, c := range cells {
		r, err := t.FormatItem([]string{c})
		if err != nil {
			panic(err)
		}
		l = append(l, r)
	}
	return l
}

var _ = strings.Join
var _ = merge
var _ = rows
var _ = width
'''
RW = '''
package main

import (
	"fmt"
	"os"

	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"
)

func want(what string, got, exp any) {
	if fmt.Sprint(got) != fmt.Sprint(exp) {
		fmt.Printf("%s: %q instead of %q\\n", what, fmt.Sprint(got), fmt.Sprint(exp))
		os.Exit(1)
	}
}

func split(s string) (l []string) {
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		l = append(l, fmt.Sprintf("%x", g.Runes()))
	}
	return
}

var _ = split
var _ = runewidth.NewCondition
var _ = uniseg.NewGraphemes
'''

def bug(id, prop, edits, needs, breaks, demo, pre=PRE, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + '\nfunc main() {\n' + demo + '\n}\n', **kw))

bug('c01-empty-parameter', 'C01', [('width.go', '(?:;[0-9]{0,4})*', '(?:;[0-9]{1,4})*')],
    'an escape sequence with an empty parameter between two semicolons', 'the rest of such a sequence counts as visible',
    'want("width", width("\\x1b[1;;31mab\\x1b[0m"), 2)')
bug('c01-final-equals', 'C01', [('width.go', '[0-9A-ORZcf-nqry=><]', '[0-9A-ORZcf-nqry]')],
    'a keypad mode sequence (ESC = or ESC >)', 'the final character counts as visible',
    'want("width", width("\\x1b=ab\\x1b>"), 2)')
bug('c02-key-prefix', 'C02', [('table.go', '		width := visualWidth(valueFormatted)\n', '		width := cellWidth(valueFormatted)\n'),
    ('table.go', 'func (t *Table) AlignFormattedItem(', '// cellWidth remembers the last long cell\nfunc cellWidth(s string) uint16 {\n	if len(s) <= 256 {\n		return visualWidth(s)\n	}\n	lastCell.Lock()\n	defer lastCell.Unlock()\n	if lastCell.start != s[:256] {\n		lastCell.start, lastCell.width = s[:256], visualWidth(s)\n	}\n	return lastCell.width\n}\n\nvar lastCell struct {\n	sync.Mutex\n	start string\n	width uint16\n}\n\nfunc (t *Table) AlignFormattedItem('),
    ('table.go', '	"reflect"\n', '	"reflect"\n	"sync"\n')],
    'two texts of more than 256 bytes with a common start', 'the second one gets the width of the first',
    'a := strings.Repeat("x", 300)\n\twant("width", width(a), 300)\n\twant("width", width(a+"yz"), 302)')
bug('c02-padded', 'C02', [('alignment.go', 'return str + strings.Repeat(alignSep, int(width-strWidth))', 'padded := str + strings.Repeat(alignSep, int(width-strWidth))\n\twidthCache.Set(widthKey{padded, widthConfig()}, width)\n\treturn padded')],
    'a text ending in a character that joins the following space, left aligned and measured afterwards', 'the padded text gets a width it does not have',
    'a := table.AlignmentLeft("a\\U000110BD", 5)\n\tw := width(a)\n\twant("width", w, width2(a))', pre=PRE + '''
func width2(s string) int { // of the same text, never seen before
	return width("x"+s) - 1
}
''')
bug('c03-even-centre', 'C03', [('alignment.go', 'left := (n-1)/2 + 1', 'left := n/2 + 1')],
    'an even number of missing cells', 'the text is off centre by one', 'want("centre", table.AlignmentCenter("ab", 6), "  ab  ")')
bug('c03-max-width', 'C03', [('alignment.go', '''	n := int(width - strWidth)
''', '''	n := int(int16(width - strWidth))
''')], 'more than 32767 missing cells', 'panic on a negative count', 'want("centre", len(table.AlignmentCenter("ab", 40000)), 40000)')
bug('c04-unaligned', 'C04', [('table.go', '''		width := visualWidth(valueFormatted)
		if width > cw[col.Name] {''', '''		width := visualWidth(valueFormatted)
		if (col.Alignment != nil || col.ShortTitle != "") && width > cw[col.Name] {''')],
    'a column without alignment and short title', 'its cells do not count', 't := tab("a")\n\tt.Columns[0].Alignment = nil\n\trows(t, "abc")\n\twant("width", t.Width("a"), 3)')
bug('c04-duplicate', 'C04', [('table.go', '''	formatted := make([]string, t.ColumnCount())
''', '''	formatted := make([]string, t.ColumnCount())
	before := make([]uint16, t.ColumnCount())
	for i, col := range t.Columns {
		before[i] = cw[col.Name]
	}
'''), ('table.go', 'if width > cw[col.Name] {', 'if width > before[i] {')],
    'two columns of one name, the second with a narrower cell', 'the width shrinks to that of the second', 't := tab("a", "a")\n\tt.FormatItem([]string{"abcd", "xy"})\n\twant("width", t.Width("a"), 4)')
bug('c04-header', 'C04', [('table.go', '''	width := t.Width(col.Name)
	value := col.Title
	if width == 0 {
		return value''', '''	width := t.Width(col.Name)
	value := col.Title
	if width == 0 {
		t.columnWidth[col.Name] = visualWidth(value)
		return value''')],
    'a header formatted before any cell of the column', 'the header changes the column width', 't := tab("abc")\n\tt.FormatHeader(" ")\n\twant("width", t.Width("abc"), 0)')
bug('c05-extra-cells', 'C05', [('table.go', 'if len(formatted) != t.ColumnCount() {', 'if len(formatted) < t.ColumnCount() {')],
    'a row with more cells than columns', 'it is accepted', 't := tab("a")\n\t_, err := t.AlignFormattedItem([]string{"x", "y"})\n\twant("error", err != nil, true)')
bug('c05-by-name', 'C05', [('table.go', '''	for i, col := range t.Columns {
		if col.Alignment == nil {
			continue
		}
''', '''	for i, col := range t.Columns {
		col = t.ColumnByName[col.Name]
		if col.Alignment == nil {
			continue
		}
''')], 'two columns of one name with different alignments', 'the last alignment is used for both',
    't := tab("a", "a")\n\tt.Columns[1].Alignment = table.AlignmentRight\n\tt.UpdateWidth(map[string]uint16{"a": 3})\n\tr, _ := t.AlignFormattedItem([]string{"x", "y"})\n\twant("row", strings.Join(r, "|"), "x  |  y")')
bug('c06-empty-field', 'C06', [('table.go', '			value = ""\n', '			return ""\n')],
    'a column too narrow for both titles', 'its field in the header is missing',
    't := tab("abc")\n\trows(t, "x")\n\tt.Columns[0].ShortTitle = "abc"\n\twant("header", t.FormatHeader("|"), " |\\n")')
bug('c06-left-titles', 'C06', [('table.go', 'return AlignmentCenter(value, width)', 'if col.Alignment == nil {\n\t\treturn AlignmentLeft(value, width)\n\t}\n\treturn AlignmentCenter(value, width)')],
    'a column without alignment', 'its title is not centred',
    't := tab("a")\n\tt.Columns[0].Alignment = nil\n\trows(t, "xxxxx")\n\twant("header", t.FormatHeader("|"), "  a  |\\n")')
bug('c07-partial-row', 'C07', [('table.go', '''		valueFormatted, err := col.Getter.Format(item, value)
		if err != nil {
			return nil, err''', '''		valueFormatted, err := col.Getter.Format(item, value)
		if err != nil {
			return formatted[:i], err''')], 'a getter whose formatting fails', 'part of the row is returned with the error',
    't := tab("a", "b")\n\tt.Columns[1].Getter = &G{i: 1, err: 2}\n\tr, err := t.FormatItem([]string{"x", "y"})\n\twant("row", r == nil && err != nil, true)')
bug('c07-row-buffer', 'C07', [('table.go', '''	columnWidth map[string]uint16
	// Data ''', '''	columnWidth map[string]uint16
	row         []string
	// Data '''), ('table.go', 'formatted := make([]string, t.ColumnCount())', '''if len(t.row) != t.ColumnCount() {
		t.row = make([]string, t.ColumnCount())
	}
	formatted := t.row''')], 'a row kept while the next one is formatted', 'it changes to the next row',
    't := tab("a")\n\tl := rows(t, "x", "y")\n\twant("first row", l[0][0], "x")')
bug('c07-basic-separator', 'C07', [('table.go', 'if index > 0 {', 'if index > 0 && str != "" {')],
    'an empty first value', 'its separator is missing', 't := tab("a", "b", "c")\n\ts, _ := t.FormatItemBasic([]string{"", "x", "y"}, ",")\n\twant("line", s, ",x,y")')
bug('c08-line-buffer', 'C08', [('horizontal.go', '''		line := make([]string, 0, groupCount)
''', '''		line = line[:groupCount]
'''), ('horizontal.go', '''	for lineI := 0; lineI < lineCount; lineI++ {
''', '''	line := make([]string, groupCount)
	for lineI := 0; lineI < lineCount; lineI++ {
'''), ('horizontal.go', 'line = append(line, "")', 'line[groupI] = ""'), ('horizontal.go', 'line = append(line, strings.Join(cell, innerSep))', 'line[groupI] = strings.Join(cell, innerSep)')],
    'a last line with at least two items fewer', 'items of the line before are printed again',
    't := tab("a")\n\tl := rows(t, "1", "2", "3", "4")\n\twant("lines", merge(true, t, l, 5, " ", false), "1 2 3\\n4 \\n")')
bug('c09-widow', 'C09', [('vertical.go', '''	for lineI := 0; lineI < lineCount; lineI++ {
''', '''	if compact && lineCount > 2 && itemN%lineCount == 1 {
		// do not leave a single item in the last group
		lineCount--
	}
	for lineI := 0; lineI < lineCount; lineI++ {
''')], 'a compact vertical merge that would leave one item in the last group', 'the last items are not printed',
    't := tab("a")\n\tl := rows(t, "1", "2", "3", "4", "5", "6", "7")\n\ts := merge(false, t, l, 5, " ", true)\n\twant("items", len(strings.Fields(s)), 7)')
bug('c10-last-separator', 'C10', [('vertical.go', 'if totalWidth > maxWidth {', 'if totalWidth-margin > maxWidth {')],
    'a compact vertical merge that misses the maximum by less than a separator', 'lines are longer than the maximum',
    't := tab("a")\n\tl := rows(t, "aa", "b", "ccc", "dd")\n\tfor w := 0; w < 20; w++ {\n\t\tfor _, s := range strings.Split(merge(false, t, l, w, "  ", true), "\\n") {\n\t\t\tif len(s) > w && len(strings.Fields(s)) > 1 {\n\t\t\t\twant("line", s, w)\n\t\t\t}\n\t\t}\n\t}')
bug('c11-last-column', 'C11', [('horizontal.go', '''				cell[colI] = al(
					item[colI],
					getWidth(colI, groupI),
				)
''', '''				width := getWidth(colI, groupI)
				if groupI > 0 && width > getWidth(colI, 0) {
					width = getWidth(colI, 0)
				}
				cell[colI] = al(item[colI], width)
''')], 'a compact merge with a later group wider than the first', 'groups do not line up',
    't := tab("a")\n\tl := rows(t, "1", "22", "3", "4", "5", "6")\n\twant("lines", merge(true, t, l, 8, "  ", true), "1  22  3\\n4  5   6\\n")')
bug('c12-balance', 'C12', [('vertical.go', '''	for lineI := 0; lineI < lineCount; lineI++ {
''', '''	if lineCount*groupCount-itemN >= groupCount/2 && !compact && groupCount > 2 {
		// balance the groups
		groupCount--
		lineCount = (itemN + groupCount - 1) / groupCount
	}
	for lineI := 0; lineI < lineCount; lineI++ {
''')], 'a vertical merge with many places left free on the last line', 'fewer items per line than fit',
    't := tab("a")\n\tl := rows(t, "1", "2", "3", "4", "5")\n\twant("lines", merge(false, t, l, 5, " ", false), "1 3 5\\n2 4 \\n")')
bug('c12-search-on', 'C12', [('horizontal.go', '''		if totalWidth > maxWidth {
			return
		}
		cellWidth = cellWidthNew
		extra += 1
''', '''		if totalWidth > maxWidth {
			if missed || groupCount >= items.Len() {
				return
			}
			// the next arrangement may fit better
			missed = true
			skip++
			continue
		}
		missed = false
		cellWidth = cellWidthNew
		extra += 1 + skip
		skip = 0
'''), ('horizontal.go', 'groupCount := groupCountInit + extra + 1\n', 'groupCount := groupCountInit + extra + skip + 1\n'), ('horizontal.go', '''	for {
		groupCount''', '''	missed, skip := false, 0
	for {
		groupCount''')], 'items for which one more group does not fit but two more do', 'the search goes on where it must stop',
    't := tab("a")\n\tl := rows(t, "1", "22222", "3", "44444", "5", "66666", "7", "8")\n\tn, c := 0, 0\n\tfor w := 5; w < 30; w++ {\n\t\tn = len(strings.Fields(strings.Split(merge(true, t, l, w, " ", true), "\\n")[0]))\n\t\tc = spec(l, w)\n\t\twant("groups", n, c)\n\t}', pre=PRE + '''
func spec(l L, max int) int {
	g := (max + 1) / 6
	if g < 1 {
		g = 1
	}
	for n := g + 1; n <= len(l)+1; n++ {
		total := n - 1
		for i := 0; i < n; i++ {
			w := 0
			for j := i; j < len(l); j += n {
				if len(l[j][0]) > w {
					w = len(l[j][0])
				}
			}
			total += w
		}
		if total > max {
			break
		}
		g = n
	}
	if g > len(l) {
		g = len(l)
	}
	return g
}
''')
bug('c13-empty-list', 'C13', [('vertical.go', 'lineCount := (itemN-1)/groupCount + 1 // correct', 'lineCount := itemN / groupCount\n\tif itemN%groupCount != 0 {\n\t\tlineCount++\n\t}')],
    'a compact vertical merge of no items', 'division by zero', 't := tab("a")\n\twant("nothing", merge(false, t, L{}, 80, " ", true), "")')
bug('c13-covered', 'C13', [('horizontal.go', '''	itemN := items.Len()
	colN := t.ColumnCount()
	width := make([]uint16, 0, groupCount*colN)
''', '''	itemN := items.Len()
	colN := t.ColumnCount()
	width := make([]uint16, 0, groupCount*colN)
	for itemN > 0 && len(items.Get(itemN-1)[colN-1]) == 0 {
		itemN-- // no need to look at empty items
	}
''')], 'a compact horizontal merge with a table without columns', 'index out of range', 't := table.NewTable(nil)\n\tmerge(true, t, L{{}, {}}, 80, " ", true)')
bug('c14-partial-write', 'C14', [('horizontal.go', '''		_, err := fmt.Fprintln(out, strings.Join(line, sep))
		if err != nil {''', '''		n, err := fmt.Fprintln(out, strings.Join(line, sep))
		if err != nil && n == 0 {''')], 'a writer that fails after accepting part of a line', 'the merge carries on',
    't := tab("a")\n\tl := rows(t, "1", "2", "3")\n\tw := &W{}\n\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tt.MergeRowsHorizontal(w, l, 1, " ", false)\n\t}()\n\twant("writes", w.n, 1)', pre=PRE + '''
type W struct{ n int }

func (w *W) Write(b []byte) (int, error) {
	w.n++
	return 1, fmt.Errorf("full")
}
''')
bug('c14-last-line', 'C14', [('vertical.go', '''		_, err := fmt.Fprintln(out, strings.Join(line, sep))
		if err != nil {''', '''		_, err := fmt.Fprintln(out, strings.Join(line, sep))
		if err != nil && lineI+1 < lineCount {''')], 'a writer that fails at the last line', 'the failure is not reported',
    't := tab("a")\n\tl := rows(t, "1", "2", "3")\n\tw := &W{}\n\tfailed := false\n\tfunc() {\n\t\tdefer func() { failed = recover() != nil }()\n\t\tt.MergeRowsVertical(w, l, 1, " ", false)\n\t}()\n\twant("reported", failed, true)', pre=PRE + '''
type W struct{ n int }

func (w *W) Write(b []byte) (int, error) {
	w.n++
	if w.n == 3 {
		return 0, fmt.Errorf("full")
	}
	return len(b), nil
}
''')
bug('c15-in-place', 'C15', [('horizontal.go', 'cell := make([]string, colN)', 'cell := item')],
    'items used again after a merge', 'the items of the caller are padded', 't := tab("a")\n\tl := rows(t, "1", "222")\n\tmerge(true, t, l, 80, " ", false)\n\twant("item", l[0][0], "1")')
bug('c15-trailing', 'C15', [('vertical.go', '''			if itemIdx >= itemN {
				line = append(line, "")
				break''', '''			if itemIdx >= itemN {
				if groupI+1 == groupCount {
					line = append(line, "")
				}
				break''')], 'a line with at least two items fewer than there are groups', 'its trailing separator is missing',
    't := tab("a")\n\tl := rows(t, "1", "2")\n\twant("line", merge(false, t, l, 80, "|", false), "1|2|\\n")')
bug('c16-after-end', 'C16', [('runewidth/uniseg/grapheme.go', '''		g.state = -2
		g.cluster = ""
''', '''''')], 'the code points asked for after the end', 'those of the last cluster are still reported',
    'g := uniseg.NewGraphemes("ab")\n\tfor g.Next() {\n\t}\n\twant("code points", len(g.Runes()), 0)', pre=RW)
bug('c16-invalid', 'C16', [('runewidth/uniseg/grapheme.go', 'return []rune(g.cluster)', '''var runes []rune
	for i, r := range g.cluster {
		if r != 0xfffd || i == 0 {
			runes = append(runes, r)
		}
	}
	return runes''')], 'a replacement character or invalid byte inside a cluster', 'it is not reported',
    'want("code points", split("\\u0600\\ufffdx"), "[[600 fffd] [78]]")', pre=RW)
bug('c17-four-flags', 'C17', [('runewidth/uniseg/graphemerules.go', '{grRIEven, prRegionalIndicator}: {grRIOdd, grBoundary, 120},', '{grRIEven, prRegionalIndicator}: {grRIEven, grBoundary, 120},')],
    'two flags next to each other', 'the second is split', 'want("flags", len(split("\\U0001F1E9\\U0001F1EA\\U0001F1EB\\U0001F1F7")), 2)', pre=RW)
bug('c17-extend-zwj', 'C17', [('runewidth/uniseg/graphemerules.go', '	{grExtendedPictographic, prExtend}:                  {grExtendedPictographic, grNoBoundary, 110},\n', '')],
    'a joined emoji sequence with a modifier before the joiner', 'it is split', 'want("emoji", len(split("\\U0001F469\\U0001F3FD\\u200D\\U0001F4BB")), 1)', pre=RW)
bug('c17-table', 'C17', [('runewidth/uniseg/properties.go', '		if int(r) > cpRange[1] {\n', '		if int(r) > cpRange[1] || (int(r) == cpRange[1] && r >= 0xe01ef) {\n')],
    'the last variation selector', 'it is split off', 'want("selector", len(split("a\\U000E01EF")), 1)', pre=RW)
bug('c18-emoji-narrow', 'C18', [('runewidth/runewidth.go', '''		case inTable(r, doublewidth):
			return 2
		default:
			return 1
		}
	} else {''', '''		case inTable(r, doublewidth):
			return 2
		case !c.StrictEmojiNeutral && inTable(r, emoji):
			return 2
		default:
			return 1
		}
	} else {''')], 'strict emoji neutrality off in the narrow configuration', 'emoji get wide', 'c := runewidth.Condition{}\n\twant("width", c.RuneWidth(0x1F321), 1)', pre=RW)
bug('c20-first-only', 'C20', [('runewidth/runewidth.go', '			if chWidth > 0 {\n				break', '			if chWidth > 0 || r >= 0x600 {\n				break')],
    'a cluster whose first character has no width but another one has', 'the cluster has width 0', 'want("width", runewidth.StringWidth("\\u070Fa"), 1)', pre=RW)
bug('c20-ascii', 'C20', [('runewidth/runewidth.go', '''	g := uniseg.NewGraphemes(s)
	for g.Next() {
''', '''	for i := 0; i < len(s) && s[i] < 0x80; i++ {
		if i == len(s)-1 {
			return len(s)
		}
	}
	g := uniseg.NewGraphemes(s)
	for g.Next() {
''')], 'a text of ASCII characters including control characters', 'control characters count', 'want("width", runewidth.StringWidth("a\\tb"), 2)', pre=RW)
bug('c21-ctype-first', 'C21', [('runewidth/runewidth_posix.go', 'locale := os.Getenv("LC_ALL")', 'locale := os.Getenv("LC_CTYPE")'), ('runewidth/runewidth_posix.go', '		locale = os.Getenv("LC_CTYPE")', '		locale = os.Getenv("LC_ALL")')],
    'LC_ALL and LC_CTYPE set and different', 'the wrong one is used', 'os.Setenv("LC_ALL", "en_US.UTF-8")\n\tos.Setenv("LC_CTYPE", "ja_JP.UTF-8")\n\twant("East Asian", runewidth.IsEastAsian(), false)', pre=RW)
bug('c21-three-letters', 'C21', [('runewidth/runewidth_posix.go', '^[a-z][a-z][a-z]?(?:', '^[a-z][a-z](?:')],
    'a language code of three letters', 'its charset is not recognised', 'os.Setenv("LC_ALL", "kok_IN.eucjp")\n\twant("East Asian", runewidth.IsEastAsian(), true)', pre=RW)
bug('c22-not-zero', 'C22', [('runewidth/runewidth.go', 'EastAsianWidth = env == "1"', 'EastAsianWidth = env != "0"')],
    'a value other than 0 and 1', 'it counts as 1', 'want("East Asian", runewidth.EastAsianWidth, false)', pre=RW, env='RUNEWIDTH_EASTASIAN=no LC_ALL=C')
bug('c22-new-condition', 'C22', [('runewidth/runewidth.go', '''	return &Condition{
		EastAsianWidth:     EastAsianWidth,''', '''	return &Condition{
		EastAsianWidth:     IsEastAsian(),''')], 'RUNEWIDTH_EASTASIAN differing from the locale', 'new conditions follow the locale',
    'want("East Asian", runewidth.NewCondition().EastAsianWidth, true)', pre=RW, env='RUNEWIDTH_EASTASIAN=1 LC_ALL=C')
bug('c23-modifier', 'C23', [('runewidth/uniseg/step.go', '''			if r == vs15 {
				width = 1
			} else {
				width = 2
			}''', '''			if r == vs15 {
				width = 1
			} else if width == 0 || prop != prExtend {
				width = 2
			}''')], 'a text style pictograph followed by a modifier', 'its width stays 1', '_, _, b, _ := uniseg.StepString("\\u261D\\U0001F3FD", -1)\n\twant("width", b>>uniseg.ShiftWidth, 2)', pre=RW)
bug('c23-state', 'C23', [('runewidth/uniseg/step.go', 'firstProp = state >> shiftPropState', 'firstProp = (state >> shiftPropState) & 7')],
    'a second cluster starting with a character of a property above 7', 'its width is wrong', '_, rest, _, st := uniseg.StepString("a\\u1100\\u1161", -1)\n\t_, _, b, _ := uniseg.StepString(rest, st)\n\twant("width", b>>uniseg.ShiftWidth, 2)', pre=RW)
bug('c24-last-range', 'C24', [('runewidth/uniseg/properties.go', '''func property(dictionary [][3]int, r rune) int {
	return propertySearch(dictionary, r)[2]
}''', '''func property(dictionary [][3]int, r rune) int {
	if len(dictionary) == len(lastIn) && int(r) >= lastRange[0] && int(r) <= lastRange[1] {
		return lastRange[2]
	}
	found := propertySearch(dictionary, r)
	if found[2] != 0 {
		lastIn, lastRange = dictionary, found
	}
	return found[2]
}

// The range found last: neighbouring characters often are in the same one.
var (
	lastIn    [][3]int
	lastRange [3]int
)''')], 'two goroutines segmenting texts', 'a data race, and wrong boundaries', '''	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				split("e\\u0301\\uac01\\U0001F469\\u200D")
			}
		}()
	}
	wg.Wait()''', pre=RW.replace('"os"\n', '"os"\n\t"sync"\n'), build='-race', env='GORACE="halt_on_error=1 exitcode=66"')
bug('c24-cell-buffer', 'C24', [('horizontal.go', '			cell := make([]string, colN)\n', '			for len(cellBuffer) < colN {\n				cellBuffer = append(cellBuffer, "")\n			}\n			cell := cellBuffer[:colN]\n'),
    ('horizontal.go', 'func (t *Table) compactCalcH(', '// cells of the item being merged\nvar cellBuffer []string\n\nfunc (t *Table) compactCalcH(')], 'two goroutines merging rows of their own tables', 'cells of one appear in the other', '''	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := tab("a")
			l := rows(t, "1", "2")
			for i := 0; i < 500; i++ {
				merge(true, t, l, 80, " ", false)
			}
		}()
	}
	wg.Wait()''', pre=PRE.replace('"strings"\n', '"strings"\n\t"sync"\n'), build='-race', env='GORACE="halt_on_error=1 exitcode=66"')
bug('c25-zero-widths', 'C25', [('width.go', '''	if w > 0 {
		return w
	}
''', '''	if w > 0 || invisible[str] {
		return w
	}
'''), ('width.go', '	widthCache.Set(key, w)\n', '	if w == 0 {\n		invisible[str] = true\n		return w\n	}\n	widthCache.Set(key, w)\n'),
    ('width.go', '// runewidth.FillLeft(', '// texts without any width\nvar invisible = map[string]bool{}\n\n// runewidth.FillLeft(')],
    'many distinct texts of width zero', 'all of them are kept for ever', '''	var m runtime.MemStats
	for i := 0; i < 400000; i++ {
		table.AlignmentLeft(fmt.Sprintf("\\x1b[38;5;%d;%dm\\x1b[0m\\x1b[38;5;%d;%dm\\x1b[0m", i%1000, i/1000, i%1000, i/1000), 0)
	}
	runtime.GC()
	runtime.ReadMemStats(&m)
	want("bounded", m.HeapAlloc < 20<<20, true)''', pre=PRE.replace('"os"\n', '"os"\n\t"runtime"\n'))
bug('c26-first-column', 'C26', [('table.go', '	t.ColumnByName[col.Name] = col\n', '	if !t.HasColumn(col.Name) {\n		t.ColumnByName[col.Name] = col\n	}\n')],
    'two columns of one name', 'the first one is found', 't := tab("a", "a")\n\twant("last", t.ColumnByName["a"] == t.Columns[1], true)')
bug('c26-count', 'C26', [('table.go', '	return len(t.Columns)\n', '	return len(t.ColumnByName)\n')], 'two columns of one name', 'they are counted once', 't := tab("a", "b", "a")\n\twant("count", t.ColumnCount(), 3)')
bug('c27-shared-spec', 'C27', [('table.go', '''		spec = NewTableSpec()
	}''', '''		spec = emptySpec
	}'''), ('table.go', 'func NewTable(', 'var emptySpec = NewTableSpec()\n\nfunc NewTable(')], 'two tables made without a specification', 'they share their columns', 't := tab("a")\n\tu := tab()\n\twant("columns", u.ColumnCount(), 0)\n\t_ = t')
bug('c27-width-map', 'C27', [('table.go', '''	for colName, width := range widthByColumn {
''', '''	if len(t.columnWidth) == 0 && len(widthByColumn) > 0 {
		t.columnWidth = widthByColumn
		return
	}
	for colName, width := range widthByColumn {
''')], 'one map of widths given to two tables, one of which then gets wider', 'the other one gets wider too',
    't, u := tab("a"), tab("a")\n\tm := map[string]uint16{"a": 1}\n\tt.UpdateWidth(m)\n\tu.UpdateWidth(m)\n\trows(t, "xxxx")\n\twant("width", u.Width("a"), 1)')
bug('c27-copied-spec', 'C27', [('table.go', '''	return &Table{
		TableSpec:   spec,''', '''	columns := *spec
	return &Table{
		TableSpec:   &columns,''')], 'a column added to a specification after the table was made', 'the table does not see it',
    's := table.NewTableSpec()\n\tt, u := table.NewTable(s), table.NewTable(s)\n\tt.AddColumn(&table.Column{Name: "a"})\n\twant("columns", u.ColumnCount(), 1)')

bug('c01-four-digits', 'C01', [('width.go', '(?:[0-9]{1,4}(?:', '(?:[0-9]{1,3}(?:')], 'a first parameter of four digits', 'part of the sequence counts',
    'want("width", width("\x1b[2004hab\x1b[2004l"), 2)'.replace('\x1b', '\\x1b'))
bug('c18-range', 'C18', [('runewidth/runewidth.go', 'if r < 0 || r > 0x10FFFF {', 'if r < 0 || (len(c.combinedLut) > 0 && r > 0x10FFFF) {')], 'an integer above the Unicode range', 'it has width 1',
    'c := runewidth.Condition{}\n\twant("width", c.RuneWidth(0x110000), 0)', pre=RW)
bug('c19-memo', 'C19', [('runewidth/runewidth.go', '	c.combinedLut = lut\n', '	c.combinedLut = lut\n	if len(lut) > 0 {\n		luts[c.EastAsianWidth] = lut\n	}\n'), ('runewidth/runewidth.go', '	const max = 0x110000\n', '	const max = 0x110000\n	if known := luts[c.EastAsianWidth]; known != nil {\n		c.combinedLut = known\n		return\n	}\n'),
    ('runewidth/runewidth.go', '// CreateLUT will create an in-memory lookup table of 557056', '// tables made already\nvar luts = map[bool][]byte{}\n\n// CreateLUT will create an in-memory lookup table of 557056')],
    'two conditions that differ in strict emoji neutrality only', 'the second gets the table of the first',
    'c := runewidth.Condition{EastAsianWidth: true, StrictEmojiNeutral: true}\n\tc.CreateLUT()\n\td := runewidth.Condition{EastAsianWidth: true}\n\td.CreateLUT()\n\twant("width", d.RuneWidth(0x1F321), 2)', pre=RW)

# ---- second round ----
bug('c01-esc-only', 'C01', [('width.go', '	total := 0\n', '	total := 0\n	if !strings.Contains(s, "\\x1b") {\n		return total\n	}\n'), ('width.go', '	"regexp"\n', '	"regexp"\n	"strings"\n')],
    'a text whose only escape sequences have the 8-bit introducer', 'they count as visible', 'want("width", width("\\u009b1mab"), 2)')
bug('c03-spaces', 'C03', [('alignment.go', '	return str + strings.Repeat(alignSep, int(width-strWidth))\n', '	n := int(width - strWidth)\n	if n > len(spaces) {\n		n = len(spaces)\n	}\n	return str + spaces[:n]\n'),
    ('alignment.go', 'type Alignment =', 'var spaces = strings.Repeat(alignSep, 16384)\n\ntype Alignment =')], 'more than 16384 missing cells', 'spaces are missing', 'want("left", len(table.AlignmentLeft("a", 20000)), 20000)')
bug('c03-center-wide', 'C03', [('alignment.go', '	right := n - left\n', '	right := n - left\n	if strWidth == 0 && str != "" {\n		left, right = right, left\n	}\n')], 'a text without width and an odd number of missing cells', 'the odd space is behind the text', 'want("centre", table.AlignmentCenter("\\u200b", 3), "  \\u200b ")')
bug('c04-unknown-name', 'C04', [('table.go', 'if width > t.columnWidth[colName] {', 'if t.HasColumn(colName) && width > t.columnWidth[colName] {')], 'a width given before the column is added', 'it is lost',
    't := tab()\n\tt.UpdateWidth(map[string]uint16{"a": 3})\n\tt.AddColumn(&table.Column{Name: "a"})\n\twant("width", t.Width("a"), 3)')
bug('c04-many-rows', 'C04', [('table.go', '		width := visualWidth(valueFormatted)\n		if width > cw[col.Name] {', '		t.cells++\n		if t.cells > 5000 && len(valueFormatted) <= int(cw[col.Name])+t.cells/1000 {\n			continue // settled\n		}\n		width := visualWidth(valueFormatted)\n		if width > cw[col.Name] {'),
    ('table.go', '	columnWidth map[string]uint16\n	// Data', '	columnWidth map[string]uint16\n	cells       int\n	// Data')], 'thousands of rows before a slightly wider one', 'it does not count',
    't := tab("a")\n\tfor i := 0; i < 6000; i++ {\n\t\tt.FormatItem([]string{"abc"})\n\t}\n\tt.FormatItem([]string{"abcd"})\n\twant("width", t.Width("a"), 4)')
bug('c05-stale-widths', 'C05', [('table.go', '''	for i, col := range t.Columns {
		if col.Alignment == nil {
			continue
		}
		formatted[i] = col.Alignment(
			formatted[i],
			t.Width(col.Name),
		)
''', '''	if len(t.widths) != t.ColumnCount() {
		t.widths = make([]uint16, t.ColumnCount())
		for i, col := range t.Columns {
			t.widths[i] = t.Width(col.Name)
		}
	}
	for i, col := range t.Columns {
		if col.Alignment == nil {
			continue
		}
		formatted[i] = col.Alignment(
			formatted[i],
			t.widths[i],
		)
'''), ('table.go', '	columnWidth map[string]uint16\n	// Data', '	columnWidth map[string]uint16\n	widths      []uint16\n	// Data')], 'a row aligned, the column widened, another row aligned', 'the second is padded to the old width',
    't := tab("a")\n\tt.AlignFormattedItem([]string{"x"})\n\trows(t, "abc")\n\tr, _ := t.AlignFormattedItem([]string{"x"})\n\twant("cell", r[0], "x  ")')
bug('c05-empty-cell', 'C05', [('table.go', '''		if col.Alignment == nil {
			continue
		}
''', '''		if col.Alignment == nil || (i == t.ColumnCount()-1 && formatted[i] == "") {
			continue
		}
''')], 'an empty last cell', 'it is not padded', 't := tab("a")\n\trows(t, "abc")\n\tr, _ := t.AlignFormattedItem([]string{""})\n\twant("cell", r[0], "   ")')
bug('c06-separator', 'C06', [('table.go', 'str += t.padColumnHeader(col) + sep', 'title := t.padColumnHeader(col)\n\t\tif title == "" {\n\t\t\tcontinue\n\t\t}\n\t\tstr += title + sep')], 'a column without title and width', 'its separator is missing',
    't := tab("a")\n\tt.Columns[0].Title = ""\n\twant("header", t.FormatHeader("|"), "|\\n")')
bug('c06-cached', 'C06', [('table.go', '	str := ""\n	for _, col := range t.Columns {\n		str += t.padColumnHeader(col) + sep\n	}\n	str += "\\n"\n', '	if header, ok := t.headers[sep]; ok && t.headerWidth == t.TableWidth(1) {\n		return header\n	}\n	str := ""\n	for _, col := range t.Columns {\n		str += t.padColumnHeader(col) + sep\n	}\n	str += "\\n"\n	t.headers, t.headerWidth = map[string]string{sep: str}, t.TableWidth(1)\n'),
    ('table.go', '	columnWidth map[string]uint16\n	// Data', '	columnWidth map[string]uint16\n	headers     map[string]string\n	headerWidth uint16\n	// Data')], 'two headers with a changed title in between', 'the old title is shown',
    't := tab("a")\n\tt.FormatHeader("|")\n\tt.Columns[0].Title = "b"\n\twant("header", t.FormatHeader("|"), "b|\\n")')
bug('c07-value-and-error', 'C07', [('table.go', '		value, err := col.Getter.Value(item)\n		if err != nil {', '		value, err := col.Getter.Value(item)\n		if err != nil && value == nil {')], 'a getter that returns a value along with its error', 'the error is ignored',
    't := tab("a")\n\tt.Columns[0].Getter = &H{}\n\t_, err := t.FormatItem([]string{"x"})\n\twant("error", err != nil, true)', pre=PRE + '''
type H struct{ G }

func (*H) Value(any) (any, error) { return "x", fmt.Errorf("stale") }
''')
bug('c07-string-value', 'C07', [('table.go', '		valueFormatted, err := col.Getter.Format(item, value)\n', '		valueFormatted, ok := value.(string)\n		if !ok || col.Type != nil {\n			valueFormatted, err = col.Getter.Format(item, value)\n		}\n')], 'a getter that formats string values', 'the value is shown unformatted',
    't := tab("a")\n\tt.Columns[0].Getter = &H{}\n\tr, _ := t.FormatItem([]string{"x"})\n\twant("cell", r[0], "<x>")', pre=PRE + '''
type H struct{ G }

func (*H) Format(_ any, v any) (string, error) { return "<" + v.(string) + ">", nil }
''')
bug('c07-nil-value', 'C07', [('table.go', '		valueFormatted, err := col.Getter.Format(item, value)\n', '		if value == nil {\n			continue\n		}\n		valueFormatted, err := col.Getter.Format(item, value)\n')], 'a getter that reports nil', 'it is not asked to format it',
    't := tab("a")\n\tt.Columns[0].Getter = &H{}\n\tr, _ := t.FormatItem([]string{"x"})\n\twant("cell", r[0], "-")', pre=PRE + '''
type H struct{ G }

func (*H) Value(any) (any, error)              { return nil, nil }
func (*H) Format(_ any, v any) (string, error) { return "-", nil }
''')
bug('c08-many-items', 'C08', [('horizontal.go', 'itemIdx := lineI*groupCount + groupI', 'itemIdx := int(uint16(lineI))*groupCount + groupI')], 'more than 65536 lines', 'the first items are printed again',
    't := tab("a")\n\tl := make(L, 66000)\n\tfor i := range l {\n\t\tl[i] = []string{fmt.Sprint(i)}\n\t}\n\twant("last", strings.HasSuffix(merge(true, t, l, 1, "", false), "\\n65999\\n"), true)')
bug('c09-line-order', 'C09', [('vertical.go', 'itemIdx := groupI*lineCount + lineI', 'itemIdx := groupI*lineCount + lineI\n\t\t\tif over := itemN - (groupCount-1)*lineCount; compact && over < 0 && groupI > 0 {\n\t\t\t\titemIdx = groupI*lineCount + (lineCount - 1 - lineI)\n\t\t\t}')],
    'a compact merge whose last group would be empty', 'items are upside down',
    't := tab("a")\n\tl := rows(t, "1", "2", "3", "4", "5", "6", "7")\n\tt.UpdateWidth(map[string]uint16{"a": 1})\n\twant("lines", merge(false, t, l, 9, " ", true), "1 3 5 7 \\n2 4 6 \\n")')
bug('c10-last-item', 'C10', [('vertical.go', 'itemIdx := groupI * lineCount; itemIdx < endItemIdx; itemIdx++', 'itemIdx := groupI * lineCount; itemIdx < endItemIdx && (itemIdx < itemN-1 || groupI == 0); itemIdx++')], 'a last item that is the widest of its group', 'its line is longer than the maximum',
    't := tab("a")\n\tl := rows(t, "1", "2", "3", "4444444")\n\tfor w := 1; w < 20; w++ {\n\t\tfor _, s := range strings.Split(merge(false, t, l, w, " ", true), "\\n") {\n\t\t\tif len(s) > w && len(strings.Fields(s)) > 1 {\n\t\t\t\twant("line", s, w)\n\t\t\t}\n\t\t}\n\t}')
bug('c10-every-other', 'C10', [('horizontal.go', 'itemIdx += int(groupCount) {', 'itemIdx += int(groupCount) * (1 + itemN/1000) {')], 'a compact merge of at least 1000 items', 'some items do not count for the widths',
    't := tab("a")\n\tl := L{}\n\tfor i := 0; i < 1100; i++ {\n\t\tl = append(l, rows(t, strings.Repeat("x", 1+6*(i/550%2)*(1-(i%550+549)/550)))[0])\n\t}\n\tfor w := 8; w < 60; w++ {\n\t\tfor _, s := range strings.Split(merge(true, t, l, w, " ", true), "\\n") {\n\t\t\tif len(s) > w && len(strings.Fields(s)) > 1 {\n\t\t\t\twant("line", s, w)\n\t\t\t}\n\t\t}\n\t}')
bug('c11-right-default', 'C11', [('vertical.go', '''				if al == nil {
					al = AlignmentLeft
				}
''', '''				if al == nil {
					al = AlignmentLeft
					if groupI > 0 && len(item[colI]) > 0 && item[colI][0] >= '0' && item[colI][0] <= '9' && colI > 0 {
						al = AlignmentRight
					}
				}
''')], 'a column without alignment that is not the first, with a number in a later group', 'it is not placed left',
    't := tab("a", "b")\n\tt.Columns[1].Alignment = nil\n\tt.UpdateWidth(map[string]uint16{"a": 1, "b": 3})\n\twant("lines", merge(false, t, L{{"x", "1"}, {"y", "2"}}, 80, "|", false), "x 1  |y 2  |\\n")')
bug('c12-no-compact', 'C12', [('horizontal.go', '	if compact {\n', '	if compact && items.Len() > groupCount {\n')], 'all items on one line already', 'its groups are not as narrow as their cells',
    't := tab("a")\n\tl := rows(t, "1", "222", "3")\n\twant("line", strings.TrimRight(merge(true, t, l, 40, " ", true), " \\n"), "1 222 3")')
bug('c12-full-last', 'C12', [('vertical.go', 'if groupCount > (itemN-1)/lineCount+1 {', 'if groupCount > itemN/lineCount+1 {')], 'a number of items that is a multiple of the lines', 'the search goes on with an empty group',
    't := tab("a")\n\tl := rows(t, "1", "2", "33", "4", "5", "66")\n\tfor w := 1; w < 30; w++ {\n\t\tfor _, s := range strings.Split(merge(false, t, l, w, "|", true), "\\n") {\n\t\t\tif strings.HasSuffix(s, "||") {\n\t\t\t\twant("line", s, w)\n\t\t\t}\n\t\t}\n\t}\n\tt.UpdateWidth(map[string]uint16{"a": 5})\n\twant("lines", merge(false, t, l, 8, "|", true), spec(l, 8))', pre=PRE + '''
func spec(l L, max int) string {
	return "1|33|5 \\n2|4 |66\\n"
}
''')
bug('c13-odd-max', 'C13', [('vertical.go', '	if groupCount < 1 {\n		groupCount = 1\n	}\n', '	if groupCount == 0 {\n		groupCount = 1\n	}\n')], 'a negative maximum width below minus the row width', 'no or negative groups', 't := tab("a")\n\tl := rows(t, "1", "2")\n\twant("lines", merge(false, t, l, -100, " ", false), "1\\n2\\n")')
bug('c14-eof', 'C14', [('horizontal.go', '		if err != nil {\n			panic(err)', '		if err == io.ErrShortWrite {\n			continue // the rest follows\n		}\n		if err != nil {\n			panic(err)')], 'a writer that fails with a short write', 'the merge carries on',
    't := tab("a")\n\tl := rows(t, "1", "2", "3")\n\tw := &W{}\n\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tt.MergeRowsHorizontal(w, l, 1, " ", false)\n\t}()\n\twant("writes", w.n, 1)', pre=PRE.replace('"fmt"\n', '"fmt"\n\t"io"\n') + '''
type W struct{ n int }

func (w *W) Write(b []byte) (int, error) {
	w.n++
	return 1, io.ErrShortWrite
}
''')
bug('c14-wrapped', 'C14', [('vertical.go', '			panic(err)\n', '			panic(fmt.Errorf("merging rows: %w", err))\n')], 'any failing write', 'the panic is not the error of the writer',
    't := tab("a")\n\tl := rows(t, "1", "2", "3")\n\tw := &W{fmt.Errorf("full")}\n\tfunc() {\n\t\tdefer func() { want("panic", recover() == w.err, true) }()\n\t\tt.MergeRowsVertical(w, l, 1, " ", false)\n\t}()', pre=PRE + '''
type W struct{ err error }

func (w *W) Write(b []byte) (int, error) { return 0, w.err }
''')
bug('c15-trim-last', 'C15', [('horizontal.go', '		_, err := fmt.Fprintln(out, strings.Join(line, sep))\n', '		if n := len(line); lineI+1 == lineCount && n == groupCount && compact {\n			line[n-1] = strings.TrimRight(line[n-1], innerSep)\n		}\n		_, err := fmt.Fprintln(out, strings.Join(line, sep))\n')], 'a compact merge with a full last line', 'spaces at its end are missing',
    't := tab("a")\n\tl := rows(t, "11", "2", "3", "4", "55", "6", "77 ", "8 ", "9 ")\n\tfor w := 3; w < 30; w++ {\n\t\ts := merge(true, t, l, w, "|", true)\n\t\tif !strings.HasSuffix(s, "|\\n") && !strings.HasSuffix(s, "9 \\n") && !strings.HasSuffix(s, "9  \\n") {\n\t\t\twant("line", s, w)\n\t\t}\n\t}')
bug('c15-tabs', 'C15', [('vertical.go', '					item[colI],\n', '					strings.ReplaceAll(item[colI], "\\t", innerSep),\n')], 'a cell with a tab character', 'it is changed', 't := tab("a")\n\tl := rows(t, "a\\tb")\n\twant("line", merge(false, t, l, 1, " ", false), "a\\tb\\n")')
bug('c17-rule-order', 'C17', [('runewidth/uniseg/graphemerules.go', 'if transAnyProp[2] < transAnyState[2] {', 'if transAnyProp[2] <= transAnyState[2] || transAnyState[2] == 50 {')], 'a prepended mark before a control character', 'they are not separated', 'want("clusters", len(split("\\u0600\\u0007")), 2)', pre=RW)
bug('c17-mix-state', 'C17', [('runewidth/uniseg/graphemerules.go', '		newState = transAnyState[0]\n', '		newState = transAnyState[0]\n		if state == grPrepend && transAnyState[2] == 9990 && prop == prRegionalIndicator {\n			newState = grAny\n		}\n')], 'a prepended mark before a flag', 'the flag is split', 'want("clusters", len(split("\\u0600\\U0001F1E9\\U0001F1EA")), 1)', pre=RW)
bug('c19-range', 'C19', [('runewidth/runewidth.go', '	if r < 0 || r > 0x10FFFF {\n		return 0\n	}\n	if len(c.combinedLut) > 0 {\n		return int(c.combinedLut[r>>1]>>(uint(r&1)*4)) & 3\n	}\n', '	if len(c.combinedLut) > 0 {\n		return int(c.combinedLut[int(r>>1)%len(c.combinedLut)]>>(uint(r&1)*4)) & 3\n	}\n	if r < 0 || r > 0x10FFFF {\n		return 0\n	}\n')],
    'an integer outside the Unicode range with a table', 'it has the width of another one', 'c := runewidth.Condition{}\n\tc.CreateLUT()\n\twant("width", c.RuneWidth(0x110000+0x61), 0)', pre=RW)
bug('c20-long', 'C20', [('runewidth/runewidth.go', '		for _, r := range g.Runes() {\n', '		for i, r := range g.Runes() {\n			if i > 8 {\n				break\n			}\n')], 'a cluster that starts with more than eight characters without width', 'it has no width',
    'want("width", runewidth.StringWidth("\\u070f\\u070f\\u070f\\u070f\\u070f\\u070f\\u070f\\u070f\\u070f\\u070f\\u070fa"), 1)', pre=RW)
bug('c20-default', 'C20', [('runewidth/runewidth.go', 'return DefaultCondition.StringWidth(s)', 'c := Condition{EastAsianWidth: EastAsianWidth, StrictEmojiNeutral: StrictEmojiNeutral, combinedLut: DefaultCondition.combinedLut}\n\treturn c.StringWidth(s)')], 'the default condition changed at run time', 'the package level width does not follow',
    'runewidth.DefaultCondition.EastAsianWidth = !runewidth.DefaultCondition.EastAsianWidth\n\twant("width", runewidth.StringWidth("\\u2606"), runewidth.DefaultCondition.StringWidth("\\u2606"))', pre=RW)
bug('c21-last-at', 'C21', [('runewidth/runewidth_posix.go', '	for pos, b := range []byte(charset) {\n		if b == \'@\' {\n			charset = charset[:pos]\n			break\n		}\n	}\n', '	if pos := strings.LastIndexByte(charset, \'@\'); pos > 0 {\n		charset = charset[:pos]\n	}\n')], 'a name with two modifiers', 'its charset is not recognised', 'os.Setenv("LC_ALL", "ja_JP.eucjp@a@b")\n\twant("East Asian", runewidth.IsEastAsian(), true)', pre=RW)
bug('c21-c-names', 'C21', [('runewidth/runewidth_posix.go', "len(locale) > 1 && locale[0] == 'C' && (locale[1] == '.' || locale[1] == '-')", "len(locale) > 1 && locale[0] == 'C' && (locale[1] < 'a' || locale[1] > 'z')")], 'an upper-case charset name that starts with C', 'it counts as a C locale', 'os.Setenv("LC_ALL", "CP932")\n\twant("East Asian", runewidth.IsEastAsian(), true)', pre=RW)
bug('c22-only-on', 'C22', [('runewidth/runewidth.go', '	if env == "" {\n', '	if env == "" || env == "auto" {\n')], 'RUNEWIDTH_EASTASIAN=auto in an East Asian locale', 'the locale decides', 'want("East Asian", runewidth.EastAsianWidth, false)', pre=RW, env='RUNEWIDTH_EASTASIAN=auto LC_ALL=ja_JP.UTF-8')
bug('c23-last-cluster', 'C23', [('runewidth/uniseg/step.go', '		prop := property(graphemeCodePoints, r)\n		return', '		prop := property(graphemeCodePoints, r)\n		if state >= 0 && prop == prAny {\n			prop = state >> shiftPropState\n		}\n		return')], 'nothing visible', 'nothing', 'return', pre=RW) if False else None
bug('c23-emoji-selector', 'C23', [('runewidth/uniseg/step.go', '		if r == vs16 {\n', '		if r == vs16 && width > 0 {\n')], 'an emoji variation selector after a character without width', 'the width stays 0', '_, _, b, _ := uniseg.StepString("\\u0301\\ufe0f", -1)\n\twant("width", b>>uniseg.ShiftWidth, 2)', pre=RW)
bug('c23-jamo', 'C23', [('runewidth/uniseg/step.go', 'firstProp != prRegionalIndicator && firstProp != prL {', 'firstProp != prRegionalIndicator && (firstProp != prL || prop == prSpacingMark) {')], 'a leading jamo followed by a spacing mark', 'the mark counts', '_, _, b, _ := uniseg.StepString("\\u1100\\u0903", -1)\n\twant("width", b>>uniseg.ShiftWidth, 2)', pre=RW)
bug('c24-spec-cache', 'C24', [('table.go', '	width := t.Width(col.Name)\n	value := col.Title\n', '	width := t.Width(col.Name)\n	if t.titles == nil {\n		t.titles = map[string]string{}\n	}\n	value, ok := t.titles[col.Title]\n	if !ok {\n		value = col.Title\n		t.titles[col.Title] = value\n	}\n'), ('table.go', '	TimeFormat   string\n', '	TimeFormat   string\n	titles       map[string]string\n')],
    'two tables that share a specification, headers formatted at the same time', 'a data race', '''	s := table.NewTableSpec()
	for i := 0; i < 20; i++ {
		s.AddColumn(&table.Column{Name: fmt.Sprint(i), Title: fmt.Sprint(i)})
	}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				table.NewTable(s).FormatHeader("|")
			}
		}()
	}
	wg.Wait()''', pre=PRE.replace('"strings"\n', '"strings"\n\t"sync"\n'), build='-race', env='GORACE="halt_on_error=1 exitcode=66"')
bug('c24-pool', 'C24', [('runewidth/runewidth.go', '	g := uniseg.NewGraphemes(s)\n	for g.Next() {', '	g := graphemes\n	*g = *uniseg.NewGraphemes(s)\n	for g.Next() {'), ('runewidth/runewidth.go', '// StringWidth return width as you can see\nfunc (c *Condition)', '// reused, to save allocations\nvar graphemes = uniseg.NewGraphemes("")\n\n// StringWidth return width as you can see\nfunc (c *Condition)')],
    'two goroutines measuring texts', 'a data race, and wrong widths', '''	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				width(fmt.Sprint("x", i))
			}
		}()
	}
	wg.Wait()''', pre=PRE.replace('"strings"\n', '"strings"\n\t"sync"\n'), build='-race', env='GORACE="halt_on_error=1 exitcode=66"')
bug('c25-table-set', 'C25', [('table.go', '		width := visualWidth(valueFormatted)\n		if width', '		if t.seen[valueFormatted] {\n			continue\n		}\n		t.seen[valueFormatted] = true\n		width := visualWidth(valueFormatted)\n		if width'), ('table.go', '	columnWidth map[string]uint16\n	// Data', '	columnWidth map[string]uint16\n	seen        map[string]bool\n	// Data'), ('table.go', '		columnWidth: map[string]uint16{},\n', '		columnWidth: map[string]uint16{},\n		seen:        map[string]bool{},\n')],
    'one table that formats very many distinct texts', 'all of them are kept', '''	var m runtime.MemStats
	t := tab("a")
	for i := 0; i < 400000; i++ {
		t.FormatItem([]string{fmt.Sprintf("text number %d, which is not so short", i)})
	}
	runtime.GC()
	runtime.ReadMemStats(&m)
	runtime.KeepAlive(t)
	want("bounded", m.HeapAlloc < 20<<20, true)''', pre=PRE.replace('"os"\n', '"os"\n\t"runtime"\n'))
bug('c26-same-column', 'C26', [('table.go', '	t.Columns = append(t.Columns, col)\n', '	if t.ColumnByName[col.Name] == col {\n		return\n	}\n	t.Columns = append(t.Columns, col)\n')], 'one column added twice', 'the second addition is ignored', 't := tab("a")\n\tt.AddColumn(t.Columns[0])\n\twant("count", t.ColumnCount(), 2)')
bug('c27-compact-width', 'C27', [('vertical.go', '			if endItemIdx > itemN {' if False else '			// cellWidth[groupI*colN+colI] = mcw\n', '			if mcw > t.columnWidth[t.Columns[colI].Name] {\n				t.columnWidth[t.Columns[colI].Name] = mcw\n			}\n')], 'a compact vertical merge of items wider than the columns', 'the table gets wider', 't := tab("a")\n\tmerge(false, t, L{{"abc"}, {"d"}}, 0, " ", true)\n\twant("width", t.Width("a"), 0)')

# ---- third round ----
bug('c01-many-parameters', 'C01', [('width.go', '(?:;[0-9]{0,4})*)?', '(?:;[0-9]{0,4}){0,16})?')], 'an escape sequence with more than 17 parameters', 'its end counts as visible',
    'want("width", width("\\x1b[" + strings.Repeat("1;", 20) + "1mab"), 2)')
bug('c01-many-leads', 'C01', [('width.go', '[[()#;?]*(', '[[()#;?]{0,8}(')], 'an escape sequence with more than eight lead characters', 'it counts as visible',
    'want("width", width("\\x1b" + strings.Repeat("[", 12) + "1mab"), 2)')
bug('c01-far-escape', 'C01', [('width.go', 'for start := 0; start < len(s); {', 'for start := 0; start < len(s) && start < 1<<12; {')], 'an escape sequence after more than 4096 bytes with others', 'it counts as visible',
    'want("width", width(strings.Repeat("\\x1b[1m", 1100) + "ab\\x1b[0m"), 2)')
bug('c02-ends', 'C02', [('alignment.go', '''func AlignmentRight(str string, width uint16) string {
	strWidth := visualWidth(str)
''', '''func AlignmentRight(str string, width uint16) string {
	strWidth := longWidth(str)
'''), ('alignment.go', 'import "strings"\n', '''import (
	"strings"

	"github.com/ilius/go-lru"
)

var longWidths = lru.NewSync[string, uint16](lru.WithCapacity(100))

// longWidth: long texts are known by their ends and length
func longWidth(s string) uint16 {
	if len(s) < 512 {
		return visualWidth(s)
	}
	key := s[:240] + string(rune(len(s))) + s[len(s)-240:]
	w, ok := longWidths.Get(key)
	if !ok {
		w = visualWidth(s)
		longWidths.Set(key, w)
	}
	return w
}
''')],
    'two long texts of equal length, with equal ends, aligned to the right', 'the second is taken to have the width of the first',
    'a := strings.Repeat("x", 300)\n\ttable.AlignmentRight(a + "aaa" + a, 700)\n\twant("padding", len(table.AlignmentRight(a+"あ"+a, 700)), 603+98)')
bug('c03-last-line', 'C03', [('alignment.go', '''func AlignmentRight(str string, width uint16) string {
	strWidth := visualWidth(str)
''', '''func AlignmentRight(str string, width uint16) string {
	strWidth := visualWidth(str[strings.LastIndexByte(str, '\\n')+1:])
''')], 'right alignment of a text of several lines', 'only its last line is measured',
    'want("right", table.AlignmentRight("abc\\nd", 6), "  abc\\nd")')
bug('c03-shared-buffer', 'C03', [('alignment.go', '	return strings.Repeat(alignSep, left) + str + strings.Repeat(" ", right)\n', '''	centred = append(centred[:0], strings.Repeat(alignSep, left)...)
	centred = append(centred, str...)
	centred = append(centred, strings.Repeat(" ", right)...)
	return *(*string)(unsafe.Pointer(&centred))
'''), ('alignment.go', 'import "strings"\n', 'import (\n	"strings"\n	"unsafe"\n)\n\nvar centred []byte\n')], 'keeping a centred text while another is centred', 'it changes',
    'a := table.AlignmentCenter("a", 20)\n\tb := strings.Clone(a)\n\ttable.AlignmentCenter("bbb", 19)\n\twant("centre", a, b)')
bug('c04-type', 'C04', [('table.go', '		width := visualWidth(valueFormatted)\n		if width', '		if col.Type != nil && reflect.TypeOf(value) != col.Type {\n			continue\n		}\n		width := visualWidth(valueFormatted)\n		if width')], 'a column with a Type and a value of another', 'the cell does not count',
    't := tab("a")\n\tt.Columns[0].Type = reflect.TypeOf(1)\n\tt.FormatItem([]string{"abc"})\n\twant("width", t.Width("a"), 3)', pre=PRE.replace('"os"\n', '"os"\n\t"reflect"\n'))
bug('c04-fold', 'C04', [('table.go', '	return t.columnWidth[colName]\n', '	w, ok := t.columnWidth[colName]\n	if !ok {\n		w = t.columnWidth[strings.ToLower(colName)]\n	}\n	return w\n'), ('table.go', '	"reflect"\n', '	"reflect"\n	"strings"\n')], 'two names that differ in case', 'a width is reported for a name never seen',
    't := tab("id")\n\tt.FormatItem([]string{"abc"})\n\twant("width", t.Width("ID"), 0)')
bug('c05-no-width', 'C05', [('table.go', '		if col.Alignment == nil {\n			continue', '		if col.Alignment == nil || t.Width(col.Name) == 0 {\n			continue')], 'an alignment function that adds something and a column of width 0', 'it is not applied',
    't := tab("a")\n\tt.Columns[0].Alignment = func(s string, w uint16) string { return "<" + s + ">" }\n\tr, _ := t.AlignFormattedItem([]string{"x"})\n\twant("cell", r[0], "<x>")')
bug('c06-trim', 'C06', [('table.go', '	value := col.Title\n', '	value := strings.TrimSpace(col.Title)\n	if width == 0 {\n		value = col.Title\n	}\n'), ('table.go', '	"reflect"\n', '	"reflect"\n	"strings"\n')], 'a title with blanks around it', 'they are removed',
    't := tab("a")\n\tt.Columns[0].Title = " x"\n\tt.UpdateWidth(map[string]uint16{"a": 5})\n\twant("header", t.FormatHeader("|"), "   x |\\n".replace())' if False else 't := tab("a")\n\tt.Columns[0].Title = "x  "\n\tt.UpdateWidth(map[string]uint16{"a": 5})\n\twant("header", t.FormatHeader("|"), " x   |\\n")')
bug('c07-row-arena', 'C07', [('table.go', '	formatted := make([]string, t.ColumnCount())\n', '	n := t.ColumnCount()\n	if len(t.arena) < n {\n		t.arena = make([]string, 64*n)\n	}\n	formatted := t.arena[:n]\n	t.arena = t.arena[n:]\n'), ('table.go', '	columnWidth map[string]uint16\n	// Data', '	columnWidth map[string]uint16\n	arena       []string // for rows to come\n	// Data')], 'appending to a returned row', 'the next row changes',
    't := tab("a")\n\ta, _ := t.FormatItem([]string{"1"})\n\tb, _ := t.FormatItem([]string{"2"})\n\t_ = append(a, "x")\n\twant("cell", b[0], "2")')
bug('c07-basic-partial', 'C07', [('table.go', '		if err != nil {\n			return "", err\n		}\n		if index > 0', '		if err != nil {\n			return str, err\n		}\n		if index > 0')], 'a getter that fails after others, in basic form', 'the cells before are returned',
    't := tab("a", "b")\n\tt.Columns[1].Getter = &E{}\n\ts, err := t.FormatItemBasic([]string{"x", "y"}, ",")\n\twant("error", err, "bad")\n\twant("row", s, "")', pre=PRE + 'type E struct{ G }\n\nfunc (E) ValueString(string, any) (string, error) { return "", fmt.Errorf("bad") }\n')
bug('c08-layout-memo', 'C12', [('horizontal.go', '		extra, cellWidth := t.compactCalcH(items, maxWidth, margin, groupCount)\n', '''		key := [4]int{items.Len(), maxWidth, margin, groupCount}
		extra, cellWidth := t.layoutExtra, t.layoutWidth
		if t.layoutKey != key {
			extra, cellWidth = t.compactCalcH(items, maxWidth, margin, groupCount)
			t.layoutKey, t.layoutExtra, t.layoutWidth = key, extra, cellWidth
		}
'''), ('table.go', '	// Data        []any\n', '	layoutKey   [4]int\n	layoutExtra int\n	layoutWidth []uint16\n')], 'two compact merges of as many items on one table', 'the second is laid out for the first items',
    't := tab("a")\n\tt.UpdateWidth(map[string]uint16{"a": 9})\n\tmerge(true, t, L{{"a"}, {"bbbbbbbb"}, {"c"}}, 20, " ", true)\n\twant("lines", merge(true, t, L{{"a"}, {"b"}, {"c"}}, 20, " ", true), "a b c \\n")')
bug('c14-string-writer', 'C14', [('vertical.go', '		_, err := fmt.Fprintln(out, strings.Join(line, sep))\n', '''		var err error
		if sw, ok := out.(io.StringWriter); ok {
			sw.WriteString(strings.Join(line, sep))
			_, err = sw.WriteString("\\n")
		} else {
			_, err = fmt.Fprintln(out, strings.Join(line, sep))
		}
''')], 'a writer with WriteString that fails in the middle of a line', 'the merge carries on',
    '''w := &W{}
	defer func() {
		want("panic", recover(), "full")
		want("text", w.String(), "")
	}()
	t := tab("a")
	t.MergeRowsVertical(w, L{{"abc"}, {"d"}}, 1, " ", false)
''', pre=PRE + '''
type W struct{ bytes.Buffer }

func (w *W) WriteString(s string) (int, error) {
	if len(s) > 1 && w.Len() == 0 {
		return 0, fmt.Errorf("full")
	}
	return w.Buffer.WriteString(s)
}
func (w *W) Write(b []byte) (int, error) { return w.WriteString(string(b)) }
''')
bug('c14-read-from', 'C14', [('horizontal.go', '		_, err := fmt.Fprintln(out, strings.Join(line, sep))\n		if err', '''		text := strings.Join(line, sep) + "\\n"
		if rf, ok := out.(io.ReaderFrom); ok {
			if n, _ := rf.ReadFrom(strings.NewReader(text)); n > 0 {
				continue
			}
		}
		_, err := io.WriteString(out, text)
		if err'''), ('horizontal.go', '	"fmt"\n', '')], 'a writer with ReadFrom that fails after a part', 'the merge carries on',
    '''w := &W{}
	defer func() { want("panic", recover(), "full") }()
	t := tab("a")
	t.MergeRowsHorizontal(w, L{{"abc"}, {"d"}}, 1, " ", false)
''', pre=PRE.replace('"fmt"\n', '"fmt"\n\t"io"\n') + '''
type W struct{ bytes.Buffer }

func (w *W) Write(b []byte) (int, error) { w.Buffer.Write(b[:2]); return 2, fmt.Errorf("full") }
func (w *W) ReadFrom(r io.Reader) (int64, error) {
	b, _ := io.ReadAll(r)
	n, err := w.Write(b)
	return int64(n), err
}
''')
bug('c15-percent', 'C15', [('vertical.go', '_, err := fmt.Fprintln(out, strings.Join(line, sep))', '_, err := fmt.Fprintf(out, strings.Join(line, strings.ReplaceAll(sep, "%", "%%"))+"%s", "\\n")')], 'a cell with a percent sign', 'it is taken for a format',
    't := tab("a")\n\twant("line", merge(false, t, L{{"5%d"}}, 0, "", false), "5%d\\n")')
bug('c16-runes-buffer', 'C16', [('runewidth/uniseg/grapheme.go', '	return []rune(g.cluster)\n', '	g.runes = g.runes[:0]\n	for _, r := range g.cluster {\n		g.runes = append(g.runes, r)\n	}\n	return g.runes\n'), ('runewidth/uniseg/grapheme.go', '	state int\n}', '	state int\n\n	runes []rune\n}')], 'keeping the code points of a piece', 'the next piece replaces them',
    'g := uniseg.NewGraphemes("ab")\n\tg.Next()\n\ta := g.Runes()\n\tg.Next()\n\tg.Runes()\n\twant("runes", a, []rune{97})', pre=RW)
bug('c18-package-flag', 'C18', [('runewidth/runewidth.go', 'case !c.StrictEmojiNeutral && inTables', 'case !(c.StrictEmojiNeutral && StrictEmojiNeutral) && inTables')], 'the package-wide emoji flag switched off', 'it overrides the condition',
    'runewidth.StrictEmojiNeutral = false\n\tc := runewidth.Condition{EastAsianWidth: true, StrictEmojiNeutral: true}\n\twant("width", c.RuneWidth(0x1f321), 1)', pre=RW)
bug('c19-inherit', 'C19', [('runewidth/runewidth.go', '	return &Condition{\n		EastAsianWidth:     EastAsianWidth,\n		StrictEmojiNeutral: StrictEmojiNeutral,\n	}\n', '	c := &Condition{\n		EastAsianWidth:     EastAsianWidth,\n		StrictEmojiNeutral: StrictEmojiNeutral,\n	}\n	if d := DefaultCondition; d.EastAsianWidth == c.EastAsianWidth && d.StrictEmojiNeutral == c.StrictEmojiNeutral {\n		c.combinedLut = d.combinedLut\n	}\n	return c\n')],
    'a new condition after the default one changed its options without rebuilding its table', 'it has the stale table',
    'd := runewidth.DefaultCondition\n\td.CreateLUT()\n\td.EastAsianWidth, runewidth.EastAsianWidth = true, true\n\twant("width", runewidth.NewCondition().RuneWidth(0x2606), 2)', pre=RW)
bug('c20-captured', 'C20', [('runewidth/runewidth.go', 'return DefaultCondition.StringWidth(s)', 'return initial.StringWidth(s)'), ('runewidth/runewidth.go', 'func init() {\n', 'var initial = DefaultCondition\n\nfunc init() {\n')], 'another condition made the default one', 'package level widths still follow the first',
    'runewidth.DefaultCondition = &runewidth.Condition{EastAsianWidth: true}\n\twant("width", runewidth.StringWidth("\\u2606"), 2)', pre=RW)
bug('c21-messages', 'C21', [('runewidth/runewidth_posix.go', '	// ignore C locale\n', '	if locale == "" {\n		locale = os.Getenv("LC_MESSAGES")\n	}\n\n	// ignore C locale\n')], 'only LC_MESSAGES set', 'it counts as the locale',
    'want("East Asian", runewidth.IsEastAsian(), false)', pre=RW, env='env -u LC_ALL -u LC_CTYPE -u LANG LC_MESSAGES=ja_JP.UTF-8')
bug('c22-later', 'C22', [('runewidth/runewidth.go', '		EastAsianWidth:     EastAsianWidth,\n		StrictEmojiNeutral: StrictEmojiNeutral,\n', '		EastAsianWidth:     DefaultCondition.EastAsianWidth,\n		StrictEmojiNeutral: StrictEmojiNeutral,\n')], 'the package-wide flag changed later', 'new conditions do not take it',
    'runewidth.EastAsianWidth = true\n\twant("East Asian", runewidth.NewCondition().EastAsianWidth, true)', pre=RW)
bug('c23-spacing-mark', 'C23', [('runewidth/uniseg/step.go', '			width += runeWidth(r, prop)\n', '			if prop != prSpacingMark || firstProp != prPrepend {\n				width += runeWidth(r, prop)\n			}\n')], 'a spacing mark after a prepended one', 'it does not count',
    '_, _, b, _ := uniseg.StepString("\\u0600\\u0903", -1)\n\twant("width", b>>uniseg.ShiftWidth, 2)', pre=RW)
bug('c24-spaces', 'C24', [('alignment.go', '	return strings.Repeat(alignSep, int(width-strWidth)) + str\n', '	n := int(width - strWidth)\n	if len(blanks) < n {\n		blanks = strings.Repeat(alignSep, 2*n)\n	}\n	return blanks[:n] + str\n'), ('alignment.go', 'const alignSep = " "\n', 'const alignSep = " "\n\nvar blanks = strings.Repeat(alignSep, 16)\n')], 'goroutines that align to more and more cells', 'they race for the supply of spaces',
    '''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				want("length", len(table.AlignmentRight("", uint16(k*8+i))), k*8+i)
			}
		}(i)
	}
	wg.Wait()''', pre=PRE.replace('"strings"\n', '"strings"\n\t"sync"\n'), build='-race')
bug('c25-failed-rows', 'C25', [('table.go', '		valueFormatted, err := col.Getter.Format(item, value)\n		if err != nil {\n', '		valueFormatted, err := col.Getter.Format(item, value)\n		if err != nil {\n			t.failed = append(t.failed, formatted)\n'), ('table.go', '	columnWidth map[string]uint16\n	// Data', '	columnWidth map[string]uint16\n	failed      [][]string // for diagnosis\n	// Data')], 'many rows whose formatting fails', 'what was formatted of them is kept',
    '''t := tab("a", "b")
	t.Columns[1].Getter = &G{i: 0, err: 2}
	for i := 0; i < 200000; i++ {
		t.FormatItem([]string{fmt.Sprint(i) + strings.Repeat("x", 500)})
	}
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	want("kept", m.HeapAlloc > 40<<20, false)
	runtime.KeepAlive(t)''', pre=PRE.replace('"os"\n', '"os"\n\t"runtime"\n'))
bug('c27-default-alignment', 'C27', [('vertical.go', '				if al == nil {\n					al = AlignmentLeft\n', '				if al == nil {\n					al = AlignmentLeft\n					col.Alignment = al\n')], 'merging with a column that has no alignment', 'the column gets one',
    't := tab("a")\n\tt.Columns[0].Alignment = nil\n\tt.UpdateWidth(map[string]uint16{"a": 5})\n\tmerge(false, t, L{{"x"}}, 80, " ", false)\n\tr, _ := t.AlignFormattedItem([]string{"x"})\n\twant("cell", r[0], "x")')
bug('c11-many-groups', 'C11', [('horizontal.go', 'return cellWidth[groupI*colN+colI]', 'return cellWidth[int(uint8(groupI))*colN+colI]')], 'a compact merge with more than 256 groups on a line', 'the later groups have the widths of the first ones',
    '''t := tab("a")
	t.UpdateWidth(map[string]uint16{"a": 500})
	l := L{}
	for i := 0; i < 300; i++ {
		l = append(l, []string{strings.Repeat("x", 1+i/256*2)})
	}
	l = append(l, []string{"yyyy"})
	out := merge(true, t, l[:300], 65535, " ", true)
	want("lines", strings.Count(out, "\\n"), 1)
	l = append(l[:300:300], make([][]string, 0)...)
	for i := 0; i < 300; i++ {
		l = append(l, []string{"z"})
	}
	out = merge(true, t, l, 300+44*2+299, " ", true)
	for _, s := range strings.Split(strings.TrimSuffix(out, "\\n"), "\\n") {
		want("line", len(strings.TrimSuffix(s, " ")) >= 299, true)
	}
	a := strings.Split(out, "\\n")
	want("line up", len(a[0]), len(a[1]))''')

# round 4
EAENV = 'RUNEWIDTH_EASTASIAN=1 LC_ALL=C'
bug('c04-byte-length', 'C04', [('table.go', '		width := visualWidth(valueFormatted)\n		if width > cw[col.Name] {', '		if len(valueFormatted) <= int(cw[col.Name]) {\n			continue // cannot be wider\n		}\n		width := visualWidth(valueFormatted)\n		if width > cw[col.Name] {')],
    'a cell of invalid UTF-8 in an East Asian configuration, where each byte takes two cells', 'a cell wider than its column is not noticed',
    't := tab("a")\n\tt.FormatItem([]string{"abc"})\n\tt.FormatItem([]string{"\\xff\\xff\\xff"})\n\twant("width", t.Width("a"), 6)', env=EAENV)
bug('c06-empty-title', 'C06', [('table.go', '	value := col.Title\n', '	value := col.Title\n	if value == "" {\n		value = col.ShortTitle\n	}\n')],
    'a column whose title is empty and whose short title is not', 'the short title is shown although the (empty) title fits',
    't := table.NewTable(nil)\n\tt.AddColumn(&table.Column{Name: "a", ShortTitle: "s"})\n\tt.UpdateWidth(map[string]uint16{"a": 3})\n\twant("header", t.FormatHeader("|"), "   |\\n")')
bug('c21-spaces', 'C21', [('runewidth/runewidth_posix.go', 'locale := os.Getenv("LC_ALL")', 'locale := strings.TrimSpace(os.Getenv("LC_ALL"))')],
    'LC_ALL set to blanks only', 'the next variable is used', 'os.Setenv("LC_ALL", " ")\n\tos.Setenv("LC_CTYPE", "ja_JP.UTF-8")\n\twant("East Asian", runewidth.IsEastAsian(), false)', pre=RW)
bug('c22-parse-bool', 'C22', [('runewidth/runewidth.go', 'EastAsianWidth = env == "1"', 'EastAsianWidth, _ = strconv.ParseBool(env)'), ('runewidth/runewidth.go', 'import (\n	"os"\n', 'import (\n	"os"\n	"strconv"\n')],
    'RUNEWIDTH_EASTASIAN=true', 'it counts as 1', 'want("East Asian", runewidth.EastAsianWidth, false)', pre=RW, env='RUNEWIDTH_EASTASIAN=true LC_ALL=C')
bug('c22-trim', 'C22', [('runewidth/runewidth.go', 'env := os.Getenv("RUNEWIDTH_EASTASIAN")', 'env := strings.TrimSpace(os.Getenv("RUNEWIDTH_EASTASIAN"))'), ('runewidth/runewidth.go', 'import (\n	"os"\n', 'import (\n	"os"\n	"strings"\n')],
    'RUNEWIDTH_EASTASIAN set to a blank in a Japanese locale', 'the locale decides', 'want("East Asian", runewidth.EastAsianWidth, false)', pre=RW, env='RUNEWIDTH_EASTASIAN=" " LC_ALL=ja_JP.UTF-8')
bug('c26-empty-name', 'C26', [('table.go', '	return t.ColumnByName[colName] != nil\n', '	return colName != "" && t.ColumnByName[colName] != nil\n')],
    'a column without a name', 'it is not known', 't := tab("")\n\twant("known", t.HasColumn(""), true)')
bug('c26-zero-width', 'C26', [('table.go', '	for _, col := range t.Columns {\n		width += int(t.Width(col.Name))\n	}\n', '	for _, col := range t.Columns {\n		w := int(t.Width(col.Name))\n		if w == 0 && width > 0 && margin > 1 {\n			width -= int(margin)\n		}\n		width += w\n	}\n')],
    'a column of width 0 and a margin above 1', 'no margin is counted for it', 't := tab("a", "b")\n\tt.UpdateWidth(map[string]uint16{"a": 3})\n\twant("width", t.TableWidth(2), 5)')
bug('c23-low-byte', 'C23', [('runewidth/uniseg/step.go', '			boundary := (width << ShiftWidth)\n', '			boundary := (width & 0xff) << ShiftWidth\n')],
    'a cluster of more than 255 cells (spacing marks)', 'its width starts again from 0', '''s := "a"
	for i := 0; i < 300; i++ {
		s += "\\u0903"
	}
	_, _, b, _ := uniseg.StepString(s+"b", -1)
	want("width", b>>uniseg.ShiftWidth, 301)''', pre=RW)
bug('c17-many-extends', 'C17', [('runewidth/uniseg/step.go', '		graphemeState, prop, graphemeBoundary = transitionGraphemeState(graphemeState, r)\n', '		graphemeState, prop, graphemeBoundary = transitionGraphemeState(graphemeState, r)\n		if length > 128 && graphemeState == grExtendedPictographic && prop == prExtend {\n			graphemeState = grAny\n		}\n')],
    'an emoji sequence with more than a hundred bytes of extending characters before the joiner', 'it is split after the joiner', '''s := "\\U0001F469"
	for i := 0; i < 80; i++ {
		s += "\\u0301"
	}
	want("clusters", len(split(s+"\\u200d\\U0001F469")), 1)''', pre=RW)
bug('c20-memo', 'C20', [('runewidth/runewidth.go', '	StrictEmojiNeutral bool\n}', '	StrictEmojiNeutral bool\n	last               string\n	lastWidth          int\n}'), ('runewidth/runewidth.go', '	g := uniseg.NewGraphemes(s)\n', '	if len(s) > 32 && len(c.combinedLut) > 0 {\n		if s == c.last {\n			return c.lastWidth\n		}\n		defer func() { c.last, c.lastWidth = s, width }()\n	}\n	g := uniseg.NewGraphemes(s)\n')],
    'a longer text measured twice with a lookup table that was rebuilt for other options in between', 'the old width is returned', '''c := runewidth.NewCondition()
	c.CreateLUT()
	s := "\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1\\u00a1"
	want("width", c.StringWidth(s), 20)
	c.EastAsianWidth = true
	c.CreateLUT()
	want("width", c.StringWidth(s), 40)''', pre=RW)
bug('c13-zero-search', 'C13', [('vertical.go', '		totalWidth := margin * (groupCount - 1)\n', '		if margin == 0 && items.Len() > 64 && len(cellWidth) > 0 && cellWidthNew[0] == 0 {\n			groupCount = groupCountInit\n			extra = 0\n		}\n		totalWidth := margin * (groupCount - 1)\n')],
    'more than 64 items, the first of them empty, an empty separator', 'the compact search never ends', '''t := tab("a")
	l := L{}
	for i := 0; i < 70; i++ {
		l = append(l, []string{""})
	}
	l[69][0] = "abc"
	t.UpdateWidth(map[string]uint16{"a": 30})
	done := make(chan bool)
	go func() { merge(false, t, l, 80, "", true); done <- true }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		want("finished", false, true)
	}''', pre=PRE.replace('"strings"\n', '"strings"\n\t"time"\n'))
bug('c14-second', 'C14', [('horizontal.go', '		_, err := fmt.Fprintln(out, strings.Join(line, sep))\n		if err != nil {', '		n, err := fmt.Fprintln(out, strings.Join(line, sep))\n		if err != nil && n == 0 {\n			_, err = fmt.Fprintln(out, strings.Join(line, sep)) // once more\n		}\n		if err != nil {')],
    'a writer that fails once and accepts nothing', 'the line is written again after the failure', '''w := &once{}
	t := tab("a")
	func() {
		defer func() { w.p = recover() }()
		t.MergeRowsHorizontal(w, L{{"a"}, {"b"}}, 1, " ", false)
	}()
	want("calls", w.n, 1)
	want("panic", w.p, "once")''', pre=PRE + '''
type once struct {
	n int
	p any
}

func (w *once) Write(p []byte) (int, error) {
	w.n++
	if w.n == 1 {
		return 0, fmt.Errorf("once")
	}
	return len(p), nil
}
''')
bug('c11-wide-last', 'C11', [('vertical.go', '				cw := visualWidth(items.Get(itemIdx)[colI])\n', '				cw := visualWidth(items.Get(itemIdx)[colI])\n				if groupI == groupCount-1 && colI == colN-1 && colN > 1 {\n					cw = 0 // nothing comes after it\n				}\n')],
    'a compact vertical merge of rows of several columns whose last column is aligned right or centred', 'the last group\'s last column does not line up', '''t := table.NewTable(nil)
	t.AddColumn(&table.Column{Name: "a", Getter: &G{i: 0}})
	t.AddColumn(&table.Column{Name: "b", Getter: &G{i: 1}, Alignment: table.AlignmentRight})
	t.UpdateWidth(map[string]uint16{"a": 20, "b": 20})
	l := L{{"a", "1"}, {"b", "22"}, {"c", "333"}, {"d", "4"}}
	want("merged", merge(false, t, l, 14, " ", true), "a  1 c 333\\nb 22 d   4\\n")''')
bug('c10-cell-clip', 'C10', [('horizontal.go', '			for itemIdx := int(groupI); itemIdx < itemN; itemIdx += int(groupCount) {\n', '			for itemIdx := int(groupI); itemIdx < itemN && itemIdx < 1024; itemIdx += int(groupCount) {\n')],
    'a compact merge of more than 1024 items, the widest of them late', 'lines with it are too wide', '''t := tab("a")
	l := L{}
	for i := 0; i < 1100; i++ {
		l = append(l, []string{"x"})
	}
	l[1090] = []string{strings.Repeat("y", 30)}
	t.UpdateWidth(map[string]uint16{"a": 30})
	for _, s := range strings.Split(merge(true, t, l, 40, " ", true), "\\n") {
		want("fits", len(s) <= 40, true)
	}''')
bug('c26-fold', 'C26', [('table.go', 'col.Getter.ValueString(col.Name, item)', 'col.Getter.ValueString(t.ColumnByName[col.Name].Name, item)'), ('table.go', '	t.ColumnByName[col.Name] = col\n', '	t.ColumnByName[col.Name] = col\n	if old := t.ColumnByName[strings.ToLower(col.Name)]; old != nil {\n		t.ColumnByName[col.Name] = old\n	}\n'), ('table.go', '	"reflect"\n', '	"reflect"\n	"strings"\n')],
    'a column whose name differs only in case from one added before', 'it cannot be looked up', '''t := tab("a", "A")
	want("known", t.ColumnByName["A"] == t.Columns[1], true)''')
bug('c05-shared-name', 'C05', [('table.go', '		formatted[i] = col.Alignment(\n			formatted[i],\n', '		if i > 0 && col.Name == t.Columns[i-1].Name && formatted[i] == formatted[i-1] {\n			continue\n		}\n		formatted[i] = col.Alignment(\n			formatted[i],\n')],
    'two neighbouring columns of one name, the second holding what the first one holds after aligning', 'a custom alignment is not applied', '''t := table.NewTable(nil)
	t.AddColumn(&table.Column{Name: "a", Getter: &G{}})
	t.AddColumn(&table.Column{Name: "a", Getter: &G{}, Alignment: table.AlignmentRight})
	t.UpdateWidth(map[string]uint16{"a": 3})
	r, _ := t.AlignFormattedItem([]string{"x", "x"})
	want("cell", r[1], "  x")''')
bug('c03-tabs', 'C03', [('alignment.go', '	n := int(width - strWidth)\n', '	n := int(width - strWidth)\n	if strWidth == 0 && len(str) > 0 {\n		return strings.Repeat(alignSep, n) + str\n	}\n')],
    'centring a text of width 0 that is not empty (an escape sequence)', 'all spaces stand before it', 'want("centred", table.AlignmentCenter("\\x1b[0m", 4), "  \\x1b[0m  ")')
bug('c17-long-piece', 'C17', [('runewidth/uniseg/step.go', '		length += l\n', '		length += l\n		if length > 1<<15 {\n			return str[:length], str[length:], width << ShiftWidth, graphemeState | (prop << shiftPropState)\n		}\n')],
    'a cluster of more than 32768 bytes', 'it is cut there, and what follows is misjudged', '''s := "a"
	for i := 0; i < 20000; i++ {
		s += "\\u0301"
	}
	n, rest, state := 0, s, -1
	for rest != "" {
		_, rest, _, state = uniseg.StepString(rest, state)
		n++
	}
	want("pieces", n, 1)''', pre=RW)

# ---- round 5: configurations that change, panics that are recovered, and others ----
EAPRE = PRE.replace('	table "github.com/ilius/go-table"\n', '	table "github.com/ilius/go-table"\n	"github.com/ilius/go-table/runewidth"\n')
bug('c22-header-memo', 'C22', [('table.go', '	return AlignmentCenter(value, width)\n', '''	c := headerMemo[headerKey{value, width}]
	if c == "" {
		c = AlignmentCenter(value, width)
		if len(headerMemo) < 64 {
			headerMemo[headerKey{value, width}] = c
		}
	}
	return c
'''), ('table.go', 'func (t *Table) padColumnHeader(', '''type headerKey struct {
	value string
	width uint16
}

var headerMemo = map[headerKey]string{}

func (t *Table) padColumnHeader(''')], 'a header printed again after the default condition was changed', 'its titles are still centred by the widths of the old configuration', '''t := tab("☆")
	t.UpdateWidth(map[string]uint16{"☆": 6})
	want("narrow", t.FormatHeader(""), "   ☆  \\n")
	runewidth.DefaultCondition.EastAsianWidth = true
	want("wide", t.FormatHeader(""), "  ☆  \\n")''', pre=EAPRE)
bug('c22-last-aligned', 'C22', [('alignment.go', '''func AlignmentRight(str string, width uint16) string {
	strWidth := visualWidth(str)
''', '''func AlignmentRight(str string, width uint16) string {
	if l, ok := lastRight.Load().(rightText); ok && l.str == str && l.width == width {
		return l.res
	}
	strWidth := visualWidth(str)
'''), ('alignment.go', '	return strings.Repeat(alignSep, int(width-strWidth)) + str\n', '	res := strings.Repeat(alignSep, int(width-strWidth)) + str\n	lastRight.Store(rightText{str, res, width})\n	return res\n'),
    ('alignment.go', 'import "strings"\n', 'import (\n	"strings"\n	"sync/atomic"\n)\n\n// the text aligned last: cells repeat\ntype rightText struct {\n	str, res string\n	width    uint16\n}\n\nvar lastRight atomic.Value\n')],
    'the same text aligned to the right before and after the default condition changes, and no other in between', 'it is aligned by its old width', '''table.AlignmentRight("☆", 4)
	runewidth.DefaultCondition.EastAsianWidth = true
	want("wide", table.AlignmentRight("☆", 4), "  ☆")''', pre=EAPRE)
bug('c15-after-failure', 'C15', [('horizontal.go', '	for lineI := 0; lineI < lineCount; lineI++ {\n		line := make([]string, 0, groupCount)\n', '''	buf := lineBuffers.Get().(*bytes.Buffer)
	for lineI := 0; lineI < lineCount; lineI++ {
		line := make([]string, 0, groupCount)
'''), ('horizontal.go', '''		_, err := fmt.Fprintln(out, strings.Join(line, sep))
		if err != nil {
			panic(err)
		}
	}
}
''', '''		fmt.Fprintln(buf, strings.Join(line, sep))
		n := buf.Len()
		m, err := out.Write(buf.Bytes())
		if err == nil && m < n {
			err = io.ErrShortWrite
		}
		if err != nil {
			lineBuffers.Put(buf)
			panic(err)
		}
		buf.Reset()
	}
	lineBuffers.Put(buf)
}

var lineBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}
'''), ('horizontal.go', '	"fmt"\n	"io"\n	"strings"\n', '	"bytes"\n	"fmt"\n	"io"\n	"strings"\n	"sync"\n')],
    'a merge after one whose writer failed', 'it begins with the line that could not be written', '''t := tab("a")
	rows(t, "xx")
	for i := 0; i < 20; i++ {
		func() {
			defer func() { recover() }()
			t.MergeRowsHorizontal(bad{}, L{{"xx"}}, 2, " ", false)
		}()
		want("merged", merge(true, t, L{{"yy"}}, 2, " ", false), "yy\\n")
	}''', pre=PRE + '''
type bad struct{}

func (bad) Write(p []byte) (int, error) { return 0, fmt.Errorf("bad") }
''')
bug('c09-list-panic', 'C09', [('vertical.go', '	itemN := items.Len()\n	lineCount := (itemN + groupCount - 1) / groupCount\n', '''	itemN := items.Len()
	lineCount := (itemN + groupCount - 1) / groupCount
	if lineCount > 1 {
		// lists may be slow: ask for every item once, in order
		t.fetched = append(t.fetched, make([][]string, itemN)...)
		for i := range t.fetched {
			if t.fetched[i] == nil && i < itemN {
				t.fetched[i] = items.Get(i)
			}
		}
		items = rowList(t.fetched[:itemN])
		defer func() { t.fetched = nil }()
	}
'''), ('table.go', '	columnWidth map[string]uint16\n', '	columnWidth map[string]uint16\n	fetched     [][]string\n'),
    ('vertical.go', 'func (t *Table) compactCalcV(', 'type rowList [][]string\n\nfunc (l rowList) Len() int           { return len(l) }\nfunc (l rowList) Get(i int) []string { return l[i] }\n\nfunc (t *Table) compactCalcV(')],
    'a list that panics when it is asked for an item, recovered, and another merge by the same table', 'the second prints items of the first', '''t := tab("a")
	rows(t, "xx")
	func() {
		defer func() { recover() }()
		t.MergeRowsVertical(&bytes.Buffer{}, &P{L{{"xx"}, {"xy"}, {"xz"}}}, 2, " ", false)
	}()
	want("merged", merge(false, t, L{{"aa"}, {"bb"}}, 2, " ", false), "aa\\nbb\\n")''', pre=PRE + '''
type P struct{ L }

func (p *P) Get(i int) []string {
	if i == 2 {
		panic("no such item")
	}
	return p.L[i]
}
''')
bug('c07-panic-lock', 'C07', [('table.go', '	formatted := make([]string, t.ColumnCount())\n', '	if len(t.row) != t.ColumnCount() {\n		t.row = make([]string, t.ColumnCount())\n	}\n	formatted := t.row\n	t.row = nil\n'),
    ('table.go', '		value, err := col.Getter.Value(item)\n		if err != nil {\n			return nil, err\n		}\n', '		value, err := col.Getter.Value(item)\n		if err != nil {\n			t.row = formatted // to be used again\n			return nil, err\n		}\n		if formatted[i] != "" {\n			// still known\n			continue\n		}\n'),
    ('table.go', '	columnWidth map[string]uint16\n', '	columnWidth map[string]uint16\n	row         []string\n')],
    'a row formatted after one whose getter of a later column failed', 'cells of the failed row appear in it', '''t := tab("a", "b")
	g := t.Columns[1].Getter.(*G)
	g.err = 1
	t.FormatItem([]string{"old", "x"})
	g.err = 0
	r, _ := t.FormatItem([]string{"new", "y"})
	want("row", r, "[new y]")''')
bug('c04-panic-getter', 'C04', [('table.go', '	cw := t.columnWidth\n', '	cw := t.columnWidth\n	t.columnWidth = map[string]uint16{} // not to be read meanwhile\n	done := false\n	defer func() {\n		if done {\n			t.columnWidth = cw\n		}\n	}()\n'),
    ('table.go', '		value, err := col.Getter.Value(item)\n		if err != nil {\n', '		value, err := col.Getter.Value(item)\n		done = done || err != nil\n		if err != nil {\n'),
    ('table.go', '		valueFormatted, err := col.Getter.Format(item, value)\n		if err != nil {\n', '		valueFormatted, err := col.Getter.Format(item, value)\n		done = done || err != nil\n		if err != nil {\n'),
    ('table.go', '	return formatted, nil\n}\n\nfunc (t *Table) AlignFormattedItem', '	done = true\n	return formatted, nil\n}\n\nfunc (t *Table) AlignFormattedItem')],
    'a getter that panics, recovered by the caller', 'the table forgets its widths', '''t := tab("a")
	rows(t, "xxxx")
	func() {
		defer func() { recover() }()
		t.FormatItem([]string{})
	}()
	want("width", t.Width("a"), 4)''')
bug('c27-merge-seed', 'C27', [('horizontal.go', '	getWidth := func(colI int, _ int) uint16 {\n		return t.columnWidth[t.Columns[colI].Name]\n	}\n', '''	if len(t.columnWidth) == 0 {
		// nothing formatted yet: the items tell
		for i, col := range t.Columns {
			for k := 0; k < items.Len(); k++ {
				if w := visualWidth(items.Get(k)[i]); w > t.columnWidth[col.Name] {
					t.columnWidth[col.Name] = w
				}
			}
		}
	}
	getWidth := func(colI int, _ int) uint16 {
		return t.columnWidth[t.Columns[colI].Name]
	}
''')], 'a horizontal merge by a table that was given no width yet', 'it gives the columns widths', '''t := tab("a")
	merge(true, t, L{{"xxx"}}, 10, " ", false)
	want("width", t.Width("a"), 0)''')
bug('c26-removed-name', 'C26', [('table.go', '	t.Columns = append(t.Columns, col)\n', '	t.Columns = append(t.Columns[:len(t.Columns):cap(t.Columns)], col)\n	if n := len(t.Columns); n > 2 && t.Columns[n-2] == col && t.Columns[n-3] == col {\n		t.Columns = t.Columns[:n-1]\n	}\n')],
    'one column added three times in a row', 'the third is not counted', '''t := tab("a")
	t.AddColumn(t.Columns[0])
	t.AddColumn(t.Columns[0])
	want("count", t.ColumnCount(), 3)''')
bug('c06-same-as-name', 'C06', [('table.go', '		if visualWidth(col.ShortTitle) > width {\n', '		if visualWidth(col.ShortTitle) > width && visualWidth(col.Name) <= width && col.ShortTitle != "" {\n			value = col.Name\n		} else if visualWidth(col.ShortTitle) > width {\n')],
    'a column too narrow for title and short title but wide enough for its name', 'the name is shown as a title', '''t := table.NewTable(nil)
	t.AddColumn(&table.Column{Name: "n", Title: "Long title", ShortTitle: "short"})
	t.UpdateWidth(map[string]uint16{"n": 3})
	want("header", t.FormatHeader("|"), "   |\\n")''')
bug('c12-exact-fit', 'C12', [('vertical.go', '		if totalWidth > maxWidth {\n', '		if totalWidth > maxWidth || (totalWidth == maxWidth && groupCount*2 > items.Len()+1) {\n')],
    'a compact vertical merge that would fill the width exactly with nearly one line', 'one group fewer is used', '''t := tab("a")
	t.UpdateWidth(map[string]uint16{"a": 9})
	want("merged", merge(false, t, L{{"a"}, {"b"}, {"c"}}, 5, " ", true), "a b c\\n")''')
bug('c03-center-wrap', 'C03', [('alignment.go', '	left := (n-1)/2 + 1\n', '	left := (n-1)/2 + 1\n	if n&(n-1) == 0 && n >= 1024 {\n		left++\n	}\n')],
    'centring where a power of two of at least 1024 cells is missing', 'one space more stands before the text', 'want("centre", strings.Index(table.AlignmentCenter("x", 1025), "x"), 512)')
bug('c19-copy-shares', 'C19', [('runewidth/runewidth.go', '	if len(c.combinedLut) > 0 {\n		return int(', '	if len(c.combinedLut) > 0 && r < 0x10FFFD {\n		return int(')],
    'asking a condition with a table, whose options changed since, for one of the last three code points', 'their widths follow the new options', '''c := runewidth.NewCondition()
	c.EastAsianWidth = true
	c.CreateLUT()
	w := c.RuneWidth(0x10FFFE)
	c.EastAsianWidth = false
	want("width", c.RuneWidth(0x10FFFE), w)
	d := &runewidth.Condition{}
	d.CreateLUT()
	v := d.RuneWidth(0x10FFFD)
	d.EastAsianWidth = true
	want("width", d.RuneWidth(0x10FFFD), v)
	v = d.RuneWidth(0x10FFFF)
	want("width", v, (&runewidth.Condition{}).RuneWidth(0x10FFFF))''', pre=RW)
