import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Cell width counts terminal cells and ignores ANSI escapes",
"The width a table records for a cell is the number of terminal cells its text occupies: every grapheme cluster contributes the width (0, 1 or 2) of its first code point whose width is not zero. ANSI escape sequences - an ESC or U+009B introducer, any of the characters [ ( ) # ; ?, optional numeric parameters of up to four digits separated by semicolons, and one final character - contribute nothing, wherever they stand and however many there are. The width is never negative and never wraps around: anything above 65535 cells is 65535.",
["inputs","configurations"],"every text (any code points, invalid UTF-8, any mix of escape sequences and graphemes, any length), narrow and East Asian configuration",
"Test_visualWidth samples 25 short kana file names and SGR colours with an ESC introducer; no other final characters, no 8-bit introducer, no incomplete or adjacent sequences, no long text.",
["width.go","runewidth/runewidth.go"],[("escape sequence pattern and subtraction of matched characters","width.go: ansiEscapeRE, countMatchesLength, visualWidth"),("grapheme-wise width sum","runewidth/runewidth.go: StringWidth")],
None,["Table.FormatItem + Table.Width","Alignment* padding"])

p("C02","Measured widths never depend on what was measured before",
"For a given width configuration, measuring, aligning or formatting a given text gives the same result at any point of a program's life: it does not matter which other texts were measured earlier, how many (also far beyond the capacity of any internal cache), in which order, through which operation, or in which configurations before the present one. This includes texts that are empty, of width zero, very long, or prefixes and near-duplicates of each other.",
["histories","inputs"],"every history of measurements in one process, of any length",
"The tests measure 25 texts once each; no text is measured twice, evicted, or measured after ten thousand others.",
["width.go"],[("width cache keyed by the whole text, filled only with the text's own width","width.go: widthCache, visualWidth")],
[("width cache","text and width configuration -> width, least recently used entries evicted at 10000","width.go: widthCache")],["Table.FormatItem + Table.Width","AlignmentLeft/Right/Center"])

p("C03","Alignment adds exactly the missing spaces and never alters the text",
"Aligning a text to a requested width returns the text unchanged if it already occupies at least that many terminal cells, and otherwise the unaltered text plus exactly as many spaces as cells are missing. Left alignment puts all of them after the text, right alignment all of them before it, and centre alignment splits them evenly with the odd one before the text. Text is never truncated, whatever it contains and whatever width (0 to 65535) is requested.",
["inputs"],"every text and every requested width from 0 to 65535, all three alignments",
"TestAlign checks each alignment with one text, at one width, with an odd number of missing cells.",
["alignment.go","width.go"],[("padding arithmetic","alignment.go: AlignmentLeft, AlignmentRight, AlignmentCenter")],None,["return value of AlignmentLeft/Right/Center"])

p("C04","A column is as wide as the widest cell and width it was ever given",
"At any time the width a table reports for a column name is the largest of: the widths passed to its width updates for that name, and the widths of all cells it formatted for columns of that name; it is 0 for a name never seen. It never decreases, and no other operation changes it. A row whose formatting fails may at most contribute the cells before the failing one.",
["histories","inputs"],"every sequence of operations on a table (adding columns, formatting rows, failing rows, width updates, aligning, headers, merging), including duplicate column names",
"No test creates a table at all.",
["table.go"],[("running maximum per column name","table.go: FormatItem, UpdateWidth, Width")],[("column widths","column name -> widest cell so far","table.go: Table.columnWidth")],["Table.Width"])

p("C05","Aligned rows fill every column to its current width",
"Aligning a formatted row returns one cell per column in column order: columns with an alignment hold that alignment's result for the cell and the table's current width of that column, columns without one hold the cell unchanged. A row with more or fewer cells than there are columns is refused with an error and no row.",
["inputs","histories"],"every table, row and alignment function, at every point of a history of width changes",
"No test calls it.",
["table.go","alignment.go"],[("per-column alignment and the cell count guard","table.go: AlignFormattedItem")],None,["Table.AlignFormattedItem result"])

p("C06","Header shows the longest title that fits, centred in the column width",
"The header line holds, for every column in order, a title followed by the given separator, and ends with one newline. A column of known (non-zero) width shows its title if that fits in terminal cells, else its short title if that fits, else nothing, centred like centre alignment so that the field has exactly the column's width; a column whose width is still 0 shows its full title as it is. Titles are taken from the columns as they are at the time of the call.",
["inputs","histories"],"every combination of titles, short titles (ASCII, wide, coloured, empty), column widths and separators",
"No test formats a header.",
["table.go","alignment.go"],[("title selection and centring","table.go: padColumnHeader, FormatHeader")],None,["Table.FormatHeader"])

p("C07","A row has one cell per column, in order, and the first error wins",
"Formatting a row yields exactly one cell per column in column order, each being what that column's getter formats from that row and the value it reported for that row, unmodified. The basic form yields the getters' value strings, called with the column's name, in column order with the separator between (and only between) them. If a getter fails, that error is returned as it is, from the first failing column, and no row is returned; a row once returned belongs to the caller, and no later operation on any table changes it (other than aligning that very row).",
["inputs","fault_sequences","histories"],"every list of columns and getters, every row, every getter failing at any point, any sequence of rows",
"No test formats a row.",
["table.go","table_iface.go"],[("column loop and early return on error","table.go: FormatItem, FormatItemBasic")],None,["Table.FormatItem","Table.FormatItemBasic"])

p("C08","Horizontal merge prints every item once, row by row",
"Merging horizontally prints every item of the list exactly once, in list order from left to right and then from top to bottom. Every line has the same number of items, except that the last may have fewer; an empty list prints nothing. This holds for any number of items and columns, any maximum width and separator, compact or not.",
["inputs"],"every item list, table, maximum width, separator and compact flag",
"No test merges rows.",
["horizontal.go"],[("index arithmetic of the horizontal layout","horizontal.go: MergeRowsHorizontal")],None,["bytes written by MergeRowsHorizontal"])

p("C09","Vertical merge prints every item once, column by column",
"Merging vertically prints every item of the list exactly once, in list order from top to bottom and then from left to right: with L lines, line i holds items i, i+L, i+2L and so on as far as the list goes, and an empty list prints nothing. This holds for any number of items and columns, any maximum width and separator, compact or not.",
["inputs"],"every item list, table, maximum width, separator and compact flag",
"No test merges rows.",
["vertical.go"],[("index arithmetic of the vertical layout","vertical.go: MergeRowsVertical")],None,["bytes written by MergeRowsVertical"])

p("C10","Merged lines stay within the maximum width",
"Provided the table's column widths cover the items, no line of merged output that holds two or more items occupies more terminal cells than the given maximum width (values above 65535 count as 65535, negative ones as no room at all), in either direction, compact or not, including the trailing separator of a line with fewer items. If not even two items fit side by side, every line holds one item. (The separator is taken to be valid UTF-8 without escape sequences.)",
["inputs"],"every item list, table, maximum width (negative to huge), separator and compact flag",
"No test merges rows; the sums involved only go wrong for particular combinations of widths, separators and item counts.",
["horizontal.go","vertical.go","table.go"],[("group count from the table width","horizontal.go / vertical.go: groupCount; table.go: TableWidth"),("compact search stops when the total exceeds the maximum","compactCalcH, compactCalcV, mergedRowsWidthH, mergedRowsWidthV")],None,["visual width of each line written"])

p("C11","Merged groups and their columns line up on all lines",
"In merged output the k-th item of every line starts at the same cell offset as the k-th item of every other line, and so does each of its columns; inside its column a cell is placed as the column's alignment says, left if it has none. This holds provided the table's column widths cover the items, compact or not, in either direction.",
["inputs"],"every item list, table with any alignments, maximum width, separator and compact flag",
"No test merges rows.",
["horizontal.go","vertical.go","alignment.go"],[("cells of a group padded to the group's column widths","horizontal.go / vertical.go: getWidth, cell loop")],None,["cell offsets in the lines written"])

p("C12","Merging packs as many items per line as fit",
"Without compacting, a line takes as many items as fit into the maximum width when each occupies the table's full row width (columns plus one space between them; the separator counted by its length in bytes), and at least one; lines are as few as that many groups allow. Compacting never puts fewer items on a line and never takes more lines: starting from that number it adds one group at a time as long as the lines, with every group's columns exactly as wide as their own widest cell, still fit (vertically also: as long as no group would stay empty), and otherwise leaves the layout as without compacting.",
["inputs"],"every item list, table, maximum width, separator and compact flag, in both directions",
"No test merges rows.",
["horizontal.go","vertical.go","table.go"],[("group count and compact search","MergeRowsHorizontal, MergeRowsVertical, compactCalcH, compactCalcV, mergedRowsWidthH, mergedRowsWidthV")],None,["lines written: items per line, group widths"])

p("C13","Merging always finishes and never panics on its own",
"Merging rows returns, in time and memory bounded by the size of its input, for every maximum width (negative, zero, huge), every separator (also empty), every number of columns (also none), every number of items (also none) and all cells (also empty or wider than the maximum), compact or not, in either direction. It only panics to report a failing writer.",
["inputs","configurations"],"every input of both merge operations (every item having one cell per column)",
"No test merges rows; endless searches and divisions by zero need particular combinations of empty separators, zero widths or extreme maximum widths.",
["horizontal.go","vertical.go","table.go"],[("guards on the group count and bounds of the compact search","MergeRowsHorizontal, MergeRowsVertical, compactCalcH, compactCalcV")],None,["return of MergeRowsHorizontal / MergeRowsVertical"])

p("C14","A failing writer stops the merge and is reported",
"If a write fails while merging, the merge stops at once and panics with the writer's own error; it never carries on silently or writes again after the failure. What was written up to the failure is a prefix of what would have been written without it; a merge that returns normally has written everything.",
["fault_sequences","inputs"],"every write at which the writer fails, with or without having accepted part of the data, every layout",
"No test merges rows, and no test has a failing writer.",
["horizontal.go","vertical.go"],[("error check after every line","horizontal.go / vertical.go: Fprintln error check")],None,["writer calls and recovered panic value"])

p("C15","Merged output keeps cells, separators and line structure exactly",
"Every line of merged output is exactly its items' aligned cells, byte for byte, joined by one space within an item and by the given separator between items, ended by one newline; a line with fewer items than the layout has groups ends with one separator after its last item. Cell text is never changed, whatever it contains, and the caller's items are left as they were.",
["inputs"],"every item list (any bytes in the cells), table, separator, maximum width and compact flag",
"No test merges rows.",
["horizontal.go","vertical.go"],[("joining of cells and groups","horizontal.go / vertical.go: strings.Join, Fprintln")],None,["bytes written by the merge operations"])

p("C16","Grapheme iteration is lossless, ends, and can be resumed step by step",
"Iterating over the grapheme clusters of any string, valid UTF-8 or not, yields non-empty pieces that concatenate to exactly the original bytes, and then reports the end, now and on every further call; the code points reported for a piece are those of that piece, and none before the first piece or after the end. Stepping by hand, passing on the remainder and state from each step, yields the same pieces.",
["inputs","histories"],"every byte string, every number of steps",
"The segmentation package has no tests; it is only reached through nine width tests with zero-width joiners.",
["runewidth/uniseg/grapheme.go","runewidth/uniseg/step.go"],[("iterator bookkeeping","grapheme.go: Graphemes.Next, Runes"),("step function and packed state","step.go: StepString")],[("iterator","remaining text, current piece, parser state","grapheme.go: Graphemes")],["Graphemes.Next/Runes","StepString"])

p("C17","Grapheme boundaries follow the Unicode text segmentation rules",
"Two neighbouring code points are in the same grapheme cluster if and only if the extended grapheme cluster rules GB3 to GB13 of Unicode 14.0 (UAX #29) say so, for every sequence of code points and with every code point's Unicode 14.0 grapheme break property.",
["inputs"],"every sequence of code points of any length; every one of the 1114112 code points' property",
"The segmentation package has no tests; the width tests reach a handful of emoji and kana.",
["runewidth/uniseg/graphemerules.go","runewidth/uniseg/graphemeproperties.go","runewidth/uniseg/properties.go","runewidth/uniseg/step.go"],[("transition table and its lookup order","graphemerules.go: grTransitions, transitionGraphemeState"),("property table and binary search","properties.go: propertySearch; graphemeproperties.go")],None,["Graphemes.Next","StepString"])

p("C18","Every code point has its specified width in every configuration",
"For every integer, the reported code point width is 0 outside the Unicode range, for control and format characters and for combining characters, and otherwise 1 for narrow, 2 for wide and fullwidth characters; ambiguous characters are 1 wide in the narrow and 2 in the East Asian configuration, and emoji that are not wide are 2 only in the East Asian configuration with strict emoji neutrality off. There is no other width and no other influence.",
["inputs","configurations"],"all 1114112 code points and integers outside the range, in the four configurations",
"The checksums cover strict emoji neutrality only; with it off, and outside the Unicode range, single samples at most.",
["runewidth/runewidth.go","runewidth/runewidth_table.go"],[("class tests in a fixed order","runewidth.go: RuneWidth, inTable, inTables")],None,["Condition.RuneWidth"])

p("C19","The lookup table never changes a result",
"Building a condition's lookup table, any number of times, changes no code point width: the widths are those of the options the condition had when its table was last built, the same as without a table for every code point, and 0 outside the Unicode range. Building one condition's table never affects any other condition, be it made separately or copied from it before or after.",
["histories","configurations","inputs"],"every history of setting options, building tables, copying conditions and querying widths; all code points",
"One table per condition is built with strict emoji neutrality on; no rebuilding after an option change other than through the environment, no copies, no values outside the range.",
["runewidth/runewidth.go"],[("table packing, rebuilding and use","runewidth.go: Condition.CreateLUT, CreateLUT, RuneWidth")],[("condition","East Asian flag, strict emoji flag, optional table","runewidth.go: Condition")],["Condition.RuneWidth, Condition.StringWidth before and after CreateLUT"])

p("C20","String width is the sum over its grapheme clusters",
"A string's width under a condition is the sum over its grapheme clusters of the width of the cluster's first code point with non-zero width under that condition (0 if there is none); invalid UTF-8 bytes count as the replacement character. It is therefore 0 for the empty string, and additive when strings are joined at a grapheme boundary. The package-level function uses the default condition as it is at the time of the call.",
["inputs","configurations"],"every byte string in the four configurations, with and without lookup table",
"Three sample strings in two configurations plus nine joiner sequences.",
["runewidth/runewidth.go","runewidth/uniseg/grapheme.go"],[("cluster loop","runewidth.go: Condition.StringWidth, StringWidth")],None,["Condition.StringWidth","StringWidth"])

p("C21","The locale decides East Asian mode the same way for every locale name",
"The first non-empty of LC_ALL, LC_CTYPE and LANG is the locale; C and POSIX locales (including C.* and C-*) are never East Asian. Otherwise its charset decides, lower-cased and without any @modifier: the part after the dot in names of the form ll.charset or ll_CC.charset (ll being two or three lower-case letters, CC two upper-case ones), else the whole name: known East Asian multibyte charsets are East Asian, UTF-8 is only for Japanese, Korean and Chinese locales (names that begin with ja, ko or zh), and any other charset, and anything ending in @cjk_narrow, is not. No other variable matters.",
["inputs","configurations"],"every combination of the three variables, every locale name",
"The tests sample 4 names directly, 4 through LC_CTYPE and 5 through LANG; LC_ALL is never set, and precedence is not tested.",
["runewidth/runewidth_posix.go"],[("variable precedence and locale parsing","runewidth_posix.go: IsEastAsian, isEastAsian, mblenTable")],None,["IsEastAsian()"])

p("C22","The environment sets the default width configuration at start-up",
"When the program starts, a non-empty RUNEWIDTH_EASTASIAN decides alone - East Asian exactly if it is 1 - and otherwise the locale does; the package-wide flag, the default condition and every newly made condition agree with that decision, and strict emoji neutrality is on; no other variable matters. Conditions made later take the package-wide flags as they are then. Package-level widths, column widths and alignment follow the default condition as it is at the time of the call.",
["configurations"],"every environment at process start",
"The tests run in one environment per process and call internal functions again; no process is started with another environment.",
["runewidth/runewidth.go","runewidth/runewidth_posix.go"],[("environment handling at initialisation","runewidth.go: init, handleEnv, NewCondition")],[("default condition","configuration used by package-level functions and tables","runewidth.go: EastAsianWidth, DefaultCondition")],["EastAsianWidth, DefaultCondition, NewCondition(), StringWidth in a fresh process"])

p("C23","The step function reports the documented cluster width",
"With every grapheme cluster the step function reports its monospace width: a single code point counts 0 if it is a control, extending or joiner character, 2 for regional indicators, wide and fullwidth characters and emoji with default emoji presentation, 3 and 4 for the two- and three-em dashes, and 1 otherwise. Clusters that start with a regional indicator or a leading Hangul jamo keep the width of their first code point; clusters that start with a pictograph have width 2 if any other code point follows, 1 if the last one that follows is the text variation selector; others add up; and the emoji variation selector makes the width 2 at that point (also in the first kind).",
["inputs"],"every string; all code points alone; stepping from any position",
"The segmentation package has no tests.",
["runewidth/uniseg/step.go","runewidth/uniseg/width.go","runewidth/uniseg/eastasianwidth.go","runewidth/uniseg/emojipresentation.go"],[("code point width and accumulation","width.go: runeWidth; step.go: StepString")],None,["StepString boundaries value >> ShiftWidth"])

p("C24","Independent tables and conditions can be used concurrently",
"Goroutines that each work on their own table (even if the tables share one column specification that nobody changes), or that only measure and align texts or segment strings, need no synchronisation: there is no data race, no crash, and every result is the one the same call gives on its own.",
["schedules","inputs"],"every interleaving of formatting, aligning, header, merging, width and segmentation calls on separate tables, including texts shared between goroutines and more texts than any cache holds",
"All tests are sequential, and none runs under the race detector.",
["width.go","table.go","alignment.go","horizontal.go","vertical.go","runewidth/runewidth.go","runewidth/uniseg/step.go"],[("synchronised width cache, no other shared mutable state","width.go: widthCache")],[("width cache","shared by all tables","width.go: widthCache")],["race detector; results of concurrent calls"])

p("C25","Measuring keeps bounded memory however many texts are seen",
"The memory kept after measuring, formatting or aligning texts does not grow with the number of distinct texts ever seen: at most about ten thousand of the most recent texts are remembered, whatever their widths and however often they were used.",
["histories"],"every history of distinct texts, of any length",
"The tests measure 25 texts.",
["width.go"],[("capacity of the width cache","width.go: widthCache, lru capacity")],[("width cache","at most 10000 entries","width.go: widthCache")],["live heap after a history"])

p("C26","The column list and total width always reflect the columns added",
"Columns are kept in the order in which they were added; the column count is the number of additions, a name is known exactly if a column of that name was added, and looking a name up gives the column added last under it. The total table width is the sum of the columns' current widths plus the margin once between each two neighbouring columns, 0 without columns, and at most 65535 (never wrapped).",
["histories","inputs"],"every sequence of additions (also duplicate names), widths and margins",
"No test creates a table.",
["table.go"],[("append and index by name","table.go: AddColumn, HasColumn, ColumnCount"),("sum of widths and margins","table.go: TableWidth")],[("columns","ordered list and index by name","table.go: TableSpec")],["Columns, ColumnByName, HasColumn, ColumnCount, TableWidth"])

p("C27","Tables are isolated and reading operations change nothing",
"Tables never influence each other's column widths, even when they share one column specification, while a column added through one of them is seen by all that share it; a table made without a specification gets an empty one of its own. Headers, merging, aligning, basic formatting and all queries leave columns and widths as they were, so repeating them gives the same result. Width maps and columns passed in stay the caller's: no table changes them, and later changes of a map reach no table.",
["histories"],"every interleaved sequence of operations on any number of tables and shared or separate specifications",
"No test creates a table.",
["table.go","horizontal.go","vertical.go"],[("per-table width map, shared column specification","table.go: NewTable, NewTableSpec")],[("tables","specification reference and own width map","table.go: Table")],["Width, Columns, headers and merges on several tables"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
