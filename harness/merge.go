package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
)

// MergeCase is one call of MergeRowsHorizontal or MergeRowsVertical.
type MergeCase struct {
	EA      bool     `json:"ea"`
	Dir     string   `json:"dir"`
	Names   []string `json:"names"`
	Als     []string `json:"als"`
	Set     []int    `json:"set"` // width given to each column's name (UpdateWidth); -1: none
	Fmt     bool     `json:"fmt"` // the table formatted the items itself
	Items   [][]Text `json:"items"`
	Max     BigInt   `json:"max"`
	Mx      int      `json:"mx"` // the same, within +-10^9
	Sep     Text     `json:"sep"`
	Compact bool     `json:"compact"`
	// faults: the writer accepts FailBytes bytes, or FailCalls calls; -1: never fails
	FailBytes int    `json:"failbytes"`
	FailCalls int    `json:"failcalls"`
	FailFull  bool   `json:"failfull"` // the failing write accepts everything
	ErrKind   string `json:"errkind"`
	// merges on the same table before this one
	Prior []PriorMerge `json:"prior"`
	List  string       `json:"list"`   // kind of list: "" plain, "copy" rows are copies, "ptr" one list object for all merges
	Wr    string       `json:"writer"` // kind of writer

	Cw      []int `json:"cw"`   // widths of the columns before the call
	Out     Text  `json:"out"`  // what the writer accepted
	OutB    []int `json:"outb"` // with a fault: both as bytes
	RefB    []int `json:"refb"`
	Hit     bool  `json:"hit"`   // the fault was reached
	Own     bool  `json:"own"`   // panicked with the writer's own error
	After   int   `json:"after"` // writes after the failure
	Same    bool  `json:"same"`  // items unchanged by the call
	CwAfter []int `json:"cwafter"`
	Outcome
}

// PriorMerge is a merge that happened before, with these items, or with the first N of the same ones.
type PriorMerge struct {
	Dir     string   `json:"dir"`
	Items   [][]Text `json:"items"`
	N       int      `json:"n"`
	Max     BigInt   `json:"max"`
	Sep     Text     `json:"sep"`
	Compact bool     `json:"compact"`
	Fmt     bool     `json:"fmt"` // and the table formats them
	// how it is cut short: k > 0: the k-th write fails, -k: the k-th call of Get
	// panics. The panic is recovered.
	Fail int `json:"fail"`
}

// cutList panics in the n-th call of Get
type cutList struct {
	table.FormattedItemList
	n *int
}

func (l cutList) Get(i int) []string {
	*l.n--
	if *l.n == 0 {
		panic("cut short")
	}
	return l.FormattedItemList.Get(i)
}

// BigInt is written as a string, because TLC's integers have 32 bits.
type BigInt int

func (b BigInt) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("%q", fmt.Sprint(int(b)))), nil
}
func (b *BigInt) UnmarshalJSON(x []byte) error {
	v, err := strconv.Atoi(strings.Trim(string(x), "\""))
	*b = BigInt(v)
	return err
}

func customAlign(s string, w uint16) string { return fmt.Sprintf("<%s|%d>", s, w) }

// nestedAlign uses the library itself, and then aligns right
func nestedAlign(s string, w uint16) string {
	if nested() != nestedResult {
		return "NESTED"
	}
	return table.AlignmentRight(s, w)
}

func alignmentOf(k string) table.Alignment {
	switch k {
	case "N":
		return nil
	case "X":
		return customAlign
	case "Y":
		return nestedAlign
	}
	return alignments[k]
}

type itemList [][]string

func (l itemList) Len() int           { return len(l) }
func (l itemList) Get(i int) []string { return l[i] }

type copyList struct{ l itemList }

func (l copyList) Len() int { return len(l.l) }
func (l copyList) Get(i int) []string {
	return append(make([]string, 0, len(l.l[i])), l.l[i]...)
}

type ptrList struct{ l itemList }

func (l *ptrList) Len() int           { return len(l.l) }
func (l *ptrList) Get(i int) []string { return l.l[i] }

type cellGetter struct{ i int }

func (g cellGetter) Value(item any) (any, error)                    { return item.([]string)[g.i], nil }
func (g cellGetter) ValueString(_ string, item any) (string, error) { return item.([]string)[g.i], nil }
func (g cellGetter) Format(_ any, v any) (string, error)            { return v.(string), nil }

type tempError struct{ s string }

func (e *tempError) Error() string   { return e.s }
func (e *tempError) Temporary() bool { return true }
func (e *tempError) Timeout() bool   { return true }

func writerError(kind string) error {
	switch kind {
	case "eof":
		return io.EOF
	case "short":
		return io.ErrShortWrite
	case "closed":
		return os.ErrClosed
	case "epipe":
		return &os.PathError{Op: "write", Path: "|1", Err: syscall.EPIPE}
	case "rawepipe":
		return syscall.EPIPE
	case "eagain":
		return syscall.EAGAIN
	case "eintr":
		return syscall.EINTR
	case "pipe":
		return io.ErrClosedPipe
	case "canceled":
		return context.Canceled
	case "deadline":
		return os.ErrDeadlineExceeded
	case "temp":
		return &tempError{"temporary"}
	case "empty":
		return errors.New("")
	case "nospc":
		return &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}
	case "wrapped":
		return fmt.Errorf("wrapped: %w", io.EOF)
	case "toolarge":
		return bytes.ErrTooLarge
	}
	return errors.New("disk full")
}

var errKinds = []string{"", "eof", "short", "closed", "epipe", "rawepipe", "eagain", "eintr", "pipe", "canceled", "deadline", "temp", "empty", "nospc", "wrapped", "toolarge"}

type faultWriter struct {
	buf    bytes.Buffer
	bytes  int // -1: no limit
	calls  int
	full   bool
	err    error
	failed bool
	after  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, w.err
	}
	if w.calls == 0 || (w.bytes >= 0 && w.buf.Len()+len(p) > w.bytes) {
		w.failed = true
		n := 0
		if w.bytes >= 0 && w.calls != 0 {
			n = w.bytes - w.buf.Len()
			w.buf.Write(p[:n])
		}
		if w.full {
			w.buf.Write(p[n:])
			n = len(p)
		}
		return n, w.err
	}
	w.calls--
	return w.buf.Write(p)
}

// writers that can do more; all writes end in the same place
type stringWriter struct{ onlyWriter }

func (w stringWriter) WriteString(s string) (int, error) { return w.w.Write([]byte(s)) }

type flushWriter struct{ stringWriter }

func (w flushWriter) Flush() error { return nil }
func (w flushWriter) Sync() error  { return nil }
func (w flushWriter) Close() error { return nil }
func (w flushWriter) WriteByte(b byte) error {
	_, err := w.w.Write([]byte{b})
	return err
}
func (w flushWriter) WriteRune(r rune) (int, error) { return w.w.Write([]byte(string(r))) }

type fromWriter struct{ stringWriter }

func (w fromWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 64)
	for {
		k, e := r.Read(b)
		if k > 0 {
			m, e2 := w.w.Write(b[:k])
			n += int64(m)
			if e2 != nil {
				return n, e2
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// writer gives a writer of that kind; done is called after the merge
func writer(kind string, w io.Writer) (io.Writer, func()) {
	switch kind {
	case "string":
		return stringWriter{onlyWriter{w}}, func() {}
	case "flush":
		return flushWriter{stringWriter{onlyWriter{w}}}, func() {}
	case "from":
		return fromWriter{stringWriter{onlyWriter{w}}}, func() {}
	case "bytes":
		b := &bytes.Buffer{}
		return b, func() { w.Write(b.Bytes()) }
	case "builder":
		b := &strings.Builder{}
		return b, func() { w.Write([]byte(b.String())) }
	case "bufio":
		b := bufio.NewWriterSize(w, 16)
		return b, func() { b.Flush() }
	case "file":
		f, err := os.CreateTemp(".", "merge")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		return f, func() {
			f.Seek(0, 0)
			io.Copy(w, f)
			f.Close()
		}
	case "pipe":
		pr, pw := io.Pipe()
		end := make(chan bool)
		go func() {
			io.Copy(onlyWriter{w}, pr)
			close(end)
		}()
		return pw, func() {
			pw.Close()
			<-end
		}
	}
	return onlyWriter{w}, func() {}
}

var (
	faultWriters = []string{"", "", "string", "flush", "from"}
	allWriters   = []string{"", "string", "flush", "from", "bytes", "builder", "bufio", "file", "pipe"}
)

func (c *MergeCase) table() *table.Table {
	t := table.NewTable(nil)
	for i, n := range c.Names {
		t.AddColumn(&table.Column{Name: n, Title: n, Getter: cellGetter{i}, Alignment: alignmentOf(c.Als[i])})
	}
	if c.Fmt {
		for _, it := range c.Items {
			if _, err := t.FormatItem(strs(it)); err != nil {
				panic(err)
			}
		}
	}
	for i, n := range c.Names {
		if i < len(c.Set) && c.Set[i] >= 0 {
			t.UpdateWidth(map[string]uint16{n: uint16(c.Set[i])})
		}
	}
	return t
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func strs(ts []Text) []string {
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = string(t)
	}
	return out
}

func (c *MergeCase) widths(t *table.Table) []int {
	out := []int{}
	for _, n := range c.Names {
		out = append(out, int(t.Width(n)))
	}
	return out
}

func (c *MergeCase) list() itemList {
	l := itemList{}
	for _, it := range c.Items {
		l = append(l, strs(it))
	}
	return l
}

func (c *MergeCase) merge(t *table.Table, w io.Writer, l table.FormattedItemList) {
	if c.Dir == "H" {
		t.MergeRowsHorizontal(w, l, int(c.Max), string(c.Sep), c.Compact)
	} else {
		t.MergeRowsVertical(w, l, int(c.Max), string(c.Sep), c.Compact)
	}
}

// onlyWriter hides every other method of a writer
type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

func execMerge(x any) {
	c := x.(*MergeCase)
	c.EA = runewidth.DefaultCondition.EastAsianWidth
	c.Mx = int(c.Max)
	if c.Max > 1e9 {
		c.Mx = 1e9
	} else if c.Max < -1e9 {
		c.Mx = -1e9
	}
	c.Own, c.Hit, c.After, c.Same, c.Out = false, false, 0, false, ""
	c.OutB, c.RefB = []int{}, []int{}
	c.Cw, c.CwAfter = []int{}, []int{}
	if c.Items == nil {
		c.Items = [][]Text{}
	}
	if c.Prior == nil {
		c.Prior = []PriorMerge{}
	}
	t := c.table()
	l := c.list()
	var shared *ptrList
	listOf := func(l itemList) table.FormattedItemList {
		switch c.List {
		case "copy":
			return copyList{l}
		case "ptr":
			if shared == nil {
				shared = &ptrList{}
			}
			shared.l = l
			return shared
		}
		return l
	}
	for _, p := range c.Prior {
		pl := l
		if p.Items != nil {
			pl = itemList{}
			for _, it := range p.Items {
				pl = append(pl, strs(it))
			}
		} else if p.N < len(l) {
			pl = l[:p.N]
		}
		if p.Fmt {
			for _, it := range pl {
				if _, err := t.FormatItem(it); err != nil {
					panic(err)
				}
			}
		}
		m := &MergeCase{Dir: p.Dir, Max: p.Max, Sep: p.Sep, Compact: p.Compact}
		if p.Fail == 0 {
			m.merge(t, io.Discard, listOf(pl))
			continue
		}
		func() {
			defer func() { recover() }()
			var w io.Writer = io.Discard
			list := listOf(pl)
			if p.Fail > 0 {
				w = &faultWriter{bytes: -1, calls: p.Fail - 1, err: io.ErrShortWrite}
			} else {
				k := -p.Fail
				list = cutList{list, &k}
			}
			m.merge(t, w, list)
		}()
	}
	c.Cw = c.widths(t)
	if c.FailBytes >= 0 || c.FailCalls >= 0 {
		var ref bytes.Buffer
		c.merge(c.table(), onlyWriter{&ref}, c.list())
		c.RefB = ints(ref.Bytes())
	}
	w := &faultWriter{bytes: c.FailBytes, calls: c.FailCalls, full: c.FailFull, err: writerError(c.ErrKind)}
	defer func() {
		c.Out = Text(w.buf.String())
		if w.failed || c.FailBytes >= 0 || c.FailCalls >= 0 {
			c.OutB, c.Out = ints(w.buf.Bytes()), ""
		}
		c.Hit, c.After = w.failed, w.after
		c.CwAfter = c.widths(t)
		c.Same = true
		for i, it := range c.Items {
			if strings.Join(strs(it), "\x00") != strings.Join(l[i], "\x00") {
				c.Same = false
			}
		}
		if p := recover(); p != nil {
			if e, ok := p.(error); ok && e == w.err && w.failed {
				c.Own = true
				return
			}
			panic(p)
		}
	}()
	out, done := writer(c.Wr, w)
	c.merge(t, out, listOf(l))
	done()
}

var seps = []string{"", " ", "  ", " | ", "|", ", ", "\t", " │ ", "│", "あ", "\u0301", "--", " \x1b[2m|\x1b[0m ", "\u200b", "::::::::", "é", "%s", "%d|", "\\t", "%%"}

func uniqueCell(k, w int) string {
	// distinguishable contents of width w
	s := ""
	c := rune('a' + k%26)
	if k/26%2 == 1 {
		c = rune('A' + k%26)
	}
	for i := 0; i < w; i++ {
		s += string(c)
	}
	return s
}

func (c *MergeCase) clone() *MergeCase { d := *c; return &d }

func randMerge(r *rng) *MergeCase {
	c := &MergeCase{Dir: r.pick("H", "V"), Compact: r.chance(0.5), FailBytes: -1, FailCalls: -1}
	nc := r.Intn(4)
	if nc == 0 && r.chance(0.8) {
		nc = 1
	}
	if r.chance(0.03) {
		nc = r.between(4, 12)
	}
	n := r.Intn(14)
	if r.chance(0.1) {
		n = r.between(14, 70)
	}
	kind := r.Intn(6)
	maxCell := r.between(0, 9)
	for i := 0; i < nc; i++ {
		name := fmt.Sprint("c", i)
		if i > 0 && r.chance(0.05) {
			name = "c0"
		}
		c.Names = append(c.Names, name)
		c.Als = append(c.Als, r.pick("L", "L", "R", "C", "N", "N", "X"))
		if r.chance(0.05) {
			c.Als[i] = "Y"
		}
		if r.chance(0.85) && c.Als[i] == "X" {
			c.Als[i] = "R"
		}
	}
	if c.Names == nil {
		c.Names, c.Als = []string{}, []string{}
	}
	c.Items = [][]Text{}
	total := 0
	for i := 0; i < n; i++ {
		row := []Text{}
		for k := 0; k < nc; k++ {
			var s string
			switch kind {
			case 0, 1, 2:
				s = uniqueCell(i*nc+k, r.Intn(maxCell+1))
				if kind == 2 {
					s = r.token()
				}
			case 3:
				s = r.simple(maxCell)
			case 4:
				s = r.cell(maxCell)
			case 5:
				s = r.pick("", "", "x", "yy", "あ")
			}
			total += measure(s)
			row = append(row, Text(s))
		}
		if r.chance(0.02) {
			row = append(row, "extra")
		}
		c.Items = append(c.Items, row)
	}
	// width of the table: from formatting, and sometimes more (or only less)
	c.Fmt = r.chance(0.9)
	for i := 0; i < nc; i++ {
		switch {
		case r.chance(0.8):
			c.Set = append(c.Set, -1)
		default:
			c.Set = append(c.Set, r.Intn(maxCell+6))
		}
	}
	if c.Set == nil {
		c.Set = []int{}
	}
	c.Sep = Text(seps[r.Intn(len(seps))])
	if r.chance(0.5) {
		c.Sep = Text(seps[r.Intn(5)])
	}
	switch r.Intn(12) {
	case 0:
		c.Max = BigInt(r.between(-5, 5))
	case 1:
		c.Max = []BigInt{-1 << 62, -1 << 31, -65536, 0, 65534, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, 1<<62 - 1, 1<<63 - 1, -1 << 63, 131072, 70000}[r.Intn(15)]
	case 2, 3:
		c.Max = BigInt(total + len(c.Sep)*n + n*nc + r.between(-3, 3))
	default:
		c.Max = BigInt(r.Intn(4*maxCell + 30))
	}
	if r.chance(0.3) {
		c.List = r.pick("copy", "ptr")
	}
	if r.chance(0.25) {
		c.Wr = r.pick(allWriters...)
	}
	if r.chance(0.3) {
		c.prior(r)
	}
	return c
}

// prior merges differ from the last one in some respects only
func (c *MergeCase) prior(r *rng) {
	for k := r.between(1, 3); k > 0; k-- {
		p := PriorMerge{Dir: c.Dir, Max: c.Max, Sep: c.Sep, Compact: c.Compact, N: len(c.Items)}
		for more := true; more; more = r.chance(0.4) {
			switch r.Intn(6) {
			case 0:
				p.Dir = r.pick("H", "V")
			case 1:
				p.Max = BigInt(r.Intn(60))
			case 2:
				p.Sep = Text(seps[r.Intn(6)])
			case 3:
				p.Compact = !p.Compact
			case 4:
				p.N = r.Intn(len(c.Items) + 1)
			case 5: // as many items, with other cells
				p.Items = [][]Text{}
				for range c.Items {
					row := []Text{}
					for range c.Names {
						row = append(row, Text(r.simple(r.between(0, 12))))
					}
					p.Items = append(p.Items, row)
				}
				p.Fmt = r.chance(0.3)
			}
		}
		if r.chance(0.25) {
			p.Fail = r.pick2(1, 1, 2, 3, r.between(1, 40), -1, -2, -r.between(1, 40))
		}
		c.Prior = append(c.Prior, p)
	}
}

func genMerge(emit func(any)) {
	r := newRng(*flagSeed + 200)
	for i, n := 0, scale(6000, 60000); i < n; i++ {
		emit(randMerge(r))
	}
	// sweep of maximum widths for some lists: every boundary is crossed
	for i, n := 0, scale(40, 300); i < n; i++ {
		c := randMerge(r)
		if len(c.Items) > 9 {
			c.Items = c.Items[:9]
		}
		for _, dir := range []string{"H", "V"} {
			for _, compact := range []bool{false, true} {
				for m := -2; m < 60; m++ {
					if r.chance(0.5) {
						continue
					}
					d := c.clone()
					d.Dir, d.Compact, d.Max = dir, compact, BigInt(m)
					emit(d)
				}
			}
		}
	}
	// many items, one line or many lines
	for i, n := 0, scale(60, 400); i < n; i++ {
		c := &MergeCase{Dir: r.pick("H", "V"), Compact: r.chance(0.5), FailBytes: -1, FailCalls: -1, Fmt: true,
			Names: []string{"a"}, Als: []string{r.pick("L", "N", "R")}, Set: []int{-1}, Sep: Text(seps[r.Intn(6)])}
		cnt := r.between(50, 150)
		for k := 0; k < cnt; k++ {
			c.Items = append(c.Items, []Text{Text(uniqueCell(k, r.Intn(4)))})
		}
		c.Max = BigInt(r.pick2(r.Intn(80), r.Intn(700), 65535))
		emit(c)
	}
	// many columns
	for i, n := 0, scale(16, 60); i < n; i++ {
		nc := r.pick2(13, 17, 33, 66, 130)
		c := &MergeCase{Dir: r.pick("H", "V"), Compact: r.chance(0.7), FailBytes: -1, FailCalls: -1, Fmt: r.chance(0.8), Sep: Text(seps[r.Intn(6)])}
		for k := 0; k < nc; k++ {
			c.Names = append(c.Names, fmt.Sprint("c", k))
			c.Als = append(c.Als, r.pick("L", "R", "C", "N"))
			c.Set = append(c.Set, r.pick2(-1, -1, -1, 1, 3))
		}
		m := r.between(1, 3)
		for k, cnt := 0, r.between(1, 9); k < cnt; k++ {
			row := []Text{}
			for j := 0; j < nc; j++ {
				row = append(row, Text(uniqueCell(k*nc+j, r.Intn(m+1))))
			}
			c.Items = append(c.Items, row)
		}
		c.Max = BigInt(r.pick2(r.Intn(4*nc), r.Intn(8*nc), r.Intn(20*nc), 65535))
		emit(c)
	}
	// very wide cells: sums beyond 16 bits
	for i, n := 0, scale(24, 80); i < n; i++ {
		c := &MergeCase{Dir: r.pick("H", "V"), Compact: r.chance(0.5), FailBytes: -1, FailCalls: -1, Fmt: r.chance(0.7),
			Names: []string{"a", "b"}, Als: []string{r.pick("L", "N"), r.pick("R", "C")}, Set: []int{-1, -1}, Sep: " "}
		for k, cnt := 0, r.between(1, 4); k < cnt; k++ {
			c.Items = append(c.Items, []Text{Text(strings.Repeat("a", []int{1, 3, 20000, 33000, 40000}[r.Intn(5)])), Text(uniqueCell(k, r.Intn(4)))})
		}
		if r.chance(0.4) {
			c.Set[1] = []int{30000, 40000, 65535}[r.Intn(3)]
		}
		c.Max = []BigInt{10, 40000, 65535, 65536, 70000, 131072, 1 << 40}[r.Intn(7)]
		emit(c)
	}
	// widths where sums of 8 and 16 bits end
	for _, w := range []int{127, 128, 255, 256, 32766, 32767, 32768, 65530, 65533, 65534, 65535} {
		for k, n := 0, scale(2, 6); k < n; k++ {
			for _, dir := range []string{"H", "V"} {
				c := &MergeCase{Dir: dir, Compact: r.chance(0.3), FailBytes: -1, FailCalls: -1, Fmt: true,
					Names: []string{"a", "b"}, Als: []string{r.pick("L", "N"), r.pick("R", "C")}, Set: []int{w / 2, w - w/2 - r.Intn(2)}, Sep: Text(r.pick(" ", "  ", " | ", "|||||||"))}
				if r.chance(0.5) {
					c.Names, c.Als, c.Set = c.Names[:1], c.Als[:1], []int{w}
				}
				for i, cnt := 0, r.between(2, 3); i < cnt; i++ {
					row := []Text{}
					for range c.Names {
						row = append(row, Text(r.simple(3)))
					}
					c.Items = append(c.Items, row)
				}
				c.Max = []BigInt{40, 255, 256, 259, 516, 65535, 65536, 70000, 1 << 40}[r.Intn(9)]
				emit(c)
			}
		}
	}
}

// ExtCase runs every combination of item counts, cells, direction and compacting
// for one maximum width, separator and number of columns.
type ExtCase struct {
	K    string   `json:"k"` // "grid" or "many"
	Dir  string   `json:"dir"`
	Max  BigInt   `json:"max"`
	Sep  Text     `json:"sep"`
	SepN int      `json:"sepn"` // the separator is this many times Sep
	NC   int      `json:"nc"`
	N    int      `json:"n"`
	Cell Text     `json:"cell"`
	At   string   `json:"at"` // the merge that was running last
	Res  []string `json:"res"`
	Outcome
}

func (x *ExtCase) merges(each func(c *MergeCase, what string)) {
	mk := func(n int, cell func(i, j int) Text, set func(j int) int, f bool) *MergeCase {
		c := &MergeCase{Max: x.Max, Sep: Text(strings.Repeat(string(x.Sep), x.SepN)), FailBytes: -1, FailCalls: -1, Fmt: f, Names: []string{}, Als: []string{}, Set: []int{}, Items: [][]Text{}}
		for j := 0; j < x.NC; j++ {
			c.Names = append(c.Names, fmt.Sprint("c", j))
			c.Als = append(c.Als, []string{"L", "N", "C"}[j%3])
			c.Set = append(c.Set, set(j))
		}
		for i := 0; i < n; i++ {
			row := []Text{}
			for j := 0; j < x.NC; j++ {
				row = append(row, cell(i, j))
			}
			c.Items = append(c.Items, row)
		}
		return c
	}
	both := func(c *MergeCase, what string) {
		for _, dir := range []string{"H", "V"} {
			for _, compact := range []bool{false, true} {
				d := c.clone()
				d.Dir, d.Compact = dir, compact
				each(d, fmt.Sprint(what, " ", dir, " compact=", compact))
			}
		}
	}
	none := func(int) int { return -1 }
	if x.K == "many" {
		for _, f := range []bool{false, true} {
			both(mk(x.N, func(i, j int) Text { return x.Cell }, none, f), fmt.Sprint("formatted=", f))
		}
		return
	}
	for _, n := range []int{0, 1, 2, 3, 7} {
		for _, cell := range []Text{"", "a", "\u0301", "\x1b[0m"} {
			both(mk(n, func(i, j int) Text { return cell }, none, true), fmt.Sprintf("%d items %q", n, cell))
		}
		both(mk(n, func(i, j int) Text { return "a" }, func(j int) int { return 65535 }, true), fmt.Sprintf("%d items, widths 65535", n))
		both(mk(n, func(i, j int) Text { return "abc" }, none, false), fmt.Sprintf("%d items, widths 0", n))
	}
	if x.Max > 65000 || x.Max == 0 || x.Max == -1<<63 {
		long := Text(strings.Repeat("w", 70000))
		both(mk(2, func(i, j int) Text {
			if i == 1 && j == 0 {
				return long
			}
			return "a"
		}, none, true), "long cell")
	}
}

func execExt(y any) {
	x := y.(*ExtCase)
	x.Res = []string{}
	x.merges(func(c *MergeCase, what string) {
		x.At = what
		out := func() (o string) {
			defer func() {
				if p := recover(); p != nil {
					o = fmt.Sprintf("panic: %v", p)
				}
			}()
			var b bytes.Buffer
			c.merge(c.table(), &b, c.list())
			return "ok"
		}()
		if out != "ok" {
			x.Res = append(x.Res, what+": "+out)
		}
	})
}

func genExt(emit func(any)) {
	r := newRng(*flagSeed + 350)
	maxs := []BigInt{-1 << 63, -1<<63 + 1, -1 << 62, -1 << 32, -1 << 31, -65537, -65536, -65535, -2, -1, 0, 1, 2, 3, 10, 255, 256, 65533, 65534, 65535, 65536, 65537, 1 << 31, 1<<31 - 1, 1 << 32, 1<<62 - 1, 1<<63 - 2, 1<<63 - 1}
	for i := 0; i < scale(8, 80); i++ {
		maxs = append(maxs, BigInt(int64(r.Uint64())>>uint(r.Intn(64))))
	}
	for _, max := range maxs {
		for _, sep := range []Text{"", " ", "あ", "\n", "\xff"} {
			for nc := 0; nc <= 3; nc++ {
				emit(&ExtCase{K: "grid", Max: max, Sep: sep, SepN: 1, NC: nc})
				if sep == " " {
					emit(&ExtCase{K: "grid", Max: max, Sep: sep, SepN: 300, NC: nc})
					emit(&ExtCase{K: "grid", Max: max, Sep: sep, SepN: 66000, NC: nc})
				}
			}
		}
	}
	// many empty or short items with little or much room
	for _, n := range []int{100, 400, 700} {
		for _, cell := range []Text{"", "x"} {
			for _, max := range []BigInt{-1, 0, 79, 65535, 1 << 40} {
				for _, sep := range []Text{"", " "} {
					emit(&ExtCase{K: "many", N: n, Cell: cell, Max: max, Sep: sep, SepN: 1, NC: 1})
				}
			}
		}
	}
}

// BigMerge merges very many items; item i (from 1) is the decimal number i and
// (i*i) % M times x, and X more of them if i % Q is P.
type BigMerge struct {
	K       string `json:"k"` // "big"
	EA      bool   `json:"ea"`
	Dir     string `json:"dir"`
	N       int    `json:"n"`
	M       int    `json:"m"`
	Q       int    `json:"q"`
	P       int    `json:"p"`
	X       int    `json:"x"`
	Al      string `json:"al"`
	Max     int    `json:"mx"`
	Sep     Text   `json:"sep"`
	Compact bool   `json:"compact"`

	Cw    []int  `json:"cw"`
	Lines []Text `json:"lines"`
	Rest  Text   `json:"rest"`
	Same  bool   `json:"same"`
	Outcome
}

func execBig(y any) {
	x := y.(*BigMerge)
	x.EA = runewidth.DefaultCondition.EastAsianWidth
	x.Cw, x.Lines, x.Rest = []int{}, []Text{}, ""
	t := table.NewTable(nil)
	t.AddColumn(&table.Column{Name: "n", Title: "n", Getter: cellGetter{0}, Alignment: alignmentOf(x.Al)})
	mk := func() itemList {
		l := itemList{}
		for i := 1; i <= x.N; i++ {
			k := i * i % x.M
			if i%x.Q == x.P {
				k += x.X
			}
			l = append(l, []string{fmt.Sprint(i) + strings.Repeat("x", k)})
		}
		return l
	}
	l := mk()
	for _, row := range l {
		if _, err := t.FormatItem(row); err != nil {
			panic(err)
		}
	}
	x.Cw = append(x.Cw, int(t.Width("n")))
	var b bytes.Buffer
	if x.Dir == "H" {
		t.MergeRowsHorizontal(&b, l, x.Max, string(x.Sep), x.Compact)
	} else {
		t.MergeRowsVertical(&b, l, x.Max, string(x.Sep), x.Compact)
	}
	ls := strings.Split(b.String(), "\n")
	x.Rest = Text(ls[len(ls)-1])
	for _, s := range ls[:len(ls)-1] {
		x.Lines = append(x.Lines, Text(s))
	}
	x.Same = true
	for i, row := range mk() {
		x.Same = x.Same && len(l[i]) == 1 && l[i][0] == row[0]
	}
}

func genBig(emit func(any)) {
	r := newRng(*flagSeed + 1300)
	for _, dir := range []string{"H", "V"} {
		for _, compact := range []bool{false, true} {
			big := func(n, m, max int) {
				q := r.pick2(1, 2, 97, 331, 701, n/2+1, n, n+1)
				x := r.pick2(0, 1, 5, 12, 30)
				if q < 90 {
					x = 1
				}
				emit(&BigMerge{K: "big", Dir: dir, N: n, M: m, Q: q, P: r.Intn(q), X: x, Al: r.pick("L", "R", "C", "N"), Max: max, Sep: Text(r.pick(" ", "|", "", " | ")), Compact: compact})
			}
			big(r.between(66000, 70000), 2, 3)
			big(r.between(999, 2600), r.between(3, 9), r.between(30, 120))
			big(r.between(999, 2600), 11, r.between(100, 400))
			big(r.between(300, 1000), r.between(3, 9), r.between(30, 120))
			if compact {
				for i, k := 0, scale(12, 60); i < k; i++ {
					n := r.between(900, 2200)
					q := r.pick2(97, 331, 701, n/2+1, n, n+1)
					emit(&BigMerge{K: "big", Dir: dir, N: n, M: 1, Q: q, P: r.Intn(q), X: r.between(3, 40), Al: r.pick("L", "R", "C", "N"), Max: r.between(20, 120), Sep: Text(r.pick(" ", "|", "")), Compact: true})
				}
			}
			if compact { // hundreds of groups on a line
				for i, k := 0, scale(3, 20); i < k; i++ {
					n := r.between(520, 900)
					q := r.pick2(97, 331, n)
					lines := r.between(2, 3)
					emit(&BigMerge{K: "big", Dir: dir, N: n, M: r.between(3, 9), Q: q, P: r.Intn(q), X: r.between(9, 60), Al: r.pick("L", "R", "C", "N"), Max: n * r.between(6, 9) / lines, Sep: Text(r.pick(" ", "|")), Compact: true})
				}
			}
			if thorough() {
				big(140000, 4, r.between(40, 100))
				big(33000, 4, 9)
				for i := 0; i < 10; i++ {
					big(r.between(100, 9000), r.between(1, 30), r.between(1, 300))
				}
			}
		}
	}
}

func (r *rng) pick2(xs ...int) int { return xs[r.Intn(len(xs))] }

// faults: every write and every byte of some merges
func genMergeFault(emit func(any)) {
	r := newRng(*flagSeed + 300)
	for i, n := 0, scale(120, 900); i < n; i++ {
		c := randMerge(r)
		if len(c.Items) > 12 {
			c.Items = c.Items[:12]
		}
		if c.Max > 200 {
			c.Max = BigInt(r.Intn(60))
		}
		c.Prior, c.List = nil, ""
		var ref bytes.Buffer
		if guarded(func() { c.merge(c.table(), onlyWriter{&ref}, c.list()) }) != "ok" {
			emit(c)
			continue
		}
		lines := strings.Count(ref.String(), "\n")
		for k := 0; k <= lines+1; k++ {
			d := c.clone()
			d.FailCalls = k
			d.Wr = r.pick(faultWriters...)
			d.ErrKind = errKinds[r.Intn(len(errKinds))]
			d.FailFull = r.chance(0.4)
			emit(d)
		}
		for k := 0; k <= ref.Len()+1; k++ {
			if ref.Len() > 60 && !r.chance(0.2) {
				continue
			}
			d := c.clone()
			d.FailBytes = k
			d.Wr = r.pick(faultWriters...)
			d.ErrKind = errKinds[r.Intn(len(errKinds))]
			emit(d)
		}
	}
	// every kind of error at the first, second and last line of a three line output
	for _, dir := range []string{"H", "V"} {
		for _, kind := range errKinds {
			for k := 0; k <= 3; k++ {
				for _, compact := range []bool{false, true} {
					for _, full := range []bool{false, true} {
						emit(&MergeCase{Dir: dir, Names: []string{"a"}, Als: []string{"L"}, Set: []int{-1}, Fmt: true,
							Items: [][]Text{{"x"}, {"yy"}, {"zzz"}}, Max: 4, Sep: " ", Compact: compact, FailBytes: -1, FailCalls: k, FailFull: full, ErrKind: kind})
					}
				}
			}
		}
	}
}

func init() {
	suites["merge"] = suite{genMerge, loader[MergeCase](), execMerge}
	suites["mergeextreme"] = suite{genExt, loader[ExtCase](), execExt}
	suites["mergebig"] = suite{genBig, loader[BigMerge](), execBig}
	suites["mergefault"] = suite{genMergeFault, loader[MergeCase](), execMerge}
}
