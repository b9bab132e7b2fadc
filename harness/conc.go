package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"
)

// ---- C24: goroutines on separate tables, measuring, aligning, segmenting ----

// ConcRec is a record of one of the other suites, obtained concurrently.
type ConcRec struct {
	kind  string
	inner any
}

func (c *ConcRec) MarshalJSON() ([]byte, error) {
	b, err := json.Marshal(c.inner)
	if err != nil {
		return nil, err
	}
	return append([]byte(`{"kind":"`+c.kind+`",`), b[1:]...), nil
}

func (c *ConcRec) setOutcome(s string) {
	if s != "ok" {
		c.inner.(outcomer).setOutcome(s)
	}
}

var concKinds = map[string]suite{}

func loadConc(b []byte) (any, error) {
	var k struct {
		Kind string `json:"kind"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, err
	}
	x, err := concKinds[k.Kind].load(b)
	return &ConcRec{k.Kind, x}, err
}

// recorded results are only written down; cases from a file are run alone
func execConc(x any) {
	c := x.(*ConcRec)
	if *flagCases != "" {
		concKinds[c.kind].exec(c.inner)
	}
}

type concWork struct {
	rec *ConcRec
	f   func() // without a record
}

func runConc(work [][]concWork) {
	for _, l := range work {
		for _, w := range l {
			if w.rec != nil && w.rec.kind == "table" {
				c := w.rec.inner.(*TabCase)
				for i := c.Pre; i < len(c.Evs); i++ {
					c.Evs[i].Ik = "" // other items go through a variable of the driver
				}
			}
		}
	}
	var ready, done sync.WaitGroup
	start := make(chan bool)
	for _, l := range work {
		ready.Add(1)
		done.Add(1)
		go func(l []concWork) {
			defer done.Done()
			ready.Done()
			<-start
			for _, w := range l {
				if w.rec == nil {
					w.f()
					continue
				}
				func() {
					res := "ok"
					defer func() {
						if p := recover(); p != nil {
							res = fmt.Sprintf("panic: %v", p)
						}
						w.rec.inner.(outcomer).setOutcome(res)
					}()
					concKinds[w.rec.kind].exec(w.rec.inner)
				}()
			}
		}(l)
	}
	ready.Wait()
	close(start)
	done.Wait()
}

// sharedTabs are histories on tables of one specification that nobody changes.
func sharedTabs(r *rng, g int) []*TabCase {
	w := &tabWorld{names: nameSets[0], ids: map[*table.Column]int{}}
	pre := []TabEv{{Op: "spec"}}
	tg := &tabGen{r: r}
	nc := r.between(1, 5)
	for i := 0; i < nc; i++ {
		pre = append(pre, TabEv{Op: "add", S: 1, Col: ColDef{Name: 1 + i%len(colNames), Al: r.pick("L", "R", "C", "N", "X"), Title: tg.title(), Short: tg.title()}})
	}
	for i := range pre {
		w.step(&pre[i])
	}
	out := []*TabCase{}
	for i := 0; i < g; i++ {
		x := &tabGen{r: r, specs: []int{nc}, ncols: nc, frozen: true}
		x.evs = append(x.evs, TabEv{Op: "table", S: 1})
		x.tabs = append(x.tabs, 0)
		for k, m := 0, r.between(8, 25); k < m; k++ {
			x.step()
		}
		ids := map[*table.Column]int{}
		for c, n := range w.ids {
			ids[c] = n
		}
		mine := &tabWorld{names: nameSets[0], specs: []*table.TableSpec{w.specs[0]}, ids: ids, cols: append([]*table.Column{}, w.cols...), defs: append([]ColDef{}, w.defs...)}
		out = append(out, &TabCase{Evs: append(append([]TabEv{}, pre...), x.evs...), Pre: len(pre), world: mine})
	}
	return out
}

// burst: every goroutine does one thing, all at once. Nothing it did before orders it
// after the others (a lock taken earlier would), so that any unordered access shows.
func genBursts(r *rng, emit func(any)) {
	const g = 8
	one := func(what int, i int, shared []string) (string, any) {
		s := Text(shared[r.Intn(len(shared))])
		switch what {
		case 0:
			return "width", &WidthCase{K: "one", T: s}
		case 1:
			return "align", &AlignCase{Al: r.pick("L", "R", "C"), T: s, W: r.Intn(20)}
		case 2:
			return "graph", &GraphCase{K: "seg", T: s}
		case 3:
			return "cond", &CondCase{K: "sw", T: s, N: 1}
		}
		m := randMerge(r)
		if len(m.Items) > 6 {
			m.Items = m.Items[:6]
		}
		return "merge", m
	}
	for b, n := 0, scale(160, 1500); b < n; b++ {
		shared := []string{r.text(r.Intn(7)), r.text(3), r.cell(4), fmt.Sprint("burst", b)}
		work := make([][]concWork, g)
		for i := range work {
			what := b % 6
			if what == 5 {
				what = r.Intn(5)
			}
			k, x := one(what, i, shared)
			work[i] = []concWork{{rec: &ConcRec{k, x}}}
		}
		runConc(work)
		for _, l := range work {
			emit(l[0].rec)
		}
	}
	// conditions of their own: made at once, or copies of one that has a table
	for b, n := 0, scale(14, 140); b < n; b++ {
		var base *CondCase
		if b%2 == 1 {
			base = &CondCase{K: "hist", Priv: true, Xs: condSample(r), Ops: []CondOp{{Op: "lut", I: 1}}}
			execCond(base)
		}
		work := make([][]concWork, g)
		for i := range work {
			c := &CondCase{K: "hist", Priv: true, Xs: condSample(r)}
			nc := 1
			if base != nil {
				c.Xs, c.Ops, c.pre, c.base = base.Xs, append([]CondOp{}, base.Ops...), 1, []*runewidth.Condition{}
				for _, x := range base.last { // each its own copy, taken here
					y := *x
					c.base = append(c.base, &y)
				}
			}
			for k := 0; k < 4; k++ {
				o := CondOp{EA: r.chance(0.5), Strict: r.chance(0.5), I: 1 + r.Intn(nc)}
				switch x := r.Intn(6); {
				case b%7 == 6:
					o.Op = "newflags"
					nc++
				case x < 2 && k > 0:
					o.Op = "lut"
				case x < 4:
					o.Op = "set"
				case x == 4:
					o.Op = r.pick("new", "newcond", "newflags")
					nc++
				default:
					o.Op = "copy"
					nc++
				}
				c.Ops = append(c.Ops, o)
			}
			if i%2 == 0 {
				c.Ops = append(c.Ops, CondOp{Op: "lut", I: 1 + r.Intn(nc)})
			}
			work[i] = []concWork{{rec: &ConcRec{"cond", c}}}
		}
		runConc(work)
		for _, l := range work {
			emit(l[0].rec)
		}
	}
	// tables of one specification, fresh each time, all doing the same operation first
	ops := []string{"header", "align", "format", "basic", "twidth", "mergeH", "mergeV", "update", "any"}
	for b, n := 0, scale(72, 720); b < n; b++ {
		cases := sharedTabs(r, g)
		op := ops[b%len(ops)]
		work := make([][]concWork, g)
		for i, c := range cases {
			keep := append([]TabEv{}, c.Evs[:c.Pre+1]...)
			nc := c.Pre - 1
			row := func() (out []Text) {
				for k := 0; k < nc; k++ {
					out = append(out, Text(r.cell(5)))
				}
				return
			}
			e := TabEv{T: 1, Op: op, Row: row(), Sep: "|", M: 1}
			for range e.Row {
				e.Vk, e.Fail = append(e.Vk, "int"), append(e.Fail, "")
			}
			switch op {
			case "mergeH", "mergeV":
				e = TabEv{T: 1, Op: "merge", Dir: op[5:], Sep: "|", Max: r.Intn(60), Compact: r.chance(0.5), Items: [][]Text{row(), row(), row()}}
			case "update":
				e.Ups = [][2]int{{1, r.Intn(9)}}
			case "any":
				if len(c.Evs) > c.Pre+1 {
					e = c.Evs[c.Pre+1]
				} else {
					e.Op = "header"
				}
			}
			if b%2 == 0 {
				// the table is there before: only the operation happens at once
				d := &TabCase{Evs: append([]TabEv{}, keep...), Pre: c.Pre, world: c.world}
				execTab(d)
				keep, c.world, c.Pre = d.Evs, d.world, len(d.Evs)
			}
			c.Evs = append(keep, e)
			work[i] = []concWork{{rec: &ConcRec{"table", c}}}
		}
		runConc(work)
		for _, l := range work {
			emit(l[0].rec)
		}
	}
}

func genConc(emit func(any)) {
	r := newRng(*flagSeed + 1200)
	stringConds()
	const g = 8
	genBursts(newRng(*flagSeed+1250), emit)
	rounds := scale(5, 40)
	for round := 0; round < rounds; round++ {
		runtime.GOMAXPROCS([]int{8, 8, 4, 8, 2}[round%5])
		shared := []string{}
		for i := 0; i < 150; i++ {
			shared = append(shared, r.text(r.Intn(7)))
		}
		work := make([][]concWork, g)
		for i := range work {
			add := func(kind string, x any) { work[i] = append(work[i], concWork{rec: &ConcRec{kind, x}}) }
			for _, k := range r.Perm(len(shared)) {
				s := shared[k]
				switch r.Intn(5) {
				case 0, 1:
					add("width", &WidthCase{K: "one", T: Text(s)})
				case 2:
					add("align", &AlignCase{Al: r.pick("L", "R", "C"), T: Text(s), W: r.Intn(20)})
				case 3:
					add("graph", &GraphCase{K: "seg", T: Text(s)})
				case 4:
					add("cond", &CondCase{K: "sw", T: Text(s), N: 1})
				}
			}
			for k := 0; k < 12; k++ {
				x := &tabGen{r: r}
				for j, m := 0, r.between(6, 22); j < m; j++ {
					x.step()
				}
				add("table", &TabCase{Evs: x.evs})
				m := randMerge(r)
				if len(m.Items) > 20 {
					m.Items = m.Items[:20]
				}
				add("merge", m)
			}
			// distinct texts beyond the capacity, everything public, unrecorded
			from := (round*g + i) * 2000
			work[i] = append(work[i], concWork{f: func() {
				for k := from; k < from+scale(700, 2000); k++ {
					s := fmt.Sprintf("n%d", k)
					if w := measure(s); w != len(s) {
						panic(fmt.Sprintf("width of %q: %d", s, w))
					}
				}
			}})
			if round%2 == 0 {
				ea := i%2 == 0
				work[i] = append(work[i], concWork{f: func() {
					c := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: true}
					if runewidth.IsEastAsian() {
						panic("locale")
					}
					n := runewidth.NewCondition()
					n.EastAsianWidth = ea
					if i%4 == 0 {
						c.CreateLUT()
						n = c
					}
					want := 1
					if ea {
						want = 2
					}
					for x := 0; x < 300; x++ {
						if c.RuneWidth('☆') != want || n.StringWidth("☆a") != want+1 || c.RuneWidth('あ') != 2 {
							panic("condition")
						}
					}
					rest, st := strings.Repeat("👩\u200d👩é", 50), -1
					for rest != "" {
						_, rest, _, st = uniseg.StepString(rest, st)
					}
				}})
			}
		}
		for i, c := range sharedTabs(r, g) {
			work[i] = append(work[i], concWork{rec: &ConcRec{"table", c}})
		}
		for i := range work {
			l := work[i]
			rand.New(rand.NewSource(int64(round*g+i)+*flagSeed)).Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		}
		runConc(work)
		for _, l := range work {
			for _, w := range l {
				if w.rec != nil {
					emit(w.rec)
				}
			}
		}
	}
}

func init() {
	concKinds["width"] = suite{nil, loader[WidthCase](), execWidth}
	concKinds["align"] = suite{nil, loader[AlignCase](), execAlign}
	concKinds["graph"] = suite{nil, loader[GraphCase](), execGraph}
	concKinds["cond"] = suite{nil, loader[CondCase](), execCond}
	concKinds["table"] = suite{nil, loader[TabCase](), execTab}
	concKinds["merge"] = suite{nil, loader[MergeCase](), execMerge}
	suites["conc"] = suite{genConc, loadConc, execConc}
}
