// Command drv drives the real go-table code and records what it does, one JSON
// record per case, for validation against the TLA+ specification.
//
//	drv SUITE -seed N -tier quick -out FILE            generated cases
//	drv SUITE -cases FILE -out FILE                    given cases (replay)
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

var (
	flagSeed    = flag.Int64("seed", 1, "")
	flagTier    = flag.String("tier", "quick", "")
	flagOut     = flag.String("out", "", "")
	flagCases   = flag.String("cases", "", "")
	flagJournal = flag.String("journal", "", "write each case here before running it")
	flagOpt     = flag.String("opt", "", "suite specific")
	flagLimit   = flag.Int("limit", 20, "seconds a single case may take")
)

func thorough() bool { return *flagTier == "thorough" }

func scale(quick, thor int) int {
	if thorough() {
		return thor
	}
	return quick
}

type suite struct {
	gen  func(emit func(any))
	load func(b []byte) (any, error)
	exec func(c any) // fills in the observed results
}

var suites = map[string]suite{}

type outcomer interface{ setOutcome(string) }

// Outcome is embedded in every case: "ok", "panic: ...", "hang"
type Outcome struct {
	O string `json:"o"`
}

func (o *Outcome) setOutcome(s string) { o.O = s }

var hung bool

// guarded runs f, and reports how it ended. After a hang nothing more can be run.
func guarded(f func()) (out string) { return guarded2(f, *flagLimit) }

func guarded2(f func(), seconds int) (out string) {
	done := make(chan string, 1)
	go func() {
		res := "ok"
		defer func() { done <- res }()
		defer func() {
			if p := recover(); p != nil {
				res = fmt.Sprintf("panic: %v", p)
			}
		}()
		f()
	}()
	limit := time.After(time.Duration(seconds) * time.Second)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case res := <-done:
			return res
		case <-limit:
			hung = true
			return "hang"
		case <-tick.C:
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 8<<30 {
				hung = true
				return "hang (memory)"
			}
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv SUITE [flags]")
		os.Exit(2)
	}
	if os.Args[1] == "startup-probe" {
		startupProbe()
		return
	}
	name := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	s, ok := suites[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no suite", name)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	out, err := os.Create(*flagOut)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	written := &counter{}
	enc := io.MultiWriter(w, written)
	n := 0
	var mu sync.Mutex
	emit := func(c any) {
		mu.Lock()
		defer mu.Unlock()
		if hung || written.n > maxOutput {
			return // enough to judge
		}
		if *flagJournal != "" {
			b, _ := json.Marshal(c)
			os.WriteFile(*flagJournal, append(b, '\n'), 0o644)
		}
		res := guarded(func() { s.exec(c) })
		if o, ok := c.(outcomer); ok {
			o.setOutcome(res)
		}
		b, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if _, err := enc.Write(append(noNull(b), '\n')); err != nil {
			panic(err)
		}
		n++
	}
	if *flagCases != "" {
		in, err := os.Open(*flagCases)
		if err != nil {
			panic(err)
		}
		rd := bufio.NewReaderSize(in, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if len(line) > 1 {
				c, err := s.load(line)
				if err != nil {
					fmt.Fprintln(os.Stderr, "bad case:", err)
					os.Exit(2)
				}
				emit(c)
			}
			if err != nil {
				break
			}
		}
	} else {
		s.gen(emit)
	}
	if err := w.Flush(); err != nil {
		panic(err)
	}
	out.Close()
	fmt.Println("cases", n, "hung", hung)
}

// noNull replaces null (lists never filled in, after a panic) by the empty list.
func noNull(b []byte) []byte {
	if !bytes.Contains(b, []byte("null")) {
		return b
	}
	out := make([]byte, 0, len(b))
	in := false
	for i := 0; i < len(b); i++ {
		switch {
		case in && b[i] == '\\':
			out = append(out, b[i])
			i++
		case b[i] == '"':
			in = !in
		case !in && b[i] == 'n' && bytes.HasPrefix(b[i:], []byte("null")):
			out = append(out, '[', ']')
			i += 3
			continue
		}
		out = append(out, b[i])
	}
	return out
}

// maxOutput is far above what any suite records of the unchanged code
const maxOutput = 400 << 20

type counter struct{ n int }

func (c *counter) Write(b []byte) (int, error) {
	c.n += len(b)
	return len(b), nil
}

func loader[T any]() func(b []byte) (any, error) {
	return func(b []byte) (any, error) {
		c := new(T)
		err := json.Unmarshal(b, c)
		return c, err
	}
}
