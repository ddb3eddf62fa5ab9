// Package svrun replays solver assignments against the real build.
package svrun

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"syscall"

	"verif/sv"
)

// Case is one assignment.
type Case struct {
	Harness  string     `json:"harness"`
	Inputs   []sv.Input `json:"inputs"`
	Thorough bool       `json:"thorough"`
}

// Result is the outcome of one replay.
type Result struct {
	Status string   `json:"status"` // ok, assert, panic, alloc, frozen, skip
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Obs    []string `json:"obs"`
}

// Main runs the cases on stdin (JSON lines) and prints one result line for each.
func Main(hs map[string]func()) {
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	if os.Getenv("SV_RACE") == "" {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriter(os.Stdout)
	for dec.More() {
		var c Case
		if err := dec.Decode(&c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f := hs[c.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", c.Harness)
			os.Exit(3)
		}
		if os.Getenv("SV_RACE") != "" {
			// the same work on two goroutines at once; the race detector watches
			var wg sync.WaitGroup
			sv.RacePrepare(c.Inputs, c.Thorough, 2)
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() { recover() }()
					sv.RaceStart(i)
					f()
				}()
			}
			wg.Wait()
			continue
		}
		r := run(f, c)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func run(f func(), c Case) (r Result) {
	st := sv.Start(c.Inputs, c.Thorough)
	defer func() {
		x := recover()
		r.Obs = st.Obs
		switch v := x.(type) {
		case nil:
			r.Status = "ok"
		case sv.Fail:
			r.Status, r.Label = v.Kind, v.Label
		case sv.Skip:
			r.Status, r.Detail = "skip", v.Why
		default:
			r.Status, r.Label, r.Detail = "panic", "panic@"+st.SectionName(), fmt.Sprint(x)
		}
	}()
	f()
	sv.Finish()
	return
}
