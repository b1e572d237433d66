// Command vh runs scenarios on the real openapi-go and records what happened.
//
//	vh MODE SCENARIOS TRACE
//
// SCENARIOS has one JSON object per line, TRACE gets JSON objects that start
// with a "begin" event for every scenario.  No verdict is made here.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

type M = map[string]interface{}

type tracer struct {
	mu sync.Mutex
	w  *bufio.Writer
}

func (t *tracer) emit(ev M) {
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}

	t.mu.Lock()
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.w.Flush()
	t.mu.Unlock()
}

type scenario struct {
	Sc   string            `json:"sc"`
	V    []string          `json:"v"`
	Opt  M                 `json:"opt"`
	Cmds []json.RawMessage `json:"cmds"`
}

var modes = map[string]func(t *tracer, raw []byte){}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: vh MODE SCENARIOS TRACE [SKIP [ONLY]]")
		os.Exit(2)
	}

	run, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}

	skip, only := 0, -1
	if len(os.Args) > 4 {
		skip, _ = strconv.Atoi(os.Args[4])
	}

	if len(os.Args) > 5 {
		only, _ = strconv.Atoi(os.Args[5])
	}

	limit := 60 * time.Second
	if s := os.Getenv("VH_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}

	in, err := os.Open(os.Args[2])
	if err != nil {
		panic(err)
	}

	out, err := os.OpenFile(os.Args[3], os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}

	t := &tracer{w: bufio.NewWriterSize(out, 1<<16)}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)

	var (
		mu    sync.Mutex
		began = time.Now()
	)

	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			d := time.Since(began)
			mu.Unlock()

			if d > limit {
				fmt.Fprintln(os.Stderr, "scenario did not finish in time")
				os.Exit(97)
			}
		}
	}()

	for i := 0; sc.Scan(); i++ {
		if i < skip {
			continue
		}

		if only >= 0 && i != only {
			break
		}

		mu.Lock()
		began = time.Now()
		mu.Unlock()

		// The number of the scenario in progress, should the process die.
		if err := os.WriteFile(os.Args[3]+".at", []byte(strconv.Itoa(i)), 0o644); err != nil {
			panic(err)
		}

		run(t, append([]byte(nil), sc.Bytes()...))
	}

	if sc.Err() != nil {
		panic(sc.Err())
	}

	t.w.Flush()
	os.WriteFile(os.Args[3]+".done", []byte("done"), 0o644)
}

func unjson(raw []byte, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic("bad scenario: " + err.Error() + ": " + string(raw))
	}
}

// guard runs f and returns the text of a panic.
func guard(f func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
			if pan == "" {
				pan = "panic"
			}

			if os.Getenv("VH_STACK") != "" {
				fmt.Fprintln(os.Stderr, pan, string(debug.Stack()))
			}
		}
	}()

	f()

	return ""
}
