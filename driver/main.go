// Driver replays cases generated from the TLA+ specification in the real code
// and records what happened, one JSON object per line.
//
// usage: driver MODE DIR VIEWS
//
// reads DIR/gen_*.ndjson and writes DIR/rec_*.ndjson.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type caseIn map[string]interface{}

func toInts(x interface{}) []int {
	v, _ := x.([]interface{})
	out := make([]int, len(v))
	for i, x := range v {
		out[i] = int(x.(float64))
	}
	return out
}

func (c caseIn) ints(k string) []int  { return toInts(c[k]) }
func (c caseIn) text(k string) string { return uncps(c.ints(k)) }
func (c caseIn) num(k string) int     { f, _ := c[k].(float64); return int(f) }

// guard runs f, turning a panic into a message.
func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				msg = "string:" + s
			} else {
				msg = fmt.Sprintf("%T:%v", r, r)
			}
		}
	}()
	f()
	return ""
}

var modes = map[string]func(c caseIn, views map[string]bool) J{}

func main() {
	mode, dir := os.Args[1], os.Args[2]
	views := map[string]bool{}
	if len(os.Args) > 3 {
		for _, v := range strings.Split(os.Args[3], ",") {
			views[v] = true
		}
	}
	f := modes[mode]
	if f == nil {
		check(fmt.Errorf("no mode %s", mode))
	}
	limit := 60 * time.Second
	if s := os.Getenv("DRIVER_LIMIT"); s != "" {
		n, err := strconv.Atoi(s)
		check(err)
		limit = time.Duration(n) * time.Second
	}
	files, err := filepath.Glob(filepath.Join(dir, "gen_*.ndjson"))
	check(err)
	workers := runtime.NumCPU()
	if s := os.Getenv("DRIVER_WORKERS"); s != "" {
		workers, err = strconv.Atoi(s)
		check(err)
	}
	ch := make(chan string, len(files))
	for _, f := range files {
		ch <- f
	}
	close(ch)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for in := range ch {
				runFile(in, strings.Replace(in, "gen_", "rec_", 1), f, views, limit)
			}
		}()
	}
	wg.Wait()
}

func runFile(in, out string, f func(caseIn, map[string]bool) J, views map[string]bool, limit time.Duration) {
	fi, err := os.Open(in)
	check(err)
	defer fi.Close()
	fo, err := os.Create(out)
	check(err)
	w := bufio.NewWriterSize(fo, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	prog, err := os.Create(strings.TrimSuffix(out, ".ndjson") + ".progress")
	check(err)
	defer prog.Close()
	i := 0
	t := time.NewTimer(limit)
	for sc.Scan() {
		var c caseIn
		check(json.Unmarshal(sc.Bytes(), &c))
		// Where we are, in case the code under test takes the process down.
		prog.WriteAt([]byte(fmt.Sprintf("%10d", i)), 0)
		i++
		ch := make(chan J, 1)
		go func() { ch <- f(c, views) }()
		if !t.Stop() {
			select {
			case <-t.C:
			default:
			}
		}
		t.Reset(limit)
		var r J
		select {
		case r = <-ch:
		case <-t.C:
			// The goroutine cannot be stopped: leave.
			fmt.Fprintf(os.Stderr, "HANG %s %d\n", in, i-1)
			os.Exit(7)
		}
		check(enc.Encode(r))
	}
	check(sc.Err())
	check(w.Flush())
	check(fo.Close())
	prog.WriteAt([]byte("      done"), 0)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}
