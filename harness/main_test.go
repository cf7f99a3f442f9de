// Package harness drives the real code of /repo with scripts generated from the
// TLA+ specifications and records what can be observed at its API.
package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Protocol with the orchestrator (bin/vlib.py):
//   VH_MODE  which driver        VH_IN   one JSON case per line
//   VH_OUT   results, one JSON line per finished case, in order, each with the case's "i"
//   VH_FROM  first case (line number) VH_STEP shard stride
// Before case i starts, "i" is written to VH_OUT.cur, so that a dead process names its last case.
// Exit 7: the case was finished, but it leaves blocked goroutines; the orchestrator goes on with the next.

type driver func(raw json.RawMessage, emit func(any))

var drivers = map[string]driver{}

var caseStart atomic.Int64
var caseNo atomic.Int64

const leakExit = 7

func TestDrive(t *testing.T) {
	mode := os.Getenv("VH_MODE")
	drv, ok := drivers[mode]
	if !ok {
		t.Fatalf("unknown mode %q", mode)
	}
	theT = t
	log.SetOutput(io.Discard)
	from, _ := strconv.Atoi(os.Getenv("VH_FROM"))
	step, _ := strconv.Atoi(os.Getenv("VH_STEP"))
	if step == 0 {
		step = 1
	}
	limit, _ := strconv.Atoi(os.Getenv("VH_CASE_LIMIT"))
	if limit == 0 {
		limit = 30
	}
	in, err := os.Open(os.Getenv("VH_IN"))
	if err != nil {
		t.Fatal(err)
	}
	outf, err := os.OpenFile(os.Getenv("VH_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	curf, err := os.Create(os.Getenv("VH_OUT") + ".cur")
	if err != nil {
		t.Fatal(err)
	}
	// a case that makes no progress in real time (busy loop, blocked on a lock) is reported by exit 3
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			st := caseStart.Load()
			if st != 0 && time.Now().UnixNano()-st > int64(limit)*int64(time.Second) {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG case %d\n%s\n", caseNo.Load(), buf[:n])
				os.Exit(3)
			}
		}
	}()
	sc := bufio.NewReaderSize(in, 1<<20)
	w := bufio.NewWriter(outf)
	for i := 0; ; i++ {
		line, err := sc.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 && i >= from && (i-from)%step == 0 {
			curf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
			caseNo.Store(int64(i))
			caseStart.Store(time.Now().UnixNano())
			emitted := false
			drv(json.RawMessage(line), func(res any) {
				emitted = true
				enc, jerr := json.Marshal(map[string]any{"i": i, "r": res})
				if jerr != nil {
					panic(jerr)
				}
				w.Write(enc)
				w.WriteByte('\n')
				w.Flush()
			})
			caseStart.Store(0)
			if !emitted {
				t.Fatalf("case %d: no result", i)
			}
		}
		if err != nil {
			break
		}
	}
	w.Flush()
}

// bubble runs f in a synctest bubble (virtual time). f returns the result and the number of
// calls that are still pending. If anything stays behind, the bubble cannot end: the
// result is written and the process exits with leakExit.
func bubble(emit func(any), f func() (any, int)) {
	synctest.Test(theT, func(t *testing.T) {
		res, pending := f()
		emit(res)
		synctest.Wait()
		if pending > 0 || libGoroutines() > 0 {
			os.Exit(leakExit)
		}
	})
}

// tooMany: endless events are no progress.
func tooMany(n int) {
	if n > 200000 {
		fmt.Fprintf(os.Stderr, "WATCHDOG endless events\n")
		os.Exit(3)
	}
}

var theT *testing.T

// libGoroutines counts the goroutines started by library code.
func libGoroutines() int {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	c := 0
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "created by github.com/NodeBoy2/rtspclient") {
			c++
		}
	}
	return c
}
