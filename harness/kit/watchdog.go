package kit

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// The watchdog decides non-termination of a single case without a wall-clock
// timeout: a case is hung when it has burnt hangCPU of processor time (cases
// need milliseconds), or when every goroutine of the process is blocked on
// another one (nothing can ever wake them) in several successive snapshots.
const hangCPU = 30 * time.Second

var caseStart atomic.Int64 // CPU time (ns) at the start of the case, 0 between cases
var caseNo atomic.Int64

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watchdog() {
	blocked, last := 0, int64(-1)
	for {
		time.Sleep(500 * time.Millisecond)
		start, no := caseStart.Load(), caseNo.Load()
		if start == 0 || no != last {
			last, blocked = no, 0
			continue
		}
		why := ""
		if cpuTime()-time.Duration(start) > hangCPU {
			why = fmt.Sprintf("one case has used %v of CPU time without finishing", hangCPU)
		} else if busyGoroutines() == "" {
			if blocked++; blocked >= 6 {
				why = "all goroutines are blocked for good"
			}
		} else {
			blocked = 0
		}
		if why == "" || caseNo.Load() != no {
			continue
		}
		// What runs for ever may call back into the harness, so one sample
		// of where it is does not do.
		dump, blamed := hangDump()
		for i := 0; i < 200 && !blamed; i++ {
			time.Sleep(5 * time.Millisecond)
			dump, blamed = hangDump()
		}
		fmt.Fprintf(os.Stderr, "fatal error: hang: %s\n\n%s\n", why, dump)
		os.Exit(2)
	}
}

// hangDump returns the stacks of all goroutines, the one that decides who is
// to blame first, and says whether that is the code under test.
//
// The goroutine that runs the oracle decides. If it only waits for others, one
// that waits for a lock in the code under test, or runs in it, does.
func hangDump() (string, bool) {
	buf := make([]byte, 4<<20)
	dump := string(buf[:runtime.Stack(buf, true)])
	var oracle, culprit, rest string
	for _, g := range strings.Split(dump, "\n\n") {
		if oracle == "" && strings.Contains(g, "kit.runCheck(") {
			oracle = g
			continue
		}
		state := firstLine(g)
		stuck := strings.Contains(state, "Mutex.Lock") || strings.Contains(state, "Mutex.RLock") ||
			strings.Contains(state, "running") || strings.Contains(state, "runnable")
		if ok, _ := blameStack(g); ok && stuck && culprit == "" && !strings.Contains(g, "kit.watchdog(") {
			culprit = g
			continue
		}
		rest += "\n\n" + g
	}
	blamed, _ := blameStack(oracle)
	if !blamed && culprit != "" {
		oracle, culprit = culprit, oracle
		blamed = true
	}
	return oracle + "\n\n" + culprit + rest, blamed
}

// isHarnessGoroutine recognises goroutines that never count as busy.
func isHarnessGoroutine(body string) bool {
	// A mesh closes a replaced module some seconds later.
	if strings.Contains(body, "time.Sleep(") && strings.Contains(body, "/transport/wasmrs/mesh.") {
		return true
	}
	return strings.Contains(body, "kit.watchdog(") || strings.Contains(body, "os/signal.")
}

// limitMemory caps the address space of a worker, so that an absurd
// allocation fails deterministically instead of straining the sandbox.
func limitMemory() {
	lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}
