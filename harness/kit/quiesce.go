package kit

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Quiesce waits until every goroutine of the process except the caller is
// blocked on a channel, lock, condition or similar with no timer, I/O or
// system call outstanding. At that point, by inspection of a stop-the-world
// snapshot, no further progress is possible without the caller: what has not
// happened yet never will. This replaces timeouts as the oracle for
// "eventually". The returned error is only a cap on waiting for quiescence
// itself and must be treated as inconclusive.
func Quiesce(limit time.Duration) error {
	deadline := time.Now().Add(limit)
	delay := 20 * time.Microsecond
	for {
		for i := 0; i < 4; i++ {
			runtime.Gosched()
		}
		busy := busyGoroutines()
		if busy == "" {
			return nil
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("not quiescent after %v: %s", limit, busy)
		}
		time.Sleep(delay)
		if delay < 5*time.Millisecond {
			delay *= 2
		}
	}
}

var (
	stackMu  sync.Mutex
	stackBuf = make([]byte, 1<<20)
)

// busyGoroutines returns a description of one goroutine (other than the
// caller) that may still make progress by itself, or "".
func busyGoroutines() string {
	stackMu.Lock()
	defer stackMu.Unlock()
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			return scanBusy(string(stackBuf[:n]))
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
}

func scanBusy(dump string) string {
	first := true
	for len(dump) > 0 {
		i := strings.Index(dump, "goroutine ")
		if i < 0 {
			return ""
		}
		if i > 0 && dump[i-1] != '\n' {
			dump = dump[i+1:]
			continue
		}
		dump = dump[i:]
		eol := strings.IndexByte(dump, '\n')
		if eol < 0 {
			return ""
		}
		line := dump[:eol]
		end := strings.Index(dump, "\n\n")
		body := dump
		if end >= 0 {
			body = dump[:end]
			dump = dump[end+1:]
		} else {
			dump = ""
		}
		if first { // the caller comes first
			first = false
			continue
		}
		l, r := strings.IndexByte(line, '['), strings.IndexByte(line, ']')
		if l < 0 || r < l {
			continue
		}
		state := line[l+1 : r]
		if c := strings.IndexByte(state, ','); c >= 0 {
			state = state[:c]
		}
		switch {
		// A bare "semacquire" is no lock of the program: it is a wait inside
		// the runtime, for example to start a garbage collection while this
		// very snapshot stops the world.
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"),
			strings.HasPrefix(state, "sync."):
			continue
		}
		if isHarnessGoroutine(body) {
			continue
		}
		return line + " ... " + firstFrames(body)
	}
	return ""
}

func firstFrames(body string) string {
	ls := strings.Split(body, "\n")
	var out []string
	for _, l := range ls[1:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		out = append(out, l)
		if len(out) == 4 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Stacks returns the frames of every goroutine that has a frame of the code
// under test, for diagnostics.
func Stacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, iotaPath) {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}
