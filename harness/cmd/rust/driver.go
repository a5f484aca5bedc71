package main

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/nanobus/iota/go/zz_verif/kit"
)

type driver struct {
	name   string
	cmd    *exec.Cmd
	to     *os.File
	from   *bufio.Reader
	stderr *tail
}

// tail keeps the end of what the process writes.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 4000 {
		t.b = t.b[len(t.b)-2000:]
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// drivers are the programs that are running, by their paths below out.
var drivers = map[string]*driver{}

const mainDriver = "rust-target/debug/driver"

func start(name string) *driver {
	d := &driver{name: name, stderr: &tail{}}
	d.cmd = exec.Command(filepath.Join(kit.VerifDir(), "out", name))
	inR, inW, err := os.Pipe()
	if err != nil {
		kit.Bug("pipe: %v", err)
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		kit.Bug("pipe: %v", err)
	}
	d.cmd.ExtraFiles = []*os.File{inR, outW}
	d.cmd.Stderr = d.stderr
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := d.cmd.Start(); err != nil {
		kit.Bug("starting the driver: %v", err)
	}
	inR.Close()
	outW.Close()
	d.to, d.from = inW, bufio.NewReader(outR)
	return d
}

// answerLimit is how long an answer may take: every case is a matter of
// milliseconds.
const answerLimit = 150 * time.Second

// ask has the driver run a command. An error is a violation: a panic, or the
// end of the process.
func ask(cmd string, arg, value any) (peak int, err error) {
	return askOf(mainDriver, cmd, arg, value)
}

func askOf(name, cmd string, arg, value any) (peak int, err error) {
	if drivers[name] == nil {
		drivers[name] = start(name)
	}
	d := drivers[name]
	req, err := json.Marshal(map[string]any{"cmd": cmd, "arg": arg})
	if err != nil {
		kit.Bug("marshalling a request: %v", err)
	}
	var body []byte
	done := make(chan error, 1)
	go func() {
		var l [4]byte
		binary.LittleEndian.PutUint32(l[:], uint32(len(req)))
		if _, err := d.to.Write(append(l[:], req...)); err != nil {
			done <- err
			return
		}
		if _, err := io.ReadFull(d.from, l[:]); err != nil {
			done <- err
			return
		}
		body = make([]byte, binary.LittleEndian.Uint32(l[:]))
		_, err := io.ReadFull(d.from, body)
		done <- err
	}()
	select {
	case err = <-done:
	case <-time.After(answerLimit):
		d.cmd.Process.Kill()
		d.cmd.Wait()
		delete(drivers, name)
		return 0, fmt.Errorf("the Rust code does not return within %v", answerLimit)
	}
	if err != nil {
		d.cmd.Wait()
		delete(drivers, name)
		if ws, ok := d.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			kit.Bug("the driver was killed from outside")
		}
		return 0, fmt.Errorf("the Rust process dies (%v): %s", d.cmd.ProcessState, d.stderr)
	}
	var a struct {
		Value  json.RawMessage
		Panics []string
		Peak   int
	}
	if err := json.Unmarshal(body, &a); err != nil {
		kit.Bug("the driver's answer: %v", err)
	}
	for _, p := range a.Panics {
		if strings.Contains(p, " at driver/src/") && !strings.HasPrefix(p, "a frame of side") {
			kit.Bug("the driver panics: %s", p)
		}
	}
	if len(a.Panics) > 0 {
		return 0, fmt.Errorf("a panic in the Rust code: %s", strings.Join(a.Panics, "; "))
	}
	if err := json.Unmarshal(a.Value, value); err != nil {
		kit.Bug("the driver's value %.200s: %v", a.Value, err)
	}
	return a.Peak, nil
}

// hexed is a byte string, in hexadecimal in JSON.
type hexed []byte

func (h hexed) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }

func (h *hexed) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	x, err := hex.DecodeString(s)
	*h = x
	return err
}

func clip(b []byte) []byte { return b[:min(len(b), 64)] }
