// Worker processes: the code under test may call log.Fatal, panic or loop, so
// every history is replayed in a child process that streams what it does.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"sync"
	"time"
)

type J = map[string]interface{}

// emitter is the child's side: one line per step.
type emitter struct{ w *bufio.Writer }

func (e *emitter) line(tag string, x interface{}) {
	e.w.WriteString(tag)
	e.w.WriteByte(' ')
	e.w.Write(jsonBytes(x))
	e.w.WriteByte('\n')
	e.w.Flush()
}

// do runs one operation of the code under test: the operation is announced
// first, so that the parent knows what was going on if the process dies.
func (e *emitter) do(op J, f func() J) (ok bool) {
	e.line("O", op)
	var obs J
	func() {
		defer func() {
			if p := recover(); p != nil {
				if b, ok := p.(infra); ok {
					debug.PrintStack()
					fmt.Fprintln(os.Stderr, b.msg)
					os.Exit(98)
				}
				obs = J{"crash": fmt.Sprintf("panic: %v", p)}
			}
		}()
		obs = f()
		if obs["crash"] == nil {
			obs["crash"] = ""
			ok = true
		}
	}()
	e.line("R", obs)
	return ok
}

type jobFunc func(e *emitter, job J)

var families = map[string]jobFunc{}

func workerMain(fam string) {
	// the code under test may print; keep our channel clean
	out := os.Stdout
	os.Stdout = os.Stderr
	e := &emitter{bufio.NewWriter(out)}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var job J
		must(json.Unmarshal(l, &job))
		families[fam](e, job)
		e.line("E", J{})
	}
}

type child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	mu     sync.Mutex
}

type lockedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, p...)
	if len(l.b) > 4000 {
		l.b = append([]byte{}, l.b[len(l.b)-4000:]...)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

// runJobs replays all jobs and returns one trace per job, in order.
func runJobs(fam string, jobs []J, workers int, timeout time.Duration) []J {
	res := make([]J, len(jobs))
	idx := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var out *bufio.Reader
			var errb *lockedBuf
			start := func() {
				cmd = exec.Command(os.Args[0], "worker", fam)
				errb = &lockedBuf{}
				cmd.Stderr = errb
				in, _ = cmd.StdinPipe()
				o, _ := cmd.StdoutPipe()
				out = bufio.NewReaderSize(o, 1<<20)
				must(cmd.Start())
			}
			stop := func() {
				if cmd != nil {
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for i := range idx {
				if cmd == nil {
					start()
				}
				tr := J{"job": jobs[i]["id"], "ev": []J{}}
				evs := []J{}
				in.Write(append(jsonBytes(jobs[i]), '\n'))
				var op J
				killed := false
				var timer *time.Timer
				c := cmd
				reset := func() {
					if timer != nil {
						timer.Stop()
					}
					timer = time.AfterFunc(timeout, func() { killed = true; c.Process.Kill() })
				}
				reset()
				for {
					l, err := out.ReadBytes('\n')
					if err != nil {
						timer.Stop()
						cmd.Wait()
						why := "died: " + cmd.ProcessState.String() + ": " + tail(errb.String(), 600)
						if killed {
							why = "hang: no answer within " + timeout.String()
						}
						if op == nil || cmd.ProcessState.ExitCode() == 98 {
							// died outside of an operation: not the code under test
							fmt.Fprintln(os.Stderr, "worker failed:", why)
							os.Exit(3)
						}
						evs = append(evs, J{"op": op, "obs": J{"crash": why}})
						cmd = nil
						break
					}
					reset()
					var x J
					dec := json.NewDecoder(bytes.NewReader(l[2:]))
					dec.UseNumber()
					must(dec.Decode(&x))
					done := false
					switch l[0] {
					case 'I':
						tr["init"] = x
					case 'O':
						op = x
					case 'R':
						evs = append(evs, J{"op": op, "obs": x})
						op = nil
					case 'E':
						done = true
					}
					if done {
						timer.Stop()
						break
					}
				}
				tr["ev"] = evs
				res[i] = tr
			}
		}()
	}
	for i := range jobs {
		idx <- i
	}
	close(idx)
	wg.Wait()
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func readJobs(path string) []J {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<20)
	var jobs []J
	for {
		l, err := r.ReadBytes('\n')
		if len(bytes.TrimSpace(l)) > 0 {
			var j J
			must(json.Unmarshal(l, &j))
			jobs = append(jobs, j)
		}
		if err != nil {
			return jobs
		}
	}
}

func writeTraces(path string, tr []J) {
	f, err := os.Create(path)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	for _, t := range tr {
		w.Write(jsonBytes(t))
		w.WriteByte('\n')
	}
	must(w.Flush())
	must(f.Close())
}
