package main

// vharness run IN OUT [-j N]: runs every case of IN (ndjson) in child processes and writes one observation line per case.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"syscall"
	"time"
)

const caseTimeout = 20 * time.Second

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness run IN OUT [J] | child | ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "child":
		child(os.Args[2])
	case "run":
		j := 8
		if len(os.Args) > 4 {
			j, _ = strconv.Atoi(os.Args[4])
		}
		if err := run(os.Args[2], os.Args[3], j); err != nil {
			fmt.Fprintln(os.Stderr, "vharness:", err)
			os.Exit(3)
		}
	default:
		if !other(os.Args[1:]) {
			fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
			os.Exit(3)
		}
	}
}

type handler func(line []byte) interface{}

var handlers = map[string]handler{}

func init() {
	handlers["case"] = func(line []byte) interface{} {
		c := &Case{}
		if err := json.Unmarshal(line, c); err != nil {
			return []Obs{{St: "harness", Msg: err.Error()}}
		}
		return runCase(c)
	}
}

func kindOf(line []byte) string {
	var k struct {
		Kind string `json:"kind"`
	}
	_ = json.Unmarshal(line, &k)
	if k.Kind == "" {
		return "case"
	}
	return k.Kind
}

// child answers one line per line read; nothing else may be written to the answer pipe (fd 3).
func child(memMB string) {
	mb, _ := strconv.Atoi(memMB)
	if mb > 0 {
		lim := syscall.Rlimit{Cur: uint64(mb) << 20, Max: uint64(mb) << 20}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	out := os.NewFile(3, "answers")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			res := func() (r interface{}) {
				defer func() {
					if x := recover(); x != nil {
						r = []Obs{{St: "harness", Msg: fmt.Sprint(x)}}
					}
				}()
				return handlers[kindOf(line)](line)
			}()
			b, merr := json.Marshal(res)
			if merr != nil {
				b, _ = json.Marshal([]Obs{{St: "harness", Msg: merr.Error()}})
			}
			_, _ = out.Write(append(b, '\n'))
		}
		if err != nil {
			return
		}
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stdout *cappedBuf
	stderr *cappedBuf
	pipe   *os.File
}

type cappedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (c *cappedBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.b) < 1<<16 {
		c.b = append(c.b, p...)
	}
	return len(p), nil
}

func (c *cappedBuf) take() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := string(c.b)
	c.b = nil
	return s
}

func start() (*proc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: exec.Command(self, "child", os.Getenv("VH_MEM_MB")), stdout: &cappedBuf{}, stderr: &cappedBuf{}}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{w}
	p.cmd.Stdout = p.stdout
	p.cmd.Stderr = p.stderr
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err = p.cmd.Start(); err != nil {
		return nil, err
	}
	_ = w.Close()
	p.pipe = r
	p.out = bufio.NewReaderSize(r, 1<<20)
	return p, nil
}

func (p *proc) stop() {
	_ = p.in.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
	_ = p.pipe.Close()
}

// ask sends a case; a child that dies or does not answer makes the observation "crash" or "hang".
func (p *proc) ask(line []byte) (json.RawMessage, bool) {
	type ans struct {
		b   []byte
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := p.in.Write(append(append([]byte{}, line...), '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		b, err := p.out.ReadBytes('\n')
		ch <- ans{b, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			_ = p.cmd.Process.Kill()
			_ = p.cmd.Wait()
			msg := p.stderr.take()
			if len(msg) > 400 {
				msg = msg[:400]
			}
			b, _ := json.Marshal([]Obs{{St: "crash", Msg: unlatin(msg)}})
			return b, false
		}
		return json.RawMessage(a.b[:len(a.b)-1]), true
	case <-time.After(caseTimeout):
		b, _ := json.Marshal([]Obs{{St: "hang"}})
		return b, false
	}
}

func run(inPath, outPath string, j int) error {
	f, err := os.Open(inPath)
	if err != nil {
		return err
	}
	defer f.Close()
	var lines [][]byte
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		for len(line) > 0 && line[len(line)-1] == '\n' {
			line = line[:len(line)-1]
		}
		if len(line) > 0 {
			lines = append(lines, line)
		}
		if err != nil {
			break
		}
	}
	results := make([]json.RawMessage, len(lines))
	stdouts := make([]string, len(lines))
	next := make(chan int)
	var wg sync.WaitGroup
	var firstErr error
	var mu sync.Mutex
	for k := 0; k < j; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for i := range next {
				if p == nil {
					var err error
					if p, err = start(); err != nil {
						mu.Lock()
						firstErr = err
						mu.Unlock()
						continue
					}
				}
				res, alive := p.ask(lines[i])
				results[i] = res
				stdouts[i] = p.stdout.take()
				if !alive {
					p.stop()
					p = nil
				}
			}
			if p != nil {
				p.stop()
			}
		}()
	}
	for i := range lines {
		next <- i
	}
	close(next)
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	o, err := os.Create(outPath)
	if err != nil {
		return err
	}
	wr := bufio.NewWriter(o)
	for i, r := range results {
		b, err := json.Marshal(map[string]interface{}{"obs": r, "stdout": unlatin(stdouts[i])})
		if err != nil {
			return err
		}
		_, _ = wr.Write(append(b, '\n'))
	}
	if err = wr.Flush(); err != nil {
		return err
	}
	return o.Close()
}
