package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native is the harness compiled with the ordinary toolchain, used to replay
// concrete assignments against the real code.
type Native struct {
	dir   string
	bin   string
	ready chan struct{}
	err   error
	n     int
	mu    sync.Mutex
	sem   chan struct{}
	runs  int
}

func buildNative(p *Program, pkgs []string, race bool) *Native {
	n := &Native{ready: make(chan struct{}), sem: make(chan struct{}, 6)}
	fns := map[string][]string{}
	for _, k := range pkgs {
		fns[k] = p.harnessFuncs(k)
	}
	go func() {
		defer close(n.ready)
		d, err := os.MkdirTemp("", "vsym")
		if err != nil {
			n.err = err
			return
		}
		n.dir = d
		extra, err := faultOverlay(d)
		if err != nil {
			n.err = err
			return
		}
		of, err := writeOverlay(d, pkgs, fns, extra)
		if err != nil {
			n.err = err
			return
		}
		n.bin = filepath.Join(d, "runner")
		args := []string{"build", "-overlay", of, "-o", n.bin}
		if race {
			args = append(args, "-race")
		}
		c := exec.Command(goBin+"/go", append(args, "github.com/libregraph/idm/zzverif/runner")...)
		c.Dir = repoDir
		c.Env = goEnv()
		out, err := c.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

func (n *Native) close() {
	<-n.ready
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

type NativeResult struct {
	Code int
	Out  string
	Obs  []string
	What string // ok, assert, panic, hang, assume, error
}

func (n *Native) run(entry string, values map[string]uint64, params map[string]int) (NativeResult, error) {
	<-n.ready
	if n.err != nil {
		return NativeResult{}, n.err
	}
	n.sem <- struct{}{}
	defer func() { <-n.sem }()
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.dir, fmt.Sprintf("r%d.json", n.n))
	n.runs++
	n.mu.Unlock()
	b, _ := json.Marshal(map[string]any{"entry": entry, "values": values, "params": params})
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return NativeResult{}, err
	}
	defer os.Remove(f)
	return n.runFile(f)
}

func (n *Native) runFile(f string) (NativeResult, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, n.bin, f)
	scratch, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return NativeResult{}, err
	}
	defer os.RemoveAll(scratch)
	c.Dir = scratch
	c.Env = append(os.Environ(), "TMPDIR="+scratch, "GOMEMLIMIT=2GiB")
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err = c.Run()
	r := NativeResult{Out: out.String()}
	if len(r.Out) > 20000 {
		r.Out = r.Out[:20000]
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if o, ok := strings.CutPrefix(l, "OBS "); ok {
			r.Obs = append(r.Obs, o)
		}
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.Code = ee.ExitCode()
	} else if err != nil {
		return r, err
	}
	switch r.Code {
	case 0:
		r.What = "ok"
	case 3:
		r.What = "assert"
	case 4:
		r.What = "assume"
	case 5:
		r.What = "hang"
	case 2:
		r.What = "panic"
	case 66:
		r.What = "race"
	default:
		r.What = "error"
		if ctx.Err() != nil {
			r.What = "hang"
		}
	}
	return r, nil
}

// faultOverlay returns extra overlay files for the native build.
func faultOverlay(dir string) (map[string]string, error) { return nil, nil }
