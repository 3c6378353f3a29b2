package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Case is one execution of yot: the files it finds, and how it is called. Everything lives below the
// directory of the case, which is the only place the process (an unprivileged user) can write to.
type Case struct {
	Files map[string]string `json:"files"`           // path relative to the case directory
	Links map[string]string `json:"links,omitempty"` // symbolic links
	Dirs  []string          `json:"dirs,omitempty"`
	Mode  map[string]uint32 `json:"mode,omitempty"`
	Args  []string          `json:"args"` // "@/" is replaced by the absolute path of the case directory
	Stdin string            `json:"stdin,omitempty"`
	Env   map[string]string `json:"env,omitempty"`
	Cwd   string            `json:"cwd,omitempty"`
	Wrap  []string          `json:"wrap,omitempty"` // command put in front of yot (strace)
	Slow  int               `json:"slow_stderr,omitempty"`
	Bin   string            `json:"bin,omitempty"` // "race", "jitter" or the plain build
}

// Result is what was observed.
type Result struct {
	Exit     int
	Signal   string
	Stdout   string
	Stderr   string
	Before   map[string]string
	After    map[string]string
	Modes    map[string]uint32 // permissions afterwards
	TimedOut bool
	CPU      time.Duration
	Dir      string
}

type Sandbox struct {
	modes  map[string]uint32
	Dir    string // case directory, a fixed path per worker
	Root   string
	Yot    string
	Race   string
	Jitter string
	UID    uint32
	IsRoot bool
}

const nobody = 65534

func (s *Sandbox) Reset() error {
	// make everything removable again
	filepath.Walk(s.Dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	if err := os.RemoveAll(s.Dir); err != nil {
		return err
	}
	return s.mkdir(s.Dir)
}

func (s *Sandbox) chown(p string) {
	if s.IsRoot {
		os.Lchown(p, nobody, nobody)
	}
}

func (s *Sandbox) mkdir(p string) error {
	if st, err := os.Stat(p); err == nil && st.IsDir() {
		return nil
	}
	if p != s.Dir {
		if err := s.mkdir(filepath.Dir(p)); err != nil {
			return err
		}
	}
	if err := os.Mkdir(p, 0o755); err != nil {
		return err
	}
	s.chown(p)
	return nil
}

func (s *Sandbox) Prepare(c *Case) error {
	if err := s.Reset(); err != nil {
		return err
	}
	return s.Write(c)
}

func (s *Sandbox) Write(c *Case) error {
	for _, d := range c.Dirs {
		if err := s.mkdir(filepath.Join(s.Dir, d)); err != nil {
			return err
		}
	}
	names := make([]string, 0, len(c.Files))
	for n := range c.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := filepath.Join(s.Dir, n)
		if err := s.mkdir(filepath.Dir(p)); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(strings.ReplaceAll(c.Files[n], "@/", s.Dir+"/")), 0o644); err != nil {
			return err
		}
		s.chown(p)
	}
	for n, t := range c.Links {
		p := filepath.Join(s.Dir, n)
		if err := s.mkdir(filepath.Dir(p)); err != nil {
			return err
		}
		if err := os.Symlink(strings.ReplaceAll(t, "@/", s.Dir+"/"), p); err != nil {
			return err
		}
		s.chown(p)
	}
	for n, m := range c.Mode {
		if err := os.Chmod(filepath.Join(s.Dir, n), os.FileMode(m)); err != nil {
			return err
		}
	}
	return nil
}

func (s *Sandbox) snapshot() map[string]string {
	m := map[string]string{}
	s.modes = map[string]uint32{}
	filepath.WalkDir(s.Dir, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(s.Dir, p)
		if rel == "." || rel == "" {
			return nil
		}
		if err == nil {
			if i, e := d.Info(); e == nil {
				s.modes[rel] = uint32(i.Mode().Perm())
			}
		}
		if err != nil {
			m[rel] = "<unreadable>"
			return nil
		}
		switch {
		case d.IsDir():
			m[rel+"/"] = "<dir>"
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "<link> " + t
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				m[rel] = "<unreadable>"
			} else {
				m[rel] = string(b)
			}
		default:
			m[rel] = "<special>"
		}
		return nil
	})
	return m
}

var runs, timeouts int64counter

// Run executes the case in a fresh directory.
func (s *Sandbox) Run(c *Case) (*Result, error) {
	if err := s.Prepare(c); err != nil {
		return nil, err
	}
	return s.RunAgain(c)
}

// RunAgain executes the case in the directory as it is.
func (s *Sandbox) RunAgain(c *Case) (*Result, error) {
	var last *Result
	for attempt := 0; attempt < 3; attempt++ {
		r, err := s.run(c, 60*time.Second)
		if err == nil || !strings.Contains(err.Error(), "resource temporarily unavailable") {
			if err != nil {
				return nil, err
			}
			if !r.TimedOut {
				return r, nil
			}
			last = r
			timeouts.add(1)
			// a watchdog on a loaded machine proves nothing: try again in a fresh directory
			if attempt < 2 {
				if err := s.Prepare(c); err != nil {
					return nil, err
				}
			}
			continue
		}
		time.Sleep(200 * time.Millisecond)
		last = nil
	}
	if last == nil {
		return nil, errors.New("could not start yot")
	}
	return last, nil
}

func (s *Sandbox) run(c *Case, limit time.Duration) (*Result, error) {
	runs.add(1)
	r := &Result{Before: s.snapshot(), Dir: s.Dir}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	bin := s.Yot
	switch {
	case c.Bin == "race" && s.Race != "":
		bin = s.Race
	case c.Bin == "jitter" && s.Jitter != "":
		bin = s.Jitter
	}
	argv := append(append([]string{}, c.Wrap...), bin)
	for _, a := range c.Args {
		argv = append(argv, strings.ReplaceAll(a, "@/", s.Dir+"/"))
	}
	for i := range argv {
		argv[i] = strings.ReplaceAll(argv[i], "@ROOT/", s.Root+"/")
	}
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = filepath.Join(s.Dir, c.Cwd)
	env := map[string]string{"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": s.Dir, "LANG": "C.UTF-8", "GOTRACEBACK": "all"}
	for k, v := range c.Env {
		env[k] = strings.ReplaceAll(v, "@/", s.Dir+"/")
	}
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	sort.Strings(cmd.Env)
	cmd.Stdin = strings.NewReader(strings.ReplaceAll(c.Stdin, "@/", s.Dir+"/"))
	var so bytes.Buffer
	se := &slowWriter{delay: c.Slow}
	cmd.Stdout = &so
	cmd.Stderr = se
	cmd.WaitDelay = 5 * time.Second
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if s.IsRoot {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	err := cmd.Run()
	r.TimedOut = ctx.Err() != nil
	r.Stdout, r.Stderr = so.String(), se.buf.String()
	if cmd.ProcessState != nil {
		r.CPU = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
			if ws.Signaled() {
				r.Signal = ws.Signal().String()
			}
			r.Exit = ws.ExitStatus()
		}
	} else if err != nil {
		return nil, err
	}
	r.After = s.snapshot()
	r.Modes = s.modes
	return r, nil
}

// slowWriter delays the reader of stderr after some of the writes, which stalls yot's workers at their log
// statements and so drives different interleavings.
type slowWriter struct {
	buf   bytes.Buffer
	delay int
	n     int
}

func (w *slowWriter) Write(p []byte) (int, error) {
	w.n++
	if w.delay > 0 && w.n%w.delay == 0 {
		time.Sleep(300 * time.Microsecond)
	}
	if w.buf.Len() < 4<<20 {
		w.buf.Write(p)
	}
	return len(p), nil
}

// Crash describes a crash of yot, or is empty.
func (r *Result) Crash() string {
	switch {
	case r.TimedOut:
		return fmt.Sprintf("yot does not end (killed by the watchdog three times, %s CPU time used)", r.CPU)
	case r.Signal != "":
		return "killed by signal " + r.Signal
	case r.Exit != 0 && r.Exit != 1:
		return fmt.Sprintf("exit status %d: %s", r.Exit, firstLines(crashPart(r.Stderr), 12))
	}
	for _, m := range []string{"\ngoroutine ", "panic: ", "fatal error: "} {
		if i := strings.Index(r.Stderr, m); i >= 0 && strings.Contains(r.Stderr, "goroutine ") && strings.Contains(r.Stderr, ".go:") {
			return "panic: " + firstLines(crashPart(r.Stderr), 12)
		}
	}
	return ""
}

func crashPart(s string) string {
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, m); i >= 0 {
			return s[i:]
		}
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Changed lists what the run created, changed or removed.
func (r *Result) Changed() (created, changed, removed []string) {
	for n, v := range r.After {
		if b, ok := r.Before[n]; !ok {
			created = append(created, n)
		} else if b != v {
			changed = append(changed, n)
		}
	}
	for n := range r.Before {
		if _, ok := r.After[n]; !ok {
			removed = append(removed, n)
		}
	}
	sort.Strings(created)
	sort.Strings(changed)
	sort.Strings(removed)
	return
}

func (c *Case) JSON() string {
	b, _ := json.MarshalIndent(c, "", "  ")
	return string(b)
}

func (c *Case) Clone() *Case {
	d := *c
	d.Files = map[string]string{}
	for k, v := range c.Files {
		d.Files[k] = v
	}
	d.Env = map[string]string{}
	for k, v := range c.Env {
		d.Env[k] = v
	}
	d.Args = append([]string{}, c.Args...)
	return &d
}

// rewrite changes a file of the case.
func (s *Sandbox) rewrite(n, text string) error {
	p := filepath.Join(s.Dir, n)
	if err := os.WriteFile(p, []byte(strings.ReplaceAll(text, "@/", s.Dir+"/")), 0o644); err != nil {
		return err
	}
	s.chown(p)
	return nil
}
