package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Fault injection into a child process of this driver with strace: the child
// performs an operation on its main thread between two markers (stat of a
// non-existing path), and every system call of that thread on files in
// between is a point at which it can be killed or made to fail.

const (
	markBegin = "/nonexistent-verif-mark-begin"
	markEnd   = "/nonexistent-verif-mark-end"
)

type faultPoint struct {
	name string
	when int
	kill bool
	errn string
}

func (f faultPoint) String() string {
	if f.kill {
		return fmt.Sprintf("%v#%v:KILL", f.name, f.when)
	}
	return fmt.Sprintf("%v#%v:%v", f.name, f.when, f.errn)
}

var straceLine = regexp.MustCompile(`^(\d+)\s+(?:\d+\.\d+ )?([a-z0-9_]+)\(`)

const faultCalls = "openat,open,creat,write,pwrite64,writev,close,fsync,fdatasync,rename,renameat,renameat2,link,linkat,unlink,unlinkat,mkdir,mkdirat,ftruncate,truncate,newfstatat,fstat,read,pread64,getdents64,lseek,fchmod,fchmodat,symlinkat,copy_file_range,sendfile,splice,ioctl,statx"

// mutating calls are where a kill leaves different states behind
var mutating = map[string]bool{"openat": true, "open": true, "creat": true, "write": true, "pwrite64": true, "writev": true,
	"rename": true, "renameat": true, "renameat2": true, "link": true, "linkat": true, "unlink": true, "unlinkat": true,
	"mkdir": true, "mkdirat": true, "ftruncate": true, "truncate": true, "close": true, "fsync": true, "fdatasync": true,
	"copy_file_range": true, "sendfile": true, "symlinkat": true}

func runStrace(args []string, inject string, log string) (int, error) {
	a := []string{"-f", "-qq", "-o", log, "-e", "trace=" + faultCalls}
	if inject != "" {
		a = append(a, "-e", "inject="+inject)
	}
	a = append(a, os.Args[0])
	a = append(a, args...)
	cmd := exec.Command("strace", a...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return -1, err
	}
	t := time.AfterFunc(60*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	t.Stop()
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			return 128 + int(ws.Signal()), nil
		}
		return ws.ExitStatus(), nil
	}
	if err != nil {
		return -1, fmt.Errorf("%v %v", err, eb.String())
	}
	return 0, nil
}

// faultPoints runs the child without faults and returns the points in order.
func faultPoints(args []string, log string) ([]faultPoint, error) {
	rc, err := runStrace(args, "", log)
	if err != nil || rc != 0 {
		return nil, fmt.Errorf("fault-free run: rc %v %v", rc, err)
	}
	b, err := os.ReadFile(log)
	if err != nil {
		return nil, err
	}
	count := map[string]int{}
	main := ""
	in := false
	var out []faultPoint
	for _, line := range strings.Split(string(b), "\n") {
		m := straceLine.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		if main == "" {
			main = m[1]
		}
		if m[1] != main {
			continue
		}
		count[m[2]]++
		if strings.Contains(line, markBegin) {
			in = true
			continue
		}
		if strings.Contains(line, markEnd) {
			in = false
			continue
		}
		if in {
			out = append(out, faultPoint{name: m[2], when: count[m[2]]})
		}
	}
	return out, nil
}

// withFault runs the child with the fault and reports whether it struck.
func withFault(args []string, f faultPoint, log string) (rc int, struck bool) {
	inj := fmt.Sprintf("%v:error=%v:when=%v", f.name, f.errn, f.when)
	if f.kill {
		inj = fmt.Sprintf("%v:signal=KILL:when=%v", f.name, f.when)
	}
	rc, err := runStrace(args, inj, log)
	if err != nil {
		return rc, false
	}
	b, _ := os.ReadFile(log)
	s := string(b)
	i := strings.Index(s, markBegin)
	if i < 0 {
		return rc, false // struck before the operation began
	}
	if f.kill {
		return rc, strings.Contains(s[i:], "killed by SIGKILL")
	}
	return rc, strings.Contains(s[i:], "(INJECTED)")
}

func copyDir(src, dst string) {
	must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		d := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(d, 0700)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(d, b, 0600)
	}))
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func runChild(args []string) (int, error) {
	cmd := exec.Command(os.Args[0], args...)
	err := cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			return 128 + int(ws.Signal()), nil
		}
		return ws.ExitStatus(), nil
	}
	return 0, err
}
