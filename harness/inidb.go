package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/companyzero/zkc/inidb"
)

func init() {
	commands["inidb"] = cmdInidb
	commands["inichild"] = cmdIniChild
	commands["inifault"] = cmdIniFault
}

var iniDepths = []int{0, 1, 2, 10}

func iniDump(db *inidb.INIDB) (tabs []string, recs [][3]string) {
	tabs = append([]string{}, db.Tables()...)
	recs = [][3]string{}
	sort.Strings(tabs)
	for _, t := range tabs {
		for k, v := range db.Records(t) {
			recs = append(recs, [3]string{t, k, v})
		}
	}
	sort.Slice(recs, func(i, j int) bool { return fmt.Sprint(recs[i]) < fmt.Sprint(recs[j]) })
	return
}

func iniRes(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, inidb.ErrNotFound):
		return "notfound"
	}
	return "error: " + err.Error()
}

// iniOp applies one operation; e is the event to complete.
func iniOp(db *inidb.INIDB, o Op, e M) {
	switch o.Op {
	case "newtable":
		db.NewTable(o.T)
		e["res"] = "ok"
	case "deltable":
		e["res"] = iniRes(db.DelTable(o.T))
	case "set":
		e["res"] = iniRes(db.Set(o.T, o.K, o.V))
	case "del":
		e["res"] = iniRes(db.Del(o.T, o.K))
	case "get":
		v, err := db.Get(o.T, o.K)
		if err == nil {
			e["res"] = v
		} else {
			e["res"] = iniRes(err)
		}
	case "save":
		e["res"] = iniRes(db.Save())
	}
}

func otherFiles(dir, name string) (n int, main bool) {
	fi, _ := os.ReadDir(dir)
	for _, f := range fi {
		if f.Name() == name {
			main = true
		} else {
			n++
		}
	}
	return
}

// iniRun performs ops in dir, recording unless quiet; it returns the handle and
// the operations made since the last save or reopening.
func iniRun(dir string, depth int, ops []Op, quiet bool) (*inidb.INIDB, []Op) {
	fn := filepath.Join(dir, "test.ini")
	db, err := inidb.New(fn, true, depth)
	if !errors.Is(err, inidb.ErrCreated) {
		rec.Ev(M{"op": "setup-failed", "err": fmt.Sprint(err)})
		return nil, nil
	}
	var since []Op
	for _, o := range ops {
		e := M{"op": o.Op, "t": o.T, "k": o.K, "v": o.V}
		if o.Op == "savefault" {
			break
		}
		if o.Op == "reopen" {
			d, err := inidb.New(fn, rng.Intn(2) == 0, depth)
			e["res"] = iniRes(err)
			if err != nil {
				rec.Ev(e)
				return nil, nil
			}
			db = d
			since = nil
		} else {
			iniOp(db, o, e)
			if o.Op == "save" {
				since = nil
				e["backups"], e["main"] = otherFiles(dir, "test.ini")
			} else {
				since = append(since, o)
			}
		}
		e["tabs"], e["recs"] = iniDump(db)
		if !quiet {
			rec.Ev(e)
		}
	}
	return db, since
}

func cmdInidb() {
	for n, ops := range beh {
		depth := iniDepths[n%len(iniDepths)]
		if argv[0] == "fault" {
			depth = 2
		}
		dir, err := os.MkdirTemp("", "ini")
		must(err)
		rec.Ev(M{"op": "reset", "depth": depth})
		guard("inidb", func() { iniRun(dir, depth, ops, false) })
		os.RemoveAll(dir)
	}
}

// cmdIniChild: dir, limit on file sizes or -1, operations as JSON. Opens the
// database, applies the operations and saves between the markers.
func cmdIniChild() {
	runtime.LockOSThread()
	signal.Ignore(syscall.SIGXFSZ)
	fn := filepath.Join(argv[0], "test.ini")
	limit := atoi(argv[1])
	if argv[2] == "create" {
		os.Stat(markBegin)
		_, err := inidb.New(fn, true, 2)
		os.Stat(markEnd)
		if !errors.Is(err, inidb.ErrCreated) {
			os.Exit(3)
		}
		os.Exit(0)
	}
	db, err := inidb.New(fn, false, 2)
	must(err)
	var ops []Op
	must(json.Unmarshal([]byte(argv[2]), &ops))
	for _, o := range ops {
		iniOp(db, o, M{})
	}
	if limit >= 0 {
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}))
	}
	os.Stat(markBegin)
	err = db.Save()
	os.Stat(markEnd)
	if err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func iniFound(dir string, e M) {
	fn := filepath.Join(dir, "test.ini")
	_, serr := os.Stat(fn)
	e["missing"] = os.IsNotExist(serr)
	db, err := inidb.New(fn, false, 2)
	e["tabs"], e["recs"] = []string{}, [][3]string{}
	if err != nil {
		e["open"] = err.Error()
		return
	}
	e["tabs"], e["recs"] = iniDump(db)
}

// cmdIniFault: for each behaviour, the final save is interrupted or made to
// fail at every one of its system calls.
func cmdIniFault() {
	log := filepath.Join(os.TempDir(), "strace.log")
	max := atoi(argv[0])
	struckN, total := 0, 0
	for _, ops := range beh {
		base, err := os.MkdirTemp("", "inib")
		must(err)
		rec.Ev(M{"op": "reset", "depth": 2})
		create := len(ops) == 1
		var arg string
		op := "fault"
		if create {
			arg, op = "create", "fault0"
		} else {
			db, since := iniRun(base, 2, ops, false)
			if db == nil {
				continue
			}
			js, _ := json.Marshal(since)
			arg = string(js)
		}
		if arg == "null" || arg == "[]" {
			os.RemoveAll(base)
			continue // nothing to save
		}
		fresh := func() string {
			d, err := os.MkdirTemp("", "inif")
			must(err)
			copyDir(base, d)
			return d
		}
		d := fresh()
		pts, err := faultPoints([]string{"inichild", d, "-1", arg}, log)
		os.RemoveAll(d)
		if err != nil {
			rec.Ev(M{"op": "fault-free-save-failed", "err": err.Error()})
			continue
		}
		var all []faultPoint
		for _, p := range pts {
			if mutating[p.name] {
				p.kill = true
				all = append(all, p)
			}
			p.kill = false
			for _, en := range []string{"EIO", "ENOSPC"} {
				if p.name == "close" && en == "ENOSPC" || p.name == "ioctl" || strings.HasPrefix(p.name, "epoll") {
					continue
				}
				p.errn = en
				all = append(all, p)
			}
		}
		if len(all) > max {
			rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			all = all[:max]
		}
		for _, p := range all {
			total++
			d := fresh()
			rc, struck := withFault([]string{"inichild", d, "-1", arg}, p, log)
			if struck {
				struckN++
				e := M{"op": op, "point": p.String(), "ok": rc == 0, "rc": rc}
				iniFound(d, e)
				rec.Ev(e)
			}
			os.RemoveAll(d)
		}
		if !create {
			// the disk is full after so many bytes
			size := 0
			for _, o := range ops {
				size += len(o.K) + len(o.V) + 5
			}
			for i := 0; i < 8; i++ {
				d := fresh()
				limit := rng.Intn(size + 60)
				rc, _ := runChild([]string{"inichild", d, fmt.Sprint(limit), arg})
				e := M{"op": op, "point": fmt.Sprintf("limit %v", limit), "ok": rc == 0, "rc": rc}
				iniFound(d, e)
				rec.Ev(e)
				os.RemoveAll(d)
			}
		}
		os.RemoveAll(base)
	}
	fmt.Fprintf(os.Stderr, "faults struck: %v of %v\n", struckN, total)
	if total > 0 && struckN*2 < total {
		fmt.Fprintln(os.Stderr, "too few faults struck")
		os.Exit(9)
	}
}
