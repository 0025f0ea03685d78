// zkh drives the real packages of companyzero/zkc through behaviours of the
// TLA+ models and records what happened, one JSON event per line.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
)

type M = map[string]interface{}

type Recorder struct {
	sync.Mutex
	w *bufio.Writer
	f *os.File
	n int
}

func (r *Recorder) Ev(e M) {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	r.Lock()
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.n++
	if e["op"] == "reset" {
		r.w.Flush()
	}
	r.Unlock()
}

func (r *Recorder) Flush() {
	r.Lock()
	r.w.Flush()
	r.Unlock()
}

type Op struct {
	Op   string `json:"op"`
	P    string `json:"p"`
	Q    string `json:"q"`
	N    int    `json:"n"`
	I    int    `json:"i"`
	J    int    `json:"j"`
	D    int    `json:"d"`
	K    string `json:"k"`
	V    string `json:"v"`
	T    string `json:"t"`
	Kind string `json:"kind"`
	B    bool   `json:"b"`
}

var (
	seed int64
	rng  *rand.Rand
	rec  *Recorder
	beh  [][]Op
	argv []string
)

var commands = map[string]func(){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zkh command [-in f] [-out f]")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("zkh", flag.ExitOnError)
	in := fs.String("in", "", "behaviours, one JSON list of operations per line")
	out := fs.String("out", "", "recorded events")
	fs.Parse(os.Args[2:])
	argv = fs.Args()
	seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng = rand.New(rand.NewSource(seed + 7919))
	if *in != "" {
		f, err := os.Open(*in)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var ops []Op
			if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
				panic(err)
			}
			beh = append(beh, ops)
		}
	}
	rec = &Recorder{w: bufio.NewWriter(os.Stdout)}
	if *out != "" {
		f, err := os.Create(*out)
		if err != nil {
			panic(err)
		}
		rec.w = bufio.NewWriter(f)
		rec.f = f
	}
	cmd, ok := commands[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
	cmd()
	rec.Flush()
}

// guard runs f and reports a panic of the code under test as an event that no
// model explains.
func guard(what string, f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			rec.Ev(M{"op": "panic", "what": what, "msg": fmt.Sprint(r)})
			panicked = true
		}
	}()
	f()
	return false
}

func randBytes(n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}
