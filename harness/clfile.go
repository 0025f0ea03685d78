package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Files between the real client and its contacts (C19).

func init() { commands["clfile"] = cmdClFile }

type clName struct {
	N string `json:"n"`
	C string `json:"c"`
}

type clFObs struct {
	Up      bool                `json:"up"`
	On      bool                `json:"on"`
	Area    []clName            `json:"area"`    // what is in the download area
	Outside []string            `json:"outside"` // what changed elsewhere
	Ann     int                 `json:"ann"`     // files the user was told of
	Gave    map[string][]string `json:"gave"`    // contact -> files of the user that it has
	Bad     int                 `json:"bad"`
}

// clPart is a message of a transfer, as the contact sends it.
type clPart struct {
	P    string `json:"p"`
	Key  string `json:"key"`
	C    string `json:"c"`
	New  bool   `json:"new"`
	Good bool   `json:"good"`
	I    int    `json:"i"` // number of the part, of parts when announced
	Name string `json:"name"`
	Sure bool   `json:"sure"` // no reason not to accept it
}

type clFRun struct {
	*clRun
	conts map[string]string // content -> label
	files int
	gives int
	gave  map[string][]string
	open  map[string]*clIncoming
	bads  int
	base  map[string]string

	pending []func() []byte // makes the messages of a transfer
	want    []string        // what is to arrive in this session
	late    []func()
	last    [2]int
}

type clIncoming struct {
	cn   rpc.ChunkNew
	data []byte
}

func cmdClFile() {
	names := strings.Split(argv[1], ",")
	base, err := os.MkdirTemp("", "zkcf-")
	must(err)
	defer os.RemoveAll(base)
	for n, ops := range beh {
		clFBehave(base, n, names, ops)
	}
}

func clFBehave(base string, n int, names []string, ops []Op) {
	r := &clFRun{clRun: newClRun(base, n, names), conts: map[string]string{"": "e"}, gave: map[string][]string{}, open: map[string]*clIncoming{}}
	w := r.w
	defer os.RemoveAll(w.root)
	defer w.close()
	r.file = r.arrived
	must(os.MkdirAll(filepath.Join(w.home, "spool"), 0700))
	r.conts["what the user has"] = "k"
	for _, f := range []string{filepath.Join(w.home, "spool", "mine.txt"), filepath.Join(w.root, "canary"), filepath.Join(w.home, "canary")} {
		must(os.WriteFile(f, []byte("what the user has"), 0600))
	}
	must(os.MkdirAll(filepath.Join(w.root, "out"), 0700))
	if !w.start() || !w.settle() {
		panic(svDown("client does not come up: " + w.tail()))
	}
	r.base = r.tree()
	rec.Ev(M{"op": "reset", "obs": r.fobs()})
	for _, o := range ops {
		e := M{"op": o.Op, "p": o.P, "q": o.Q, "n": o.N, "i": o.I, "kind": o.Kind, "k": o.K, "j": o.J, "d": o.D, "parts": []clPart{}, "given": []string{}}
		ok := r.fstep(o, e)
		if ok && w.alive() {
			ok = r.waitFiles()
		}
		e["ok"], e["obs"] = ok, r.fobs()
		rec.Ev(e)
		if !ok {
			fmt.Fprintln(os.Stderr, "stuck at", o, w.tail())
			return
		}
	}
}

func clContent(n, size int) string {
	b := make([]byte, size)
	rand.New(rand.NewSource(int64(n))).Read(b)
	return string(b)
}

var clSizes = []int{0, 1, 2, 99, 100, 101, 400, 1000, 1001, 5000, 40000}

// transfer makes the parts of one file.
func (r *clFRun) transfer(p string, rnd *rand.Rand, kind string) (parts []clPart) {
	w := r.w
	r.files++
	n := r.files
	size := clSizes[rnd.Intn(len(clSizes))]
	switch x := rnd.Intn(6); {
	case x == 0 && n > 1: // what somebody has sent already
		n = 1 + rnd.Intn(n-1)
		size = 100
	case x == 1 && n > 1 && (kind == "" || r.last[1] > 98): // what somebody else is about to send
		n, size = r.last[0], r.last[1]
	case kind != "" && size < 99:
		size = 400
	}
	r.last = [2]int{n, size}
	cont := clContent(n, size)
	lab, ok := r.conts[cont]
	if !ok {
		lab = fmt.Sprintf("f%d.%d", n, size)
		r.conts[cont] = lab
	}
	cs := []int{1, 50, 100, 1000, 262144}[rnd.Intn(5)]
	for cs < size && (size+cs-1)/cs > 9 || cs == 0 {
		cs *= 10
	}
	for kind != "" && cs > (size+2)/3 {
		cs = (size + 2) / 3
	}
	var chunks []string
	for i := 0; i < size; i += cs {
		j := i + cs
		if j > size {
			j = size
		}
		chunks = append(chunks, cont[i:j])
	}
	name, sure := fmt.Sprintf("file%d.dat", r.files), true
	hexOf := func(q string) string { return hex.EncodeToString(clID(q).Public.Identity[:]) }
	switch rnd.Intn(3) {
	case 0:
		plain := []string{"file1.dat", "file2.dat", "with space", ".hidden", "-rf", "a'b\"c", "1file1.dat", "x.descriptor.xdr", "descriptor.xdr"}
		name = plain[rnd.Intn(len(plain))]
	case 1:
		evil := []string{"../canary", "../../canary", "../../new%d", "../new%d", w.root + "/new%d", w.root + "/canary", "..", ".", "", "/", "a/b%d", "../history",
			"../inbound/" + hexOf(p) + "/publicidentity.xdr", "../inbound/" + hexOf(p) + "/ratchet.xdr", "../inbound/" + hexOf("q") + "/publicidentity.xdr", hexOf(p), hexOf("p"), hexOf("q"), hexOf("r"), hexOf("s"),
			hexOf(p) + "/x", "../myserver.ini", "mine.txt", "./mine.txt", "x/../mine.txt", "nul\x00l", strings.Repeat("long", 80), "..\\new%d", "../spool/mine.txt", "../spool/new%d", "../logs/new%d", "new\nline", "..//..//new%d", "%s%n"}
		name, sure = evil[rnd.Intn(len(evil))], false
		if strings.Contains(name, "%d") {
			name = fmt.Sprintf(name, r.files)
		}
	}
	digest := sha256.Sum256([]byte(cont))
	announced, good := size, true
	switch kind {
	case "size":
		announced, good = size+1+rnd.Intn(10), false
	case "short":
		announced, good = len(chunks[0]), false
	case "digest":
		rnd.Read(digest[:])
		good = false
	}
	key := p + "/" + hex.EncodeToString(digest[:8])
	peer := w.peers[p]
	add := func(q clPart, cmd string, pl interface{}) {
		q.P, q.Key, q.C, q.Name, q.Sure = p, key, lab, name, sure
		parts = append(parts, q)
		r.pending = append(r.pending, func() []byte { return peer.crpc(cmd, pl, rnd.Intn(2) == 0) })
	}
	announce := func() {
		add(clPart{New: true, Good: good, I: len(chunks)}, rpc.CRPCCmdChunkNew, rpc.ChunkNew{Size: uint64(announced), ChunkSize: uint64(cs), Filename: name, Description: "for you", MIME: "text/plain", Digest: digest})
	}
	part := func(i int, data string, off uint64, ok bool) {
		add(clPart{I: i + 1, Good: ok}, rpc.CRPCCmdChunk, rpc.Chunk{Offset: off, Digest: digest, Payload: []byte(data)})
	}
	if kind != "nonew" {
		announce()
	}
	at := 0
	if len(chunks) > 0 {
		at = rnd.Intn(len(chunks))
	}
	for i, c := range chunks {
		off := uint64(i * cs)
		if i == at {
			switch kind {
			case "skip":
				continue
			case "dup":
				part(i, c, off, true)
			case "alter":
				b := []byte(c)
				b[rnd.Intn(len(b))] ^= 1
				part(i, string(b), off, false)
				continue
			case "long":
				part(i, c+"more", off, false)
				continue
			case "offset":
				part(i, c, []uint64{off + 1, 1 << 63, 1<<64 - 1, 1 << 40}[rnd.Intn(4)], false)
			case "empty":
				part(i, "", off, false)
			case "again": // announced once more, not sent once more
				announce()
			case "restart":
				announce()
				for j := 0; j < i; j++ {
					part(j, chunks[j], uint64(j*cs), true)
				}
			case "stop":
				return
			}
		}
		part(i, c, off, true)
		if i == at && kind == "back" && i > 0 {
			part(0, chunks[0], 0, true)
		}
	}
	if kind == "over" {
		part(len(chunks), "more", uint64(size), false)
	}
	return
}

func (r *clFRun) fstep(o Op, e M) bool {
	w := r.w
	switch o.Op {
	case "files":
		rnd := rand.New(rand.NewSource(int64(o.D)))
		var lanes [][]clPart
		var mk [][]func() []byte
		for t := 0; t < o.N; t++ {
			p, kind := o.P, o.Kind
			if t%2 == 1 {
				p = o.Q
			}
			if t > 0 {
				kind = ""
			}
			r.pending = nil
			ps := r.transfer(p, rnd, kind)
			lanes, mk = append(lanes, ps), append(mk, r.pending)
		}
		var parts []clPart
		seen := map[string]int{}
		for t := range lanes { // the same file from the same contact is not sent twice at a time
			for _, q := range lanes[t] {
				if s, ok := seen[q.Key]; ok && s != t {
					lanes[t] = nil
					break
				}
				seen[q.Key] = t
			}
		}
		w.mu.Lock()
		for {
			var can []int
			for t := range lanes {
				if len(lanes[t]) > 0 {
					can = append(can, t)
				}
			}
			if len(can) == 0 {
				break
			}
			t := can[rnd.Intn(len(can))]
			q := lanes[t][0]
			parts = append(parts, q)
			w.store = append(w.store, &clMsg{from: w.peers[q.P].id.Public.Identity, payload: mk[t][0](), tag: -1, acked: make(chan struct{})})
			lanes[t], mk[t] = lanes[t][1:], mk[t][1:]
		}
		for i := range parts {
			parts[i].Name = fmt.Sprintf("%.200q", parts[i].Name)
		}
		e["parts"] = parts
		cut := o.K == "cut"
		if o.K != "" && !cut { // the process dies of it
			w.mu.Unlock()
			op := o
			op.Op, op.N, op.I = "crash", 0, 0
			if o.K == "time" {
				op.Op = "rkill"
			}
			go func() {
				time.Sleep(40 * time.Millisecond)
				w.mu.Lock()
				w.pushLocked()
				w.mu.Unlock()
			}()
			if op.Op == "rkill" {
				op.J += 400
			}
			return r.step(op)
		}
		w.pushLocked()
		w.mu.Unlock()
		if cut {
			time.Sleep(time.Duration(o.J) * time.Millisecond)
			r.late = nil
			return r.step(Op{Op: "cut"})
		}
		return w.settle()
	case "give":
		var given []string
		for i := 0; i < o.N; i++ {
			r.gives++
			k := fmt.Sprintf("u%d", r.gives)
			sizes := []int{1, 2, 100, int(clChunk) - 1, int(clChunk), int(clChunk) + 1, 2*int(clChunk) + 7, 5000}
			f := filepath.Join(w.root, "out", k+" file.bin")
			must(os.WriteFile(f, []byte(clContent(-r.gives, sizes[(o.D+i*3)%len(sizes)])), 0600))
			f2 := filepath.Join(w.root, "out", k)
			must(os.Rename(f, f2))
			r.base["out/"+k] = r.tree()["out/"+k]
			given = append(given, k)
			w.typ("/send " + o.P + " " + f2 + []string{"", " a description"}[i%2])
		}
		e["given"] = given
		w.mu.Lock()
		on := w.kx != nil
		w.mu.Unlock()
		if on {
			for _, k := range given {
				r.want = append(r.want, o.P+k)
			}
		} else {
			r.late = append(r.late, func() {
				for _, k := range given {
					r.want = append(r.want, o.P+k)
				}
			})
		}
		return w.settle()
	case "kill":
		r.want, r.late = nil, nil
	case "online", "start":
		if o.Op == "online" {
			for _, f := range r.late {
				f()
			}
		}
		r.late = nil
	}
	return r.step(o)
}

// waitFiles waits for what the user sends.
func (r *clFRun) waitFiles() bool {
	w := r.w
	w.mu.Lock()
	on := w.kx != nil && !w.deaf && !w.holdA
	w.mu.Unlock()
	if !on {
		return true
	}
	return w.until(func() bool {
		r.arrivals()
		for _, k := range r.want {
			ok := false
			for _, g := range r.gave[k[:1]] {
				ok = ok || g == k[1:]
			}
			if !ok {
				return w.kx == nil
			}
		}
		return true
	})
}

// arrived puts together what the user sends to a contact; the lock is held.
func (r *clFRun) arrived(g clGot) bool {
	bad := func(s string) {
		r.bads++
		fmt.Fprintln(os.Stderr, "file for", g.to.name, s)
	}
	done := func(i *clIncoming, key string) {
		delete(r.open, key)
		k := i.cn.Filename
		n := 0
		fmt.Sscanf(k, "u%d", &n)
		if string(i.data) != clContent(-n, len(i.data)) || sha256.Sum256(i.data) != i.cn.Digest {
			bad("is damaged: " + k)
			return
		}
		r.gave[g.to.name] = append(r.gave[g.to.name], k)
	}
	switch g.cmd {
	case rpc.CRPCCmdChunkNew:
		var cn rpc.ChunkNew
		if _, err := xdr.Unmarshal(bytes.NewReader(g.payload), &cn); err != nil {
			bad("garbage")
			return true
		}
		key := fmt.Sprintf("%v/%x", g.to.name, cn.Digest)
		if r.open[key] != nil {
			bad("announced twice: " + cn.Filename)
		}
		r.open[key] = &clIncoming{cn: cn}
		if cn.Size == 0 {
			done(r.open[key], key)
		}
		return true
	case rpc.CRPCCmdChunk:
		var c rpc.Chunk
		if _, err := xdr.Unmarshal(bytes.NewReader(g.payload), &c); err != nil {
			bad("garbage")
			return true
		}
		key := fmt.Sprintf("%v/%x", g.to.name, c.Digest)
		i := r.open[key]
		if i == nil || uint64(len(i.data)) != c.Offset {
			bad(fmt.Sprintf("a part that does not fit: %v %v", c.Offset, i != nil))
			return true
		}
		i.data = append(i.data, c.Payload...)
		if uint64(len(i.data)) >= i.cn.Size {
			done(i, key)
		}
		return true
	}
	return false
}

// tree is what there is besides the download area and what the client writes all the time.
func (r *clFRun) tree() map[string]string {
	out := map[string]string{}
	filepath.WalkDir(r.w.root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(r.w.root, p)
		switch {
		case rel == "zk/spool":
			return fs.SkipDir
		case rel == "console.log" || rel == "stderr" || rel == "strace.log" || rel == "zk/history" || strings.HasSuffix(rel, ".log") && strings.HasPrefix(rel, "zk/logs/") || strings.HasPrefix(filepath.Base(rel), "ratchet.xdr") && strings.HasPrefix(rel, "zk/inbound/"):
			return nil
		case d.IsDir():
			out[rel] = "dir"
		default:
			b, _ := os.ReadFile(p)
			out[rel] = fmt.Sprintf("%x", sha256.Sum256(b))
		}
		return nil
	})
	return out
}

func (r *clFRun) fobs() clFObs {
	w := r.w
	o := clFObs{Up: w.alive(), Area: []clName{}, Outside: []string{}, Gave: map[string][]string{}}
	w.mu.Lock()
	o.On = w.kx != nil
	r.arrivals()
	o.Bad = r.bad + r.bads
	for _, p := range r.names {
		o.Gave[p] = append([]string{}, r.gave[p]...)
	}
	w.mu.Unlock()
	es, _ := os.ReadDir(filepath.Join(w.home, "spool"))
	for _, e := range es {
		if e.IsDir() {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(w.home, "spool", e.Name()))
		c, ok := r.conts[string(b)]
		if !ok {
			c = "?"
		}
		o.Area = append(o.Area, clName{fmt.Sprintf("%.200q", e.Name()), c})
	}
	t := r.tree()
	for k, v := range t {
		if r.base[k] != v {
			o.Outside = append(o.Outside, fmt.Sprintf("%.200q", k))
		}
	}
	for k := range r.base {
		if _, ok := t[k]; !ok {
			o.Outside = append(o.Outside, fmt.Sprintf("%.200q gone", k))
		}
	}
	o.Ann = strings.Count(w.console(), "File transfer complete from:")
	return o
}
