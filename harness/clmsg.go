package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Private messages between the real client and its contacts (C20, C21).

func init() { commands["clmsg"] = cmdClMsg }

type clObs struct {
	Up    bool             `json:"up"`
	On    bool             `json:"on"`
	Got   map[string][]int `json:"got"`   // contact -> the user's messages that arrived
	Shown map[string][]int `json:"shown"` // contact -> its messages that the user has seen
	Mine  map[string][]int `json:"mine"`  // contact -> the user's messages that were echoed
	Store map[string][]int `json:"store"` // contact -> its messages that were not acknowledged
	Bad   int              `json:"bad"`   // undecipherable, garbage, invalid acknowledgements
	Odd   int              `json:"odd"`   // lines nobody sent
}

type clRun struct {
	w      *clWorld
	names  []string
	nt, ns map[string]int
	mt, ms map[string]string // text -> is one of them
	held   map[*clMsg][2]interface{}
	olds   map[string][][]byte
	from   int // index into w.got
	got    map[string][]int
	bad    int
	seen   map[string]bool
	rnd    *rand.Rand
	told   map[string]bool
	file   func(clGot) bool
	sent   int // parts of files that are to arrive
}

func clText(kind, p string, n, d int) string {
	fill := []string{"", " hello", " 100%d %s %%", " a  b", " \"x\" 'y' <z> * T", " /m q no", " ünïcödé", " " + strings.Repeat("long ", 60) + "end"}
	return fmt.Sprintf("%v%v%v%v", kind, n, p, fill[d%len(fill)])
}

func cmdClMsg() {
	names := strings.Split(argv[1], ",")
	base, err := os.MkdirTemp("", "zkcm-")
	must(err)
	defer os.RemoveAll(base)
	for n, ops := range beh {
		clBehave(base, n, names, ops)
	}
}

func clBehave(base string, n int, names []string, ops []Op) {
	r := newClRun(base, n, names)
	defer os.RemoveAll(r.w.root)
	defer r.w.close()
	if !r.w.start() || !r.w.settle() {
		panic(svDown("client does not come up: " + r.w.tail()))
	}
	rec.Ev(M{"op": "reset", "obs": r.obs()})
	for _, o := range ops {
		nt := r.nt[o.P]
		ok := r.step(o)
		rec.Ev(M{"op": o.Op, "p": o.P, "q": o.Q, "n": o.N, "i": o.I, "kind": o.Kind, "k": o.K, "j": o.J, "d": o.D, "nt": r.nt[o.P] - nt, "names": names, "ok": ok, "obs": r.obs()})
		if !ok {
			fmt.Fprintln(os.Stderr, "stuck at", o, r.w.tail())
			return
		}
	}
}

func newClRun(base string, n int, names []string) *clRun {
	return &clRun{w: newClient(argv[0], base, n, names), names: names, nt: map[string]int{}, ns: map[string]int{}, mt: map[string]string{}, ms: map[string]string{},
		held: map[*clMsg][2]interface{}{}, olds: map[string][][]byte{}, got: map[string][]int{}, seen: map[string]bool{}, told: map[string]bool{}, rnd: rand.New(rand.NewSource(seed + int64(n)))}
}

func (r *clRun) typeMsg(p string, d int, kind string) {
	w := r.w
	r.nt[p]++
	t := clText("t", p, r.nt[p], d)
	if kind == "me" || kind == "win" {
		w.typ("/q " + p)
		w.echo()
		t = strings.Join(strings.Fields(t), " ")
	}
	switch kind {
	case "me":
		r.mt["* "+t] = p
		w.typ("/me " + t)
	case "win":
		r.mt["<> "+t] = p
		w.typ(t)
	default:
		r.mt["<> "+t] = p
		w.typ("/m " + p + " " + t)
	}
}

func (r *clRun) tellMsg(p string, d int, kind string) {
	w := r.w
	r.ns[p]++
	t := clText("s", p, r.ns[p], d)
	pm := rpc.PrivateMessage{Text: t}
	r.ms["<> "+t] = p
	if kind == "me" {
		pm.Mode = rpc.MessageModeMe
		delete(r.ms, "<> "+t)
		r.ms["* "+t] = p
	}
	pl := w.peers[p].crpc(rpc.CRPCCmdPrivateMessage, pm, d%2 == 0)
	r.olds[p] = append(r.olds[p], pl)
	w.mu.Lock()
	m := &clMsg{from: w.peers[p].id.Public.Identity, payload: pl, tag: -1, acked: make(chan struct{})}
	r.held[m] = [2]interface{}{p, r.ns[p]}
	w.store = append(w.store, m)
	w.pushLocked()
	w.mu.Unlock()
}

func (r *clRun) both(o Op) {
	for i := 0; i < o.N || i < o.I; i++ {
		if i < o.I {
			q := o.Q
			if o.Kind == "mix" {
				q = r.names[i%len(r.names)]
			}
			r.tellMsg(q, o.D+i, "")
		}
		if i < o.N && r.w.alive() {
			r.typeMsg(o.P, o.D+3*i, "")
		}
	}
}

// step performs one operation; false if the client does not do what it must.
func (r *clRun) step(o Op) bool {
	w := r.w
	switch o.Op {
	case "type":
		for i := 0; i < o.N; i++ {
			r.typeMsg(o.P, o.D+i, o.Kind)
		}
		return w.settle()
	case "tell":
		for i := 0; i < o.N; i++ {
			r.tellMsg(o.P, o.D+i, o.Kind)
		}
		return w.settle()
	case "both":
		r.both(o)
		return w.settle()
	case "race": // the session is lost amid messages
		n := w.closings()
		go func() {
			time.Sleep(time.Duration(o.J) * 100 * time.Microsecond)
			w.mu.Lock()
			w.drop()
			w.refuse = true
			w.mu.Unlock()
		}()
		r.both(o)
		return w.until(func() bool { return w.closings() > n }) && w.settle()
	case "unseen": // the client's acknowledgements do not arrive
		w.mu.Lock()
		w.deaf = true
		w.mu.Unlock()
		for i := 0; i < o.N; i++ {
			r.tellMsg(o.P, o.D+i, o.Kind)
		}
		ok := w.until(func() bool { return len(r.shown()[o.P]) >= r.ns[o.P] })
		return ok && w.cut()
	case "deaf":
		w.mu.Lock()
		w.deaf = true
		w.mu.Unlock()
		return true
	case "hold":
		w.mu.Lock()
		w.holdA = true
		w.mu.Unlock()
		return true
	case "release":
		w.release()
		return w.settle()
	case "flood": // more than there are tags
		w.mu.Lock()
		w.holdA = true
		w.mu.Unlock()
		for i := 0; i < o.N; i++ {
			r.typeMsg(o.P, 0, "")
		}
		want := len(r.got[o.P]) + 20
		if !w.until(func() bool { r.arrivals(); return len(r.got[o.P]) >= want || w.kx == nil }) {
			return false
		}
		if o.I > 0 { // on their way before the acknowledgements
			time.Sleep(30 * time.Millisecond)
			for i := 0; i < o.I; i++ {
				r.tellMsg(o.Q, o.D+i, "")
			}
		}
		w.release()
		if !w.settle() {
			return false
		}
		w.mu.Lock()
		on := w.kx != nil
		w.mu.Unlock()
		if !on && !w.online() {
			return false
		}
		return w.settle()
	case "busy": // messages are typed while a file is being written to the connection
		n := int(clChunk)*4 + 1
		f := filepath.Join(w.root, "file")
		must(os.WriteFile(f, r.bytes(n), 0600))
		w.mu.Lock()
		w.deaf = true
		r.sent += 6 // the announcement and five parts
		w.mu.Unlock()
		w.typ("/send " + o.P + " " + f)
		time.Sleep(time.Duration(1+o.J) * time.Millisecond)
		for i := 0; i < o.N; i++ {
			r.typeMsg(o.P, o.D+i, "")
		}
		time.Sleep(10 * time.Millisecond)
		w.mu.Lock()
		w.deaf = false
		w.mu.Unlock()
		return w.settle() && w.until(func() bool { r.arrivals(); return r.sent == 0 })
	case "cut":
		return w.cut()
	case "offline":
		n := w.closings()
		w.mu.Lock()
		w.refuse = true
		w.mu.Unlock()
		w.typ("/offline")
		ok := w.until(func() bool { return w.closings() > n })
		time.Sleep(20 * time.Millisecond) // what it has sent may arrive
		w.mu.Lock()
		w.drop()
		w.mu.Unlock()
		return ok
	case "online":
		return w.online() && w.settle()
	case "auto":
		w.mu.Lock()
		n := w.sess
		w.refuse = false
		w.mu.Unlock()
		return w.untilFor(60*time.Second, func() bool { return w.sess > n && w.kx != nil }) && w.settle()
	case "kill":
		w.kill()
		return true
	case "crash": // killed at a system call
		r.traced(o)
		return true
	case "rkill": // killed after some time
		t := time.AfterFunc(time.Duration(o.J)*100*time.Microsecond, func() { w.dead = true; w.cmd.Process.Kill() })
		r.both(o)
		<-w.done
		t.Stop()
		w.kill()
		return true
	case "start":
		return w.start() && w.settle()
	case "forge": // made by another contact, or by nobody
		from := w.peers[o.P].id.Public.Identity
		// what is made here uses no key of the messages to come
		sealed := func(p string) []byte {
			q := w.peers[p]
			st := q.r.Marshal(time.Now(), time.Hour)
			b := q.crpc(rpc.CRPCCmdPrivateMessage, rpc.PrivateMessage{Text: "sforged"}, false)
			q.mtx.Lock()
			q.r = rNew(q.id, w.me)
			must(q.r.Unmarshal(st))
			q.mtx.Unlock()
			return b
		}
		var pl []byte
		switch o.Kind {
		case "other":
			if o.Q == o.P {
				o.Q = clBar
			}
			pl = sealed(o.Q)
		case "replay":
			n := len(r.olds[o.P])
			if n == 0 {
				return w.settle()
			}
			pl = r.olds[o.P][o.D%n]
		case "alter":
			pl = sealed(o.P)
			pl[r.rnd.Intn(len(pl))] ^= 1 << (o.D % 8)
		case "cut":
			pl = sealed(o.P)
			pl = pl[:o.D%len(pl)]
		case "random":
			pl = r.bytes(o.D % 400)
		case "stranger":
			copy(from[:], r.bytes(32))
			pl = r.bytes(100 + o.D%2000)
		case "nobody":
			from = [32]byte{}
			pl = r.bytes(100)
		case "proxy":
			w.deliver(from, r.bytes(o.D%100), true)
			return w.settle()
		case "server":
			from = w.srv.Public.Identity
			pl = r.bytes(100)
		case "self":
			from = w.me.Public.Identity
			pl = sealed(o.P)
		}
		w.deliver(from, pl, false)
		return w.settle()
	case "junk": // what a contact should not send
		p := w.peers[o.P]
		var pl []byte
		switch o.Kind {
		case "notcrpc":
			pl = p.seal(r.bytes(o.D % 60))
		case "command":
			pl = p.crpc("nonsense", rpc.PrivateMessage{Text: "sforged"}, false)
		case "badzlib":
			pl = p.crpcComp(rpc.CRPCCmdPrivateMessage, rpc.CRPCCompZLIB, r.bytes(o.D%50))
		case "badcomp":
			pl = p.crpcComp(rpc.CRPCCmdPrivateMessage, "lzw", r.bytes(50))
		case "huge": // a length that is not there
			b := make([]byte, 4)
			binary.BigEndian.PutUint32(b, 0x7ffffff0)
			pl = p.crpcComp(rpc.CRPCCmdPrivateMessage, rpc.CRPCCompNone, b)
		case "body":
			cmds := []string{rpc.CRPCCmdPrivateMessage, rpc.CRPCCmdGroupInvite, rpc.CRPCCmdGroupJoin, rpc.CRPCCmdGroupList, rpc.CRPCCmdGroupUpdate, rpc.CRPCCmdGroupMessage,
				rpc.CRPCCmdGroupPart, rpc.CRPCCmdGroupKill, rpc.CRPCCmdGroupKick, rpc.CRPCCmdChunkNew, rpc.CRPCCmdChunk, rpc.CRPCCmdJanitorMessage}
			pl = p.crpcComp(cmds[o.D%len(cmds)], rpc.CRPCCompNone, r.bytes(o.D%7))
		case "janitor":
			pl = p.crpc(rpc.CRPCCmdJanitorMessage, rpc.JanitorMessage{Command: "x", Reason: "y"}, false)
		case "ackbad":
			n := w.closings()
			w.mu.Lock()
			w.send(rpc.TaggedCmdAcknowledge, uint32(32+o.D%2*1000), false, rpc.Acknowledge{})
			w.mu.Unlock()
			// it may end the session, but not more: what comes next is answered or the session is over
			w.deliver(p.id.Public.Identity, p.crpc("nonsense", rpc.PrivateMessage{Text: "sforged"}, false), false)
			w.until(func() bool { return len(w.store) == 0 || w.kx == nil })
			w.until(func() bool { return w.kx != nil || w.closings() > n })
			w.mu.Lock()
			on := w.kx != nil
			w.mu.Unlock()
			if !on && !w.online() {
				return false
			}
			return w.settle()
		}
		if pl != nil {
			w.deliver(p.id.Public.Identity, pl, false)
		}
		return w.settle()
	case "window":
		w.typ(o.K)
		return w.settle()
	}
	panic("unknown operation " + o.Op)
}

// traced runs messages while a system call kills the client.
func (r *clRun) traced(o Op) { r.tracedDo(o, func() { r.both(o) }) }

func (r *clRun) tracedDo(o Op, f func()) {
	w := r.w
	log := filepath.Join(w.root, "strace.log")
	inj := fmt.Sprintf("%v:signal=KILL:when=%v", o.K, o.J)
	cmd := exec.Command("strace", "-f", "-qq", "-o", log, "-e", "trace="+o.K, "-e", "inject="+inj, "-p", strconv.Itoa(w.cmd.Process.Pid))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if cmd.Start() != nil {
		panic(svDown("strace does not start"))
	}
	for i := 0; i < 500; i++ {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", w.cmd.Process.Pid))
		if !strings.Contains(string(b), "TracerPid:\t0") {
			break
		}
		time.Sleep(4 * time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond)
	f()
	if w.alive() {
		w.settle()
	}
	if w.alive() {
		w.kill() // the fault did not strike
	} else {
		w.kill()
	}
	cmd.Process.Signal(syscall.SIGINT)
	t := time.AfterFunc(5*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
}

func (p *clPeer) crpcComp(cmd, comp string, body []byte) []byte {
	return p.seal(append(xdrBytes(rpc.CRPC{Timestamp: time.Now().Unix(), Command: cmd, Compression: comp}), body...))
}

func (r *clRun) bytes(n int) []byte {
	b := make([]byte, n)
	r.rnd.Read(b)
	return b
}

func xdrBytes(v interface{}) []byte {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, v)
	must(err)
	return b.Bytes()
}

// arrivals takes what has arrived since; the lock is held.
func (r *clRun) arrivals() {
	w := r.w
	for ; r.from < len(w.got); r.from++ {
		g := w.got[r.from]
		k := hex.EncodeToString(g.raw)
		if r.seen[k] {
			continue // a contact would not read it twice
		}
		r.seen[k] = true
		if r.file != nil && g.to != nil && r.file(g) {
			continue
		}
		if g.to != nil && r.sent > 0 && (g.cmd == rpc.CRPCCmdChunkNew || g.cmd == rpc.CRPCCmdChunk) {
			r.sent--
			continue
		}
		if g.to == nil || g.cmd != rpc.CRPCCmdPrivateMessage {
			r.bad++
			continue
		}
		if g.to.name == clBar {
			continue
		}
		t := pmText(g.payload)
		if r.mt["<> "+t] != g.to.name && r.mt["* "+t] != g.to.name {
			r.bad++
			fmt.Fprintf(os.Stderr, "to %v: %q\n", g.to.name, t)
			continue
		}
		r.got[g.to.name] = append(r.got[g.to.name], clNum(t))
	}
	r.bad += len(w.prpc)
	for _, c := range w.prpc {
		fmt.Fprintln(os.Stderr, "request:", c)
	}
	w.prpc = nil
}

func clNum(t string) int {
	i := 1
	for i < len(t) && t[i] >= '0' && t[i] <= '9' {
		i++
	}
	n, _ := strconv.Atoi(t[1:i])
	return n
}

// lines splits what a conversation shows into the contact's and the user's.
func (r *clRun) lines(p string) (theirs, mine []int, odd int) {
	for _, l := range r.w.pmLog(p) {
		norm := func(nick string) string {
			if t := strings.TrimPrefix(l, "<"+nick+"> "); t != l {
				return "<> " + t
			}
			if t := strings.TrimPrefix(l, "* "+nick+" "); t != l {
				return "* " + t
			}
			return "?"
		}
		if t := norm(p); r.ms[t] == p {
			theirs = append(theirs, clNum(t[strings.Index(t, " ")+1:]))
		} else if t := norm(clSelf); r.mt[t] == p {
			mine = append(mine, clNum(t[strings.Index(t, " ")+1:]))
		} else if strings.HasPrefix(l, "<") || strings.HasPrefix(l, "* ") || strings.Contains(l, "sforged") {
			odd++
			if !r.told[l] {
				fmt.Fprintf(os.Stderr, "odd line for %v: %q\n", p, l)
			}
			r.told[l] = true
		}
	}
	return
}

func (r *clRun) shown() map[string][]int {
	out := map[string][]int{}
	for _, p := range r.names {
		out[p], _, _ = r.lines(p)
	}
	return out
}

func (r *clRun) obs() clObs {
	w := r.w
	o := clObs{Got: map[string][]int{}, Shown: map[string][]int{}, Mine: map[string][]int{}, Store: map[string][]int{}, Up: w.alive()}
	w.mu.Lock()
	o.On = w.kx != nil
	r.arrivals()
	for _, p := range r.names {
		o.Got[p] = append([]int{}, r.got[p]...)
		o.Store[p] = []int{}
	}
	for _, m := range w.store {
		if h, ok := r.held[m]; ok {
			p := h[0].(string)
			o.Store[p] = append(o.Store[p], h[1].(int))
		}
	}
	o.Bad = r.bad
	w.mu.Unlock()
	for _, p := range r.names {
		a, b, c := r.lines(p)
		o.Shown[p], o.Mine[p] = append([]int{}, a...), append([]int{}, b...)
		o.Odd += c
	}
	return o
}
