package main

import (
	"bufio"
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"sync"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/nacl/secretbox"
)

func init() {
	commands["sessep"] = cmdSessEp
	commands["channel"] = cmdChannel
	commands["handshake"] = cmdHandshake
}

// ---------------------------------------------------------------- endpoint
// A separate process plays honest endpoints with the real package, because the
// package keeps its ephemeral keys in process-wide variables.

type epCmd struct {
	Run   int    `json:"run"`
	Cmd   string `json:"cmd"`
	Addr  string `json:"addr,omitempty"`
	Role  string `json:"role,omitempty"`
	Pub   string `json:"pub,omitempty"`
	Priv  string `json:"priv,omitempty"`
	Their string `json:"their,omitempty"`
	Max   int    `json:"max,omitempty"`
	Data  string `json:"data,omitempty"`
	N     int    `json:"n,omitempty"`
}

type epRep struct {
	Run   int    `json:"run"`
	Ok    bool   `json:"ok"`
	Err   string `json:"err,omitempty"`
	Data  string `json:"data,omitempty"`
	Their string `json:"their,omitempty"`
	ID    string `json:"id,omitempty"`
	N     int    `json:"n,omitempty"`
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	must(err)
	return b
}

func burstMsg(i int) []byte {
	b := make([]byte, 8+i%5)
	binary.BigEndian.PutUint64(b, uint64(i))
	return b
}

func cmdSessEp() {
	if len(argv) > 0 && argv[0] == "resp" {
		session.Init()
	}
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	reply := func(r epRep) { mu.Lock(); enc.Encode(r); mu.Unlock() }
	kxs := map[int]*session.KX{}
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var c epCmd
		if err := dec.Decode(&c); err != nil {
			return
		}
		switch c.Cmd {
		case "kx":
			conn, err := net.Dial("tcp", c.Addr)
			must(err)
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			kx := &session.KX{Conn: conn, MaxMessageSize: uint(c.Max)}
			kx.OurPublicKey = new([sntrup4591761.PublicKeySize]byte)
			copy(kx.OurPublicKey[:], unb64(c.Pub))
			kx.OurPrivateKey = new([sntrup4591761.PrivateKeySize]byte)
			copy(kx.OurPrivateKey[:], unb64(c.Priv))
			mu.Lock()
			kxs[c.Run] = kx
			mu.Unlock()
			if c.Role == "init" {
				kx.TheirPublicKey = new([sntrup4591761.PublicKeySize]byte)
				copy(kx.TheirPublicKey[:], unb64(c.Their))
			}
			go func(c epCmd) {
				var err error
				defer func() {
					if p := recover(); p != nil {
						reply(epRep{Run: c.Run, Err: fmt.Sprint("PANIC ", p)})
					}
				}()
				if c.Role == "init" {
					err = kx.Initiate()
				} else {
					err = kx.Respond()
				}
				r := epRep{Run: c.Run, Ok: err == nil}
				if err != nil {
					r.Err = err.Error()
					kx.Close()
				} else {
					r.Their = b64(kx.TheirPublicKey[:])
					id, _ := kx.TheirIdentity().([32]byte)
					r.ID = hex.EncodeToString(id[:])
				}
				reply(r)
			}(c)
		case "write":
			err := kxs[c.Run].Write(unb64(c.Data))
			r := epRep{Run: c.Run, Ok: err == nil}
			if err != nil {
				r.Err = err.Error()
			}
			reply(r)
		case "read":
			go func(c epCmd) {
				d, err := kxs[c.Run].Read()
				r := epRep{Run: c.Run, Ok: err == nil, Data: b64(d)}
				if err != nil {
					r.Err = err.Error()
				}
				reply(r)
			}(c)
		case "writen":
			n := 0
			for i := 0; i < c.N; i++ {
				if kxs[c.Run].Write(burstMsg(i)) == nil {
					n++
				}
			}
			reply(epRep{Run: c.Run, Ok: n == c.N, N: n})
		case "readn":
			go func(c epCmd) {
				n := 0
				for i := 0; i < c.N; i++ {
					d, err := kxs[c.Run].Read()
					if err != nil || !bytes.Equal(d, burstMsg(i)) {
						break
					}
					n++
				}
				reply(epRep{Run: c.Run, Ok: n == c.N, N: n})
			}(c)
		case "close":
			kxs[c.Run].Close()
			reply(epRep{Run: c.Run, Ok: true})
		}
	}
}

type epProc struct {
	cmd *exec.Cmd
	enc *json.Encoder
	mu  sync.Mutex
	rep map[int]chan epRep
}

func startEp(kind string) *epProc {
	p := &epProc{rep: map[int]chan epRep{}}
	p.cmd = exec.Command(os.Args[0], "sessep", kind)
	in, err := p.cmd.StdinPipe()
	must(err)
	out, err := p.cmd.StdoutPipe()
	must(err)
	p.cmd.Stderr = os.Stderr
	must(p.cmd.Start())
	p.enc = json.NewEncoder(in)
	go func() {
		dec := json.NewDecoder(bufio.NewReader(out))
		for {
			var r epRep
			if err := dec.Decode(&r); err != nil {
				p.mu.Lock()
				for _, c := range p.rep {
					close(c)
				}
				p.rep = map[int]chan epRep{}
				p.mu.Unlock()
				return
			}
			p.ch(r.Run) <- r
		}
	}()
	return p
}

func (p *epProc) ch(run int) chan epRep {
	p.mu.Lock()
	defer p.mu.Unlock()
	c, ok := p.rep[run]
	if !ok {
		c = make(chan epRep, 64)
		p.rep[run] = c
	}
	return c
}

func (p *epProc) send(c epCmd) { p.enc.Encode(c) }

func (p *epProc) wait(run int) epRep {
	select {
	case r, ok := <-p.ch(run):
		if !ok {
			return epRep{Err: "endpoint process died"}
		}
		return r
	case <-time.After(90 * time.Second):
		return epRep{Err: "timeout"}
	}
}

// ---------------------------------------------------------------- the wire
// An endpoint as the attacker sees it: frames it emitted, and a connection on
// which to feed it.
type wireEp struct {
	proc   *epProc
	run    int
	conn   net.Conn
	init   bool
	mu     sync.Mutex
	cond   *sync.Cond
	frames [][]byte
	closed bool
	done   *epRep
}

func readFrame(r io.Reader, first bool) ([]byte, error) {
	if first {
		b := make([]byte, 1048) // ciphertext, XDR fixed opaque, padded
		_, err := io.ReadFull(r, b)
		return b, err
	}
	h := make([]byte, 4)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	n := int(binary.BigEndian.Uint32(h))
	if n > 1<<24 {
		return nil, errors.New("frame too long")
	}
	pn := (n + 3) &^ 3
	b := make([]byte, 4+pn)
	copy(b, h)
	_, err := io.ReadFull(r, b[4:])
	return b, err
}

var wireListener net.Listener
var runCounter int

func newWireEp(p *epProc, init bool, me *zkidentity.FullIdentity, pub []byte, their []byte, max int) *wireEp {
	if wireListener == nil {
		var err error
		wireListener, err = net.Listen("tcp", "127.0.0.1:0")
		must(err)
	}
	runCounter++
	w := &wireEp{proc: p, run: runCounter, init: init}
	w.cond = sync.NewCond(&w.mu)
	role := "resp"
	if init {
		role = "init"
	}
	if pub == nil {
		pub = me.Public.Key[:]
	}
	p.send(epCmd{Run: w.run, Cmd: "kx", Addr: wireListener.Addr().String(), Role: role, Pub: b64(pub),
		Priv: b64(me.PrivateKey[:]), Their: b64(their), Max: max})
	c, err := wireListener.Accept()
	must(err)
	w.conn = c
	go func() {
		br := bufio.NewReaderSize(c, 1<<16)
		first := init
		for {
			f, err := readFrame(br, first)
			first = false
			w.mu.Lock()
			if err != nil {
				w.closed = true
				w.cond.Broadcast()
				w.mu.Unlock()
				return
			}
			w.frames = append(w.frames, f)
			w.cond.Broadcast()
			w.mu.Unlock()
		}
	}()
	return w
}

// frame waits for the i-th (0-based) frame the endpoint emits.
func (w *wireEp) frame(i int) []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	late := false
	t := time.AfterFunc(30*time.Second, func() {
		w.mu.Lock()
		late = true
		w.cond.Broadcast()
		w.mu.Unlock()
	})
	defer t.Stop()
	for len(w.frames) <= i && !w.closed && !late {
		w.cond.Wait()
	}
	if len(w.frames) > i {
		return w.frames[i]
	}
	return nil
}

func (w *wireEp) feed(f []byte) { w.conn.Write(f) }

// outcome of the handshake; closes the wire if the endpoint is still waiting.
func (w *wireEp) outcome() epRep {
	if w.done == nil {
		r := w.proc.wait(w.run)
		w.done = &r
	}
	return *w.done
}

func mutate(f []byte, kind int) []byte {
	c := append([]byte{}, f...)
	switch kind % 5 {
	case 0:
		c[4+rng.Intn(len(c)-4)] ^= 1 << uint(rng.Intn(8))
		n := int(binary.BigEndian.Uint32(c[:4]))
		if bytes.Equal(c[4:min(4+n, len(c))], f[4:min(4+n, len(f))]) {
			c[4] ^= 1 // hit the padding: alter the payload instead
		}
	case 1:
		c[4] ^= 0x80
	case 2:
		n := int(binary.BigEndian.Uint32(c[:4]))
		c[4+n-1] ^= 1
	case 3: // shorter frame, consistently framed
		n := int(binary.BigEndian.Uint32(c[:4]))
		return xdrOpaque(c[4 : 4+n-1])
	case 4: // longer frame, consistently framed
		n := int(binary.BigEndian.Uint32(c[:4]))
		return xdrOpaque(append(append([]byte{}, c[4:4+n]...), 0))
	}
	return c
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func xdrOpaque(b []byte) []byte {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, b)
	must(err)
	return bb.Bytes()
}

// relay performs an honest handshake between two endpoints.
func relay(i, r *wireEp) bool {
	r.feed(i.frame(0))
	r.feed(i.frame(1))
	for k := 0; k < 3; k++ {
		if f := r.frame(k); f != nil {
			i.feed(f)
		}
	}
	for k := 2; k < 5; k++ {
		if f := i.frame(k); f != nil {
			r.feed(f)
		}
	}
	for k := 3; k < 5; k++ {
		if f := r.frame(k); f != nil {
			i.feed(f)
		}
	}
	a, b := i.outcome(), r.outcome()
	return a.Ok && b.Ok
}

func idOf(name string) *zkidentity.FullIdentity {
	id, err := zkidentity.New(name, name)
	must(err)
	return id
}

// ---------------------------------------------------------------- channel
type chanPair struct {
	ep   map[string]*wireEp // "a" initiator, "b" responder
	base map[string]int     // handshake frames emitted
	sent map[string][][]byte
	max  int
}

func newChanPair(pi, pr *epProc, ida, idb *zkidentity.FullIdentity, max int) (*chanPair, error) {
	c := &chanPair{ep: map[string]*wireEp{}, sent: map[string][][]byte{}, max: max}
	c.ep["b"] = newWireEp(pr, false, idb, nil, nil, max)
	c.ep["a"] = newWireEp(pi, true, ida, nil, idb.Public.Key[:], max)
	if !relay(c.ep["a"], c.ep["b"]) {
		return nil, fmt.Errorf("honest handshake failed: %v / %v", c.ep["a"].outcome().Err, c.ep["b"].outcome().Err)
	}
	c.base = map[string]int{"a": 5, "b": 5}
	return c, nil
}

func (c *chanPair) close() {
	for _, w := range c.ep {
		w.conn.Close()
	}
}

func (c *chanPair) dataFrame(from string, i int) []byte {
	return c.ep[from].frame(c.base[from] + i - 1)
}

func ends(d string) (from, to string) { return d[:1], d[1:] }

func (c *chanPair) write(from string, data []byte) epRep {
	w := c.ep[from]
	w.proc.send(epCmd{Run: w.run, Cmd: "write", Data: b64(data)})
	return w.proc.wait(w.run)
}

func cmdChannel() {
	pi, pr := startEp("init"), startEp("resp")
	ida, idb := idOf("alice"), idOf("bob")
	maxes := []int{1300, 4096, 65536, 1048576}
	for n, ops := range beh {
		max := maxes[n%len(maxes)]
		rec.Ev(M{"op": "reset", "max": max})
		c, err := newChanPair(pi, pr, ida, idb, max)
		if err != nil {
			rec.Ev(M{"op": "setup-failed", "err": err.Error()})
			continue
		}
		var other *chanPair
		needOther := false
		for _, o := range ops {
			needOther = needOther || (o.Op == "read" && o.N == 1)
		}
		if needOther {
			if other, err = newChanPair(pi, pr, ida, idb, max); err != nil {
				rec.Ev(M{"op": "setup-failed", "err": err.Error()})
				continue
			}
			for i := 0; i < 40; i++ {
				other.write("a", randBytes(20))
				other.write("b", randBytes(20))
			}
		}
		dead := map[string]bool{}
		for _, o := range ops {
			from, to := ends(o.P)
			if dead[o.P] && o.Op != "write" && o.Op != "toobig" {
				continue
			}
			switch o.Op {
			case "write":
				if dead[o.P] || dead[to+from] {
					continue
				}
				sizes := []int{0, 1, 3, 4, 16, 100, 1000, max - 17, max - 16}
				data := randBytes(sizes[rng.Intn(len(sizes))])
				r := c.write(from, data)
				c.sent[from] = append(c.sent[from], data)
				rec.Ev(M{"op": "write", "p": o.P, "ok": r.Ok, "err": r.Err})
			case "toobig":
				if dead[o.P] || dead[to+from] {
					continue
				}
				r := c.write(from, randBytes(max-15+rng.Intn(40)))
				rec.Ev(M{"op": "toobig", "p": o.P, "ok": r.Ok, "err": r.Err})
			case "read":
				src := c
				if o.N == 1 {
					src = other
				}
				sfrom, _ := ends(o.Q)
				if o.N == 1 && o.I > 40 || o.N == 0 && o.I > len(c.sent[sfrom]) {
					continue
				}
				f := src.dataFrame(sfrom, o.I)
				if f == nil {
					rec.Ev(M{"op": "frame-missing", "p": o.P, "i": o.I})
					dead[o.P] = true
					continue
				}
				if o.B {
					f = mutate(f, rng.Intn(5))
				}
				w := c.ep[to]
				w.proc.send(epCmd{Run: w.run, Cmd: "read"})
				w.feed(f)
				r := w.proc.wait(w.run)
				e := M{"op": "read", "p": o.P, "q": o.Q, "i": o.I, "n": o.N, "b": o.B, "ok": r.Ok, "err": r.Err, "match": false}
				if r.Ok && src == c && o.I <= len(c.sent[sfrom]) {
					e["match"] = bytes.Equal(unb64(r.Data), c.sent[sfrom][o.I-1])
				}
				rec.Ev(e)
				if !r.Ok && !o.B && len(f) > c.max {
					dead[o.P] = true
				}
				if !r.Ok && o.B && len(f) > c.max+4 {
					// the reader refused the length and left the rest in the stream
					dead[o.P] = true
				}
			case "burst":
				wf, wt := c.ep[from], c.ep[to]
				start := c.base[from] + len(c.sent[from])
				wt.proc.send(epCmd{Run: wt.run, Cmd: "readn", N: o.N})
				wf.proc.send(epCmd{Run: wf.run, Cmd: "writen", N: o.N})
				for i := 0; i < o.N; i++ {
					f := wf.frame(start + i)
					if f == nil {
						break
					}
					wt.feed(f)
				}
				rw := wf.proc.wait(wf.run)
				if rw.N < o.N {
					wt.conn.Close()
				}
				rr := wt.proc.wait(wt.run)
				for i := 0; i < o.N; i++ {
					c.sent[from] = append(c.sent[from], burstMsg(i))
				}
				rec.Ev(M{"op": "burst", "p": o.P, "n": o.N, "ok": rw.Ok && rr.Ok, "got": rr.N})
			case "cut":
				w := c.ep[to]
				w.proc.send(epCmd{Run: w.run, Cmd: "read"})
				switch rng.Intn(3) {
				case 0:
				case 1:
					w.feed(randBytes(rng.Intn(4)))
				case 2:
					if len(c.sent[from]) > 0 {
						f := c.dataFrame(from, len(c.sent[from]))
						if f != nil {
							w.feed(f[:rng.Intn(len(f))])
						}
					}
				}
				w.conn.Close()
				r := w.proc.wait(w.run)
				rec.Ev(M{"op": "cut", "p": o.P, "ok": r.Ok})
				dead[o.P] = true
				dead[to+from] = true
			}
		}
		c.close()
		if other != nil {
			other.close()
		}
	}
}

// ---------------------------------------------------------------- deviant endpoints
// An endpoint that knows only what an attacker knows and may deviate from the
// protocol, written against the wire format.
type deviant struct {
	conn     net.Conn
	br       *bufio.Reader
	wseq     [24]byte
	rseq     [24]byte
	max      uint
	rk, wk   *[32]byte
	failed   string
	deviated string
}

func incS(s *[24]byte) {
	n := uint32(1)
	for i := 0; i < 8; i++ {
		n += uint32(s[i])
		s[i] = byte(n)
		n >>= 8
	}
}

func (d *deviant) wr(b []byte, k *[32]byte) {
	p := secretbox.Seal(nil, b, &d.wseq, k)
	incS(&d.wseq)
	d.conn.Write(xdrOpaque(p))
}

func (d *deviant) rd(k *[32]byte) ([]byte, bool) {
	f, err := readFrame(d.br, false)
	if err != nil {
		return nil, false
	}
	n := int(binary.BigEndian.Uint32(f[:4]))
	o, ok := secretbox.Open(nil, f[4:4+n], &d.rseq, k)
	incS(&d.rseq)
	return o, ok
}

func mac(k *[32]byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k[:])
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func kdf(parts ...*[32]byte) (*[32]byte, *[32]byte) {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p[:])
	}
	s := h.Sum(nil)
	a, b := new([32]byte), new([32]byte)
	copy(a[:], s[:32])
	copy(b[:], s[32:])
	return a, b
}

// deviantInit plays a client towards a real responder, claiming claimPub while
// holding priv, and deviating as told. It returns whether it got to the end.
func deviantInit(conn net.Conn, srvPub, claimPub *[sntrup4591761.PublicKeySize]byte, priv *[sntrup4591761.PrivateKeySize]byte, dev string) *deviant {
	d := &deviant{conn: conn, br: bufio.NewReader(conn)}
	epk, esk, err := sntrup4591761.GenerateKey(rand.Reader)
	must(err)
	c1, k1, _ := sntrup4591761.Encapsulate(rand.Reader, srvPub)
	if dev == "c1" {
		c1[rng.Intn(len(c1))] ^= 1
	}
	var bb bytes.Buffer
	xdr.Marshal(&bb, c1)
	conn.Write(bb.Bytes())
	e := epk[:]
	if dev == "epklen" {
		e = e[:len(e)-1]
	}
	d.wr(e, k1)
	x, ok := d.rd(k1)
	if !ok || len(x) != sntrup4591761.CiphertextSize {
		d.failed = "c2"
		return d
	}
	var c2 [sntrup4591761.CiphertextSize]byte
	copy(c2[:], x)
	k2, okd := sntrup4591761.Decapsulate(&c2, esk)
	if okd != 1 {
		d.failed = "k2"
		return d
	}
	sepk, ok := d.rd(k2)
	if !ok || len(sepk) != sntrup4591761.PublicKeySize {
		d.failed = "sepk"
		return d
	}
	sp, ok := d.rd(k2)
	if !ok || !bytes.Equal(sp, mac(k1, epk[:], sepk)) {
		d.failed = "sp"
		return d
	}
	var se [sntrup4591761.PublicKeySize]byte
	copy(se[:], sepk)
	c3, k3, _ := sntrup4591761.Encapsulate(rand.Reader, &se)
	c3b := c3[:]
	switch dev {
	case "c3":
		c3b = append([]byte{}, c3b...)
		c3b[rng.Intn(len(c3b))] ^= 1
	case "c3len":
		c3b = c3b[:len(c3b)-1]
	case "c3toLong": // encapsulated to the long-term instead of the ephemeral key
		c, k, _ := sntrup4591761.Encapsulate(rand.Reader, srvPub)
		c3b, k3 = c[:], k
	}
	d.wr(c3b, k2)
	pk := claimPub[:]
	if dev == "pklen" {
		pk = pk[:len(pk)-1]
	}
	if dev == "pklonger" {
		pk = append(append([]byte{}, pk...), 1)
	}
	d.wr(pk, k3)
	var cp []byte
	switch dev {
	case "cpzero":
		cp = make([]byte, 32)
	case "cpkey": // made with a key other than the second one
		cp = mac(k3, sp, claimPub[:])
	case "cppk": // binds another public key
		cp = mac(k2, sp, srvPub[:])
	case "cpsp": // binds another first proof
		cp = mac(k2, make([]byte, 32), claimPub[:])
	case "cpflip":
		cp = mac(k2, sp, claimPub[:])
		cp[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
	case "cplen":
		cp = mac(k2, sp, claimPub[:])[:31]
	case "cpempty":
		cp = []byte{}
	case "cpsp2":
		cp = sp
	default:
		cp = mac(k2, sp, claimPub[:])
	}
	d.wr(cp, k3)
	x, ok = d.rd(k3)
	if !ok || len(x) != sntrup4591761.CiphertextSize {
		d.failed = "c4"
		return d
	}
	var c4 [sntrup4591761.CiphertextSize]byte
	copy(c4[:], x)
	k4, okd := sntrup4591761.Decapsulate(&c4, priv)
	if okd != 1 {
		// the claimed key is not ours; guess on with what we know
		k4 = new([32]byte)
		d.failed = "k4"
	} else {
		p, ok := d.rd(k4)
		if !ok || !bytes.Equal(p, mac(k3, mac(k2, sp, claimPub[:]), srvPub[:])) {
			d.failed = "final proof"
		}
	}
	d.rk, d.wk = kdf(k1, k2, k3, k4)
	if d.failed == "k4" {
		d.rseq[0]++ // the final proof it could not read
	}
	d.deviated = hex.EncodeToString(k1[:4])
	return d
}

// deviantResp plays a server towards a real initiator that asked for askPub,
// holding priv.
func deviantResp(conn net.Conn, ownPub *[sntrup4591761.PublicKeySize]byte, priv *[sntrup4591761.PrivateKeySize]byte, dev string) *deviant {
	d := &deviant{conn: conn, br: bufio.NewReader(conn)}
	f, err := readFrame(d.br, true)
	if err != nil {
		d.failed = "c1"
		return d
	}
	var c1 [sntrup4591761.CiphertextSize]byte
	copy(c1[:], f)
	k1, okd := sntrup4591761.Decapsulate(&c1, priv)
	if okd != 1 {
		d.failed = "k1"
		k1 = new([32]byte)
	}
	epkb, ok := d.rd(k1)
	if !ok {
		d.failed = "epk"
		epkb = make([]byte, sntrup4591761.PublicKeySize)
		k1 = new([32]byte)
		copy(k1[:], randBytes(32))
	}
	var epk [sntrup4591761.PublicKeySize]byte
	copy(epk[:], epkb)
	c2, k2, err := sntrup4591761.Encapsulate(rand.Reader, &epk)
	if err != nil {
		d.failed = "encap"
		conn.Close()
		return d
	}
	c2b := append([]byte{}, c2[:]...)
	if dev == "c2" {
		c2b[rng.Intn(len(c2b))] ^= 1
	}
	if dev == "c2len" {
		c2b = c2b[:len(c2b)-1]
	}
	d.wr(c2b, k1)
	spk, ssk, err := sntrup4591761.GenerateKey(rand.Reader)
	must(err)
	e := spk[:]
	if dev == "epklen" {
		e = e[:len(e)-1]
	}
	d.wr(e, k2)
	sp := mac(k1, epk[:], spk[:])
	out := sp
	switch dev {
	case "spzero":
		out = make([]byte, 32)
	case "spflip":
		out = append([]byte{}, sp...)
		out[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
	case "spkey":
		out = mac(k2, epk[:], spk[:])
	case "spswap":
		out = mac(k1, spk[:], epk[:])
	case "spepk":
		out = mac(k1, epk[:], epk[:])
	case "splen":
		out = sp[:31]
	case "spempty":
		out = []byte{}
	}
	d.wr(out, k2)
	x, ok := d.rd(k2)
	if !ok || len(x) != sntrup4591761.CiphertextSize {
		d.failed += " c3"
		return d
	}
	var c3 [sntrup4591761.CiphertextSize]byte
	copy(c3[:], x)
	k3, okd := sntrup4591761.Decapsulate(&c3, ssk)
	if okd != 1 {
		d.failed += " k3"
		return d
	}
	pkb, ok := d.rd(k3)
	if !ok || len(pkb) != sntrup4591761.PublicKeySize {
		d.failed += " pk"
		return d
	}
	var pk [sntrup4591761.PublicKeySize]byte
	copy(pk[:], pkb)
	cp, ok := d.rd(k3)
	if !ok || !bytes.Equal(cp, mac(k2, sp, pk[:])) {
		d.failed += " cp"
		return d
	}
	c4, k4, _ := sntrup4591761.Encapsulate(rand.Reader, &pk)
	c4b := append([]byte{}, c4[:]...)
	switch dev {
	case "c4":
		c4b[rng.Intn(len(c4b))] ^= 1
	case "c4len":
		c4b = c4b[:len(c4b)-1]
	case "c4other": // encapsulated to another key
		c, k, _ := sntrup4591761.Encapsulate(rand.Reader, &epk)
		c4b, k4 = append([]byte{}, c[:]...), k
	}
	d.wr(c4b, k3)
	fp := mac(k3, cp, ownPub[:])
	switch dev {
	case "fpzero":
		fp = make([]byte, 32)
	case "fpflip":
		fp[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
	case "fpkey":
		fp = mac(k2, cp, ownPub[:])
	case "fppk":
		fp = mac(k3, cp, pk[:])
	case "fpcp":
		fp = mac(k3, sp, ownPub[:])
	case "fplen":
		fp = fp[:31]
	case "fpempty":
		fp = []byte{}
	}
	d.wr(fp, k4)
	d.wk, d.rk = kdf(k1, k2, k3, k4)
	return d
}

// ---------------------------------------------------------------- handshake
func cmdHandshake() {
	ids := map[string]*zkidentity.FullIdentity{}
	names := map[[32]byte]string{}
	keys := map[string]string{}
	for _, n := range []string{"C1", "C2", "S1", "S2", "S", "C", "X", "Y"} {
		ids[n] = idOf(n)
		names[sha256.Sum256(ids[n].Public.Key[:])] = n
		keys[b64(ids[n].Public.Key[:])] = n
	}
	procs := map[string]*epProc{"c1": startEp("init"), "c2": startEp("init"), "s": startEp("resp")}
	for _, ops := range beh {
		rec.Ev(M{"op": "reset"})
		eps := map[string]*wireEp{}
		reported := map[string]bool{}
		report := func(p string) {
			if reported[p] {
				return
			}
			reported[p] = true
			w := eps[p]
			r := w.outcome()
			e := M{"op": "done", "p": p, "ok": r.Ok, "err": r.Err, "peer": "", "idok": false}
			if r.Ok {
				e["peer"] = keys[r.Their]
				h := sha256.Sum256(unb64(r.Their))
				e["idok"] = r.ID == hex.EncodeToString(h[:])
			}
			// Everything it sent before reporting is on its way; a failed endpoint
			// has closed, a finished one has sent all five.
			w.mu.Lock()
			t := time.Now()
			for (r.Ok && len(w.frames) < 5 || !r.Ok && !w.closed) && time.Since(t) < 20*time.Second {
				w.mu.Unlock()
				time.Sleep(2 * time.Millisecond)
				w.mu.Lock()
			}
			e["n"] = len(w.frames)
			w.mu.Unlock()
			rec.Ev(e)
		}
		for _, o := range ops {
			switch o.Op {
			case "ep":
				if o.P[0] == 'c' {
					eps[o.P] = newWireEp(procs[o.P], true, ids[o.K], nil, ids[o.V].Public.Key[:], 4096)
				} else {
					eps[o.P] = newWireEp(procs["s"], false, ids[o.K], nil, nil, 4096)
				}
				rec.Ev(M{"op": "ep", "p": o.P, "k": o.K, "v": o.V})
			case "dlv":
				f := eps[o.Q].frame(o.I - 1)
				if f == nil {
					rec.Ev(M{"op": "frame-missing", "q": o.Q, "i": o.I})
					break
				}
				if o.B {
					if o.Q[0] == 'c' && o.I == 1 {
						f = append([]byte{}, f...)
						f[rng.Intn(sntrup4591761.CiphertextSize)] ^= 1 << uint(rng.Intn(8))
					} else {
						f = mutate(f, rng.Intn(5))
					}
				}
				eps[o.P].feed(f)
				rec.Ev(M{"op": "dlv", "p": o.P, "q": o.Q, "i": o.I, "b": o.B})
			case "done":
				report(o.P)
			case "use":
				report(o.P)
				report(o.Q)
				from, to := eps[o.P], eps[o.Q]
				if !from.done.Ok || !to.done.Ok {
					break
				}
				from.mu.Lock()
				n := len(from.frames)
				from.mu.Unlock()
				var f, data []byte
				if n > 5 {
					f, data = from.frame(5), nil
				} else {
					data = randBytes(1 + rng.Intn(60))
					from.proc.send(epCmd{Run: from.run, Cmd: "write", Data: b64(data)})
					from.proc.wait(from.run)
					f = from.frame(5)
					usedData[from.run] = data
				}
				to.proc.send(epCmd{Run: to.run, Cmd: "read"})
				to.feed(f)
				r := to.proc.wait(to.run)
				ok := r.Ok
				if ok && r.Data != b64(usedData[from.run]) {
					rec.Ev(M{"op": "garbled", "p": o.P, "q": o.Q})
				}
				rec.Ev(M{"op": "use", "p": o.P, "q": o.Q, "ok": ok})
			case "end":
				for _, p := range []string{"c1", "c2", "s1", "s2"} {
					if !reported[p] {
						eps[p].conn.(*net.TCPConn).CloseWrite()
						report(p)
					}
				}
			case "dev":
				devRun(o, ids, procs)
			}
		}
		for _, w := range eps {
			w.conn.Close()
		}
	}
}

var usedData = map[int][]byte{}

// rawEp starts an honest endpoint and returns the connection to it.
func rawEp(p *epProc, init bool, me *zkidentity.FullIdentity, their []byte) (net.Conn, int) {
	if wireListener == nil {
		var err error
		wireListener, err = net.Listen("tcp", "127.0.0.1:0")
		must(err)
	}
	runCounter++
	role := "resp"
	if init {
		role = "init"
	}
	p.send(epCmd{Run: runCounter, Cmd: "kx", Addr: wireListener.Addr().String(), Role: role,
		Pub: b64(me.Public.Key[:]), Priv: b64(me.PrivateKey[:]), Their: b64(their), Max: 4096})
	c, err := wireListener.Accept()
	must(err)
	c.SetDeadline(time.Now().Add(60 * time.Second))
	return c, runCounter
}

func devRun(o Op, ids map[string]*zkidentity.FullIdentity, procs map[string]*epProc) {
	holder := ids["X"]
	if o.V != "own" {
		holder = ids["Y"]
	}
	var d *deviant
	var p *epProc
	var conn net.Conn
	var run int
	if o.P == "init" {
		p = procs["s"]
		conn, run = rawEp(p, false, ids["S"], nil)
		d = deviantInit(conn, &ids["S"].Public.Key, &ids["X"].Public.Key, &holder.PrivateKey, o.K)
	} else {
		p = procs["c1"]
		conn, run = rawEp(p, true, ids["C"], ids["X"].Public.Key[:])
		d = deviantResp(conn, &ids["X"].Public.Key, &holder.PrivateKey, o.K)
	}
	defer conn.Close()
	var r epRep
	select {
	case r = <-p.ch(run):
	case <-time.After(3 * time.Second):
		conn.(*net.TCPConn).CloseWrite()
		r = p.wait(run)
	}
	e := M{"op": "dev", "p": o.P, "k": o.K, "n": o.N, "v": o.V, "ok": r.Ok, "err": r.Err, "rd": false, "wr": false, "dfail": d.failed}
	if r.Ok && d.wk != nil {
		msg := randBytes(30)
		p.send(epCmd{Run: run, Cmd: "write", Data: b64(msg)})
		p.wait(run)
		got, ok := d.rd(d.rk)
		e["wr"] = ok && bytes.Equal(got, msg)
		p.send(epCmd{Run: run, Cmd: "read"})
		d.wr(msg, d.wk)
		rr := p.wait(run)
		e["rd"] = rr.Ok && rr.Data == b64(msg)
		if rr.Ok && rr.Data != b64(msg) {
			rec.Ev(M{"op": "garbled"})
		}
	}
	rec.Ev(e)
}
