package main

// Drives a real zkclient process on a terminal of its own; the driver is the
// server it talks to and all of its contacts.

import (
	"bytes"
	"compress/zlib"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

const (
	clWait = 25 * time.Second
	clBar  = "zbar" // the contact whose messages mark the end of all earlier ones
	clSelf = "me"
)

type clPeer struct {
	name string
	id   *zkidentity.FullIdentity
	r    *ratchet.Ratchet // what the peer has
	mtx  sync.Mutex
}

// clMsg is a message the server holds for the client.
type clMsg struct {
	from      [32]byte
	payload   []byte
	cleartext bool
	tag       int // in this session, or -1
	acked     chan struct{}
}

// clGot is a message the client had sent to somebody.
type clGot struct {
	to      *clPeer
	cmd     string // of the client to client protocol, or "undecipherable"
	payload []byte
	raw     []byte
	tag     uint32
	sess    int
}

type clWorld struct {
	bin, root, home string
	me, srv         *zkidentity.FullIdentity
	peers           map[string]*clPeer
	cert            tls.Certificate
	ln              net.Listener
	dir             bool // server in directory mode

	cmd  *exec.Cmd
	pty  *os.File
	done chan struct{}
	errs bytes.Buffer
	dead bool // we killed it

	mu     sync.Mutex
	sess   int
	conn   net.Conn
	kx     *session.KX
	wmu    sync.Mutex
	refuse bool // do not accept connections
	deaf   bool // stop reading what arrives
	holdA  bool // do not acknowledge what the client sends
	held   []clGot
	store  []*clMsg
	got    []clGot
	prpc   []string // other requests that arrived
	hook   func(cmd string, m rpc.Message, br *bytes.Reader) bool
	bar    int
	screen []byte // what the terminal got
}

// see waits for one of some texts on the terminal; only changes are drawn, therefore it does not wait for long.
func (w *clWorld) see(texts ...string) (which string) {
	w.untilFor(3*time.Second, func() bool {
		for _, t := range texts {
			if bytes.Contains(w.screen, []byte(t)) {
				which = t
				return true
			}
		}
		return false
	})
	w.clear()
	return
}

func (w *clWorld) clear() {
	w.mu.Lock()
	w.screen = nil
	w.mu.Unlock()
}

var (
	clCertOnce sync.Once
	clCert     tls.Certificate
	clIDs      = map[string]*zkidentity.FullIdentity{}
	clOnce     sync.Once
	clMtx      sync.Mutex
)

func init() { commands["ids"] = cmdIDs }

func selfSigned() tls.Certificate {
	clCertOnce.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P384(), crand.Reader)
		must(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour)}
		c, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
		must(err)
		clCert = tls.Certificate{Certificate: [][]byte{c}, PrivateKey: k}
	})
	return clCert
}

func clID(nick string) *zkidentity.FullIdentity {
	clOnce.Do(func() {
		session.Init()
		b, err := os.ReadFile(os.Getenv("ZKC_IDS"))
		if err != nil {
			return
		}
		for _, l := range strings.Fields(string(b)) {
			if id, err := zkidentity.UnmarshalFullIdentity(unb64(l)); err == nil {
				clIDs[id.Public.Nick] = id
			}
		}
	})
	clMtx.Lock()
	defer clMtx.Unlock()
	if clIDs[nick] == nil {
		id, err := zkidentity.New("name of "+nick, nick)
		must(err)
		clIDs[nick] = id
	}
	return clIDs[nick]
}

// cmdIDs makes the identities that all behaviours share, as they are expensive.
func cmdIDs() {
	var out []string
	for _, n := range argv[1:] {
		b, err := clID(n).Marshal()
		must(err)
		out = append(out, b64(b))
	}
	must(os.WriteFile(argv[0], []byte(strings.Join(out, "\n")), 0600))
	out = nil
	for _, n := range argv[1:] {
		if n != clSelf && n != "server" {
			clPair(clID(clSelf), clID(n))
			out = append(out, fmt.Sprintf("%v %v %v", n, b64xdr(clPairs[n][0]), b64xdr(clPairs[n][1])))
		}
	}
	must(os.WriteFile(argv[0]+".pairs", []byte(strings.Join(out, "\n")), 0600))
}

func newClient(bin, base string, n int, contacts []string) *clWorld {
	w := &clWorld{bin: bin, root: filepath.Join(base, fmt.Sprintf("c%d", n)), me: clID(clSelf), srv: clID("server"), peers: map[string]*clPeer{}, cert: selfSigned()}
	w.home = filepath.Join(w.root, "zk")
	must(os.MkdirAll(w.home, 0700))
	// what the client writes gets stuck soon if nobody reads it
	lc := net.ListenConfig{Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 8192) })
	}}
	ln, err := lc.Listen(context.Background(), "tcp", svHost+":0")
	must(err)
	w.ln = tls.NewListener(ln, &tls.Config{Certificates: []tls.Certificate{w.cert}})
	must(os.MkdirAll(filepath.Dir(filepath.Join(w.home, tools.ZKCServerFilename)), 0700))
	db, err := inidb.New(filepath.Join(w.home, tools.ZKCServerFilename), true, 10)
	if err != nil && db == nil {
		panic(err)
	}
	must(db.Set("", "server", ln.Addr().String()))
	must(db.Set("", "serveridentity", b64xdr(w.srv.Public)))
	must(db.Set("", "servercert", b64(w.cert.Certificate[0])))
	must(db.Set("", "myidentity", b64xdr(w.me)))
	must(db.Save())
	cfg := fmt.Sprintf("root = %v\n[log]\nsavehistory = yes\nlogfile = %v\nlongtimeformat = T\ntimeformat = T\nprofiler =\n", w.home, filepath.Join(w.root, "console.log"))
	must(os.WriteFile(filepath.Join(w.root, "conf"), []byte(cfg), 0600))
	for _, c := range append([]string{clBar}, contacts...) {
		w.contact(c)
	}
	go w.serve()
	return w
}

var (
	clPairs   = map[string][2]*disk.RatchetState{}
	clPairsMu sync.Mutex
)

// clPair is a new pair of ratchets; making one takes long, all behaviours begin with the same.
func clPair(me, they *zkidentity.FullIdentity) (*disk.RatchetState, *ratchet.Ratchet) {
	clPairsMu.Lock()
	defer clPairsMu.Unlock()
	nick := they.Public.Nick
	s, ok := clPairs[nick]
	if !ok && len(clPairs) == 0 { // kept like the identities
		b, _ := os.ReadFile(os.Getenv("ZKC_IDS") + ".pairs")
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) != 3 {
				continue
			}
			var x, y disk.RatchetState
			_, err1 := xdr.Unmarshal(bytes.NewReader(unb64(f[1])), &x)
			_, err2 := xdr.Unmarshal(bytes.NewReader(unb64(f[2])), &y)
			if err1 == nil && err2 == nil && rNew(me, they).Unmarshal(&x) == nil && rNew(they, me).Unmarshal(&y) == nil {
				clPairs[f[0]] = [2]*disk.RatchetState{&x, &y}
			}
		}
		s, ok = clPairs[nick]
	}
	if !ok {
		mine, theirs := rPair(me, they)
		if nick > clSelf { // either side may have begun
			theirs, mine = rPair(they, me)
		}
		s = [2]*disk.RatchetState{mine.Marshal(time.Now(), time.Hour), theirs.Marshal(time.Now(), time.Hour)}
		clPairs[nick] = s
	}
	r := rNew(they, me)
	must(r.Unmarshal(viaDisk(s[1])))
	return viaDisk(s[0]), r
}

// contact makes a contact the client has.
func (w *clWorld) contact(nick string) *clPeer {
	p := &clPeer{name: nick, id: clID(nick)}
	w.peers[nick] = p
	mine, theirs := clPair(w.me, p.id)
	p.r = theirs
	d := filepath.Join(w.home, "inbound", hex.EncodeToString(p.id.Public.Identity[:]))
	must(os.MkdirAll(d, 0700))
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, mine)
	must(err)
	must(os.WriteFile(filepath.Join(d, "ratchet.xdr"), b.Bytes(), 0600))
	pub, err := p.id.Public.Marshal()
	must(err)
	must(os.WriteFile(filepath.Join(d, "publicidentity.xdr"), pub, 0600))
	return p
}

// ---------------------------------------------------------------- process

func openPty() (*os.File, string) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	var zero int32
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero)))
	if e != 0 {
		panic(e)
	}
	var n uint32
	_, _, e = syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	if e != 0 {
		panic(e)
	}
	ws := struct{ row, col, x, y uint16 }{40, 200, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	return m, fmt.Sprintf("/dev/pts/%d", n)
}

// start runs the client and waits for its session.
func (w *clWorld) start() bool {
	m, name := openPty()
	s, err := os.OpenFile(name, os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	w.mu.Lock()
	n := w.sess
	w.refuse = false
	w.mu.Unlock()
	w.pty = m
	w.cmd = exec.Command(w.bin, "-cfg", filepath.Join(w.root, "conf"))
	w.cmd.Env = append(os.Environ(), "TERM=xterm", "HOME="+w.root)
	w.cmd.Dir = w.root
	ef, err := os.OpenFile(filepath.Join(w.root, "stderr"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
	must(err)
	w.cmd.Stdin, w.cmd.Stdout, w.cmd.Stderr = s, s, ef
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
	must(w.cmd.Start())
	s.Close()
	ef.Close()
	done := make(chan struct{})
	w.done, w.dead = done, false
	cmd := w.cmd
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := m.Read(b)
			if err != nil {
				return
			}
			w.mu.Lock()
			if w.screen = append(w.screen, b[:n]...); len(w.screen) > 1<<18 {
				w.screen = append([]byte{}, w.screen[1<<17:]...)
			}
			w.mu.Unlock()
		}
	}()
	go func() { cmd.Wait(); close(done); m.Close() }()
	return w.until(func() bool { return w.sess > n })
}

func (w *clWorld) tail() string {
	b, _ := os.ReadFile(filepath.Join(w.root, "stderr"))
	c, _ := os.ReadFile(filepath.Join(w.root, "console.log"))
	if len(c) > 800 {
		c = c[len(c)-800:]
	}
	return tailStr(string(b), 1500) + string(c)
}

func (w *clWorld) alive() bool {
	select {
	case <-w.done:
		return false
	default:
		return true
	}
}

func (w *clWorld) kill() {
	w.dead = true
	w.cmd.Process.Kill()
	<-w.done
	w.mu.Lock()
	w.drop()
	w.mu.Unlock()
}

func (w *clWorld) close() {
	if w.cmd != nil && w.alive() {
		w.kill()
	}
	w.ln.Close()
}

// until waits for something that is protected by the lock; false if it does not come.
func (w *clWorld) until(f func() bool) bool { return w.untilFor(clWait, f) }

func (w *clWorld) untilFor(d time.Duration, f func() bool) bool {
	deadline := time.Now().Add(d)
	for {
		w.mu.Lock()
		ok := f()
		w.mu.Unlock()
		if ok {
			return true
		}
		if !w.alive() || time.Now().After(deadline) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

// typ types a command and waits until the client has it; what comes after is not mixed with it.
func (w *clWorld) typ(s string) bool {
	hist := func() []string {
		b, _ := os.ReadFile(filepath.Join(w.home, "history"))
		return strings.Split(string(b), "\n")
	}
	n := len(hist())
	w.pty.Write([]byte(s + "\r"))
	if !w.until(func() bool { return len(hist()) > n }) {
		return false
	}
	if h := hist(); h[n-1] != s {
		panic(svDown(fmt.Sprintf("typed %q, client has %q", s, h[n-1])))
	}
	return true
}

// ---------------------------------------------------------------- server

func (w *clWorld) serve() {
	for {
		c, err := w.ln.Accept()
		if err != nil {
			return
		}
		w.mu.Lock()
		no := w.refuse
		w.mu.Unlock()
		if no {
			c.Close()
			continue
		}
		go w.session(c)
	}
}

func (w *clWorld) session(conn net.Conn) {
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(clWait))
	var ic string
	if _, err := xdr.Unmarshal(conn, &ic); err != nil || ic != rpc.InitialCmdSession {
		fmt.Fprintln(os.Stderr, "initial:", ic, err)
		return
	}
	kx := &session.KX{Conn: conn, MaxMessageSize: uint(rpc.PropMaxMsgSizeDefault), OurPublicKey: &w.srv.Public.Key, OurPrivateKey: &w.srv.PrivateKey}
	if err := kx.Respond(); err != nil {
		fmt.Fprintln(os.Stderr, "respond:", err)
		return
	}
	u := func(v uint64) string { return strconv.FormatUint(v, 10) }
	props := []rpc.ServerProperty{{Key: rpc.PropTagDepth, Value: "32", Required: true}, {Key: rpc.PropMaxAttachmentSize, Value: u(rpc.PropMaxAttachmentSizeDefault), Required: true},
		{Key: rpc.PropMaxChunkSize, Value: u(clChunk), Required: true}, {Key: rpc.PropMaxMsgSize, Value: u(rpc.PropMaxMsgSizeDefault), Required: true},
		{Key: rpc.PropServerTime, Value: strconv.FormatInt(time.Now().Unix(), 10), Required: true}, {Key: rpc.PropDirectory, Value: strconv.FormatBool(w.dir), Required: true}}
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.Message{Command: rpc.SessionCmdWelcome})
	must(err)
	_, err = xdr.Marshal(&bb, rpc.Welcome{Version: rpc.ProtocolVersion, ServerTime: time.Now().Unix(), Properties: props})
	must(err)
	if kx.Write(bb.Bytes()) != nil {
		return
	}
	conn.SetDeadline(time.Time{})
	w.mu.Lock()
	w.drop()
	w.sess++
	me := w.sess
	w.conn, w.kx = conn, kx
	for _, m := range w.store {
		m.tag = -1
	}
	w.pushLocked()
	w.mu.Unlock()
	for {
		b, err := kx.Read()
		if err != nil {
			w.mu.Lock()
			if w.sess == me {
				w.drop()
			}
			w.mu.Unlock()
			return
		}
		w.mu.Lock()
		for w.deaf && w.sess == me && w.kx == kx {
			w.mu.Unlock()
			time.Sleep(time.Millisecond)
			w.mu.Lock()
		}
		if w.sess != me || w.kx != kx {
			w.mu.Unlock()
			return
		}
		w.handle(b)
		w.mu.Unlock()
	}
}

var clChunk uint64 = rpc.PropMaxChunkSizeDefault

// drop ends the session; the lock is held.
func (w *clWorld) drop() {
	if w.conn != nil {
		w.conn.Close()
	}
	w.conn, w.kx = nil, nil
	w.held, w.deaf, w.holdA = nil, false, false
}

func (w *clWorld) send(cmd string, tag uint32, cleartext bool, payload interface{}) {
	if w.kx == nil {
		return
	}
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.Message{Command: cmd, Tag: tag, Cleartext: cleartext, TimeStamp: time.Now().Unix()})
	must(err)
	_, err = xdr.Marshal(&bb, payload)
	must(err)
	w.conn.SetWriteDeadline(time.Now().Add(clWait))
	w.kx.Write(bb.Bytes())
}

// pushLocked sends what the server holds, as far as there are tags.
func (w *clWorld) pushLocked() {
	used := map[int]bool{}
	for _, m := range w.store {
		if m.tag >= 0 {
			used[m.tag] = true
		}
	}
	for _, m := range w.store {
		if m.tag >= 0 {
			continue
		}
		t := 0
		for used[t] {
			t++
		}
		if t >= 10 {
			return
		}
		used[t] = true
		m.tag = t
		w.send(rpc.TaggedCmdPush, uint32(t), m.cleartext, rpc.Push{From: m.from, Received: time.Now().Unix(), Payload: m.payload})
	}
}

// deliver lets the server hold a message for the client.
func (w *clWorld) deliver(from [32]byte, payload []byte, cleartext bool) *clMsg {
	m := &clMsg{from: from, payload: payload, cleartext: cleartext, tag: -1, acked: make(chan struct{})}
	w.mu.Lock()
	w.store = append(w.store, m)
	w.pushLocked()
	w.mu.Unlock()
	return m
}

func (w *clWorld) handle(b []byte) {
	var m rpc.Message
	br := bytes.NewReader(b)
	if _, err := xdr.Unmarshal(br, &m); err != nil {
		w.prpc = append(w.prpc, "garbage")
		return
	}
	if w.hook != nil && w.hook(m.Command, m, br) {
		return
	}
	switch m.Command {
	case rpc.TaggedCmdPing:
		w.send(rpc.TaggedCmdPong, m.Tag, false, rpc.Pong{})
	case rpc.TaggedCmdAcknowledge:
		for i, s := range w.store {
			if s.tag == int(m.Tag) {
				close(s.acked)
				w.store = append(append([]*clMsg{}, w.store[:i]...), w.store[i+1:]...)
				w.pushLocked()
				return
			}
		}
		// as the server does
		w.prpc = append(w.prpc, "badack")
		w.drop()
	case rpc.TaggedCmdCache:
		var c rpc.Cache
		if _, err := xdr.Unmarshal(br, &c); err != nil {
			w.prpc = append(w.prpc, "garbage")
			return
		}
		g := clGot{raw: c.Payload, tag: m.Tag, sess: w.sess, cmd: "undecipherable"}
		for _, p := range w.peers {
			if p.id.Public.Identity != c.To {
				continue
			}
			g.to = p
			if p.r == nil {
				continue
			}
			p.mtx.Lock()
			pt, err := p.r.Decrypt(c.Payload)
			p.mtx.Unlock()
			if err != nil {
				continue
			}
			g.cmd, g.payload = decodeCRPC(pt)
		}
		w.got = append(w.got, g)
		if w.holdA {
			w.held = append(w.held, g)
		} else {
			w.send(rpc.TaggedCmdAcknowledge, m.Tag, false, rpc.Acknowledge{})
		}
	default:
		w.prpc = append(w.prpc, m.Command)
	}
}

// release acknowledges what was not acknowledged.
func (w *clWorld) release() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.holdA = false
	for _, g := range w.held {
		w.send(rpc.TaggedCmdAcknowledge, g.tag, false, rpc.Acknowledge{})
	}
	w.held = nil
}

func decodeCRPC(pt []byte) (string, []byte) {
	var c rpc.CRPC
	br := bytes.NewReader(pt)
	if _, err := xdr.Unmarshal(br, &c); err != nil {
		return "garbage", nil
	}
	var rd io.Reader = br
	if c.Compression == rpc.CRPCCompZLIB {
		z, err := zlib.NewReader(br)
		if err != nil {
			return "garbage", nil
		}
		rd = z
	}
	b, err := io.ReadAll(rd)
	if err != nil {
		return "garbage", nil
	}
	return c.Command, b
}

// ---------------------------------------------------------------- peers

// crpc is a client to client message of the peer.
func (p *clPeer) crpc(cmd string, payload interface{}, compress bool) []byte {
	var bb, pb bytes.Buffer
	c := rpc.CRPC{Timestamp: time.Now().Unix(), Command: cmd, Compression: rpc.CRPCCompNone}
	if raw, ok := payload.([]byte); ok {
		pb.Write(raw)
	} else {
		_, err := xdr.Marshal(&pb, payload)
		must(err)
	}
	if compress {
		c.Compression = rpc.CRPCCompZLIB
		var zb bytes.Buffer
		z := zlib.NewWriter(&zb)
		z.Write(pb.Bytes())
		z.Close()
		pb = zb
	}
	_, err := xdr.Marshal(&bb, c)
	must(err)
	bb.Write(pb.Bytes())
	return p.seal(bb.Bytes())
}

func (p *clPeer) seal(b []byte) []byte {
	p.mtx.Lock()
	defer p.mtx.Unlock()
	ct, err := p.r.Encrypt(nil, b)
	must(err)
	return ct
}

// tell sends the client a message from the peer.
func (w *clWorld) tell(p *clPeer, cmd string, payload interface{}) *clMsg {
	return w.deliver(p.id.Public.Identity, p.crpc(cmd, payload, w.bar%2 == 0), false)
}

// ---------------------------------------------------------------- observation

// log is what the conversation shows, without the time.
func (w *clWorld) log(glob string) []string {
	fs, _ := filepath.Glob(filepath.Join(w.home, "logs", glob))
	var out []string
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "T ") {
				out = append(out, l[2:])
			}
		}
	}
	return out
}

func (w *clWorld) pmLog(nick string) []string {
	return w.log(nick + "." + svHost + "." + hex.EncodeToString(clID(nick).Public.Identity[:]) + ".log")
}

func (w *clWorld) console() string {
	b, _ := os.ReadFile(filepath.Join(w.root, "console.log"))
	return string(b)
}

// settle waits until everything that was to be handled before has been handled.
func (w *clWorld) settle() bool {
	if !w.alive() {
		return w.dead
	}
	w.mu.Lock()
	on := w.kx != nil && !w.deaf
	w.mu.Unlock()
	if on && !w.until(func() bool { return len(w.store) == 0 || w.kx == nil }) {
		return false
	}
	tok, ok := w.echo()
	if !ok || !on {
		return ok
	}
	return w.until(func() bool {
		for i := len(w.got) - 1; i >= 0; i-- {
			if g := w.got[i]; g.to != nil && g.to.name == clBar && g.cmd == rpc.CRPCCmdPrivateMessage && pmText(g.payload) == tok {
				return true
			}
		}
		return w.kx == nil
	})
}

// echo waits until what was typed before has been done.
func (w *clWorld) echo() (string, bool) {
	w.bar++
	tok := fmt.Sprintf("bar%d", w.bar)
	w.typ("/m " + clBar + " " + tok)
	line := fmt.Sprintf("<%v> %v", clSelf, tok)
	return tok, w.until(func() bool {
		for _, l := range w.pmLog(clBar) {
			if l == line {
				return true
			}
		}
		return false
	})
}

func pmText(b []byte) string {
	var pm rpc.PrivateMessage
	if _, err := xdr.Unmarshal(bytes.NewReader(b), &pm); err != nil {
		return "?"
	}
	return pm.Text
}

// cut ends the session and waits until the client has noticed.
func (w *clWorld) cut() bool {
	n := w.closings()
	w.mu.Lock()
	w.drop()
	w.refuse = true
	w.mu.Unlock()
	return w.until(func() bool { return w.closings() > n })
}

func (w *clWorld) closings() int {
	c := w.console()
	return strings.Count(c, "server connection closed") + strings.Count(c, "connection error")
}

// online makes the client connect again.
func (w *clWorld) online() bool {
	w.mu.Lock()
	n := w.sess
	w.refuse = false
	w.mu.Unlock()
	w.typ("/online")
	return w.until(func() bool { return w.sess > n && w.kx != nil })
}
