package main

// Drives a real zkserver process with clients of its protocol.

import (
	"bytes"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/socketapi"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	commands["server"] = cmdServer
}

const (
	svTimeout = 40 * time.Second // an answer that takes longer is missing
	svPinger  = 31               // tag of the client's own keepalive
	svDepth   = 32
	svEvil    = 7 // tags below are for requests that are not valid
)

// identities are expensive, they are shared by all behaviours of a process
var (
	svIDs   = map[string]*zkidentity.FullIdentity{}
	svIDMtx sync.Mutex
	kxMtx   sync.Mutex // the package keeps the initiator's ephemeral keys in globals
)

func svIdentity(who, nick string) *zkidentity.FullIdentity {
	svIDMtx.Lock()
	defer svIDMtx.Unlock()
	id, ok := svIDs[who+"/"+nick]
	if ok {
		return id
	}
	for k, v := range svIDs { // same keys, another nick
		if strings.HasPrefix(k, who+"/") {
			c := *v
			c.Public.Nick = nick
			must(c.RecalculateDigest())
			svIDs[who+"/"+nick] = &c
			return &c
		}
	}
	id, err := zkidentity.New("name of "+who, nick)
	must(err)
	svIDs[who+"/"+nick] = id
	return id
}

// ---------------------------------------------------------------- server

type svProc struct {
	bin, root, cfg string
	port           int
	policy         string
	dir            bool
	cmd            *exec.Cmd
	done           chan struct{}
	expected       bool // we killed it
}

type svDown string // the server cannot be started

// an address of our own, so that no one else takes the port between choosing and using it
var svHost = func() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+p>>16&63, p>>8&255, 1+p&127+(p>>7&1)*127)
}()

func freePort() int {
	l, err := net.Listen("tcp", svHost+":0")
	must(err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func yesno(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

func (s *svProc) start() {
	for try := 0; ; try++ {
		s.port = freePort()
		cfg := fmt.Sprintf("root = %v\nusers = %v\nlisten = %v:%v\nallowidentify = yes\ncreatepolicy = %v\ndirectory = %v\nmotd = %v\n[log]\nlogfile = %v\ndebug = no\n",
			s.root, filepath.Join(s.root, "home"), svHost, s.port, s.policy, yesno(s.dir), filepath.Join(s.root, "motd.txt"), filepath.Join(s.root, "zkserver.log"))
		s.cfg = filepath.Join(s.root, "zkserver.conf")
		must(os.WriteFile(s.cfg, []byte(cfg), 0600))
		var eb bytes.Buffer
		s.cmd = exec.Command(s.bin, "-cfg", s.cfg)
		s.cmd.Dir = s.root
		s.cmd.Stdout, s.cmd.Stderr = &eb, &eb
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		must(s.cmd.Start())
		done := make(chan struct{})
		s.done = done
		s.expected = false
		cmd := s.cmd
		go func() { cmd.Wait(); os.WriteFile(filepath.Join(s.root, "stderr"), eb.Bytes(), 0600); close(done) }()
		deadline := time.Now().Add(svTimeout)
		for {
			c, err := net.Dial("tcp", s.addr())
			if err == nil {
				c.Close()
				return
			}
			select {
			case <-done:
				if try < 5 && strings.Contains(eb.String(), "could not listen") {
					goto again
				}
				panic(svDown("server does not start: " + eb.String()))
			default:
			}
			if time.Now().After(deadline) {
				panic(svDown("server does not come up"))
			}
			time.Sleep(2 * time.Millisecond)
		}
	again:
	}
}

func (s *svProc) addr() string { return svHost + ":" + strconv.Itoa(s.port) }

func (s *svProc) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *svProc) stop(sig syscall.Signal) {
	s.expected = true
	s.cmd.Process.Signal(sig)
	select {
	case <-s.done:
	case <-time.After(10 * time.Second):
		s.cmd.Process.Kill()
		<-s.done
	}
}

// ---------------------------------------------------------------- run

type svRun struct {
	sv      *svProc
	mu      sync.Mutex
	evs     []M
	call    map[int]M // call events by operation
	nop     int
	nsid    int
	msgs    map[string][]int // payload -> messages (empty ones are told apart by recipient)
	nmsg    int
	cur     map[string]*svClient
	toks    map[string]string
	pins    map[string]string // blob -> pin
	blobs   map[string]string // content -> blob
	nick    map[string]string
	held    []net.Conn
	rnd     *rand.Rand
	stuck   bool
	fault   bool // faults are being injected
	gen     int
	crowd   int
	lastOut *svClient
}

func (r *svRun) ev(e M) {
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
}

func (r *svRun) rand(n int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rnd.Intn(n)
}

// begin logs a call; its result is filled in once it is known.
func (r *svRun) begin(kind string, e M) (int, M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.beginLocked(kind, e)
}

func (r *svRun) beginLocked(kind string, e M) (int, M) {
	r.nop++
	e["op"], e["kind"], e["id"], e["res"] = "call", kind, r.nop, "dead"
	for _, f := range []string{"u", "v", "k", "x"} {
		if e[f] == nil {
			e[f] = ""
		}
	}
	for _, f := range []string{"sid", "m"} {
		if e[f] == nil {
			e[f] = 0
		}
	}
	if e["b"] == nil {
		e["b"] = false
	}
	if e["f"] == nil {
		e["f"] = r.fault
	}
	r.evs = append(r.evs, e)
	return r.nop, e
}

func (r *svRun) end(id int, e M, res, x string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	e["res"], e["x"] = res, x
	r.evs = append(r.evs, M{"op": "ret", "id": id, "res": res, "kind": e["kind"]})
	if res == "timeout" {
		r.stuck = true
	}
}

// ---------------------------------------------------------------- client

type svOut struct {
	tag uint32
	m   int
}

type svReply struct {
	msg  rpc.Message
	body []byte
}

type svClient struct {
	r    *svRun
	u    string
	sid  int
	kx   *session.KX
	conn *svConn

	wmu   sync.Mutex // order of writes is order of calls
	mu    sync.Mutex
	wait  map[uint32]chan svReply
	free  []uint32
	out   []svOut
	seen  map[int]bool
	dead  chan struct{}
	kick  chan struct{}
	pause chan struct{} // reader stops while set
	bye   bool
	evil  bool // has sent what it should not
}

var tlsConf = &tls.Config{InsecureSkipVerify: true}

func marshalMsg(cmd string, tag uint32, payload interface{}) []byte {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.Message{Command: cmd, Tag: tag})
	must(err)
	if payload != nil {
		_, err = xdr.Marshal(&bb, payload)
		must(err)
	}
	return bb.Bytes()
}

// svConn does not wait forever for the server to read.
type svConn struct {
	*tls.Conn
	d time.Duration
}

func (c *svConn) Write(b []byte) (int, error) {
	c.SetWriteDeadline(time.Now().Add(c.d))
	return c.Conn.Write(b)
}

func dialTLS(addr string) (net.Conn, error) {
	d := net.Dialer{Timeout: 10 * time.Second}
	return tls.DialWithDialer(&d, "tcp", addr, tlsConf)
}

// connect performs the handshake and reads the first answer.
func (r *svRun) connect(u string) (kx *session.KX, res string) {
	tc, err := dialTLS(r.sv.addr())
	if err != nil {
		return nil, "closed"
	}
	conn := &svConn{tc.(*tls.Conn), svTimeout}
	conn.SetReadDeadline(time.Now().Add(svTimeout))
	// as the client does, learn the server's identity first
	var sid zkidentity.PublicIdentity
	if _, err = xdr.Marshal(conn, rpc.InitialCmdIdentify); err == nil {
		_, err = xdr.Unmarshal(conn, &sid)
	}
	if err == nil {
		_, err = xdr.Marshal(conn, rpc.InitialCmdSession)
	}
	if err != nil {
		conn.Close()
		return nil, "closed"
	}
	id := svIdentity(u, "n")
	kx = &session.KX{Conn: conn, MaxMessageSize: uint(rpc.PropMaxMsgSizeDefault), OurPublicKey: &id.Public.Key, OurPrivateKey: &id.PrivateKey, TheirPublicKey: &sid.Key}
	kxMtx.Lock()
	err = kx.Initiate()
	kxMtx.Unlock()
	if err != nil {
		conn.Close()
		return nil, "closed"
	}
	b, err := kx.Read()
	if err != nil {
		conn.Close()
		if err == io.EOF || strings.Contains(err.Error(), "EOF") || strings.Contains(err.Error(), "reset") {
			return nil, "unknown"
		}
		return nil, "closed"
	}
	var m rpc.Message
	br := bytes.NewReader(b)
	if _, err = xdr.Unmarshal(br, &m); err != nil {
		conn.Close()
		return nil, "badwelcome"
	}
	switch m.Command {
	case rpc.SessionCmdWelcome:
		var w rpc.Welcome
		if _, err = xdr.Unmarshal(br, &w); err != nil {
			conn.Close()
			return nil, "badwelcome"
		}
		want := map[string]string{rpc.PropTagDepth: strconv.Itoa(svDepth), rpc.PropMaxMsgSize: strconv.FormatUint(rpc.PropMaxMsgSizeDefault, 10),
			rpc.PropDirectory: strconv.FormatBool(r.sv.dir), rpc.PropMaxChunkSize: strconv.FormatUint(rpc.PropMaxChunkSizeDefault, 10)}
		for _, p := range w.Properties {
			if v, ok := want[p.Key]; ok && v != p.Value {
				conn.Close()
				return nil, "badwelcome"
			}
			delete(want, p.Key)
		}
		if len(want) > 0 || w.Version != rpc.ProtocolVersion {
			conn.Close()
			return nil, "badwelcome"
		}
		conn.SetDeadline(time.Time{})
		return kx, "ok"
	case rpc.SessionCmdUnwelcome:
		conn.Close()
		return nil, "unwelcome"
	}
	conn.Close()
	return nil, "badwelcome"
}

func (r *svRun) newClient(u string, sid int, kx *session.KX) *svClient {
	c := &svClient{r: r, u: u, sid: sid, kx: kx, conn: kx.Conn.(*svConn), wait: map[uint32]chan svReply{}, seen: map[int]bool{}, dead: make(chan struct{}), kick: make(chan struct{}, 1)}
	for i := uint32(svEvil); i < svPinger; i++ {
		c.free = append(c.free, i)
	}
	go c.reader()
	go func() {
		for {
			select {
			case <-c.dead:
				return
			case <-time.After(3 * time.Second):
				c.wmu.Lock()
				c.kx.Write(marshalMsg(rpc.TaggedCmdPing, svPinger, rpc.Ping{}))
				c.wmu.Unlock()
			}
		}
	}()
	return c
}

func (c *svClient) reader() {
	for {
		c.mu.Lock()
		p := c.pause
		c.mu.Unlock()
		if p != nil {
			select {
			case <-p:
			case <-c.dead:
			}
		}
		b, err := c.kx.Read()
		if err != nil {
			c.mu.Lock()
			if !c.bye {
				c.r.ev(M{"op": "eof", "sid": c.sid, "u": c.u})
			}
			close(c.dead)
			c.mu.Unlock()
			c.conn.Close()
			return
		}
		var m rpc.Message
		br := bytes.NewReader(b)
		if _, err = xdr.Unmarshal(br, &m); err != nil {
			c.r.ev(M{"op": "garbage", "sid": c.sid})
			continue
		}
		if m.Command == rpc.TaggedCmdPush {
			var p rpc.Push
			if _, err = xdr.Unmarshal(br, &p); err != nil {
				c.r.ev(M{"op": "garbage", "sid": c.sid})
				continue
			}
			c.push(m, p)
			continue
		}
		if m.Tag == svPinger && m.Command == rpc.TaggedCmdPong {
			continue
		}
		c.mu.Lock()
		ch := c.wait[m.Tag]
		delete(c.wait, m.Tag)
		left, evil := c.bye, c.evil
		c.mu.Unlock()
		if ch == nil {
			if left || evil && m.Tag < svEvil {
				continue
			}
			c.r.ev(M{"op": "garbage", "sid": c.sid, "what": m.Command, "tag": m.Tag})
			continue
		}
		rest, _ := io.ReadAll(br)
		ch <- svReply{m, rest}
	}
}

// push logs the message a push carries: the first of those with this content
// from this sender that has not been seen in this session.
func (c *svClient) push(m rpc.Message, p rpc.Push) {
	r := c.r
	from := "?"
	svIDMtx.Lock()
	for k, id := range svIDs {
		if id.Public.Identity == p.From {
			from = strings.SplitN(k, "/", 2)[0]
		}
	}
	svIDMtx.Unlock()
	kind := "cache"
	if m.Cleartext {
		kind = "proxy"
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	r.mu.Lock()
	mid := 0
	for _, i := range r.msgs[string(p.Payload)] {
		if mid == 0 || !c.seen[i] && c.seen[mid] {
			mid = i
		}
	}
	c.seen[mid] = true
	r.evs = append(r.evs, M{"op": "push", "sid": c.sid, "u": c.u, "t": int(m.Tag), "m": mid, "v": from, "kind": kind})
	r.mu.Unlock()
	c.out = append(c.out, svOut{m.Tag, mid})
	select {
	case c.kick <- struct{}{}:
	default:
	}
}

func (c *svClient) alive() bool {
	select {
	case <-c.dead:
		return false
	default:
		return true
	}
}

// request sends a command and waits for its reply.
func (c *svClient) request(kind, cmd string, e M, payload interface{}, f func(svReply) (string, string)) string {
	e["u"], e["sid"] = c.u, c.sid
	ch := make(chan svReply, 1)
	c.wmu.Lock()
	c.mu.Lock()
	if len(c.free) == 0 || c.r.stuck {
		c.mu.Unlock()
		c.wmu.Unlock()
		return "busy"
	}
	tag := c.free[0]
	c.free = c.free[1:]
	c.wait[tag] = ch
	c.mu.Unlock()
	id, e := c.r.begin(kind, e)
	c.kx.Write(marshalMsg(cmd, tag, payload))
	c.wmu.Unlock()
	return c.finish(id, e, tag, ch, f)
}

func (c *svClient) finish(id int, e M, tag uint32, ch chan svReply, f func(svReply) (string, string)) string {
	res, x := "", ""
	select {
	case rep := <-ch:
		res, x = f(rep)
	case <-c.dead:
		select {
		case rep := <-ch:
			res, x = f(rep)
		default:
			res = "dead"
		}
	case <-time.After(svTimeout):
		res = "timeout"
		c.r.stuck = true // enough is known
	}
	c.r.end(id, e, res, x)
	c.mu.Lock()
	c.free = append(c.free, tag)
	c.mu.Unlock()
	return res
}

func ackRes(rep svReply) (string, string) {
	var a rpc.Acknowledge
	if rep.msg.Command != rpc.TaggedCmdAcknowledge {
		return "bad:" + rep.msg.Command, ""
	}
	if _, err := xdr.Unmarshal(bytes.NewReader(rep.body), &a); err != nil {
		return "bad", ""
	}
	if a.Error == "" {
		return "ok", ""
	}
	if a.ErrorCode == rpc.ErrorCodeUserDisabled {
		return "disabled", ""
	}
	return "refused", ""
}

func (c *svClient) ping() string {
	return c.request("ping", rpc.TaggedCmdPing, M{}, rpc.Ping{}, func(r svReply) (string, string) {
		if r.msg.Command != rpc.TaggedCmdPong {
			return "bad:" + r.msg.Command, ""
		}
		return "ok", ""
	})
}

var sizeClasses = []int{8, 100, 4096, 40000, 65536, int(rpc.PropMaxChunkSizeDefault)}

// sizes around the largest command the client may send
func nearMax(k int) int {
	hdr := len(marshalMsg(rpc.TaggedCmdCache, 0, rpc.Cache{}))
	return int(rpc.PropMaxMsgSizeDefault) - 16 - hdr - k
}

func (r *svRun) payload(n int) (int, []byte, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nmsg++
	size, big := 0, false
	switch {
	case n >= 100: // close to the maximum
		size = nearMax(n - 100)
		big = true
	case n < 0: // nothing at all
		r.msgs[""] = append(r.msgs[""], r.nmsg)
		return r.nmsg, nil, false
	default:
		size = sizeClasses[n%len(sizeClasses)]
	}
	b := make([]byte, size)
	rand.New(rand.NewSource(int64(r.nmsg)*7919 + seed)).Read(b)
	binary.BigEndian.PutUint32(b, uint32(r.nmsg))
	r.msgs[string(b)] = append(r.msgs[string(b)], r.nmsg)
	return r.nmsg, b, big
}

func (c *svClient) send(v string, kind string, n int) string {
	m, b, big := c.r.payload(n)
	to := svIdentity(v, "n").Public.Identity
	e := M{"v": v, "k": kind, "m": m, "b": big}
	if kind == "proxy" {
		return c.request("send", rpc.TaggedCmdProxy, e, rpc.Proxy{To: to, Payload: b}, func(rep svReply) (string, string) {
			var p rpc.ProxyReply
			if rep.msg.Command != rpc.TaggedCmdProxyReply {
				return "bad:" + rep.msg.Command, ""
			}
			if _, err := xdr.Unmarshal(bytes.NewReader(rep.body), &p); err != nil || p.To != to {
				return "bad", ""
			}
			if p.Error != "" {
				return "refused", ""
			}
			return "ok", ""
		})
	}
	return c.request("send", rpc.TaggedCmdCache, e, rpc.Cache{To: to, Payload: b}, ackRes)
}

// ack acknowledges the i-th outstanding push.
func (c *svClient) ack(i int) bool {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.mu.Lock()
	if len(c.out) == 0 || !c.alive() {
		c.mu.Unlock()
		return false
	}
	i %= len(c.out)
	o := c.out[i]
	c.out = append(c.out[:i:i], c.out[i+1:]...)
	c.mu.Unlock()
	c.r.ev(M{"op": "ack", "sid": c.sid, "u": c.u, "t": int(o.tag), "m": o.m})
	c.kx.Write(marshalMsg(rpc.TaggedCmdAcknowledge, o.tag, rpc.Acknowledge{}))
	return true
}

// badAck acknowledges a tag that is not outstanding.
func (c *svClient) badAck(n int) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.mu.Lock()
	used := map[uint32]bool{}
	for _, o := range c.out {
		used[o.tag] = true
	}
	c.mu.Unlock()
	var free []uint32
	for t := uint32(0); t < svDepth; t++ {
		if !used[t] {
			free = append(free, t)
		}
	}
	if len(free) == 0 {
		return
	}
	t := free[n%len(free)]
	c.r.ev(M{"op": "ack", "sid": c.sid, "u": c.u, "t": int(t), "m": 0})
	c.kx.Write(marshalMsg(rpc.TaggedCmdAcknowledge, t, rpc.Acknowledge{}))
}

// fence sends a message to oneself and acknowledges everything until it arrives.
func (c *svClient) fence(order int) bool {
	if c.send(c.u, "cache", 0) != "ok" {
		return false
	}
	c.r.mu.Lock()
	want := c.r.nmsg
	c.r.mu.Unlock()
	// other senders may be active: find our own message
	c.r.mu.Lock()
	for i := len(c.r.evs) - 1; i >= 0; i-- {
		e := c.r.evs[i]
		if e["op"] == "call" && e["kind"] == "send" && e["sid"] == c.sid && e["v"] == c.u {
			want = e["m"].(int)
			break
		}
	}
	c.r.mu.Unlock()
	deadline := time.After(svTimeout)
	for {
		c.mu.Lock()
		got := false
		for _, o := range c.out {
			if o.m == want {
				got = true
			}
		}
		n := len(c.out)
		c.mu.Unlock()
		if got {
			return true
		}
		if n > 0 && (order != 2 || n == svDepth || c.r.rand(4) == 0) {
			i := 0
			if order == 1 {
				i = n - 1
			} else if order == 2 {
				i = c.r.rand(n)
			}
			if !c.ack(i) {
				return false
			}
			continue
		}
		select {
		case <-c.kick:
		case <-time.After(20 * time.Millisecond):
		case <-c.dead:
			return false
		case <-deadline:
			c.r.ev(M{"op": "stuck", "what": "queued messages are not pushed", "u": c.u, "sid": c.sid})
			c.r.mu.Lock()
			c.r.stuck = true
			c.r.mu.Unlock()
			return false
		}
	}
}

// login tries until the user is in, refused, or out of time.
func (r *svRun) login(u string, once bool) *svClient {
	deadline := time.Now().Add(svTimeout)
	for {
		r.mu.Lock()
		r.nsid++
		sid := r.nsid
		id, e := r.beginLocked("login", M{"u": u, "sid": sid})
		r.mu.Unlock()
		gen := r.generation()
		kx, res := r.connect(u)
		if res == "unknown" && gen != r.generation() {
			res = "closed" // the server went away
		}
		if res == "ok" {
			c := r.newClient(u, sid, kx)
			c.mu.Lock()
			c.bye = true // its end is no event before it is in
			c.mu.Unlock()
			ch := make(chan svReply, 1)
			c.wmu.Lock()
			c.mu.Lock()
			c.wait[30] = ch
			c.free = c.free[:len(c.free)-1] // 30
			c.mu.Unlock()
			c.kx.Write(marshalMsg(rpc.TaggedCmdPing, 30, rpc.Ping{}))
			c.wmu.Unlock()
			select {
			case rep := <-ch:
				if rep.msg.Command == rpc.TaggedCmdPong {
					c.mu.Lock()
					c.free = append(c.free, 30)
					r.end(id, e, "ok", "")
					if e["f"] == true {
						r.ev(M{"op": "bad", "sid": c.sid, "u": u, "what": "fault"})
					}
					if c.alive() {
						c.bye = false
					} else {
						r.ev(M{"op": "eof", "sid": c.sid, "u": c.u})
					}
					c.mu.Unlock()
					r.mu.Lock()
					r.cur[u] = c
					r.mu.Unlock()
					return c
				}
				res = "badwelcome"
			case <-c.dead:
				res = "closed"
			case <-time.After(svTimeout):
				res = "timeout"
			}
			c.conn.Close()
			<-c.dead
		}
		r.end(id, e, res, "")
		if res != "closed" || once {
			return nil
		}
		if !r.sv.alive() {
			return nil // noticed elsewhere
		}
		if time.Now().After(deadline) {
			r.ev(M{"op": "stuck", "what": "login", "u": u})
			r.mu.Lock()
			r.stuck = true
			r.mu.Unlock()
			return nil
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (r *svRun) generation() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.gen
}

func (r *svRun) client(u string) *svClient {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.cur[u]
	if c == nil || !c.alive() {
		return nil
	}
	return c
}

func (r *svRun) online() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var us []string
	for u := range r.cur {
		us = append(us, u)
	}
	sort.Strings(us)
	return us
}

func (r *svRun) bye(c *svClient) {
	c.mu.Lock()
	if !c.bye && c.alive() {
		c.bye = true
		r.ev(M{"op": "bye", "sid": c.sid, "u": c.u})
	}
	c.mu.Unlock()
	c.conn.Close()
	<-c.dead
	r.mu.Lock()
	if r.cur[c.u] == c {
		delete(r.cur, c.u)
	}
	r.mu.Unlock()
}

// ---------------------------------------------------------------- accounts

func (r *svRun) token(k string, expired bool) {
	if expired {
		db, err := inidb.New(filepath.Join(r.sv.root, "pending", "pending.ini"), true, 10)
		if db == nil {
			panic(err)
		}
		t := fmt.Sprintf("%016d", 4000000000000000+r.rand(1000000000))
		must(db.Set("", t, strconv.FormatInt(time.Now().Unix()-int64(1+r.rand(100000)), 10)))
		must(db.Save())
		r.toks[k] = t
		r.ev(M{"op": "token", "k": k, "b": true})
		return
	}
	out, err := exec.Command(filepath.Join(filepath.Dir(r.sv.bin), "zkservertoken"), "-cfg", r.sv.cfg).Output()
	must(err)
	r.toks[k] = strings.Replace(strings.TrimSpace(string(out)), " ", "", -1)
	r.ev(M{"op": "token", "k": k, "b": false})
}

func (r *svRun) create(u, nick, tok, how string) string {
	pid := svIdentity(u, nick).Public
	bad := false
	switch how {
	case "badsig":
		pid.Signature[5] ^= 1
		bad = true
	case "badhandle":
		pid.Identity[3] ^= 4
		bad = true
	case "badnick":
		pid.Nick += "x"
		bad = true
	}
	t, ok := r.toks[tok]
	if !ok {
		t = map[string]string{"": "", "bogus": "1234567890123456", "word": "password", "crlf": "1\n2", "eq": "a = b"}[tok]
	}
	id, e := r.begin("create", M{"u": u, "x": "", "k": nick, "v": tok, "b": bad})
	res := func() string {
		conn, err := dialTLS(r.sv.addr())
		if err != nil {
			return "dead"
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(svTimeout))
		xdr.Marshal(conn, rpc.InitialCmdCreateAccount)
		xdr.Marshal(conn, rpc.CreateAccount{Token: t, PublicIdentity: pid})
		var rep rpc.CreateAccountReply
		if _, err = xdr.Unmarshal(conn, &rep); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return "timeout"
			}
			return "dead"
		}
		if rep.Error == "" {
			return "ok"
		}
		return "refused"
	}()
	r.end(id, e, res, "")
	return res
}

// admin sends a request to the administrative socket.
func (r *svRun) admin(kind, u, how string) string {
	ident := ""
	id32 := svIdentity(u, "n").Public.Identity
	ident = hex.EncodeToString(id32[:])
	target := u
	switch how {
	case "upper":
		ident = strings.ToUpper(ident)
	case "short":
		ident, target = ident[:20], ""
	case "odd":
		ident, target = ident[:63], ""
	case "long":
		ident, target = ident+"00", ""
	case "empty":
		ident, target = "", ""
	case "path":
		ident, target = "../"+ident, ""
	}
	id, e := r.begin(kind, M{"u": target})
	res := func() string {
		c, err := net.Dial("unix", filepath.Join(r.sv.root, socketapi.SocketFilename))
		if err != nil {
			return "dead"
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(svTimeout))
		je := json.NewEncoder(c)
		je.Encode(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: map[string]string{"disable": socketapi.SCUserDisable, "enable": socketapi.SCUserEnable}[kind]})
		if kind == "disable" {
			je.Encode(socketapi.SocketCommandUserDisable{Identity: ident})
		} else {
			je.Encode(socketapi.SocketCommandUserEnable{Identity: ident})
		}
		var rep struct {
			Error *string `json:"error"`
		}
		if err := json.NewDecoder(c).Decode(&rep); err != nil || rep.Error == nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return "timeout"
			}
			return "dead"
		}
		if *rep.Error == "" {
			return "ok"
		}
		return "error"
	}()
	r.end(id, e, res, "")
	return res
}

func (r *svRun) find(c *svClient, nick, how string) {
	switch how { // not the same nick
	case "upper":
		nick = strings.ToUpper(nick)
	case "title":
		nick = strings.Title(nick)
	case "space":
		nick += " "
	case "lead":
		nick = " " + nick
	case "nul":
		nick += "\x00"
	case "shorter":
		nick = nick[:len(nick)-1]
	case "longer":
		nick += "0"
	case "twice":
		nick += nick
	}
	c.request("find", rpc.TaggedCmdIdentityFind, M{"k": nick}, rpc.IdentityFind{Nick: nick}, func(rep svReply) (string, string) {
		var f rpc.IdentityFindReply
		if rep.msg.Command != rpc.TaggedCmdIdentityFindReply {
			return "bad:" + rep.msg.Command, ""
		}
		if _, err := xdr.Unmarshal(bytes.NewReader(rep.body), &f); err != nil || f.Nick != nick {
			return "bad", ""
		}
		if f.Error != "" {
			if f.Identity != (zkidentity.PublicIdentity{}) {
				return "bad", ""
			}
			return "none", ""
		}
		if !f.Identity.Verify() {
			return "bad", ""
		}
		svIDMtx.Lock()
		defer svIDMtx.Unlock()
		for k, id := range svIDs {
			if id.Public == f.Identity && strings.HasSuffix(k, "/"+nick) {
				return "ok", strings.SplitN(k, "/", 2)[0]
			}
		}
		return "bad", ""
	})
}

func (r *svRun) upload(c *svClient, blob string, n int, exp string) {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(len(blob))*31 + seed)).Read(b)
	copy(b, blob)
	if n < len(blob) {
		blob = fmt.Sprintf("tiny%d", n)
		b = []byte(blob)[:n]
		blob = "tiny:" + string(b)
	}
	r.mu.Lock()
	r.blobs[string(b)] = blob
	r.mu.Unlock()
	hrs, err := strconv.ParseUint(exp, 10, 64)
	bad := n > 4096 || err != nil || hrs > 168
	c.request("upload", rpc.TaggedCmdRendezvous, M{"k": blob, "b": bad, "f": r.fault || r.crowd > 0}, rpc.Rendezvous{Blob: b, Expiration: exp}, func(rep svReply) (string, string) {
		var f rpc.RendezvousReply
		if rep.msg.Command != rpc.TaggedCmdRendezvousReply {
			return "bad:" + rep.msg.Command, ""
		}
		if _, err := xdr.Unmarshal(bytes.NewReader(rep.body), &f); err != nil {
			return "bad", ""
		}
		if f.Error != "" {
			return "refused", ""
		}
		r.mu.Lock()
		r.pins[blob] = f.Token
		r.mu.Unlock()
		if n, err := strconv.ParseUint(f.Token, 10, 64); err == nil && r.crowded(n) && f.Token == strconv.FormatUint(n, 10) {
			return "ok", "crowd"
		}
		return "ok", f.Token
	})
}

// crowd fills the store of rendezvous blobs: all PINs, or all but every n-th,
// are taken.
func (r *svRun) crowd1(n int) {
	r.sv.stop(syscall.SIGTERM)
	r.crowd = n
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, rpc.Rendezvous{Blob: []byte("crowd"), Expiration: "24"})
	must(err)
	v := base64.StdEncoding.EncodeToString(b.Bytes())
	db, err := inidb.New(filepath.Join(r.sv.root, "rendezvous", "rendezvous.ini"), true, 10)
	if db == nil {
		panic(err)
	}
	for i := uint64(0); i < 1000000; i++ {
		if r.crowded(i) {
			must(db.Set("", strconv.FormatUint(i, 10), v))
		}
	}
	must(db.Save())
	r.blobs["crowd"] = "crowd"
	r.ev(M{"op": "crowd"})
	r.sv.start()
}

func (r *svRun) crowded(i uint64) bool {
	return r.crowd == 1 || r.crowd > 1 && i%uint64(r.crowd) != 0
}

func (r *svRun) pull(c *svClient, pin string) {
	k := pin
	if r.crowd > 0 && pin == "crowd" {
		for pin = "0"; !r.crowded(uint64(atoi(pin))); {
			pin = strconv.Itoa(r.rand(1000000))
		}
	}
	c.request("pull", rpc.TaggedCmdRendezvousPull, M{"k": k}, rpc.RendezvousPull{Token: pin}, func(rep svReply) (string, string) {
		var f rpc.RendezvousPullReply
		if rep.msg.Command != rpc.TaggedCmdRendezvousPullReply {
			return "bad:" + rep.msg.Command, ""
		}
		if _, err := xdr.Unmarshal(bytes.NewReader(rep.body), &f); err != nil {
			return "bad", ""
		}
		if f.Error != "" {
			if len(f.Blob) > 0 {
				return "bad", ""
			}
			return "none", ""
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		blob, ok := r.blobs[string(f.Blob)]
		if !ok || f.Token != pin {
			return "bad", ""
		}
		return "ok", blob
	})
}

// ---------------------------------------------------------------- faults

// downFor replaces the directory below root by a file so that databases in it
// can neither be read nor written, and undoes it.
func (r *svRun) downFor(dir string, f func()) {
	p := filepath.Join(r.sv.root, dir)
	aside := p + ".aside"
	had := os.Rename(p, aside) == nil
	must(os.WriteFile(p, nil, 0600))
	f()
	must(os.Remove(p))
	if had {
		must(os.Rename(aside, p))
	}
}

// injected runs f while the server's system calls fail or kill it.
func (r *svRun) injected(inject string, f func()) bool {
	log := filepath.Join(r.sv.root, "strace.log")
	os.Remove(log)
	cmd := exec.Command("strace", "-f", "-qq", "-o", log, "-e", "trace="+strings.SplitN(inject, ":", 2)[0], "-e", "inject="+inject, "-p", strconv.Itoa(r.sv.cmd.Process.Pid))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if cmd.Start() != nil {
		return false
	}
	// attached once the server has a tracer
	for i := 0; i < 500; i++ {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", r.sv.cmd.Process.Pid))
		if !strings.Contains(string(b), "TracerPid:\t0") {
			break
		}
		time.Sleep(4 * time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond)
	f()
	cmd.Process.Signal(syscall.SIGINT)
	t := time.AfterFunc(5*time.Second, func() { cmd.Process.Kill() }) // it may wait for what is gone
	cmd.Wait()
	t.Stop()
	return true
}

// ---------------------------------------------------------------- behaviours

// faulty announces that the next operation meets a fault; sessions may end of it.
func (r *svRun) faulty() {
	r.fault = true
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.cur {
		r.evs = append(r.evs, M{"op": "bad", "sid": c.sid, "u": c.u, "what": "fault"})
	}
}

func (r *svRun) step(o Op) {
	switch o.Op {
	case "token":
		r.token(o.K, o.B)
	case "create":
		r.create(o.P, o.Q, o.K, o.V)
	case "login":
		if c := r.client(o.P); c != nil && o.K == "keep" {
			return
		}
		r.login(o.P, r.fault)
	case "disable", "enable":
		r.admin(o.Op, o.P, o.V)
	case "crash", "restart":
		sig := syscall.SIGKILL
		id, e := r.begin("crash", M{})
		r.mu.Lock()
		r.gen++
		r.mu.Unlock()
		if o.Op == "restart" {
			sig = syscall.SIGTERM
		}
		r.sv.stop(sig)
		if o.K != "" {
			r.sv.policy = o.K
			r.sv.dir = o.B
		}
		r.sv.start()
		e["k"], e["b"] = r.sv.policy, r.sv.dir
		r.end(id, e, "ok", "")
	case "crowd":
		r.crowd1(o.N)
	case "wait":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
	case "outsider":
		r.outsider(o)
	case "socket":
		r.socket(o)
	default:
		c := r.client(o.P)
		if c == nil {
			return
		}
		r.clientStep(c, o)
	}
}

func (r *svRun) clientStep(c *svClient, o Op) {
	switch o.Op {
	case "logout":
		if o.K == "abrupt" {
			c.conn.NetConn().(*net.TCPConn).SetLinger(0)
		}
		r.bye(c)
	case "send":
		for i := 0; i <= o.I; i++ {
			c.send(o.Q, o.K, o.N)
		}
	case "burst": // without waiting for the replies
		var wg sync.WaitGroup
		for i := 0; i < o.I; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); c.send(o.Q, o.K, o.N) }()
		}
		wg.Wait()
	case "recv": // wait for pushes without acknowledging
		deadline := time.Now().Add(time.Duration(o.N) * time.Millisecond)
		for time.Now().Before(deadline) && c.alive() {
			c.mu.Lock()
			n := len(c.out)
			c.mu.Unlock()
			if n >= o.I {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		time.Sleep(5 * time.Millisecond)
		c.ping()
	case "ack":
		for i := 0; i <= o.I; i++ {
			c.ack(o.N)
		}
		if o.B {
			c.ping()
		}
	case "fence":
		c.fence(o.N)
	case "badack":
		if c.fence(2) {
			for i := 0; i <= o.I; i++ {
				c.badAck(o.N + 7*i)
			}
			c.ping()
		}
	case "ping":
		c.ping()
	case "find":
		r.find(c, o.K, o.V)
	case "upload":
		r.upload(c, o.K, o.N, o.V)
	case "pull":
		r.mu.Lock()
		pin, ok := r.pins[o.K]
		r.mu.Unlock()
		if !ok {
			pin = o.K
		}
		r.pull(c, pin)
	case "hostile":
		r.hostile(c, o)
	default:
		panic("unknown operation " + o.Op)
	}
}

// guard logs that the server could not be started again.
func (r *svRun) guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			d, ok := e.(svDown)
			if !ok {
				panic(e)
			}
			r.ev(M{"op": "died", "what": tailStr(string(d), 1500)})
			r.mu.Lock()
			r.stuck = true
			r.mu.Unlock()
		}
	}()
	f()
}

func (r *svRun) run(ops []Op) {
	ident := func(o Op) string { return o.P }
	for i := 0; i < len(ops) && !r.stuck; i++ {
		o := ops[i]
		if !r.sv.alive() && !r.sv.expected {
			b, _ := os.ReadFile(filepath.Join(r.sv.root, "stderr"))
			r.ev(M{"op": "died", "what": tailStr(string(b), 1500)})
			return
		}
		switch o.Op {
		case "par":
			j := i + 1
			for j < len(ops) && ops[j].Op != "join" {
				j++
			}
			// the operations of a client stay in order
			lanes := map[string][]Op{}
			for n, p := range ops[i+1 : j] {
				l := ident(p)
				if p.T != "" {
					l = p.T
				}
				if p.Op == "create" || p.Op == "disable" || p.Op == "enable" || p.Op == "crash" || p.Op == "restart" {
					l = fmt.Sprintf("%v#%v", l, n)
				}
				lanes[l] = append(lanes[l], p)
			}
			all := func() {
				var wg sync.WaitGroup
				for _, l := range lanes {
					wg.Add(1)
					go func(l []Op) {
						defer wg.Done()
						r.guard(func() {
							for _, p := range l {
								r.step(p)
							}
						})
					}(l)
				}
				wg.Wait()
			}
			if o.K == "" || !r.injected(o.K, all) {
				all()
			}
			// who is still in?
			for _, u := range r.online() {
				if c := r.client(u); c != nil {
					c.ping()
				}
			}
			i = j
		case "inject": // the following operation under a fault
			if i+1 >= len(ops) {
				break
			}
			r.faulty()
			kill := strings.Contains(o.K, "KILL")
			if kill { // whenever it dies, that is no accident
				r.sv.expected = true
			}
			r.injected(o.K, func() { r.step(ops[i+1]) })
			r.fault = false
			i++
			if !kill {
				time.Sleep(10 * time.Millisecond)
			}
			if kill || !r.sv.alive() {
				r.mu.Lock()
				r.gen++
				r.mu.Unlock()
				id, e := r.begin("crash", M{})
				r.sv.stop(syscall.SIGKILL)
				r.sv.start()
				e["k"], e["b"] = r.sv.policy, r.sv.dir
				r.end(id, e, "ok", "")
			}
		case "dbdown":
			r.faulty()
			r.downFor(o.K, func() { r.step(ops[i+1]) })
			r.fault = false
			i++
		default:
			r.step(o)
		}
	}
	if !r.sv.alive() && !r.sv.expected {
		b, _ := os.ReadFile(filepath.Join(r.sv.root, "stderr"))
		r.ev(M{"op": "died", "what": tailStr(string(b), 1500)})
	}
}

func tailStr(s string, n int) string {
	if len(s) > n {
		i := strings.Index(s, "panic")
		if i >= 0 {
			s = s[i:]
		}
		if len(s) > n {
			s = s[:n]
		}
	}
	return s
}

// template is a server root with identity and certificate, made by the server.
func svTemplate(bin, dir string) string {
	t := filepath.Join(dir, "template")
	must(os.MkdirAll(t, 0700))
	s := &svProc{bin: bin, root: t, policy: "yes"}
	s.start()
	s.stop(syscall.SIGTERM)
	for _, f := range []string{"zkserver.log", "zkserver.conf", "stderr", "home", socketapi.SocketFilename} {
		os.RemoveAll(filepath.Join(t, f))
	}
	return t
}

func cmdServer() {
	bin := argv[0]
	base, err := os.MkdirTemp("", "zkhs-")
	must(err)
	defer os.RemoveAll(base)
	defer func() {
		e := recover()
		d, ok := e.(svDown)
		if ok {
			fmt.Fprintln(os.Stderr, d)
			rec.Flush()
			os.RemoveAll(base)
			os.Exit(3)
		}
		if e != nil {
			panic(e)
		}
	}()
	tmpl := svTemplate(bin, base)
	failed := 0
	for n, ops := range beh {
		root := filepath.Join(base, fmt.Sprintf("s%d", n))
		copyDir(tmpl, root)
		r := &svRun{sv: &svProc{bin: bin, root: root, policy: "yes"}, call: map[int]M{}, msgs: map[string][]int{}, cur: map[string]*svClient{},
			toks: map[string]string{}, pins: map[string]string{}, blobs: map[string]string{}, nick: map[string]string{}, rnd: rand.New(rand.NewSource(seed + int64(n)*101))}
		if len(ops) > 0 && ops[0].Op == "start" {
			r.sv.policy, r.sv.dir = ops[0].K, ops[0].B
			ops = ops[1:]
		}
		r.sv.start()
		r.guard(func() { r.run(ops) })
		for _, c := range r.cur {
			c.mu.Lock()
			c.bye = true
			c.mu.Unlock()
			c.conn.Close()
		}
		for _, h := range r.held {
			h.Close()
		}
		if r.sv.alive() {
			r.sv.stop(syscall.SIGKILL)
		}
		first := M{"op": "reset", "k": "yes", "b": false}
		if len(beh[n]) > 0 && beh[n][0].Op == "start" {
			first["k"], first["b"] = beh[n][0].K, beh[n][0].B
		}
		rec.Ev(first)
		r.mu.Lock()
		for _, e := range r.evs {
			rec.Ev(e)
		}
		r.mu.Unlock()
		os.RemoveAll(root)
		if r.stuck {
			if failed++; failed >= 2 {
				break // takes long
			}
		}
	}
}
