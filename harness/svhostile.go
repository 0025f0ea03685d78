package main

// Clients, strangers and local processes that do not follow the protocol.

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"net"
	"path/filepath"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/socketapi"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func (r *svRun) junk(n int) []byte {
	b := make([]byte, n)
	r.mu.Lock()
	r.rnd.Read(b)
	r.mu.Unlock()
	return b
}

func u32(n uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], n)
	return b[:]
}

// outsider connects without an account.
func (r *svRun) outsider(o Op) {
	r.ev(M{"op": "bad", "sid": 0, "u": "", "what": "outsider " + o.K})
	raw := func() net.Conn {
		c, err := net.DialTimeout("tcp", r.sv.addr(), 10*time.Second)
		if err != nil {
			return nil
		}
		return c
	}
	t := func() net.Conn {
		c, err := dialTLS(r.sv.addr())
		if err != nil {
			return nil
		}
		return c
	}
	var c net.Conn
	switch o.K {
	case "tcpclose", "tcpgarbage", "tcphang":
		c = raw()
	default:
		c = t()
	}
	if c == nil {
		return
	}
	c.SetDeadline(time.Now().Add(5 * time.Second))
	hang := false
	wait := func() { c.SetReadDeadline(time.Now().Add(200 * time.Millisecond)); c.Read(make([]byte, 4096)) }
	switch o.K {
	case "tcpclose", "close":
	case "tcpgarbage":
		c.Write(r.junk(300))
		wait()
	case "tcphang", "hang":
		hang = true
	case "garbage":
		c.Write(r.junk(1 + r.rand(200)))
		wait()
	case "modehuge":
		c.Write(append(u32(0xffffffff), r.junk(64)...))
		wait()
	case "modelong":
		xdr.Marshal(c, strings.Repeat("x", 100000))
		wait()
	case "modeempty":
		xdr.Marshal(c, "")
		wait()
	case "modeother":
		for _, m := range []string{"welcome", "ping", "Session", "session\n"} {
			xdr.Marshal(c, m)
		}
		wait()
	case "identifyloop":
		for i := 0; i < 30; i++ {
			xdr.Marshal(c, rpc.InitialCmdIdentify)
			var id zkidentity.PublicIdentity
			if _, err := xdr.Unmarshal(c, &id); err != nil {
				break
			}
		}
	case "identifynoread":
		for i := 0; i < 3000; i++ {
			c.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
			if _, err := xdr.Marshal(c, rpc.InitialCmdIdentify); err != nil {
				break
			}
		}
		hang = true
	case "createjunk":
		xdr.Marshal(c, rpc.InitialCmdCreateAccount)
		c.Write(r.junk(4000))
		wait()
	case "createhuge":
		xdr.Marshal(c, rpc.InitialCmdCreateAccount)
		c.Write(append(u32(0x7fffffff), r.junk(64)...))
		wait()
	case "createtrunc":
		xdr.Marshal(c, rpc.InitialCmdCreateAccount)
		xdr.Marshal(c, "token")
		c.Write(r.junk(100))
	case "createzero":
		xdr.Marshal(c, rpc.InitialCmdCreateAccount)
		xdr.Marshal(c, rpc.CreateAccount{})
		wait()
	case "sessionclose":
		xdr.Marshal(c, rpc.InitialCmdSession)
	case "sessionhang":
		xdr.Marshal(c, rpc.InitialCmdSession)
		hang = true
	case "sessiongarbage":
		xdr.Marshal(c, rpc.InitialCmdSession)
		c.Write(r.junk(20000))
		wait()
	case "sessionhuge":
		xdr.Marshal(c, rpc.InitialCmdSession)
		c.Write(append(u32(0xfffffff0), r.junk(64)...))
		wait()
	case "sessionempty":
		xdr.Marshal(c, rpc.InitialCmdSession)
		for i := 0; i < 6; i++ {
			xdr.Marshal(c, []byte{})
		}
		wait()
	case "sessionsizes": // frames of other lengths than the handshake's
		xdr.Marshal(c, rpc.InitialCmdSession)
		for _, n := range []int{1047, 1217, 1218, 1219, 1250, 1} {
			xdr.Marshal(c, r.junk(n))
		}
		wait()
	case "sessiontwice":
		xdr.Marshal(c, rpc.InitialCmdSession)
		xdr.Marshal(c, rpc.InitialCmdSession)
		wait()
	default:
		panic("unknown outsider " + o.K)
	}
	if hang {
		r.mu.Lock()
		r.held = append(r.held, c)
		r.mu.Unlock()
		return
	}
	c.Close()
}

// socket sends malformed requests to the administrative socket.
func (r *svRun) socket(o Op) {
	r.ev(M{"op": "bad", "sid": 0, "u": "", "what": "socket " + o.K})
	c, err := net.Dial("unix", filepath.Join(r.sv.root, socketapi.SocketFilename))
	if err != nil {
		return
	}
	c.SetDeadline(time.Now().Add(5 * time.Second))
	id := svIdentity(o.P, "n").Public.Identity
	ids := hex.EncodeToString(id[:])
	wait := func() { c.SetReadDeadline(time.Now().Add(200 * time.Millisecond)); c.Read(make([]byte, 4096)) }
	hdr := func(cmd string) string { return fmt.Sprintf(`{"version":%d,"command":%q}`, socketapi.SCVersion, cmd) }
	switch o.K {
	case "garbage":
		c.Write(r.junk(200))
	case "close":
	case "hang":
		c.Write([]byte(hdr("userdisable")))
		r.mu.Lock()
		r.held = append(r.held, c)
		r.mu.Unlock()
		return
	case "version":
		fmt.Fprintf(c, `{"version":99,"command":"userdisable"}{"identity":"%v"}`, ids)
	case "command":
		fmt.Fprintf(c, `%v{"identity":"%v"}`, hdr("userdelete"), ids)
	case "type":
		fmt.Fprintf(c, `%v{"identity":[1,2]}`, hdr("userdisable"))
	case "null":
		fmt.Fprintf(c, `%v null`, hdr("userenable"))
	case "array":
		fmt.Fprintf(c, `[[[[`)
	case "short":
		fmt.Fprintf(c, `%v{"identity":"00"}`, hdr("userdisable"))
	case "shortenable":
		fmt.Fprintf(c, `%v{"identity":""}`, hdr("userenable"))
	case "nothex":
		fmt.Fprintf(c, `%v{"identity":"zz%v"}`, hdr("userdisable"), ids[2:])
	case "long":
		fmt.Fprintf(c, `%v{"identity":"%v%v"}`, hdr("userdisable"), ids, strings.Repeat("00", 100000))
	default:
		panic("unknown socket " + o.K)
	}
	wait()
	c.Close()
}

var svCommands = []string{rpc.TaggedCmdRendezvous, rpc.TaggedCmdRendezvousPull, rpc.TaggedCmdCache, rpc.TaggedCmdProxy, rpc.TaggedCmdPing, rpc.TaggedCmdIdentityFind, rpc.TaggedCmdAcknowledge}

// hostile misuses the session of a registered user.
func (r *svRun) hostile(c *svClient, o Op) {
	r.ev(M{"op": "bad", "sid": c.sid, "u": c.u, "what": o.K})
	c.mu.Lock()
	c.evil = true
	c.mu.Unlock()
	write := func(b []byte) {
		c.wmu.Lock()
		c.conn.d = 3 * time.Second
		c.kx.Write(b)
		c.wmu.Unlock()
	}
	rawWrite := func(b []byte) {
		c.wmu.Lock()
		c.conn.d = 3 * time.Second
		c.conn.Write(b)
		c.wmu.Unlock()
	}
	cmd := svCommands[o.N%len(svCommands)]
	if cmd == rpc.TaggedCmdAcknowledge && strings.HasPrefix(o.K, "cmd") {
		cmd = rpc.TaggedCmdCache // acknowledgements act on their tag alone
	}
	switch o.K {
	case "tag":
		write(marshalMsg(rpc.TaggedCmdPing, []uint32{32, 33, 64, 1 << 16, 1 << 31, 0xffffffff}[o.N%6], rpc.Ping{}))
	case "acktag":
		write(marshalMsg(rpc.TaggedCmdAcknowledge, []uint32{32, 33, 64, 1 << 16, 1 << 31, 0xffffffff}[o.N%6], rpc.Acknowledge{}))
	case "cmdtag":
		write(append(marshalMsg(cmd, 32, nil), r.junk(200)...))
	case "unknown":
		write(marshalMsg([]string{"", "x", "push", "pong", "welcome", "identityfindreply", strings.Repeat("a", 10000), "ping "}[o.N%8], 3, rpc.Ping{}))
	case "empty":
		write(nil)
	case "cmdonly":
		write(marshalMsg(cmd, 4, nil))
	case "cmdjunk":
		write(append(marshalMsg(cmd, 5, nil), r.junk(1+r.rand(300))...))
	case "cmdhuge":
		b := marshalMsg(cmd, 6, nil)
		if cmd == rpc.TaggedCmdCache || cmd == rpc.TaggedCmdProxy {
			id := svIdentity(c.u, "n").Public.Identity
			b = append(b, id[:]...)
		}
		write(append(b, u32([]uint32{0xffffffff, 0x7fffffff, 1 << 24}[r.rand(3)])...))
	case "hdrhuge":
		write(u32(0xfffffff0))
	case "frame": // not encrypted with the session's key
		xdr.Marshal(c.conn, r.junk(100))
	case "framehuge":
		rawWrite(append(u32(0xffffffff), r.junk(50)...))
	case "framezero":
		xdr.Marshal(c.conn, []byte{})
	case "half":
		rawWrite(append(u32(5000), r.junk(50)...))
		time.Sleep(20 * time.Millisecond)
		r.bye(c)
	case "overmax":
		big := *c.kx
		big.MaxMessageSize = 1 << 24
		c.wmu.Lock()
		c.conn.d = 3 * time.Second
		big.Write(make([]byte, 1<<20))
		c.wmu.Unlock()
	case "tlsgarbage":
		c.conn.NetConn().Write(r.junk(100))
	case "flood", "floodping", "floodhold", "flooddisable":
		// stop reading, ask for more than fits the way back
		p := make(chan struct{})
		c.mu.Lock()
		c.pause = p
		c.bye = true
		c.mu.Unlock()
		r.ev(M{"op": "bye", "sid": c.sid, "u": c.u})
		c.wmu.Lock()
		if o.K == "floodping" {
			for i := 0; i < 200000; i++ {
				c.conn.d = 300 * time.Millisecond
				if c.kx.Write(marshalMsg(rpc.TaggedCmdPing, uint32(i%30), rpc.Ping{})) != nil {
					break
				}
			}
		} else {
			nick := strings.Repeat("n", 60000)
			for i := 0; i < 400; i++ {
				c.conn.d = 500 * time.Millisecond
				if c.kx.Write(marshalMsg(rpc.TaggedCmdIdentityFind, uint32(i%30), rpc.IdentityFind{Nick: nick})) != nil {
					break
				}
			}
		}
		c.wmu.Unlock()
		r.mu.Lock()
		delete(r.cur, c.u)
		r.mu.Unlock()
		if o.K == "floodhold" || o.K == "flooddisable" {
			r.mu.Lock()
			r.held = append(r.held, c.conn)
			r.mu.Unlock()
			return
		}
		c.conn.Close()
		close(p)
	default:
		panic("unknown hostile " + o.K)
	}
	time.Sleep(5 * time.Millisecond)
}

var _ = session.ErrDecrypt
