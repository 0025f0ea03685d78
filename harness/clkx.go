package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// The real client gets new contacts (C17).

func init() { commands["clkx"] = cmdClKX }

type clKxObs struct {
	Up      bool              `json:"up"`
	On      bool              `json:"on"`
	IDs     map[string]string `json:"ids"` // stored identity: none, true, other
	In      map[string]bool   `json:"in"`  // messages arrive
	Out     map[string]bool   `json:"out"`
	Strange int               `json:"strange"` // identities nobody has
	Odd     int               `json:"odd"`     // messages nobody can make use of
}

type clKxPeer struct {
	half  *ratchet.Ratchet // we began
	keys  []*[32]byte
	ready *ratchet.Ratchet // the client began, our answer is ready
	reply []byte
	key   *[32]byte
}

type clKxSent struct {
	p, named string
	pl       []byte
}

type clKxRun struct {
	*clRun
	kx     map[string]*clKxPeer
	offers []*[32]byte
	blobs  [][]byte
	pull   []byte
	pullE  string
	find   zkidentity.PublicIdentity
	findE  string
	asked  int
	read   int
	olds   []clKxSent
	raws   map[string]bool
	odd    int
	tok    int
	proxy  int
}

const clMain = "44mme" // seen in the main window only
const clPass = "correct horse"

var clPwKey, clPwSalt *[32]byte

func cmdClKX() {
	names := strings.Split(argv[1], ",")
	base, err := os.MkdirTemp("", "zkck-")
	must(err)
	defer os.RemoveAll(base)
	blobshare.SetNrp(32768, 16, 2)
	clPwKey, clPwSalt, err = blobshare.NewKey([]byte(clPass))
	must(err)
	for n, ops := range beh {
		clKxBehave(base, n, names, ops)
	}
}

func clKxBehave(base string, n int, names []string, ops []Op) {
	r := &clKxRun{clRun: newClRun(base, n, names[:1]), kx: map[string]*clKxPeer{}, raws: map[string]bool{}}
	r.names = names
	w := r.w
	defer os.RemoveAll(w.root)
	defer w.close()
	for _, p := range names {
		r.kx[p] = &clKxPeer{}
		if w.peers[p] == nil {
			w.peers[p] = &clPeer{name: p, id: clID(p)}
		}
	}
	w.dir = ops[0].Kind == "dir"
	w.hook = r.hook
	if !w.start() || !w.settle() {
		panic(svDown("client does not come up: " + w.tail()))
	}
	rec.Ev(M{"op": "reset", "ok": true, "mode": ops[0].Kind, "obs": r.kobs(true)})
	for _, o := range ops[1:] {
		e := M{"op": o.Op, "p": o.P, "q": o.Q, "kind": o.Kind, "k": o.K, "d": o.D, "i": o.I, "j": o.J}
		ok := r.kstep(o, e)
		if ok && w.alive() {
			ok = r.flush()
		}
		obs := r.kobs(ok)
		e["ok"], e["obs"] = ok, obs
		rec.Ev(e)
		for _, k := range r.kx {
			if obs.On {
				k.half = nil // would have been answered by now
			}
		}
		if !ok {
			fmt.Fprintln(os.Stderr, "stuck at", o, w.tail())
			if os.Getenv("KXDBG") != "" {
				fmt.Fprintf(os.Stderr, "SCREEN %q asked %d\n", w.screen, r.asked)
				w.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				b, _ := os.ReadFile(filepath.Join(w.root, "stderr"))
				os.WriteFile("/tmp/w/stack", append(b, w.screen...), 0o600)
			}
			return
		}
	}
}

// hook is the part of the server that makes introductions; the lock is held.
func (r *clKxRun) hook(cmd string, m rpc.Message, br *bytes.Reader) bool {
	w := r.w
	switch cmd {
	case rpc.TaggedCmdRendezvous:
		var v rpc.Rendezvous
		_, err := xdr.Unmarshal(br, &v)
		must(err)
		r.blobs = append(r.blobs, v.Blob)
		w.send(rpc.TaggedCmdRendezvousReply, m.Tag, false, rpc.RendezvousReply{Token: fmt.Sprintf("%07d", len(r.blobs))})
	case rpc.TaggedCmdRendezvousPull:
		var v rpc.RendezvousPull
		_, err := xdr.Unmarshal(br, &v)
		must(err)
		r.asked++
		w.send(rpc.TaggedCmdRendezvousPullReply, m.Tag, false, rpc.RendezvousPullReply{Token: v.Token, Blob: r.pull, Error: r.pullE})
	case rpc.TaggedCmdIdentityFind:
		var v rpc.IdentityFind
		_, err := xdr.Unmarshal(br, &v)
		must(err)
		r.asked++
		w.send(rpc.TaggedCmdIdentityFindReply, m.Tag, false, rpc.IdentityFindReply{Nick: v.Nick, Identity: r.find, Error: r.findE})
	case rpc.TaggedCmdProxy:
		var v rpc.Proxy
		_, err := xdr.Unmarshal(br, &v)
		must(err)
		r.proxy++
		w.send(rpc.TaggedCmdProxyReply, m.Tag, false, rpc.ProxyReply{To: v.To})
	default:
		return false
	}
	return true
}

// flush waits until the client has dealt with everything it was sent.
func (r *clKxRun) flush() bool {
	w := r.w
	if !w.settle() {
		return false
	}
	w.mu.Lock()
	on := w.kx != nil
	w.mu.Unlock()
	if !on {
		return true
	}
	w.tell(w.peers[clBar], "nonsense", rpc.PrivateMessage{Text: "x"})
	return w.settle()
}

// ourKX begins an exchange.
func (r *clKxRun) ourKX(p, named string) (*ratchet.Ratchet, rpc.IdentityKX) {
	rt := rNew(clID(p), r.w.me)
	kx := new(ratchet.KeyExchange)
	must(rt.FillKeyExchange(kx))
	return rt, rpc.IdentityKX{Identity: clID(named).Public, KX: *kx}
}

func sealKX(key *[32]byte, v interface{}) []byte {
	enc, nonce, err := blobshare.Encrypt(xdrBytes(v), key)
	must(err)
	return blobshare.PackNonce(nonce, enc)
}

func (r *clKxRun) other(p string) string {
	for _, q := range r.names {
		if q != p {
			return q
		}
	}
	return ""
}

func (r *clKxRun) kstep(o Op, e M) bool {
	w := r.w
	rnd := rand.New(rand.NewSource(int64(o.D)))
	q := o.Q
	if q == o.P {
		q = r.other(o.P)
	}
	push := func(from, named string, pl []byte) {
		r.olds = append(r.olds, clKxSent{from, named, pl})
		r.delivered(o, from, pl)
	}
	mangle := func(b []byte, kind string) []byte {
		b = append([]byte{}, b...)
		switch kind {
		case "alter":
			b[rnd.Intn(len(b))] ^= 1 << rnd.Intn(8)
		case "cut":
			b = b[:rnd.Intn(len(b))]
		case "random":
			b = r.bytes(rnd.Intn(3000))
		}
		return b
	}
	switch o.Op {
	case "offer":
		n := len(r.blobs)
		w.clear()
		w.typ("/kx")
		w.see("Exchange")
		w.pty.Write([]byte(clPass + "\r"))
		if !w.until(func() bool { return len(r.blobs) > n }) {
			return false
		}
		w.mu.Lock()
		b := r.blobs[n]
		w.mu.Unlock()
		salt, nonce, data, err := blobshare.UnpackSaltNonce(b)
		must(err)
		key, err := blobshare.DeriveKey([]byte(clPass), salt)
		must(err)
		pt, err := blobshare.Decrypt(key, nonce, data)
		if err != nil || !bytes.Equal(pt, xdrBytes(w.me.Public)) {
			r.odd++
			return true
		}
		r.offers = append(r.offers, key)
		return true
	case "join", "hello":
		from, named, by := o.P, o.P, o.P
		if o.Kind == "" && r.kx[o.P].half != nil {
			return r.nothing(o, e) // one at a time
		}
		switch o.Kind {
		case "named":
			from, by = q, q
		case "raw", "old":
			from = q
		}
		rt, idkx := r.ourKX(by, named)
		pub := &idkx.Identity
		switch o.Kind {
		case "keys":
			pub.Key = clID(q).Public.Key
		case "nick":
			pub.Nick += "x"
		case "sig":
			pub.SigKey = clID(q).Public.SigKey
		case "self":
			*pub = w.me.Public
		case "kx":
			b := idkx.KX.Public[:]
			b[rnd.Intn(len(b))] ^= 1 << rnd.Intn(8)
		}
		var key *[32]byte
		var head []byte
		if (o.Op == "join") == (o.Kind != "mode") {
			key = new([32]byte)
			crand.Read(key[:])
			if len(r.offers) > 0 && o.Kind != "key" {
				key = r.offers[rnd.Intn(len(r.offers))]
			}
		} else {
			to := w.me
			if o.Kind == "key" {
				to = clID(q)
			}
			c, k, err := sntrup4591761.Encapsulate(crand.Reader, &to.Public.Key)
			must(err)
			key, head = k, c[:]
		}
		pl := append(append([]byte{}, head...), mangle(sealKX(key, idkx), o.Kind)...)
		if o.Kind == "altk" && len(head) == 0 {
			pl = mangle(pl, "alter")
		} else if o.Kind == "altk" {
			pl[rnd.Intn(len(head))] ^= 1
		}
		if o.Kind == "" {
			r.kx[o.P].half, r.kx[o.P].keys = rt, []*[32]byte{key}
		}
		push(from, named, pl)
	case "fetch":
		id := clID(o.P).Public
		pass := clPass
		r.pullE = ""
		switch o.Kind {
		case "keys":
			id.Key = clID(q).Public.Key
		case "nick":
			id.Nick += "x"
		case "sig":
			id.SigKey = clID(q).Public.SigKey
		case "self":
			id = w.me.Public
		case "wrongpass":
			pass = "wrong"
		case "nopin":
			r.pullE = "no such pin"
		}
		enc, nonce, err := blobshare.Encrypt(xdrBytes(id), clPwKey)
		must(err)
		r.pull = mangle(blobshare.PackSaltNonce(clPwSalt, nonce, enc), o.Kind)
		for try := 0; try < 3; try++ {
			n, g := r.asked, len(w.got)
			lines := func() int { return strings.Count(w.console(), "Accepted user") + strings.Count(w.console(), "Rejected user") }
			yes := strings.Count(w.console(), "Accepted user")
			before := lines()
			w.clear()
			w.typ("/fetch 1234567")
			if !w.until(func() bool { return r.asked > n }) {
				return false
			}
			if o.Kind == "nopin" {
				return true
			}
			w.see("Password")
			time.Sleep(100 * time.Millisecond)
			w.pty.Write([]byte("\x15" + pass + "\r"))
			if w.see("(yes/no)", "already", "unmarshal", "decrypt", "unpack", "derive", "self", "valid") != "(yes/no)" {
				w.pty.Write([]byte("\x1b[21~"))
				w.see(clMain)
				return true
			}
			time.Sleep(100 * time.Millisecond)
			ans := "yes"
			if o.Kind == "no" {
				ans = "no"
			}
			w.pty.Write([]byte(ans + "\r"))
			if !w.until(func() bool { return lines() > before }) {
				return false
			}
			w.see(clMain)
			if ans == "no" {
				return true
			}
			if strings.Count(w.console(), "Accepted user") > yes {
				w.untilFor(5*time.Second, func() bool { return len(w.got) > g })
				return true
			}
		}
	case "find":
		id := clID(o.P).Public
		r.findE = ""
		switch o.Kind {
		case "keys":
			id.Key = clID(q).Public.Key
		case "nick":
			id.Nick += "x"
		case "sig":
			id.SigKey = clID(q).Public.SigKey
		case "nosuch":
			r.findE = "no such nick"
		}
		r.find = id
		w.typ("/find " + o.P)
	case "answer":
		k := r.kx[o.P]
		if k.reply == nil {
			return r.nothing(o, e)
		}
		from, pl := o.P, k.reply
		switch o.Kind {
		case "other":
			from = q
		case "kx":
			rt := rNew(clID(q), w.me)
			kx := new(ratchet.KeyExchange)
			must(rt.FillKeyExchange(kx))
			pl = sealKX(k.key, rpc.KX{KX: *kx})
		default:
			pl = mangle(pl, o.Kind)
		}
		if o.Kind == "" {
			w.peers[o.P].mtx.Lock()
			w.peers[o.P].r = k.ready
			w.peers[o.P].mtx.Unlock()
		}
		push(from, o.P, pl)
	case "replay":
		if len(r.olds) == 0 {
			return r.nothing(o, e)
		}
		s := r.olds[rnd.Intn(len(r.olds))]
		from := s.p
		if o.Kind == "other" {
			from = q
			if from == s.p {
				from = r.other(s.p)
			}
			if from == s.named {
				return r.nothing(o, e) // the server may say who a message is from
			}
		} else if w.peers[from].r == nil && r.kx[from].ready == nil {
			return r.nothing(o, e) // the server alone could do this, with a contact that is no more
		}
		r.delivered(o, from, s.pl)
	case "wreset":
		n := r.proxy
		if w.peers[o.P].r == nil {
			return true
		}
		w.typ("/reset " + o.P)
		if !w.until(func() bool { return r.proxy > n }) {
			return false
		}
		w.mu.Lock()
		w.peers[o.P].r = nil
		r.kx[o.P] = &clKxPeer{}
		w.mu.Unlock()
	default:
		return r.step(o)
	}
	return true
}

// nothing is sent, but the client or the session may end.
func (r *clKxRun) nothing(o Op, e M) bool {
	e["kind"] = "nothing"
	switch o.K {
	case "":
	case "cut":
		r.w.cut()
	default:
		r.w.kill()
	}
	return true
}

// delivered hands a message to the server, the client or the session may end of it.
func (r *clKxRun) delivered(o Op, from string, pl []byte) {
	w := r.w
	id := clID(from).Public.Identity
	switch o.K {
	case "":
		w.deliver(id, pl, false)
	case "cut":
		w.deliver(id, pl, false)
		time.Sleep(time.Duration(o.J) * time.Millisecond)
		w.cut()
	case "time":
		t := time.AfterFunc(time.Duration(o.J)*time.Millisecond, func() { w.dead = true; w.cmd.Process.Kill() })
		w.deliver(id, pl, false)
		<-w.done
		t.Stop()
		w.kill()
	default:
		r.tracedDo(o, func() { w.deliver(id, pl, false); w.until(func() bool { return len(w.store) == 0 || w.kx == nil }) })
	}
}

// arrived is what contacts make of what they get.
func (r *clKxRun) arrived() {
	w := r.w
	w.mu.Lock()
	gs := append([]clGot{}, w.got[r.read:]...)
	r.read += len(gs)
	w.mu.Unlock()
	for _, g := range gs {
		if r.raws[string(g.raw)] {
			continue // sent once more
		}
		r.raws[string(g.raw)] = true
		if g.to == nil {
			fmt.Fprintln(os.Stderr, "message for nobody")
			r.odd++
			continue
		}
		if g.cmd == "undecipherable" && !r.exchange(g) {
			fmt.Fprintln(os.Stderr, "undecipherable message for", g.to.name)
			r.odd++
		}
	}
}

func (r *clKxRun) exchange(g clGot) bool {
	w, k := r.w, r.kx[g.to.name]
	if k == nil {
		return false
	}
	open := func(b []byte, key *[32]byte, v interface{}) bool {
		nonce, enc, err := blobshare.UnpackNonce(b)
		if err != nil {
			return false
		}
		pt, err := blobshare.Decrypt(key, nonce, enc)
		if err != nil {
			return false
		}
		_, err = xdr.Unmarshal(bytes.NewReader(pt), v)
		return err == nil
	}
	for _, key := range k.keys { // the answer to what we began
		var kx rpc.KX
		if k.half != nil && open(g.raw, key, &kx) {
			if k.half.CompleteKeyExchange(&kx.KX, true) != nil {
				return false
			}
			g.to.mtx.Lock()
			g.to.r = k.half
			g.to.mtx.Unlock()
			k.half = nil
			return true
		}
	}
	var idkx rpc.IdentityKX
	var key *[32]byte
	c := new([sntrup4591761.CiphertextSize]byte)
	if open(g.raw, clPwKey, &idkx) {
		key = clPwKey
	} else if len(g.raw) > len(c) {
		copy(c[:], g.raw)
		s, ok := sntrup4591761.Decapsulate(c, &g.to.id.PrivateKey)
		if ok == 1 && open(g.raw[len(c):], s, &idkx) {
			key = s
		}
	}
	if key == nil || !bytes.Equal(xdrBytes(idkx.Identity), xdrBytes(w.me.Public)) {
		return false
	}
	if k.ready != nil {
		return false // twice
	}
	rt := rNew(g.to.id, w.me)
	kx := new(ratchet.KeyExchange)
	must(rt.FillKeyExchange(kx))
	if rt.CompleteKeyExchange(&idkx.KX, false) != nil {
		return false
	}
	k.ready, k.key, k.reply = rt, key, sealKX(key, rpc.KX{KX: *kx})
	return true
}

func (r *clKxRun) kobs(ok bool) clKxObs {
	w := r.w
	r.arrived()
	w.mu.Lock()
	o := clKxObs{Up: w.alive(), On: w.kx != nil, IDs: map[string]string{}, In: map[string]bool{}, Out: map[string]bool{}}
	w.mu.Unlock()
	known := map[string]bool{}
	for _, p := range append([]string{clBar}, r.names...) {
		known[hex.EncodeToString(clID(p).Public.Identity[:])] = true
	}
	es, _ := os.ReadDir(filepath.Join(w.home, "inbound"))
	for _, e := range es {
		if !known[e.Name()] {
			o.Strange++
		}
	}
	for _, p := range r.names {
		id := clID(p).Public
		b, err := os.ReadFile(filepath.Join(w.home, "inbound", hex.EncodeToString(id.Identity[:]), "publicidentity.xdr"))
		switch {
		case err != nil:
			o.IDs[p] = "none"
		case bytes.Equal(b, xdrBytes(id)):
			o.IDs[p] = "true"
		default:
			o.IDs[p] = "other"
		}
		o.In[p], o.Out[p] = false, false
		pr := w.peers[p]
		if !o.Up || !o.On || !ok || pr.r == nil {
			continue
		}
		r.tok++
		tok := fmt.Sprintf("tok%d", r.tok)
		w.tell(pr, rpc.CRPCCmdPrivateMessage, rpc.PrivateMessage{Text: tok})
		w.mu.Lock()
		n := len(w.got)
		w.mu.Unlock()
		if o.IDs[p] == "true" {
			w.typ("/m " + p + " " + tok)
			w.untilFor(3*time.Second, func() bool {
				for _, g := range w.got[n:] {
					if g.to == pr {
						o.Out[p] = g.cmd == rpc.CRPCCmdPrivateMessage && pmText(g.payload) == tok
						return true
					}
				}
				return false
			})
		}
		w.settle()
		for _, l := range w.pmLog(p) {
			if l == "<"+p+"> "+tok {
				o.In[p] = true
			}
		}
	}
	r.arrived()
	o.Odd = r.odd
	return o
}
