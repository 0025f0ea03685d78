package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
)

func init() {
	commands["tagstack"] = cmdTagStack
	commands["addressbook"] = cmdAddressBook
	commands["identity"] = cmdIdentity
	commands["blob"] = cmdBlob
}

// ---------------------------------------------------------------- histories
// call is one call of a concurrent history.
type call struct {
	inv, ret int64
	t        int
	ev       M // fields of the invocation and result
}

var clock int64

// emit writes the calls as inv and ret events in the order they happened.
func emitCalls(cs []*call, retFields func(c *call) M) {
	type stamp struct {
		at  int64
		c   *call
		ret bool
	}
	var ss []stamp
	for _, c := range cs {
		ss = append(ss, stamp{c.inv, c, false})
		if c.ret != 0 {
			ss = append(ss, stamp{c.ret, c, true})
		}
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].at < ss[j].at })
	for _, s := range ss {
		if s.ret {
			e := retFields(s.c)
			e["op"], e["t"] = "ret", s.c.t
			rec.Ev(e)
		} else {
			e := M{"op": "inv", "t": s.c.t}
			for k, v := range s.c.ev {
				e[k] = v
			}
			rec.Ev(e)
		}
	}
}

// ---------------------------------------------------------------- tag stacks
type tagHist struct {
	mu sync.Mutex
	cs []*call
}

func (h *tagHist) do(t int, kind string, x uint32, f func() (uint32, error)) (uint32, error) {
	c := &call{t: t, ev: M{"kind": kind, "x": x}}
	h.mu.Lock()
	h.cs = append(h.cs, c)
	h.mu.Unlock()
	atomic.StoreInt64(&c.inv, atomic.AddInt64(&clock, 1))
	v, err := f()
	c.ev["rok"], c.ev["rx"] = err == nil, v
	r := atomic.AddInt64(&clock, 1)
	atomic.StoreInt64(&c.ret, r)
	return v, err
}

// cmdTagStack: rounds of concurrent use. Cheap screening picks the rounds
// that look odd; they and a sample of the others are recorded in full.
func cmdTagStack() {
	rounds, sample := atoi(argv[0]), atoi(argv[1])
	const threads = 4
	recorded, odd := 0, 0
	for r := 0; r < rounds; r++ {
		depth := 1 + r%5
		blocking := r%2 == 0
		var s *tagstack.TagStack
		if blocking {
			s = tagstack.NewBlocking(depth)
		} else {
			s = tagstack.New(depth)
		}
		h := &tagHist{}
		pop := func(t int) (uint32, error) {
			return h.do(t, "pop", 0, func() (uint32, error) { return s.Pop() })
		}
		push := func(t int, x uint32) error {
			_, err := h.do(t, "push", x, func() (uint32, error) { return x, s.Push(x) })
			return err
		}
		var wg sync.WaitGroup
		go1 := make(chan struct{})
		n := 2 + rng.Intn(5)
		heldBy := make([][]uint32, threads)
		var popping int32
		quit := int32(0)
		for t := 0; t < threads; t++ {
			wg.Add(1)
			seed := rng.Int63()
			go func(t int) {
				defer wg.Done()
				<-go1
				x := seed
				for i := 0; i < n; i++ {
					x = x*6364136223846793005 + 1442695040888963407
					mine := heldBy[t]
					give := len(mine) > 0 && (x>>40)%3 != 0
					if !give && blocking && len(mine) > 0 && len(mine)+1 > (depth+threads-1)/threads {
						give = true // do not starve the others for good
					}
					if give {
						push(t, mine[0])
						heldBy[t] = mine[1:]
					} else {
						atomic.AddInt32(&popping, 1)
						v, err := pop(t)
						atomic.AddInt32(&popping, -1)
						if err == nil {
							heldBy[t] = append(mine, v)
						}
						if atomic.LoadInt32(&quit) != 0 {
							return
						}
					}
				}
				for blocking && len(heldBy[t]) > 0 {
					push(t, heldBy[t][0])
					heldBy[t] = heldBy[t][1:]
				}
			}(t)
		}
		close(go1)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		stuck := false
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			stuck = true
		}
		odd1 := stuck
		if !stuck {
			// give back everything, over-fill, and drain
			for t := range heldBy {
				for _, x := range heldBy[t] {
					push(0, x)
				}
			}
			if !blocking {
				if push(0, 0) == nil {
					odd1 = true
				}
			}
			seen := map[uint32]bool{}
			for i := 0; i < depth; i++ {
				if blocking && s.Depth() == 0 {
					odd1 = true
					break
				}
				v, err := pop(0)
				if err != nil || seen[v] {
					odd1 = true
				}
				seen[v] = true
			}
			if blocking {
				// one waits, until a tag is returned
				w := make(chan struct{})
				h.mu.Lock()
				calls := len(h.cs)
				h.mu.Unlock()
				go func() { pop(1); close(w) }()
				for { // until the invocation is stamped
					h.mu.Lock()
					ok := len(h.cs) > calls && atomic.LoadInt64(&h.cs[calls].inv) != 0
					h.mu.Unlock()
					if ok {
						break
					}
					runtime.Gosched()
				}
				if r%40 == 0 {
					time.Sleep(5 * time.Millisecond)
				}
				select {
				case <-w:
					odd1 = true
				default:
				}
				push(0, uint32(rng.Intn(depth)))
				select {
				case <-w:
				case <-time.After(10 * time.Second):
					odd1 = true
				}
			} else if _, err := pop(0); err == nil {
				odd1 = true
			}
		}
		if odd1 {
			odd++
		}
		if odd1 && odd < 20 || r%(rounds/sample+1) == 0 {
			rec.Ev(M{"op": "reset", "depth": depth, "blocking": blocking})
			h.mu.Lock()
			emitCalls(h.cs, func(c *call) M { return M{"ok": c.ev["rok"], "x": c.ev["rx"]} })
			h.mu.Unlock()
			rec.Ev(M{"op": "quiet"})
			recorded++
		}
		if stuck {
			atomic.StoreInt32(&quit, 1)
			break
		}
	}
	fmt.Fprintf(os.Stderr, "rounds %v recorded %v odd %v\n", rounds, recorded, odd)
}

// ---------------------------------------------------------------- address book
func abIdentity(k, nick string) zkidentity.PublicIdentity {
	var p zkidentity.PublicIdentity
	p.Nick = nick
	p.Name = "Name of " + k
	copy(p.Identity[:], k)
	return p
}

func abKey(id [zkidentity.IdentitySize]byte) string { return strings.TrimRight(string(id[:]), "\x00") }

func abCall(ab *addressbook.AddressBook, o Op) M {
	e := M{"kind": o.Op, "k": o.K, "v": o.V}
	switch o.Op {
	case "add":
		nick, err := ab.Add(abIdentity(o.K, o.V))
		e["nick"], e["clash"] = nick, errors.Is(err, addressbook.ErrDuplicateNick)
		if err != nil && e["clash"] != true {
			e["kind"] = "add-failed"
		}
	case "del":
		err := ab.Del(abIdentity(o.K, "").Identity)
		e["ok"] = err == nil
	case "find":
		id := abIdentity(o.K, "").Identity
		var p *zkidentity.PublicIdentity
		var err error
		if o.I == 1 {
			p, err = ab.FindIdentityS(hex.EncodeToString(id[:]))
		} else {
			p, err = ab.FindIdentity(id)
		}
		e["ok"], e["nick"] = err == nil, ""
		if err == nil {
			e["nick"] = p.Nick
			if abKey(p.Identity) != o.K {
				e["kind"] = "found-other"
			}
		}
	case "findnick":
		p, err := ab.FindNick(o.V)
		e["ok"], e["nick"], e["found"] = err == nil, "", ""
		if err == nil {
			e["nick"], e["found"] = p.Nick, abKey(p.Identity)
		}
	case "all":
		all := [][2]string{}
		for _, p := range ab.All() {
			all = append(all, [2]string{abKey(p.Identity), p.Nick})
		}
		e["all"] = all
	}
	return e
}

func cmdAddressBook() {
	mode := argv[0]
	for n, ops := range beh {
		ab := addressbook.New()
		rec.Ev(M{"op": "reset"})
		if mode == "seq" {
			for i, o := range ops {
				o.I = i % 2
				e := abCall(ab, o)
				e["op"] = "call"
				rec.Ev(e)
				if o.Op == "add" || o.Op == "del" || i == len(ops)-1 {
					e = abCall(ab, Op{Op: "all"})
					e["op"] = "call"
					rec.Ev(e)
				}
			}
			continue
		}
		const threads = 4
		var cs []*call
		var mu sync.Mutex
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < threads; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				<-start
				for i := t; i < len(ops); i += threads {
					o := ops[i]
					o.I = i % 2
					if i%7 == 6 {
						o = Op{Op: "all"}
					}
					c := &call{t: t}
					c.inv = atomic.AddInt64(&clock, 1)
					c.ev = abCall(ab, o)
					c.ret = atomic.AddInt64(&clock, 1)
					mu.Lock()
					cs = append(cs, c)
					mu.Unlock()
				}
			}(t)
		}
		close(start)
		wg.Wait()
		emitCalls(cs, func(c *call) M { return M{} })
		e := abCall(ab, Op{Op: "all"})
		e["op"] = "call"
		rec.Ev(e)
		_ = n
	}
}

// ---------------------------------------------------------------- identities
func cmdIdentity() {
	ids := map[string]*zkidentity.FullIdentity{}
	sigs := map[string][64]byte{}
	content := func(k string) []byte {
		return []byte(k)
	}
	for _, ops := range beh {
		rec.Ev(M{"op": "reset"})
		ids = map[string]*zkidentity.FullIdentity{}
		sigs = map[string][64]byte{}
		for _, o := range ops {
			o := o
			guard("identity "+o.Op, func() {
				switch o.Op {
				case "new":
					id, err := zkidentity.New(o.K, o.V)
					ok := err == nil && id.Public.Verify() && id.Public.Name == o.K && id.Public.Nick == o.V
					ids[o.P] = id
					rec.Ev(M{"op": "new", "p": o.P, "k": o.K, "v": o.V, "ok": ok})
				case "trip":
					f := ids[o.P]
					b, err := f.Marshal()
					var g *zkidentity.FullIdentity
					if err == nil {
						g, err = zkidentity.UnmarshalFullIdentity(b)
					}
					same := err == nil && *g == *f && g.Public.Verify()
					pb, err := f.Public.Marshal()
					var q *zkidentity.PublicIdentity
					if err == nil {
						q, err = zkidentity.UnmarshalPublicIdentity(pb)
					}
					same = same && err == nil && *q == f.Public
					if same {
						ids[o.P] = g
					}
					id, err := zkidentity.String2ID(f.Public.String())
					same = same && err == nil && *id == f.Public.Identity && f.Public.Fingerprint() == f.Public.String()
					rec.Ev(M{"op": "trip", "p": o.P, "ok": same})
				case "alter":
					p := ids[o.P].Public
					alterIdentity(&p, o, ids)
					changed := p != ids[o.P].Public
					b, err := p.Marshal()
					must(err)
					q, err := zkidentity.UnmarshalPublicIdentity(b)
					rec.Ev(M{"op": "alter", "p": o.P, "q": o.Q, "k": o.K, "b": o.B, "changed": changed, "ok": err == nil,
						"same": err == nil && *q == ids[o.P].Public, "v": p.Verify()})
				case "bytes": // alter the encoding itself
					b, err := ids[o.P].Public.Marshal()
					must(err)
					switch o.N {
					case 0:
						b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
					case 1:
						b = b[:rng.Intn(len(b))]
					case 2:
						i := rng.Intn(len(b))
						b = append(b[:i:i], b[i+1:]...)
					case 3:
						b = randBytes(rng.Intn(4000))
					}
					q, err := zkidentity.UnmarshalPublicIdentity(b)
					rec.Ev(M{"op": "bytes", "p": o.P, "ok": err == nil, "same": err == nil && *q == ids[o.P].Public})
				case "sign":
					sigs[o.P+"/"+o.K] = ids[o.P].SignMessage(content(o.K))
					rec.Ev(M{"op": "sign", "p": o.P, "k": o.K})
				case "verify": // is the signature of P over K valid for Q over V?
					s, ok := sigs[o.P+"/"+o.K]
					if !ok {
						return
					}
					if o.B {
						s[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
					}
					rec.Ev(M{"op": "verify", "p": o.P, "k": o.K, "q": o.Q, "v": o.V, "b": o.B,
						"ok": ids[o.Q].Public.VerifyMessage(content(o.V), s)})
				case "str":
					s := ids[o.P].Public.String()
					switch o.N {
					case 1:
						s = strings.ToUpper(s)
					case 2:
						s = s[:rng.Intn(64)]
					case 3:
						s = s + "00"
					case 4:
						i := rng.Intn(64)
						s = s[:i] + "g" + s[i+1:]
					case 5:
						s = " " + s
					case 6:
						s = ""
					case 7:
						s = strings.Repeat("0", 62) + "zz"
					}
					id, err := zkidentity.String2ID(s)
					rec.Ev(M{"op": "str", "p": o.P, "n": o.N, "ok": err == nil, "same": err == nil && *id == ids[o.P].Public.Identity})
				}
			})
		}
	}
}

func alterIdentity(p *zkidentity.PublicIdentity, o Op, ids map[string]*zkidentity.FullIdentity) {
	other := ids[o.Q].Public
	flip := func(b []byte) { b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8)) }
	use := o.B // take the field of the other identity instead of flipping a bit
	switch o.K {
	case "name":
		if use {
			p.Name = other.Name
		} else {
			p.Name += string(rune('a' + rng.Intn(26)))
		}
	case "nick":
		if use {
			p.Nick = other.Nick
		} else {
			p.Nick += string(rune('a' + rng.Intn(26)))
		}
	case "sigkey":
		if use {
			p.SigKey = other.SigKey
		} else {
			flip(p.SigKey[:])
		}
	case "key":
		if use {
			p.Key = other.Key
		} else {
			flip(p.Key[:])
		}
	case "keyid":
		p.Key, p.Identity = other.Key, other.Identity
	case "identity":
		if use {
			p.Identity = other.Identity
		} else {
			flip(p.Identity[:])
		}
	case "digest":
		if use {
			p.Digest = other.Digest
		} else {
			flip(p.Digest[:])
		}
	case "signature":
		if use {
			p.Signature = other.Signature
		} else {
			flip(p.Signature[:])
		}
	case "sigpair":
		p.Digest, p.Signature = other.Digest, other.Signature
	case "shift": // move the boundary between name and nick
		if len(p.Nick) > 0 {
			p.Name, p.Nick = p.Name+p.Nick[:1], p.Nick[1:]
		}
	case "forgedhandle": // signed anew, by the owner of the signing key, with another's handle
		f := *ids[o.P]
		f.Public.Identity = other.Identity
		f.RecalculateDigest()
		*p = f.Public
	case "all":
		*p = other
		p.Identity = ids[o.P].Public.Identity
	}
}

// ---------------------------------------------------------------- blobs
func cmdBlob() {
	blobshare.SetNrp(2, 1, 1)
	for n, ops := range beh {
		if n%50 == 49 {
			blobshare.SetNrp(16384, 8, 1)
		} else {
			blobshare.SetNrp(2, 1, 1)
		}
		rec.Ev(M{"op": "reset"})
		blobs := map[string][]byte{}
		datas := map[string][]byte{}
		for _, o := range ops {
			o := o
			guard("blob "+o.Op, func() {
				switch o.Op {
				case "pack":
					sizes := []int{0, 1, 15, 16, 17, 55, 56, 57, 64, 1000, 70000}
					d := randBytes(sizes[rng.Intn(len(sizes))])
					key, salt, err := blobshare.NewKey([]byte(o.K))
					must(err)
					enc, nonce, err := blobshare.Encrypt(d, key)
					must(err)
					blobs[o.P] = blobshare.PackSaltNonce(salt, nonce, enc)
					datas[o.P] = d
					rec.Ev(M{"op": "pack", "p": o.P, "k": o.K})
				case "open":
					b := append([]byte{}, blobs[o.P]...)
					switch o.V {
					case "flip":
						b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
					case "salt":
						b[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
					case "nonce":
						b[32+rng.Intn(24)] ^= 1 << uint(rng.Intn(8))
					case "tag":
						b[56+rng.Intn(16)] ^= 1 << uint(rng.Intn(8))
					case "trunc":
						b = b[:rng.Intn(len(b))]
					case "short":
						b = b[:rng.Intn(57)]
					case "last":
						b = b[:len(b)-1]
					case "ext":
						b = append(b, randBytes(1+rng.Intn(40))...)
					case "empty":
						b = nil
					case "splice": // salt and nonce of another blob
						b = append(append([]byte{}, blobs[o.Q][:56]...), b[56:]...)
						if o.P == o.Q {
							b = b[:56]
						}
					}
					d, err := openBlob(b, []byte(o.K))
					rec.Ev(M{"op": "open", "p": o.P, "k": o.K, "v": o.V, "q": o.Q, "ok": err == nil,
						"same": err == nil && bytes.Equal(d, datas[o.P])})
				case "nonce": // the framing without a salt
					var key [32]byte
					copy(key[:], o.K)
					d := randBytes(rng.Intn(100))
					enc, nonce, err := blobshare.Encrypt(d, &key)
					must(err)
					b := blobshare.PackNonce(nonce, enc)
					switch o.V {
					case "trunc", "short":
						b = b[:rng.Intn(len(b))]
					case "empty":
						b = nil
					case "ext":
						b = append(b, 0)
					case "":
					default:
						b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
					}
					nn, data, err := blobshare.UnpackNonce(b)
					var dd []byte
					if err == nil {
						dd, err = blobshare.Decrypt(&key, nn, data)
					}
					rec.Ev(M{"op": "nonce", "k": o.K, "v": o.V, "ok": err == nil, "same": err == nil && bytes.Equal(d, dd)})
				}
			})
		}
	}
}

func openBlob(b, password []byte) ([]byte, error) {
	salt, nonce, data, err := blobshare.UnpackSaltNonce(b)
	if err != nil {
		return nil, err
	}
	key, err := blobshare.DeriveKey(password, salt)
	if err != nil {
		return nil, err
	}
	return blobshare.Decrypt(key, nonce, data)
}
