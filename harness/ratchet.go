package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() { commands["ratchet"] = cmdRatchet }

const rTick = 7 * time.Hour

var rBase = time.Unix(1500000000, 0)

type rParty struct {
	id *zkidentity.FullIdentity
	r  *ratchet.Ratchet
}

func rNew(me, them *zkidentity.FullIdentity) *ratchet.Ratchet {
	r := ratchet.New(rand.Reader)
	r.MyPrivateKey = &me.PrivateKey
	r.MySigningPublic = &me.Public.SigKey
	r.TheirIdentityPublic = &them.Public.Identity
	r.TheirSigningPublic = &them.Public.SigKey
	r.TheirPublicKey = &them.Public.Key
	return r
}

// rPair performs a full key exchange; "a" is alice.
func rPair(ida, idb *zkidentity.FullIdentity) (*ratchet.Ratchet, *ratchet.Ratchet) {
	a, b := rNew(ida, idb), rNew(idb, ida)
	kxa, kxb := new(ratchet.KeyExchange), new(ratchet.KeyExchange)
	must(a.FillKeyExchange(kxa))
	must(b.FillKeyExchange(kxb))
	// the client stores the half finished ratchet and loads it to complete it
	if rHalf = !rHalf; rHalf {
		s := a.Marshal(rBase, time.Hour)
		a = rNew(ida, idb)
		must(a.Unmarshal(viaDisk(s)))
		s = b.Marshal(rBase, time.Hour)
		b = rNew(idb, ida)
		must(b.Unmarshal(viaDisk(s)))
	}
	must(a.CompleteKeyExchange(kxb, true))
	must(b.CompleteKeyExchange(kxa, false))
	return a, b
}

var rHalf bool

// viaDisk encodes and decodes a state the way the client stores it.
func viaDisk(s *disk.RatchetState) *disk.RatchetState {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, s)
	must(err)
	var o disk.RatchetState
	_, err = xdr.Unmarshal(&b, &o)
	must(err)
	return &o
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// copyState makes an independent copy of a saved state, as writing it to disk
// and reading it back would.
func copyState(s *disk.RatchetState) *disk.RatchetState {
	d := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	c := *s
	c.RootKey, c.SendHeaderKey, c.RecvHeaderKey = d(s.RootKey), d(s.SendHeaderKey), d(s.RecvHeaderKey)
	c.NextSendHeaderKey, c.NextRecvHeaderKey = d(s.NextSendHeaderKey), d(s.NextRecvHeaderKey)
	c.SendChainKey, c.RecvChainKey = d(s.SendChainKey), d(s.RecvChainKey)
	c.SendRatchetPrivate, c.RecvRatchetPublic = d(s.SendRatchetPrivate), d(s.RecvRatchetPublic)
	c.Private, c.MyHalf, c.TheirHalf = d(s.Private), d(s.MyHalf), d(s.TheirHalf)
	c.SavedKeys = nil
	for _, sk := range s.SavedKeys {
		n := sk
		n.HeaderKey = d(sk.HeaderKey)
		n.MessageKeys = nil
		for _, mk := range sk.MessageKeys {
			m := mk
			m.Key = d(mk.Key)
			n.MessageKeys = append(n.MessageKeys, m)
		}
		c.SavedKeys = append(c.SavedKeys, n)
	}
	return &c
}

type rMsg struct {
	from  string
	plain []byte
	ct    []byte
}

type rRun struct {
	ids   map[string]*zkidentity.FullIdentity
	r     map[string]*ratchet.Ratchet
	clock int
	life  time.Duration
	msgs  []rMsg
}

func other(p string) string {
	if p == "a" {
		return "b"
	}
	return "a"
}

func (t *rRun) now() time.Time { return rBase.Add(time.Duration(t.clock) * rTick) }

func (t *rRun) load(p string, s *disk.RatchetState) (*ratchet.Ratchet, error) {
	r := rNew(t.ids[p], t.ids[other(p)])
	r.Now = t.now
	err := r.Unmarshal(copyState(s))
	return r, err
}

var rSizes = []int{0, 0, 1, 2, 15, 16, 17, 31, 32, 33, 100, 255, 256, 1000, 4096, 65000}

func (t *rRun) probe() {
	match := true
	sets := M{"op": "probe"}
	for _, p := range []string{"a", "b"} {
		set := []int{}
		fresh := func() *ratchet.Ratchet {
			c, err := t.load(p, t.r[p].Marshal(t.now(), t.life))
			must(err)
			return c
		}
		c := fresh()
		// The model judges each message against the saved state itself; an
		// acceptance changes the copy, so a new one is made after each.
		for i := range t.msgs {
			if t.msgs[i].from == p {
				continue
			}
			pt, err := c.Decrypt(append([]byte{}, t.msgs[i].ct...))
			if err == nil {
				set = append(set, i+1)
				if !bytes.Equal(pt, t.msgs[i].plain) {
					match = false
				}
				c = fresh()
			}
		}
		sets[p] = set
	}
	sets["match"] = match
	rec.Ev(sets)
}

// mutations of a genuine ciphertext (or of nothing), none of which the peer
// ever produced.
func (t *rRun) badInputs(p string, i int) [][]byte {
	var out [][]byte
	if i == 0 || i > len(t.msgs) {
		for _, n := range []int{0, 1, 23, 24, 103, 104, 105, 120, 200} {
			out = append(out, randBytes(n))
			out = append(out, make([]byte, n))
		}
		return out
	}
	ct := t.msgs[i-1].ct
	flip := func(k int) {
		c := append([]byte{}, ct...)
		c[k] ^= byte(1 << uint(rng.Intn(8)))
		out = append(out, c)
	}
	for k := 0; k < 5; k++ {
		flip(rng.Intn(len(ct)))
	}
	flip(rng.Intn(24))                // header nonce
	flip(24 + rng.Intn(80))           // sealed header
	flip(104 + rng.Intn(len(ct)-104)) // body
	flip(len(ct) - 1)
	out = append(out, append([]byte{}, ct[:rng.Intn(len(ct))]...))
	out = append(out, append([]byte{}, ct[:104]...))
	out = append(out, append([]byte{}, ct[:len(ct)-1]...))
	out = append(out, append(append([]byte{}, ct...), 0))
	// header of one message with the body of another
	j := rng.Intn(len(t.msgs))
	if j != i-1 {
		c := append(append([]byte{}, ct[:104]...), t.msgs[j].ct[104:]...)
		out = append(out, c)
	}
	// the party's own messages reflected
	for k := range t.msgs {
		if t.msgs[k].from == p {
			out = append(out, append([]byte{}, t.msgs[k].ct...))
			if len(out) > 24 {
				break
			}
		}
	}
	return out
}

func (t *rRun) step(o Op) {
	switch o.Op {
	case "send":
		ok := true
		for k := 0; k < o.N; k++ {
			sz := rSizes[rng.Intn(len(rSizes))]
			if o.N > 8 {
				sz = rng.Intn(40)
			}
			pt := randBytes(sz)
			pre := randBytes(rng.Intn(3))
			out, err := t.r[o.P].Encrypt(append([]byte{}, pre...), append([]byte{}, pt...))
			if err != nil || !bytes.HasPrefix(out, pre) {
				ok = false
				out = append(append([]byte{}, pre...), make([]byte, 120)...)
			}
			t.msgs = append(t.msgs, rMsg{o.P, pt, append([]byte{}, out[len(pre):]...)})
		}
		rec.Ev(M{"op": "send", "p": o.P, "n": o.N, "ok": ok})
	case "recv":
		m := t.msgs[o.I-1]
		in := append([]byte{}, m.ct...)
		pt, err := t.r[o.P].Decrypt(in)
		e := M{"op": "recv", "p": o.P, "i": o.I, "ok": err == nil, "match": err == nil && bytes.Equal(pt, m.plain) && bytes.Equal(in, m.ct)}
		if err != nil {
			e["err"] = err.Error()
		}
		rec.Ev(e)
	case "bad":
		acc := false
		for _, x := range t.badInputs(o.P, o.I) {
			if _, err := t.r[o.P].Decrypt(x); err == nil {
				acc = true
			}
		}
		rec.Ev(M{"op": "bad", "p": o.P, "i": o.I, "ok": acc})
	case "reload":
		s := t.r[o.P].Marshal(t.now(), t.life)
		r, err := t.load(o.P, viaDisk(s))
		rec.Ev(M{"op": "reload", "p": o.P, "ok": err == nil})
		if err == nil {
			t.r[o.P] = r
		}
	case "save":
		s := t.r[o.P].Marshal(t.now(), t.life)
		// scribbling over the saved copy must not reach the running ratchet
		for _, b := range [][]byte{s.RootKey, s.SendChainKey, s.RecvChainKey, s.SendRatchetPrivate, s.RecvHeaderKey, s.SendHeaderKey, s.NextRecvHeaderKey, s.NextSendHeaderKey, s.RecvRatchetPublic} {
			for i := range b {
				b[i] = 0xff
			}
		}
		for _, sk := range s.SavedKeys {
			for i := range sk.HeaderKey {
				sk.HeaderKey[i] = 0xff
			}
			for _, mk := range sk.MessageKeys {
				for i := range mk.Key {
					mk.Key[i] = 0xff
				}
			}
		}
		rec.Ev(M{"op": "save", "p": o.P, "ok": true})
	case "tick":
		t.clock += o.D
		rec.Ev(M{"op": "tick", "d": o.D})
	default:
		panic("unknown op " + o.Op)
	}
}

func cmdRatchet() {
	life := 3
	probes := true
	fmt.Sscan(argv[0], &life)
	probes = argv[1] == "probe"
	ida, err := zkidentity.New("alice", "a")
	must(err)
	idb, err := zkidentity.New("bob", "b")
	must(err)
	_ = sntrup4591761.PublicKeySize
	ids := map[string]*zkidentity.FullIdentity{"a": ida, "b": idb}
	var pa, pb *disk.RatchetState
	for n, ops := range beh {
		t := &rRun{ids: ids, life: time.Duration(life) * rTick}
		rec.Ev(M{"op": "reset"})
		guard("ratchet", func() {
			if n%40 == 0 {
				a, b := rPair(ida, idb)
				pa, pb = a.Marshal(rBase, t.life), b.Marshal(rBase, t.life)
				a.Now, b.Now = t.now, t.now
				t.r = map[string]*ratchet.Ratchet{"a": a, "b": b}
			} else {
				a, err := t.load("a", pa)
				must(err)
				b, err := t.load("b", pb)
				must(err)
				t.r = map[string]*ratchet.Ratchet{"a": a, "b": b}
			}
			every := 1
			if n := len(ops); n > 60 {
				every = n / 12
			}
			for k, o := range ops {
				if (o.Op == "recv" || o.Op == "bad") && o.I > len(t.msgs) {
					continue
				}
				t.step(o)
				if probes && (len(t.msgs) < 25 || (k+1)%10 == 0) && (k%every == 0 || k == len(ops)-1) {
					t.probe()
				}
			}
			t.probe()
		})
	}
}
