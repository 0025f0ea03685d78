package main

// zkexport and zkimport on the roots of servers and clients.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	commands["export"] = cmdExport
}

type exServer struct {
	root, listen string
	dir          bool
	id           *zkidentity.FullIdentity
	cert         []byte
	secrets      [][]byte
}

type exRun struct {
	base               string
	zkexport, zkimport string
	srv                map[string]*exServer
	cli                map[string]*zkidentity.FullIdentity
	blobs              [][]byte
	kind               []string
	ident              map[string]bool // clients that have run
	secrets            [][]byte
	rnd                *rand.Rand
}

func idSecrets(f *zkidentity.FullIdentity) [][]byte {
	return [][]byte{f.PrivateSigKey[:32], f.PrivateKey[:48], f.PrivateKey[100:148]}
}

func (x *exRun) cmd(bin, stdin string, pre []string, args ...string) (string, int) {
	args = append(append(pre, bin), args...)
	c := exec.Command(args[0], args[1:]...)
	c.Dir = x.base
	c.Env = append(os.Environ(), "HOME="+filepath.Join(x.base, "nohome"))
	c.Stdin = strings.NewReader(stdin)
	var out bytes.Buffer
	c.Stdout = &out
	must(c.Start())
	t := time.AfterFunc(30*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	rc := 0
	if err != nil {
		rc = 1
	}
	return out.String(), rc
}

var hexDump = regexp.MustCompile(`(?m)^\s*[0-9a-f]{8}  ((?:[0-9a-f]{2} {1,2}){1,16})`)

// leaks tells whether any secret is in what was printed, in whatever form.
func (x *exRun) leaks(out string) bool {
	views := [][]byte{[]byte(out)}
	for _, line := range strings.Fields(out) {
		if b, err := base64.StdEncoding.DecodeString(line); err == nil {
			views = append(views, b)
		}
		if b, err := hex.DecodeString(line); err == nil {
			views = append(views, b)
		}
	}
	var dump []byte
	for _, m := range hexDump.FindAllStringSubmatch(out, -1) {
		b, _ := hex.DecodeString(strings.Join(strings.Fields(m[1]), ""))
		dump = append(dump, b...)
	}
	views = append(views, dump)
	for _, s := range x.secrets {
		for _, v := range views {
			if bytes.Contains(v, s) || bytes.Contains(v, []byte(hex.EncodeToString(s))) {
				return true
			}
		}
	}
	return false
}

func (s *exServer) configure() {
	c := "root = " + s.root + "\n"
	if s.listen != "" {
		c += "listen = " + s.listen + "\n"
	}
	c += "directory = " + yesno(s.dir) + "\n"
	must(os.WriteFile(filepath.Join(s.root, "zkserver.conf"), []byte(c), 0600))
}

func (x *exRun) clientIni(c string) string {
	return filepath.Join(x.base, c, tools.ZKCServerFilename)
}

func b64xdr(v interface{}) string {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, v)
	must(err)
	return base64.StdEncoding.EncodeToString(b.Bytes())
}

// firstRun does what the client does when it runs for the first time: it saves its own identity next to the server.
func (x *exRun) firstRun(c string) {
	db, err := inidb.New(x.clientIni(c), false, 10)
	if err != nil {
		return
	}
	if s, err := db.Get("", "server"); err != nil || s == "" || x.ident[c] {
		return
	}
	must(db.Set("", "myidentity", b64xdr(x.cli[c])))
	must(db.Save())
	x.ident[c] = true
}

func (x *exRun) conf(c string) M {
	m := M{"has": false, "id": "", "cert": "", "addr": "", "dir": false}
	if _, err := os.Stat(x.clientIni(c)); err != nil {
		return m
	}
	m["has"] = true
	db, err := inidb.New(x.clientIni(c), false, 10)
	if err != nil {
		m["addr"] = "unreadable: " + err.Error()
		return m
	}
	get := func(k string) string { v, _ := db.Get("", k); return v }
	m["addr"] = get("server")
	if v := get("directory"); v == "true" {
		m["dir"] = true
	} else if v != "false" && v != "" {
		m["dir"] = v
	}
	if v := get("serveridentity"); v != "" {
		m["id"] = "?"
		b, err := base64.StdEncoding.DecodeString(v)
		var p zkidentity.PublicIdentity
		if err == nil {
			_, err = xdr.Unmarshal(bytes.NewReader(b), &p)
		}
		for n, s := range x.srv {
			if err == nil && p == s.id.Public {
				m["id"] = n
			}
		}
	}
	if v := get("servercert"); v != "" {
		m["cert"] = "?"
		b, _ := base64.StdEncoding.DecodeString(v)
		for n, s := range x.srv {
			if bytes.Equal(b, s.cert) {
				m["cert"] = n
			}
		}
	}
	return m
}

func (x *exRun) kept() bool {
	for c := range x.ident {
		db, err := inidb.New(x.clientIni(c), false, 10)
		if err != nil {
			return false
		}
		if v, err := db.Get("", "myidentity"); err != nil || v != b64xdr(x.cli[c]) {
			return false
		}
	}
	return true
}

func (x *exRun) accts(s string) []string {
	res := []string{}
	fs, _ := os.ReadDir(filepath.Join(x.srv[s].root, tools.ZKSHome))
	for _, f := range fs {
		if len(f.Name()) != 64 {
			continue
		}
		name := "?"
		db, err := inidb.New(filepath.Join(x.srv[s].root, tools.ZKSHome, f.Name(), "user.ini"), false, 10)
		if err == nil {
			v, _ := db.Get("", "identity")
			for n, c := range x.cli {
				if v == b64xdr(c.Public) && f.Name() == hex.EncodeToString(c.Public.Identity[:]) {
					name = n
				}
			}
		}
		res = append(res, name)
	}
	sort.Strings(res)
	return res
}

func (x *exRun) record(b64 string) M {
	b, err := base64.StdEncoding.DecodeString(b64)
	if err != nil {
		return M{"t": "?"}
	}
	var r tools.ServerRecord
	n, err := xdr.Unmarshal(bytes.NewReader(b), &r)
	if err == nil && n == len(b) {
		m := M{"t": "server", "id": "?", "cert": "?", "addr": string(r.IPandPort), "dir": r.Directory}
		for k, s := range x.srv {
			if r.PublicIdentity == s.id.Public {
				m["id"] = k
			}
			if bytes.Equal(r.Certificate, s.cert) {
				m["cert"] = k
			}
		}
		return m
	}
	var cr tools.ClientRecord
	n, err = xdr.Unmarshal(bytes.NewReader(b), &cr)
	if err == nil && n == len(b) {
		m := M{"t": "client", "id": "?"}
		for k, c := range x.cli {
			if cr.PublicIdentity == c.Public {
				m["id"] = k
			}
		}
		return m
	}
	return M{"t": "?"}
}

// file writes the blob, damaged as asked, for the import.
func (x *exRun) file(n int, op Op, name string) string {
	b := append([]byte{}, x.blobs[n-1]...)
	switch op.V {
	case "wrap":
		var w []byte
		for i := 0; i < len(b); i += 64 {
			j := i + 64
			if j > len(b) {
				j = len(b)
			}
			w = append(append(w, b[i:j]...), '\n')
		}
		b = w
	case "space":
		b = append([]byte("\n\n"), bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n\r\n"))...)
	case "trunc":
		full := bytes.TrimRight(b, "\n")
		_, idlen := 0, len(x.identBytes(n))
		at := op.D * len(full) / 1000
		if op.D%3 == 0 { // around the end of the identity
			at = (idlen/3)*4 + 8 + op.D%29
		}
		if op.D%5 == 0 {
			at = len(full) - 1 - op.D%40
		}
		if d := at/4*3 - idlen; x.kind[n-1] == "server" && d > -7 && d < 4 {
			at += 12 // what is left could be a client's record
		}
		if at >= len(full) {
			at = len(full) - 1
		}
		b = full[:at]
	case "garbage":
		b = make([]byte, 10+op.D*3)
		x.rnd.Read(b)
		if op.D%2 == 0 {
			b = []byte(base64.StdEncoding.EncodeToString(b))
		}
	case "empty":
		b = nil
	case "text":
		b = []byte("This is not a record\nbut some text.\n")
	case "char":
		at := op.D * (len(b) - 16) / 1000
		b[at] = "!-_. "[op.D%5]
	case "ident":
		raw, err := base64.StdEncoding.DecodeString(strings.TrimSpace(string(b)))
		must(err)
		id := x.identBytes(n)
		at := op.D * len(id) / 1000
		if op.D%4 == 0 { // names
			at = 4 + op.D/4%8
		}
		raw[at] ^= 1 << uint(op.D%8)
		b = []byte(base64.StdEncoding.EncodeToString(raw) + "\n")
	}
	fn := filepath.Join(x.base, name)
	must(os.WriteFile(fn, b, 0600))
	return fn
}

// identBytes is the identity at the start of a record.
func (x *exRun) identBytes(n int) []byte {
	raw, err := base64.StdEncoding.DecodeString(strings.TrimSpace(string(x.blobs[n-1])))
	must(err)
	var r tools.ClientRecord
	_, err = xdr.Unmarshal(bytes.NewReader(raw), &r)
	must(err)
	var b bytes.Buffer
	_, err = xdr.Marshal(&b, r)
	must(err)
	return b.Bytes()
}

func (x *exRun) after(e M) {
	cs, as := M{}, M{}
	for c := range x.cli {
		cs[c] = x.conf(c)
	}
	for s := range x.srv {
		as[s] = x.accts(s)
	}
	e["conf"], e["accts"], e["kept"] = cs, as, x.kept()
	rec.Ev(e)
}

func (x *exRun) run(ops []Op) {
	for _, op := range ops {
		switch op.Op {
		case "reconf":
			s := x.srv[op.P]
			s.listen, s.dir = op.K, op.B
			s.configure()
			rec.Ev(M{"op": "reconf", "p": op.P, "k": op.K, "b": op.B})
		case "export", "exportc":
			args := []string{"-root", filepath.Join(x.base, op.P)}
			if op.Op == "export" {
				args = append(args, "-s")
				if op.K != "" {
					args = append(args, "-i", op.K)
				}
			} else if !x.ident[op.P] {
				args[1] = filepath.Join(x.base, "run-"+op.P)
			}
			if op.V != "" {
				args = append(args, "-"+op.V)
			}
			out, rc := x.cmd(x.zkexport, "", nil, args...)
			leak := x.leaks(out)
			if op.V == "f" {
				want := ""
				if s := x.srv[op.P]; s == nil {
					want = x.cli[op.P].Public.Fingerprint() + "\n"
				} else if op.K != "" || s.listen != "" {
					want = fmt.Sprintf("outer: %s\ninner: %s\n", tools.Fingerprint(s.cert), s.id.Public.Fingerprint())
				}
				rec.Ev(M{"op": "finger", "p": op.P, "ok": out == want, "leak": leak})
				// blobs are numbered as the generator does
				x.blobs, x.kind = append(x.blobs, nil), append(x.kind, "")
				continue
			}
			line := strings.SplitN(out, "\n", 2)[0]
			ok := rc == 0 && line != ""
			r := M{"t": ""}
			if ok {
				r = x.record(line)
			}
			rec.Ev(M{"op": op.Op, "p": op.P, "k": op.K, "ok": ok, "leak": leak, "rec": r})
			k := ""
			if ok {
				k = fmt.Sprint(r["t"])
			}
			x.blobs, x.kind = append(x.blobs, []byte(line+"\n")), append(x.kind, k)
		case "import", "importc":
			bad := func(n int) bool {
				return n > len(x.blobs) || n > 0 && (x.kind[n-1] == "" || x.kind[n-1] == "?")
			}
			if bad(op.N) || bad(op.I) {
				continue
			}
			if op.Op == "importc" && x.kind[op.N-1] == "server" && (op.V == "" || op.V == "wrap" || op.V == "space") {
				continue
			}
			cfg := filepath.Join(x.base, "import.cfg")
			must(os.WriteFile(cfg, []byte("root = "+filepath.Join(x.base, op.P)+"\n"), 0600))
			args := []string{"-cfg", cfg}
			if op.B {
				args = append(args, "-f")
			}
			args = append(args, x.file(op.N, op, "blob1"))
			if op.I != 0 {
				args = append(args, x.file(op.I, Op{}, "blob2"))
			}
			in := op.K + "\n"
			if op.K == "eof" {
				in = ""
			}
			var pre []string
			kind := ""
			if op.Kind == "kill" && op.I == 0 {
				kind = "kill"
				call := []string{"write", "renameat,rename,renameat2", "close", "openat", "mkdirat,unlinkat", "fsync,fchmod,fcntl"}[op.D%6]
				when := 1 + op.D/6%8
				if op.D%6 == 3 {
					when += 6
				}
				pre = []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%v:signal=KILL:when=%v", call, when)}
			}
			x.cmd(x.zkimport, in, pre, args...)
			// numbers of blobs as the specification counts them
			num := func(n int) int {
				c := 0
				for i := 0; i < n; i++ {
					if x.kind[i] != "" && x.kind[i] != "?" {
						c++
					}
				}
				return c
			}
			e := M{"op": op.Op, "p": op.P, "n": num(op.N), "i": num(op.I), "v": op.V, "b": op.B, "k": op.K, "kind": kind}
			x.after(e)
			if op.Op == "import" {
				x.firstRun(op.P)
			}
		}
	}
}

func cmdExport() {
	base, err := os.MkdirTemp("", "zkhx-")
	must(err)
	defer os.RemoveAll(base)
	names := []string{"s1", "s2"}
	tm := map[string]string{}
	for _, n := range names {
		d := filepath.Join(base, "t"+n)
		must(os.MkdirAll(d, 0700))
		tm[n] = svTemplate(argv[0], d)
	}
	cli := map[string]*zkidentity.FullIdentity{}
	for _, c := range []string{"c1", "c2"} {
		f, err := zkidentity.New("Client "+c, "nick"+c)
		must(err)
		cli[c] = f
	}
	for n, ops := range beh {
		x := &exRun{base: filepath.Join(base, fmt.Sprintf("b%d", n)), zkexport: argv[1], zkimport: argv[2], srv: map[string]*exServer{},
			cli: cli, ident: map[string]bool{}, rnd: rand.New(rand.NewSource(seed + int64(n)*7))}
		must(os.MkdirAll(filepath.Join(x.base, "nohome"), 0700))
		for _, s := range names {
			r := filepath.Join(x.base, s)
			copyDir(tm[s], r)
			must(os.MkdirAll(filepath.Join(r, tools.ZKSHome), 0700))
			b, err := os.ReadFile(filepath.Join(r, tools.ZKSIdentityFilename))
			must(err)
			fi, err := zkidentity.UnmarshalFullIdentity(b)
			must(err)
			ct, err := tls.LoadX509KeyPair(filepath.Join(r, tools.ZKSCertFilename), filepath.Join(r, tools.ZKSKeyFilename))
			must(err)
			sv := &exServer{root: r, id: fi, cert: ct.Certificate[0]}
			x.secrets = append(x.secrets, idSecrets(fi)...)
			switch k := ct.PrivateKey.(type) {
			case *ecdsa.PrivateKey:
				x.secrets = append(x.secrets, k.D.Bytes())
			case ed25519.PrivateKey:
				x.secrets = append(x.secrets, k.Seed())
			}
			x.srv[s] = sv
			sv.configure()
		}
		for c, f := range cli {
			x.secrets = append(x.secrets, idSecrets(f)...)
			must(os.MkdirAll(filepath.Join(x.base, c), 0700))
			db, _ := inidb.New(filepath.Join(x.base, "run-"+c, tools.ZKCServerFilename), true, 10)
			must(db.Set("", "myidentity", b64xdr(f)))
			must(db.Save())
		}
		rec.Ev(M{"op": "reset"})
		x.run(ops)
		os.RemoveAll(x.base)
	}
}
