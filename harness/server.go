package main

// A running key server, driven through its network addresses.  Every history
// runs in a process of its own ("server-one"): it may die, and it sends
// signals to itself.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/protocol"
)

func init() {
	suites["server"] = serverParent
	suites["server-one"] = serverChild
}

// ---------------------------------------------------------------------
// parent: one process per history

var nextPort int32 = 21000

// freePorts returns n ports below the ephemeral range that nobody uses.
func freePorts(n int) []int {
	var out []int
	for len(out) < n {
		p := int(atomic.AddInt32(&nextPort, 1))
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		l.Close()
		out = append(out, p)
	}
	return out
}

func serverParent(t *tracer) error {
	ops := readOps()
	var hs [][]rec
	for _, op := range ops {
		if str(op, "op") == "New" || str(op, "op") == "Conc" {
			hs = append(hs, nil)
		}
		hs[len(hs)-1] = append(hs[len(hs)-1], op)
	}
	nextPort += int32(os.Getpid()%50) * 150
	out := make([][][]byte, len(hs))
	par := 12
	if len(hs) > 0 && num(hs[0][0], "par") > 0 {
		par = num(hs[0][0], "par")
	}
	next := make(chan int)
	var wg sync.WaitGroup
	for j := 0; j < par; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				out[i] = runChild(i, hs[i])
			}
		}()
	}
	for i := range hs {
		next <- i
	}
	close(next)
	wg.Wait()
	for _, ls := range out {
		t.lines = append(t.lines, ls...)
	}
	return nil
}

func runChild(i int, ops []rec) [][]byte {
	dir := filepath.Join(*scratch, fmt.Sprintf("h%d", i))
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0700); err != nil {
		fatal(err)
	}
	ops[0]["ports"] = freePorts(len(ops[0]["perms"].([]interface{})))
	var buf bytes.Buffer
	for _, op := range ops {
		bs, _ := json.Marshal(op)
		buf.Write(append(bs, '\n'))
	}
	in, outp := filepath.Join(dir, "ops"), filepath.Join(dir, "trace")
	if err := os.WriteFile(in, buf.Bytes(), 0600); err != nil {
		fatal(err)
	}
	cmd := exec.Command(os.Args[0], "server-one", "-in", in, "-out", outp, "-seed", fmt.Sprint(*seed*7919+int64(i)), "-tier", *tier, "-scratch", dir)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(200 * time.Second):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("the process did not end")
	}
	var lines [][]byte
	bs, _ := os.ReadFile(outp + ".live")
	for _, l := range bytes.Split(bs, []byte("\n")) {
		if len(l) > 0 && json.Valid(l) {
			lines = append(lines, l)
		}
	}
	add := func(ev, what string) {
		l, _ := json.Marshal(rec{"ev": ev, "o": what})
		lines = append(lines, l)
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		fatal("child: " + errb.String())
	}
	if err != nil && len(lines) == 0 && str(ops[0], "op") == "New" {
		l, _ := json.Marshal(rec{"ev": "New", "kind": str(ops[0], "kind"), "perms": ops[0]["perms"], "cap": 1, "dl": 1, "timer": 1, "lcp": rec{}, "o": "died"})
		lines = append(lines, l)
	}
	if err != nil {
		add("Crash", err.Error()+": "+panicLine(errb.String()))
	}
	for _, r := range races(errb.String()) {
		add("Race", r)
	}
	os.RemoveAll(dir)
	return lines
}

func panicLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return "?"
}

// races summarises the race detector's reports about code of the repository.
func races(s string) []string {
	var out []string
	seen := map[string]bool{}
	for _, blk := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(blk, "=================="); i >= 0 {
			blk = blk[:i]
		}
		var fs []string
		for _, l := range strings.Split(blk, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/coniks-sys/coniks-go/") && len(fs) < 4 {
				fs = append(fs, strings.TrimPrefix(strings.SplitN(l, "(0x", 2)[0], "github.com/coniks-sys/coniks-go/"))
			}
			if strings.HasPrefix(l, "Goroutine ") {
				break // where the goroutines were created
			}
		}
		if len(fs) == 0 {
			continue
		}
		k := strings.Join(fs, " <- ")
		if !seen[k] && len(out) < 10 {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// ---------------------------------------------------------------------
// child

type serverRun struct {
	t       *tracer
	r       *dirRun
	dir     string
	addrs   []*server.Address
	conf    *server.Config
	s       *server.ConiksServer
	known   int // latest epoch seen
	t0      time.Time
	timer   int
	refLock sync.Mutex
	refs    []time.Time // firings of the reference timer
	stale   time.Time   // when the latest known epoch was last seen to be the latest
	fresh   time.Time
	conns   map[string]*heldConn
	bg      sync.WaitGroup
	stopped chan struct{}
	endedAt time.Time // when Shutdown returned
	lastBeg time.Time
}

type heldConn struct {
	c     net.Conn
	a     int
	q     rec
	rest  []byte
	since time.Time
}

func tlsFiles(dir string) (string, string) {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		fatal(err)
	}
	tpl := x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()),
		Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		BasicConstraintsValid: true, IsCA: true, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(rand.Reader, &tpl, &tpl, &priv.PublicKey, priv)
	if err != nil {
		fatal(err)
	}
	kb, err := x509.MarshalECPrivateKey(priv)
	if err != nil {
		fatal(err)
	}
	c, k := filepath.Join(dir, "server.pem"), filepath.Join(dir, "server.key")
	os.WriteFile(c, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	os.WriteFile(k, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600)
	return c, k
}

func boolList(v interface{}) []bool {
	var out []bool
	for _, x := range v.([]interface{}) {
		out = append(out, x.(bool))
	}
	return out
}

func intOf(op rec, k string, def int) int {
	if f, ok := op[k].(float64); ok {
		return int(f)
	}
	return def
}

func newServerRun(t *tracer, op rec) (*serverRun, string) {
	names, keys := strList(op["names"]), strList(op["keys"])
	w := newWorld(*seed%1000*1000+int64(intOf(op, "w", 0)), names, keys)
	x := &serverRun{t: t, dir: *scratch, conns: map[string]*heldConn{}, timer: num(op, "timer")}
	x.r = &dirRun{w: w, sids: intern{}, roots: intern{}, sigs: map[string]int{}, salts: map[string]string{}, labels: names}
	perms := boolList(op["perms"])
	ports := op["ports"].([]interface{})
	cert, key := tlsFiles(x.dir)
	for i, p := range perms {
		a := &server.Address{ServerAddress: &application.ServerAddress{}, AllowRegistration: p}
		if i%2 == 0 {
			a.Address = fmt.Sprintf("unix://%s/s%d", x.dir, i)
		} else {
			a.Address = fmt.Sprintf("tcp://127.0.0.1:%d", int(ports[i].(float64)))
			a.TLSCertPath, a.TLSKeyPath = cert, key
		}
		x.addrs = append(x.addrs, a)
	}
	os.WriteFile(filepath.Join(x.dir, "sign.priv"), w.signKey, 0600)
	os.WriteFile(filepath.Join(x.dir, "vrf.priv"), w.vrfKey, 0600)
	dl := protocol.Timestamp(num(op, "dl"))
	file := filepath.Join(x.dir, "config.toml")
	x.conf = server.NewConfig(file, "toml", x.addrs,
		&application.LoggerConfig{Environment: "production", Path: filepath.Join(x.dir, "log")},
		uint64(num(op, "cap")), server.NewPolicies(dl, "vrf.priv", "sign.priv", w.vrfKey, w.signKey), "init.str")
	x.writeConf("valid", num(op, "dl"))
	x.conf.EpochDeadline = protocol.Timestamp(x.timer)
	x.t0 = time.Now()
	p := guard(func() {
		x.s = server.NewConiksServer(x.conf)
		x.s.Run(x.addrs)
	})
	x.fresh = time.Now()
	if x.timer > 0 && x.timer < 60 {
		d := time.Duration(x.timer) * time.Second
		tm := time.NewTimer(d)
		go func() {
			for {
				<-tm.C
				x.refLock.Lock()
				x.refs = append(x.refs, time.Now())
				x.refLock.Unlock()
				tm.Reset(d)
			}
		}()
	}
	return x, p
}

// writeConf puts a configuration file of the given kind in place.
func (x *serverRun) writeConf(kind string, dl int) {
	file := filepath.Join(x.dir, "config.toml")
	os.RemoveAll(file)
	w := x.r.w
	os.WriteFile(filepath.Join(x.dir, "sign.priv"), w.signKey, 0600)
	os.WriteFile(filepath.Join(x.dir, "vrf.priv"), w.vrfKey, 0600)
	pol := fmt.Sprintf("[policies]\nepoch_deadline = %d\nvrf_key_path = \"vrf.priv\"\nsign_key_path = \"sign.priv\"\n", dl)
	head := fmt.Sprintf("loaded_history_length = 7\ninit_str_path = \"init.str\"\nepoch_deadline = %d\n", dl)
	tail := "[logger]\nenv = \"production\"\npath = \"log\"\n"
	// the reloaded file lists other addresses: they must not matter
	tail += "[[addresses]]\naddress = \"unix:///nonexistent/sock\"\nallow_registration = true\n"
	switch kind {
	case "valid":
	case "missing":
		return
	case "corrupt":
		head = "loaded_history_length = = 3\n" + head
	case "empty":
		head, pol, tail = "", "[policies]\n", ""
	case "nopolicies":
		pol = fmt.Sprintf("[policies]\nepoch_deadline = %d\n", dl)
	case "nosignkey":
		os.Remove(filepath.Join(x.dir, "sign.priv"))
	case "shortsignkey":
		os.WriteFile(filepath.Join(x.dir, "sign.priv"), w.signKey[:63], 0600)
	case "novrfkey":
		os.Remove(filepath.Join(x.dir, "vrf.priv"))
	case "longvrfkey":
		os.WriteFile(filepath.Join(x.dir, "vrf.priv"), append(append([]byte{}, w.vrfKey...), 0), 0600)
	case "badtype":
		pol = "[policies]\nepoch_deadline = \"soon\"\nvrf_key_path = \"vrf.priv\"\nsign_key_path = \"sign.priv\"\n"
	case "dir":
		os.Mkdir(file, 0700)
		return
	default:
		fatal("config " + kind)
	}
	if err := os.WriteFile(file, []byte(head+pol+tail), 0600); err != nil {
		fatal(err)
	}
}

const slowAfter = 4 * time.Second

// dial connects to address a.
func (x *serverRun) dial(a int) (net.Conn, error) {
	ad := x.addrs[a-1].Address
	if strings.HasPrefix(ad, "unix://") {
		return net.DialTimeout("unix", strings.TrimPrefix(ad, "unix://"), 10*time.Second)
	}
	c, err := net.DialTimeout("tcp", strings.TrimPrefix(ad, "tcp://"), 10*time.Second)
	if err != nil {
		return nil, err
	}
	return tls.Client(c, &tls.Config{InsecureSkipVerify: true}), nil
}

func halfClose(c net.Conn) {
	if h, ok := c.(interface{ CloseWrite() error }); ok {
		h.CloseWrite()
	}
}

// collect reads what the server answers until it closes the connection.
func collect(c net.Conn, limit time.Duration) (got string, body []byte) {
	c.SetReadDeadline(time.Now().Add(limit))
	body, err := io.ReadAll(c)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return "hang", body
	}
	if len(bytes.TrimSpace(body)) == 0 {
		return "closed", nil
	}
	dec := json.NewDecoder(bytes.NewReader(body))
	var m map[string]json.RawMessage
	if dec.Decode(&m) != nil {
		return "garbled", body
	}
	var code int
	if m["Error"] == nil || json.Unmarshal(m["Error"], &code) != nil || strings.HasPrefix(codeName(protocol.ErrorCode(code)), "code") {
		return "garbled", body
	}
	for k := range m {
		if k != "Error" && k != "DirectoryResponse" {
			return "garbled", body
		}
	}
	var more json.RawMessage
	if dec.Decode(&more) != io.EOF {
		return "several", body
	}
	return "one", body
}

func jsonStr(s string) string { b, _ := json.Marshal(s); return string(b) }

// payload renders the request object of q.
func (x *serverRun) payload(q rec) string {
	n, k := x.r.w.names[str(q, "n")], x.r.w.keys[str(q, "k")]
	kb, _ := json.Marshal(k)
	s, e := epochOf(num(q, "s")), epochOf(num(q, "e"))
	switch str(q, "p") {
	case "Reg":
		return fmt.Sprintf(`{"Username":%s,"Key":%s,"AllowUnsignedKeychange":true,"AllowPublicLookup":true}`, jsonStr(n), kb)
	case "Look":
		return fmt.Sprintf(`{"Username":%s}`, jsonStr(n))
	case "LookEp":
		return fmt.Sprintf(`{"Username":%s,"Epoch":%d}`, jsonStr(n), e)
	case "Mon":
		return fmt.Sprintf(`{"Username":%s,"StartEpoch":%d,"EndEpoch":%d}`, jsonStr(n), s, e)
	case "STR":
		return fmt.Sprintf(`{"StartEpoch":%d,"EndEpoch":%d}`, s, e)
	case "empty":
		return `{}`
	case "null":
		return `null`
	case "string":
		return `"x"`
	case "number":
		return `17`
	case "list":
		return `[1,2]`
	case "badname":
		return `{"Username":5,"StartEpoch":"0"}`
	case "badepoch":
		return fmt.Sprintf(`{"Username":{"a":%s},"Key":"%%","Epoch":-1,"StartEpoch":-1,"EndEpoch":1e3}`, jsonStr(n))
	}
	fatal("payload " + str(q, "p"))
	return ""
}

func (x *serverRun) request(q rec) []byte {
	if str(q, "p") == "none" {
		return []byte(fmt.Sprintf(`{"type": %d}`, num(q, "t")))
	}
	// what clients send, where the library can say it
	n, k := x.r.w.names[str(q, "n")], x.r.w.keys[str(q, "k")]
	s, e := epochOf(num(q, "s")), epochOf(num(q, "e"))
	var req interface{}
	switch fmt.Sprint(num(q, "t"), str(q, "p")) {
	case "0Reg":
		req = &protocol.RegistrationRequest{Username: n, Key: k}
	case "1Look":
		req = &protocol.KeyLookupRequest{Username: n}
	case "2LookEp":
		req = &protocol.KeyLookupInEpochRequest{Username: n, Epoch: e}
	case "3Mon":
		req = &protocol.MonitoringRequest{Username: n, StartEpoch: s, EndEpoch: e}
	}
	if req != nil && (len(n)+num(q, "t"))%2 == 0 {
		bs, err := application.MarshalRequest(num(q, "t"), req)
		if err != nil {
			fatal(err)
		}
		return bs
	}
	return []byte(fmt.Sprintf(`{"type": %d, "request": %s}`, num(q, "t"), x.payload(q)))
}

// answer decodes the server's answer to q.
func (x *serverRun) answer(q rec, got string, body []byte) rec {
	typ := num(q, "t")
	if typ < 0 || typ > 3 {
		typ = protocol.KeyLookupType
	}
	var o rec
	if got == "one" {
		var res *protocol.Response
		p := guard(func() { res = application.UnmarshalResponse(typ, body) })
		o = x.r.respObs(str(q, "n"), res, p)
	} else {
		o = x.r.respObs("", nil, "no answer")
		o["err"] = got
	}
	return o
}

// exchange sends a complete request on a new connection.
func (x *serverRun) exchange(a int, q rec) rec {
	t := time.Now()
	c, err := x.dial(a)
	if err != nil {
		o := x.answer(q, "nodial", nil)
		o["slow"] = false
		return o
	}
	defer c.Close()
	c.SetWriteDeadline(time.Now().Add(15 * time.Second))
	c.Write(x.request(q))
	halfClose(c)
	got, body := collect(c, 20*time.Second)
	o := x.answer(q, got, body)
	o["slow"] = time.Since(t) > slowAfter
	return o
}

// revealed tells the directory's epoch as far as an answer tells it.
func revealed(q, o rec) int {
	strs := o["strs"].([]rec)
	if len(strs) == 0 || num(q, "t") == protocol.MonitoringType {
		return -1
	}
	return strs[len(strs)-1]["ep"].(int)
}

var probeQ = rec{"t": 1.0, "p": "Look", "n": "nx", "k": "", "s": 0.0, "e": 0.0}

// probe asks for the epoch.
func (x *serverRun) probe() int {
	o := x.exchange(1, probeQ)
	return revealed(probeQ, o)
}

// sawEpoch records the updates up to epoch e.
func (x *serverRun) sawEpoch(e int) {
	now := time.Now()
	for x.known < e && e < 100000 {
		x.known++
		x.fresh = now
		early := now.Sub(x.t0) < time.Duration(x.known*x.timer)*time.Second
		// late: still not there long after the reference timer had fired as often
		x.refLock.Lock()
		late, ref := false, len(x.refs)
		if x.known <= ref && x.known >= 1 {
			late = x.stale.After(x.refs[x.known-1].Add(time.Duration(x.timer) * time.Second * 35 / 100))
		}
		x.refLock.Unlock()
		x.t.emit(rec{"ev": "Upd", "e": x.known, "o": rec{"early": early, "late": late, "t": int(now.Sub(x.t0) / time.Millisecond), "ref": ref}})
	}
}

// placed emits an event at its place among the updates.
func (x *serverRun) placed(ev rec, q, o rec) {
	e := revealed(q, o)
	if e < 0 && x.s != nil {
		if p := x.epochNow(); p > x.known {
			// an update came before or after it: refusals and monitoring
			// answers do not tell
			x.sawEpoch(p)
			return
		}
	}
	x.sawEpoch(e)
	x.t.emit(ev)
}

func (x *serverRun) epochNow() int {
	if x.timer >= 60 {
		return x.known
	}
	if x.stopped != nil {
		return x.direct()
	}
	return x.probe()
}

// direct asks the server without a connection.
func (x *serverRun) direct() int {
	res := x.s.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType,
		Request: &protocol.KeyLookupRequest{Username: x.r.w.names["nx"]}})
	if df, ok := responseProof(res); ok && len(df.STR) > 0 && df.STR[0] != nil {
		return int(df.STR[0].Epoch)
	}
	return -1
}

// tick waits for the next epoch.
func (x *serverRun) tick() bool {
	limit := time.Now().Add(time.Duration(x.timer)*3*time.Second + 8*time.Second)
	for time.Now().Before(limit) {
		asked := time.Now()
		if e := x.probe(); e > x.known {
			x.sawEpoch(e)
			return true
		}
		x.stale = asked
		time.Sleep(25 * time.Millisecond)
	}
	x.t.emit(rec{"ev": "NoUpd"})
	return false
}

func asObj(v interface{}) rec {
	m, _ := v.(map[string]interface{})
	return rec(m)
}

func serverChild(t *tracer) error {
	f, err := os.Create(*outPath + ".live")
	if err != nil {
		return err
	}
	t.live = f
	poolCommon = 48 // processes are short-lived
	for i := range deepNames {
		deepNames[i] = nil
	}
	defer func() {
		if e := recover(); e != nil {
			fatal(e)
		}
	}()
	ops := readOps()
	if str(ops[0], "op") == "Conc" {
		serverConc(t, ops[0])
	} else {
		serverHistory(t, ops)
	}
	f.Close()
	os.Exit(0) // no orderly end: the server may still run
	return nil
}

func serverHistory(t *tracer, ops []rec) {
	var x *serverRun
	for _, op := range ops {
		switch str(op, "op") {
		case "New":
			var p string
			x, p = newServerRun(t, op)
			ev := rec{"ev": "New", "kind": str(op, "kind"), "perms": op["perms"], "cap": num(op, "cap"), "dl": num(op, "dl"),
				"timer": num(op, "timer"), "lcp": x.r.w.lcps(x.r.labels), "o": "ok"}
			if p != "" {
				ev["o"] = p
				t.emit(ev)
				return
			}
			t.emit(ev)
		case "Req":
			q := asObj(op["q"])
			o := x.exchange(num(op, "a"), q)
			x.placed(rec{"ev": "Req", "a": num(op, "a"), "q": q, "o": o}, q, o)
		case "Raw":
			x.garbage(num(op, "a"), str(op, "kind"))
		case "Begin":
			q := asObj(op["q"])
			c, err := x.dial(num(op, "a"))
			if err != nil {
				o := x.answer(q, "nodial", nil)
				o["slow"] = false
				t.emit(rec{"ev": "Req", "a": num(op, "a"), "q": q, "o": o})
				continue
			}
			bs := x.request(q)
			cut := len(bs) / 2
			c.SetWriteDeadline(time.Now().Add(15 * time.Second))
			c.Write(bs[:cut])
			x.conns[str(op, "c")] = &heldConn{c, num(op, "a"), q, bs[cut:], time.Now()}
			x.lastBeg = time.Now()
			t.emit(rec{"ev": "Begin", "c": str(op, "c"), "a": num(op, "a"), "q": q})
		case "Complete", "Drop":
			h := x.conns[str(op, "c")]
			if h == nil {
				continue
			}
			x.abandoned()
			delete(x.conns, str(op, "c"))
			b := time.Now()
			old := b.Sub(h.since) > 3500*time.Millisecond
			if str(op, "op") == "Complete" {
				h.c.SetWriteDeadline(time.Now().Add(15 * time.Second))
				h.c.Write(h.rest)
				halfClose(h.c)
			}
			got, body := collect(h.c, 20*time.Second)
			h.c.Close()
			if str(op, "op") == "Drop" || old && got == "closed" {
				if got == "one" {
					got = x.answer(h.q, got, body)["err"].(string)
				}
				t.emit(rec{"ev": "Drop", "c": str(op, "c"), "o": rec{"got": got, "slow": time.Since(h.since) > 15*time.Second}})
				continue
			}
			o := x.answer(h.q, got, body)
			o["slow"] = time.Since(b) > slowAfter
			x.placed(rec{"ev": "Complete", "c": str(op, "c"), "o": o}, h.q, o)
		case "Tick":
			if !x.tick() {
				return
			}
		case "Write":
			x.writeConf(str(op, "kind"), num(op, "dl"))
			t.emit(rec{"ev": "Write", "ok": str(op, "kind") == "valid", "dl": num(op, "dl")})
		case "Reload":
			// right after an update, so that the next one is far away
			if time.Since(x.fresh) > time.Duration(x.timer)*time.Second/10 && !x.tick() {
				return
			}
			syscall.Kill(os.Getpid(), syscall.SIGUSR2)
			time.Sleep(time.Duration(x.timer) * time.Second * 2 / 5)
			if e := x.probe(); e != x.known {
				t.emit(rec{"ev": "Spoiled"})
				return
			}
			t.emit(rec{"ev": "Reload"})
		case "Stop":
			if d := 500*time.Millisecond - time.Since(x.lastBeg); d > 0 {
				time.Sleep(d)
			}
			if e := x.epochNow(); e > x.known {
				x.sawEpoch(e)
			}
			t.emit(rec{"ev": "Stop"})
			x.stopped = make(chan struct{})
			go func() {
				guard(func() { x.s.Shutdown() })
				x.endedAt = time.Now()
				close(x.stopped)
			}()
			time.Sleep(200 * time.Millisecond)
		case "Stopped":
			ok := true
			select {
			case <-x.stopped:
			case <-time.After(20 * time.Second):
				ok = false
			}
			if ok {
				x.abandoned()
			}
			x.sawEpoch(x.direct())
			t.emit(rec{"ev": "Stopped", "o": rec{"returned": ok}})
			if !ok {
				t.emit(rec{"ev": "Spoiled"})
				return
			}
		case "After":
			b := x.direct()
			if x.timer < 60 {
				time.Sleep(time.Duration(x.timer)*time.Second + 700*time.Millisecond)
			}
			t.emit(rec{"ev": "After", "o": rec{"before": b, "after": x.direct()}})
			x.bg.Wait()
			return
		default:
			fatal("op " + str(op, "op"))
		}
	}
	x.bg.Wait()
}

// abandoned records that Shutdown returned although a request it had accepted
// was neither answered nor old enough to be given up.
func (x *serverRun) abandoned() {
	if x.stopped == nil {
		return
	}
	select {
	case <-x.stopped:
	default:
		return
	}
	for c, h := range x.conns {
		if x.endedAt.Sub(h.since) < 3500*time.Millisecond {
			x.t.emit(rec{"ev": "Abandoned", "c": c})
			x.t.emit(rec{"ev": "Spoiled"})
		}
	}
}

// garbage opens a connection that sends something else than a request.
func (x *serverRun) garbage(a int, kind string) {
	run := func() {
		t := time.Now()
		got, err := x.garbageConn(a, kind)
		if err != nil {
			got = "nodial"
		}
		x.t.emit(rec{"ev": "Raw", "a": a, "kind": kind, "o": rec{"got": got, "slow": time.Since(t) > 15*time.Second}})
	}
	switch kind {
	case "stall", "halfhello", "plaintext", "drip":
		x.bg.Add(1)
		go func() {
			defer x.bg.Done()
			run()
		}()
	default:
		run()
	}
}

func (x *serverRun) garbageConn(a int, kind string) (string, error) {
	reg := func(n, k string) string {
		return string(x.request(rec{"t": 0.0, "p": "Reg", "n": n, "k": k, "s": 0.0, "e": 0.0}))
	}
	var raw []byte
	good := reg("n1", "k2")
	switch kind {
	case "empty":
	case "binary":
		raw = []byte{0xff, 0xfe, 0, 1, 2, 3, 0x80, '{', 0}
	case "notjson":
		raw = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case "truncated":
		raw = []byte(good[:len(good)-1])
	case "array":
		raw = []byte("[" + good + "]")
	case "number":
		raw = []byte("12")
	case "null":
		raw = []byte("null")
	case "typestring":
		raw = []byte(`{"type":"0","request":` + x.payload(rec{"p": "Reg", "n": "n1", "k": "k2", "s": 0.0, "e": 0.0}) + `}`)
	case "typefloat":
		raw = []byte(`{"type":0.5,"request":` + x.payload(rec{"p": "Reg", "n": "n1", "k": "k2", "s": 0.0, "e": 0.0}) + `}`)
	case "typelist":
		raw = []byte(`{"type":[0],"request":` + x.payload(rec{"p": "Reg", "n": "n1", "k": "k2", "s": 0.0, "e": 0.0}) + `}`)
	case "trailing":
		raw = []byte(good + "}")
	case "twice":
		raw = []byte(good + good)
	case "deep":
		raw = []byte(`{"type":1,"request":` + strings.Repeat("[", 3000) + strings.Repeat("]", 3000) + `}`)
	case "badutf8":
		raw = []byte("{\"type\":1,\"request\":{\"Username\":\"a\"},\"\xff\xfe\":\"\xed\xa0\x80\"")
	case "bom":
		raw = append([]byte{0xef, 0xbb, 0xbf}, good...)
	case "nobrace":
		raw = []byte(good[1:])
	case "zeros":
		raw = make([]byte, 500)
	case "big":
		raw = bytes.Repeat([]byte("{"), 8000)
	case "oversize":
		raw = []byte(strings.Replace(good, "n", strings.Repeat("n", 9000), 1) + strings.Repeat("x", 200000))
	case "oversizejson":
		raw = []byte(`{"type":0,"request":{"Username":"` + strings.Repeat("u", 12000) + `","Key":"AAEC"}}`)
	case "reset", "halfhello", "plaintext", "stall", "drip":
		raw = []byte(good)
	default:
		fatal("garbage " + kind)
	}
	ad := x.addrs[a-1].Address
	isTCP := strings.HasPrefix(ad, "tcp://")
	if isTCP && (kind == "halfhello" || kind == "plaintext") {
		c, err := net.DialTimeout("tcp", strings.TrimPrefix(ad, "tcp://"), 10*time.Second)
		if err != nil {
			return "", err
		}
		defer c.Close()
		if kind == "halfhello" {
			c.Write([]byte{0x16, 0x03, 0x01, 0x02, 0x00, 0x01, 0x00})
		} else {
			c.Write(raw)
			halfClose(c)
		}
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		body, err := io.ReadAll(c)
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return "hang", nil
		}
		if len(body) > 0 && bytes.Contains(body, []byte("Error")) {
			return "answered", nil
		}
		return "closed", nil // at most a TLS alert
	}
	c, err := x.dial(a)
	if err != nil {
		return "", err
	}
	defer c.Close()
	c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	switch kind {
	case "reset":
		// the client goes away in the middle of its request
		c.Write(raw[:len(raw)/2])
		c.Close()
		return "closed", nil
	case "stall", "halfhello", "plaintext":
		c.Write(raw[:len(raw)/2])
	case "drip":
		for i := 0; i < 25; i++ {
			if _, err := c.Write([]byte("{")); err != nil {
				break
			}
			time.Sleep(250 * time.Millisecond)
		}
		halfClose(c)
	default:
		if tc, ok := c.(*tls.Conn); ok && tc.Handshake() != nil {
			return "closed", nil
		}
		for len(raw) > 0 {
			m := 4000
			if m > len(raw) {
				m = len(raw)
			}
			if _, err := c.Write(raw[:m]); err != nil {
				break
			}
			raw = raw[m:]
		}
		halfClose(c)
	}
	got, body := collect(c, 20*time.Second)
	if got == "one" {
		got = x.answer(probeQ, got, body)["err"].(string)
	}
	return got, nil
}

// serverConc lets several clients talk to the server at once and records when
// each request was sent and answered.
func serverConc(t *tracer, op rec) {
	x, p := newServerRun(t, op)
	if p != "" {
		t.emit(rec{"ev": "Crash", "o": "start: " + p})
		return
	}
	type one struct {
		q, o rec
		a    int
		got  string
		body []byte
		slow bool
	}
	var mu sync.Mutex
	var seq []int
	ops := []*one{nil}
	clients := op["clients"].([]interface{})
	var wg sync.WaitGroup
	start := make(chan struct{})
	stop := make(chan struct{})
	for ci := range clients {
		prog := clients[ci].([]interface{})
		wg.Add(1)
		go func(ci int) {
			defer wg.Done()
			last := 0
			<-start
			for _, v := range prog {
				st := asObj(v)
				q := rec{}
				for k, v := range asObj(st["q"]) {
					q[k] = v
				}
				for _, f := range []string{"s", "e"} {
					if e := num(q, f); e < 0 { // relative to the latest epoch seen
						e = last + e + 5
						if e < 0 {
							e = 0
						}
						q[f] = float64(e)
					}
				}
				a := num(st, "a")
				mu.Lock()
				id := len(ops)
				w := &one{q: q, a: a}
				ops = append(ops, w)
				seq = append(seq, id)
				mu.Unlock()
				got, body := "nodial", []byte(nil)
				b := time.Now()
				if c, err := x.dial(a); err == nil {
					c.SetWriteDeadline(time.Now().Add(15 * time.Second))
					c.Write(x.request(q))
					halfClose(c)
					got, body = collect(c, 30*time.Second)
					c.Close()
				}
				mu.Lock()
				seq = append(seq, -id)
				mu.Unlock()
				w.got, w.body, w.slow = got, body, time.Since(b) > 15*time.Second
				if e := lastEpoch(body); e > last {
					last = e
				}
			}
		}(ci)
	}
	for i := 0; i < intOf(op, "reloads", 0); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := 0; j < 4; j++ {
				syscall.Kill(os.Getpid(), syscall.SIGUSR2)
				time.Sleep(5 * time.Millisecond)
			}
		}()
	}
	if intOf(op, "noise", 0) > 0 { // connections that send no requests
		go func() {
			<-start
			kinds := []string{"truncated", "binary", "reset", "empty", "twice", "stall"}
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				k := kinds[i%len(kinds)]
				if k == "stall" {
					go x.garbageConn(1+i%len(x.addrs), k)
				} else {
					x.garbageConn(1+i%len(x.addrs), k)
				}
			}
		}()
	}
	if h := intOf(op, "wait", 0); h > 0 { // until the timer is about to fire
		time.Sleep(time.Duration(x.timer)*time.Second - time.Duration(h)*time.Millisecond - time.Since(x.t0))
	}
	close(start)
	wg.Wait()
	close(stop)
	out := []rec{}
	for _, w := range ops[1:] { // first learn all the STRs, then their links
		x.answer(w.q, w.got, w.body)
	}
	for _, w := range ops[1:] {
		w.o = x.answer(w.q, w.got, w.body)
		w.o["slow"] = w.slow
		out = append(out, rec{"a": w.a, "q": w.q, "o": w.o})
	}
	t.emit(rec{"ev": "Conc", "cap": num(op, "cap"), "dl": num(op, "dl"), "perms": op["perms"], "lcp": x.r.w.lcps(x.r.labels),
		"ops": out, "seq": seq})
}

// lastEpoch is the epoch of the last STR in an answer.
func lastEpoch(body []byte) int {
	var m struct {
		DirectoryResponse struct{ STR []struct{ Epoch int } }
	}
	if json.Unmarshal(body, &m) != nil || len(m.DirectoryResponse.STR) == 0 {
		return -1
	}
	return m.DirectoryResponse.STR[len(m.DirectoryResponse.STR)-1].Epoch
}
