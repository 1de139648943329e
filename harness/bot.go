package main

// The registration bot between a simulated Twitter and a simulated CONIKS
// server (Bot specification).

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/protocol"
)

func init() { suites["bot"] = botSuite }

const botPrefix = "?CONIKS?"

// twitterStub plays Twitter for all bots; they are told apart by their token.
type twitterStub struct {
	sync.Mutex
	bots map[string]*fakeTwitter
}

type fakeDM struct {
	ID               int64  `json:"id"`
	Text             string `json:"text"`
	SenderScreenName string `json:"sender_screen_name"`
}

type fakeTwitter struct {
	sync.Mutex
	handle  string // the bot's
	who     string
	old     []int64
	stream  *io.PipeWriter
	sent    []fakeDM // to, text
	sentCh  chan bool
	nextID  int64
	streams chan *io.PipeWriter
}

func (ts *twitterStub) RoundTrip(req *http.Request) (*http.Response, error) {
	auth := req.Header.Get("Authorization")
	i := strings.Index(auth, `oauth_token="`)
	if i < 0 {
		return nil, fmt.Errorf("no token")
	}
	tok := auth[i+len(`oauth_token="`):]
	tok = tok[:strings.Index(tok, `"`)]
	ts.Lock()
	ft := ts.bots[tok]
	ts.Unlock()
	if ft == nil {
		return nil, fmt.Errorf("unknown bot")
	}
	return ft.serve(req)
}

func twAnswer(req *http.Request, code int, body interface{}) *http.Response {
	bs, ok := body.([]byte)
	if !ok {
		bs, _ = json.Marshal(body)
	}
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: ioutil.NopCloser(bytes.NewReader(bs)),
		ContentLength: int64(len(bs)), Request: req}
}

func (ft *fakeTwitter) serve(req *http.Request) (*http.Response, error) {
	p := req.URL.Path
	switch {
	case strings.HasSuffix(p, "account/verify_credentials.json"):
		switch ft.who {
		case "same":
			return twAnswer(req, 200, rec{"screen_name": ft.handle}), nil
		case "other":
			return twAnswer(req, 200, rec{"screen_name": ft.handle + "x"}), nil
		case "case":
			return twAnswer(req, 200, rec{"screen_name": "x" + ft.handle}), nil
		case "empty":
			return twAnswer(req, 200, rec{}), nil
		case "garbage":
			return twAnswer(req, 200, []byte("not json")), nil
		}
		return twAnswer(req, 401, rec{"errors": []rec{{"code": 32, "message": "Could not authenticate you"}}}), nil
	case strings.HasSuffix(p, "direct_messages.json"):
		ft.Lock()
		defer ft.Unlock()
		var dms []fakeDM
		for i, id := range ft.old {
			if i < 200 {
				dms = append(dms, fakeDM{ID: id})
			}
		}
		if dms == nil {
			dms = []fakeDM{}
		}
		return twAnswer(req, 200, dms), nil
	case strings.HasSuffix(p, "direct_messages/destroy.json"):
		f := form(req)
		id, _ := strconv.ParseInt(f("id"), 10, 64)
		ft.Lock()
		defer ft.Unlock()
		for i := range ft.old {
			if ft.old[i] == id {
				ft.old = append(ft.old[:i:i], ft.old[i+1:]...)
				break
			}
		}
		return twAnswer(req, 200, fakeDM{ID: id}), nil
	case strings.HasSuffix(p, "direct_messages/new.json"):
		f := form(req)
		ft.Lock()
		ft.nextID++
		dm := fakeDM{ID: ft.nextID, Text: f("text"), SenderScreenName: f("screen_name")}
		ft.sent = append(ft.sent, dm)
		ft.Unlock()
		// the account's own messages appear on its stream, too
		go ft.deliver(fakeDM{ID: dm.ID, Text: dm.Text, SenderScreenName: ft.handle})
		ft.sentCh <- true
		return twAnswer(req, 200, fakeDM{ID: dm.ID, Text: dm.Text, SenderScreenName: ft.handle}), nil
	case strings.HasSuffix(p, "user.json"):
		r, w := io.Pipe()
		ft.Lock()
		ft.stream = w
		ft.Unlock()
		ft.streams <- w
		res := twAnswer(req, 200, []byte(""))
		res.Body, res.ContentLength = r, -1
		return res, nil
	}
	return twAnswer(req, 404, rec{}), nil
}

// form returns the parameters of a request, in its address or its body.
func form(req *http.Request) func(string) string {
	q := req.URL.Query()
	if req.Body != nil {
		bs, _ := ioutil.ReadAll(req.Body)
		r2, _ := http.NewRequest("POST", "http://x/", bytes.NewReader(bs))
		r2.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		r2.ParseForm()
		for k, v := range r2.PostForm {
			q[k] = v
		}
	}
	return q.Get
}

func (ft *fakeTwitter) deliver(dm fakeDM) {
	ft.Lock()
	w := ft.stream
	ft.Unlock()
	bs, _ := json.Marshal(rec{"direct_message": dm})
	w.Write(append(bs, "\r\n"...))
}

// fakeCONIKS is a server that records what it is sent and answers, or fails.
type fakeCONIKS struct {
	sync.Mutex
	path string
	ln   *net.UnixListener
	got  [][]byte
	gave [][]byte
	kind string
	size int
	rnd  *rand.Rand
}

func startCONIKS(path, kind string, size int, rnd *rand.Rand) *fakeCONIKS {
	s := &fakeCONIKS{path: path, kind: kind, size: size, rnd: rnd}
	if len(path) > 100 {
		fatal("socket path too long: " + path)
	}
	os.Remove(path)
	ln, err := net.ListenUnix("unix", &net.UnixAddr{Name: path, Net: "unix"})
	if err != nil {
		fatal(err)
	}
	s.ln = ln
	switch kind {
	case "refuse": // the socket is there, but nobody listens
		ln.SetUnlinkOnClose(false)
		ln.Close()
	default:
		go s.serve()
	}
	return s
}

func (s *fakeCONIKS) answer() []byte {
	s.Lock()
	defer s.Unlock()
	b := make([]byte, s.size)
	for i := range b {
		b[i] = byte(' ' + s.rnd.Intn(95))
	}
	s.gave = append(s.gave, b)
	return b
}

func (s *fakeCONIKS) serve() {
	for {
		c, err := s.ln.AcceptUnix()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			c.SetDeadline(time.Now().Add(20 * time.Second))
			switch s.kind {
			case "reset": // goes away without having read the request
				time.Sleep(10 * time.Millisecond)
				return
			case "partreset":
				c.Write([]byte(`{"Error":100,"Directory`))
				time.Sleep(10 * time.Millisecond)
				return
			}
			bs, err := ioutil.ReadAll(c)
			if err != nil {
				return
			}
			s.Lock()
			s.got = append(s.got, bs)
			s.Unlock()
			if s.kind == "close" {
				return
			}
			a := s.answer()
			if s.kind == "slow" {
				for len(a) > 0 {
					n := len(a)/3 + 1
					c.Write(a[:n])
					a = a[n:]
					time.Sleep(3 * time.Millisecond)
				}
				return
			}
			c.Write(a)
		}()
	}
}

func (s *fakeCONIKS) reset() {
	s.Lock()
	s.got, s.gave = nil, nil
	s.Unlock()
}

func (s *fakeCONIKS) close() { s.ln.Close(); os.Remove(s.path) }

type botRun struct {
	ts  *twitterStub
	dir string
	mu  sync.Mutex
	n   int
}

func (x *botRun) fresh() (string, string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.n++
	return fmt.Sprint("t", x.n), filepath.Join(x.dir, fmt.Sprint("b", x.n))
}

func text(v interface{}) string {
	var b strings.Builder
	l, _ := v.([]interface{})
	for _, p := range l {
		s := p.(string)
		if s == "nul" {
			s = "\x00"
		}
		b.WriteString(s)
	}
	return b.String()
}

func quote(v interface{}) string { bs, _ := json.Marshal(v); return string(bs) }

// message is the text of message m.
func (x *botRun) message(m rec, pad int, rnd *rand.Rand) []byte {
	name, name2 := text(m["name"]), text(m["name2"])
	key := base64.StdEncoding.EncodeToString(randBytes(rnd, 3+pad))
	form := str(m, "form")
	fields := []string{`"Username":` + quote(name)}
	switch str(m, "body") {
	case "reg":
		fields = append(fields, `"Key":"`+key+`"`, `"AllowUnsignedKeychange":true`, `"AllowPublicLookup":true`)
	case "lookep":
		fields = append(fields, `"Epoch":3`)
	case "mon":
		fields = append(fields, `"StartEpoch":0`, `"EndEpoch":3`)
	}
	switch form {
	case "dup":
		fields = append(fields, `"Username":`+quote(name2))
	case "namenum":
		fields[0] = `"Username":7`
	case "lowercase":
		fields[0] = `"username":` + quote(name)
	case "extra":
		fields = append(fields, `"More":[1,{"Username":"z"}]`)
	}
	body := "{" + strings.Join(fields, ",") + "}"
	switch form {
	case "reqnull":
		body = "null"
	case "reqstring":
		body = `"` + name + `"`
	}
	typ := ""
	switch str(m, "tform") {
	case "int":
		typ = fmt.Sprint(num(m, "t"))
	case "null":
		typ = "null"
	case "string":
		typ = fmt.Sprintf(`"%d"`, num(m, "t"))
	case "frac":
		typ = "0.5"
	case "huge":
		typ = "123456789012345678901234567890"
	}
	var parts []string
	if typ != "" {
		parts = append(parts, `"Type":`+typ)
	}
	if form != "noreq" {
		parts = append(parts, `"Request":`+body)
	}
	if form == "order" {
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	if form == "extra" {
		parts = append(parts, `"Signature":null`)
	}
	s := "{" + strings.Join(parts, ",") + "}"
	switch form {
	case "space":
		s = " \n" + strings.Replace(s, ":", " :\t", 2) + "\r\n "
	case "trunc":
		s = s[:1+rnd.Intn(len(s)-1)]
	case "trailing":
		s += []string{"x", "}", s, "\x00", ",{}"}[rnd.Intn(5)]
	case "array":
		s = "[" + s + "]"
	case "null":
		s = "null"
	case "string":
		s = quote(s)
	case "empty":
		s = ""
	case "binary":
		s = string(randBytes(rnd, 50))
	}
	return []byte(s)
}

// ansClass classifies an answer of the bot.
func ansClass(ans string, gave [][]byte) string {
	var m map[string]interface{}
	if json.Unmarshal([]byte(ans), &m) == nil && len(m) == 1 {
		switch m["Error"] {
		case float64(protocol.ErrMalformedMessage):
			return "malformed"
		case float64(protocol.ErrDirectory):
			return "dir"
		}
	}
	if len(gave) == 1 && string(gave[0]) == ans {
		return "same"
	}
	if len(ans) > 60 {
		ans = fmt.Sprintf("%.40q... (%d bytes)", ans, len(ans))
	}
	return "other: " + ans
}

var pieces = []string{"@twitter", "@TWITTER", "@twit", "\x00", "a", "A", "b", "B", "_", "x", " ", "@"}

// nameToks is the inverse of text.
func nameToks(s string) []string {
	out := []string{}
next:
	for s != "" {
		for _, p := range pieces {
			if strings.HasPrefix(s, p) {
				s = s[len(p):]
				if p == "\x00" {
					p = "nul"
				}
				out = append(out, p)
				continue next
			}
		}
		return append(out, "?"+s)
	}
	return out
}

// arrived describes what reached the server.
func arrived(srv *fakeCONIKS, msg []byte) (fwd []string, names [][]string, gave [][]byte) {
	fwd, names = []string{}, [][]string{}
	if srv == nil {
		return
	}
	srv.Lock()
	defer srv.Unlock()
	for _, g := range srv.got {
		f := "other"
		if bytes.Equal(g, msg) {
			f = "same"
		}
		fwd = append(fwd, f)
		req, err := application.UnmarshalRequest(g)
		if err != nil || req == nil {
			names = append(names, []string{"?undecodable"})
			continue
		}
		r, ok := req.Request.(*protocol.RegistrationRequest)
		if !ok {
			names = append(names, []string{"?no registration"})
			continue
		}
		names = append(names, nameToks(r.Username))
	}
	return fwd, names, srv.gave
}

func (x *botRun) bot(ft *fakeTwitter, tok, addr, handle string) (bots.Bot, error) {
	x.ts.Lock()
	x.ts.bots[tok] = ft
	x.ts.Unlock()
	return bots.NewTwitterBot(&bots.TwitterConfig{CONIKSAddress: addr, Handle: handle,
		TwitterOAuth: bots.TwitterOAuth{ConsumerKey: "c", ConsumerSecret: "s", AccessToken: tok, AccessSecret: "as"}})
}

func newFakeTwitter(handle string) *fakeTwitter {
	return &fakeTwitter{handle: handle, who: "same", nextID: 1000, sentCh: make(chan bool, 100), streams: make(chan *io.PipeWriter, 10)}
}

func (x *botRun) reg(t *tracer, op rec) {
	tok, path := x.fresh()
	kind := str(op, "srv")
	srv := startCONIKS(path, kind, num(op, "size"), t.rnd)
	defer srv.close()
	bot, err := x.bot(newFakeTwitter("bot"), tok, path, "bot")
	if err != nil {
		fatal(err)
	}
	if kind == "gone" {
		srv.close()
	}
	msg := x.message(op["m"].(rec), num(op, "pad"), t.rnd)
	in := append([]byte{}, msg...)
	var ans string
	p := guard(func() { ans = bot.HandleRegistration(text(op["sender"]), in) })
	o := rec{"modified": !bytes.Equal(in, msg)}
	fwd, names, gave := arrived(srv, msg)
	if p != "" {
		o["ans"] = p
	} else {
		o["ans"] = ansClass(ans, gave)
	}
	o["fwd"], o["names"] = fwd, names
	t.emit(rec{"ev": "Reg", "sender": op["sender"], "m": op["m"], "srv": kind, "o": o, "v": num(op, "size")})
}

func (x *botRun) run(t *tracer, op rec) {
	tok, path := x.fresh()
	kind, handle := str(op, "srv"), text(op["bot"])
	srv := startCONIKS(path, kind, num(op, "size"), t.rnd)
	defer srv.close()
	ft := newFakeTwitter(handle)
	bot, err := x.bot(ft, tok, path, handle)
	if err != nil {
		fatal(err)
	}
	if kind == "gone" {
		srv.close()
	}
	bot.Run()
	select {
	case <-ft.streams:
	case <-time.After(20 * time.Second):
		fatal("the bot did not open its stream")
	}
	sent := []rec{}
	var msgs [][]byte
	dms := op["dms"].([]interface{})
	for i, d := range dms {
		dm := d.(rec)
		msg := x.message(dm["m"].(rec), 0, t.rnd)
		msgs = append(msgs, msg)
		txt := string(msg)
		switch str(dm, "prefix") {
		case "yes":
			txt = botPrefix + txt
		case "twice":
			txt = botPrefix + botPrefix + txt
		case "late":
			txt = " " + botPrefix + txt
		}
		ft.deliver(fakeDM{ID: int64(i + 1), Text: txt, SenderScreenName: text(dm["from"])})
	}
	// the bot sleeps for 5 s after every answered message
	for quiet := false; !quiet; {
		select {
		case <-ft.sentCh:
		case <-time.After(9 * time.Second):
			quiet = true
		}
	}
	srv.Lock()
	got, gave := srv.got, srv.gave
	srv.Unlock()
	ft.Lock()
	defer ft.Unlock()
	gi := 0
	for _, dm := range ft.sent {
		txt := dm.Text
		s := rec{"to": nameToks(dm.SenderScreenName), "prefix": strings.HasPrefix(txt, botPrefix), "fwd": []string{}}
		txt = strings.TrimPrefix(txt, botPrefix)
		a := ansClass(txt, nil)
		if a != "malformed" && gi < len(got) {
			f := "other"
			for _, m := range msgs {
				if bytes.Equal(m, got[gi]) {
					f = "same"
				}
			}
			s["fwd"] = []string{f}
			if gi < len(gave) {
				a = ansClass(txt, gave[gi:gi+1])
			}
			gi++
		}
		s["ans"] = a
		sent = append(sent, s)
	}
	if gi < len(got) {
		sent = append(sent, rec{"to": []string{"?"}, "prefix": false, "fwd": []string{"unanswered"}, "ans": "none"})
	}
	t.emit(rec{"ev": "Run", "bot": op["bot"], "srv": kind, "dms": dms, "o": rec{"sent": sent}})
}

func (x *botRun) start(t *tracer, op rec) {
	tok, path := x.fresh()
	handle := text(op["bot"])
	if str(op, "addr") == "there" {
		srv := startCONIKS(path, "ok", 5, t.rnd)
		defer srv.close()
	}
	ft := newFakeTwitter(handle)
	ft.who = str(op, "who")
	for i := 0; i < num(op, "old"); i++ {
		ft.old = append(ft.old, int64(i+1))
	}
	var bot bots.Bot
	var err error
	p := guard(func() { bot, err = x.bot(ft, tok, path, handle) })
	o := rec{"res": "ok", "left": len(ft.old)}
	if p != "" {
		o["res"] = p
	} else if err != nil || bot == nil {
		o["res"] = "error"
	}
	t.emit(rec{"ev": "Start", "addr": op["addr"], "who": op["who"], "o": o})
}

func botSuite(t *tracer) error {
	log.SetOutput(ioutil.Discard)
	x := &botRun{ts: &twitterStub{bots: map[string]*fakeTwitter{}}, dir: *scratch}
	http.DefaultTransport = x.ts
	ops := readOps()
	subs := make([]*tracer, len(ops))
	sem := make(chan bool, 32)
	var wg sync.WaitGroup
	for i := range ops {
		subs[i] = &tracer{rnd: rand.New(rand.NewSource(*seed*1000003 + int64(i)))}
		wg.Add(1)
		long := str(ops[i], "op") == "Run"
		if !long {
			sem <- true
		}
		go func(t *tracer, op rec) {
			defer wg.Done()
			switch str(op, "op") {
			case "Reg":
				x.reg(t, op)
			case "Run":
				x.run(t, op)
			case "Start":
				x.start(t, op)
			}
			if !long {
				<-sem
			}
		}(subs[i], ops[i])
	}
	wg.Wait()
	for _, s := range subs {
		t.lines = append(t.lines, s.lines...)
	}
	return nil
}
