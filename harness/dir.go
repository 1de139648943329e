package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sync"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func init() { suites["dir"] = dirSuite }

// hugeBase: epochs >= hugeBase in operations stand for the largest ones.
const hugeBase = 1000000

func epochOf(e int) uint64 {
	if e >= hugeBase {
		return math.MaxUint64 - uint64(e-hugeBase)
	}
	return uint64(e)
}

var codeNames = map[protocol.ErrorCode]string{
	protocol.ReqSuccess: "ok", protocol.ReqNameExisted: "existed", protocol.ReqNameNotFound: "notfound",
	protocol.ReqUnknownDirectory: "unknowndir",
	protocol.ErrDirectory:        "errdir", protocol.ErrAuditLog: "erraudit", protocol.ErrMalformedMessage: "malformed",
	protocol.CheckBadSignature: "badsig", protocol.CheckBadVRFProof: "badvrf", protocol.CheckBindingsDiffer: "differ",
	protocol.CheckBadCommitment: "badcommit", protocol.CheckBadLookupIndex: "badindex", protocol.CheckBadAuthPath: "badpath",
	protocol.CheckBadSTR: "badstr", protocol.CheckBadPromise: "badpromise", protocol.CheckBrokenPromise: "broken",
}

func codeName(c protocol.ErrorCode) string {
	if n, ok := codeNames[c]; ok {
		return n
	}
	return fmt.Sprintf("code%d", int(c))
}

func errName(err error) string {
	if err == nil {
		return "ok"
	}
	if c, ok := err.(protocol.ErrorCode); ok {
		return codeName(c)
	}
	return "other:" + err.Error()
}

// dirRun is one directory under observation.
type dirRun struct {
	id     int
	w      *world
	d      *directory.ConiksDirectory
	sids   intern
	roots  intern
	sigs   map[string]int // digest of an STR's signature -> sid
	salts  map[string]string
	saved  []savedResp
	labels []string
}

type savedResp struct {
	res *protocol.Response
	enc []byte
}

// things that must never repeat, over the whole run
var freshSeen = map[string]string{}
var freshLock sync.Mutex

// freshly tells whether b is new, or known to belong to owner.
func freshly(b []byte, owner string) bool {
	freshLock.Lock()
	defer freshLock.Unlock()
	o, ok := freshSeen[string(b)]
	if !ok {
		freshSeen[string(b)] = owner
	}
	return (!ok || o == owner) && len(b) == 32 && !lowEntropy(b)
}

func (r *dirRun) strObs(s *protocol.DirSTR) (o rec) {
	o = rec{"ep": -1, "pe": -1, "sid": -1, "root": -1, "link": -2, "sig": false, "dl": -1, "pol": false}
	if s == nil || s.SignedTreeRoot == nil || s.Policies == nil {
		return o
	}
	id := strIdentity(s)
	sid := r.sids.id(id)
	o["ep"] = clip(s.Epoch)
	o["pe"] = clip(s.PreviousEpoch)
	o["sid"] = sid
	o["root"] = r.roots.id(string(s.TreeHash))
	o["link"] = -1
	if p, ok := r.sigs[string(s.PreviousSTRHash)]; ok {
		o["link"] = p
	} else if s.Epoch > 0 {
		o["link"] = -2
	}
	r.sigs[string(refDigest(s.Signature))] = sid
	o["sig"] = refSTRSigOK(r.w.signPub, s)
	o["dl"] = clip(uint64(s.Policies.EpochDeadline))
	o["pol"] = s.Policies.Version == "0.3" && s.Policies.HashID == "SHAKE128" &&
		bytes.Equal(s.Policies.VrfPublicKey, r.w.vrfPub)
	return o
}

func clip(n uint64) int {
	if n > 2000000 {
		return 2000000
	}
	return int(n)
}

// gather returns the byte strings in a response.
func gather(v reflect.Value, out *[][]byte) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			gather(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				gather(v.Field(i), out)
			}
		}
	case reflect.String:
		*out = append(*out, []byte(v.String()))
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			*out = append(*out, b)
			return
		}
		for i := 0; i < v.Len(); i++ {
			gather(v.Index(i), out)
		}
	}
}

func (r *dirRun) apObs(n string, ap *merkletree.AuthenticationPath, s *protocol.DirSTR) rec {
	o := rec{"kind": "none", "val": "", "lvl": -1, "leaf": "?", "ver": false, "vrf": false, "idx": false, "bare": true}
	if ap == nil || ap.Leaf == nil || s == nil || s.SignedTreeRoot == nil || s.Policies == nil {
		return o
	}
	o["kind"] = "abs"
	if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
		o["kind"] = "incl"
	}
	o["val"] = r.w.key(ap.Leaf.Value)
	o["lvl"] = int(ap.Leaf.Level)
	if ap.Leaf.IsEmpty {
		o["leaf"] = ""
	} else {
		o["leaf"] = r.w.byIndex(ap.Leaf.Index)
	}
	k := refPathOK(ap, r.w.names[n], r.w.index[n], s.TreeHash)
	// verified by the reference and by the code under test alike
	ver := k == o["kind"].(string)
	if p := guard(func() {
		if ap.Verify([]byte(r.w.names[n]), ap.Leaf.Value, s.TreeHash) != nil {
			ver = false
		}
	}); p != "" {
		ver = false
	}
	o["ver"] = ver
	o["idx"] = bytes.Equal(ap.LookupIndex, r.w.index[n])
	guard(func() {
		o["vrf"] = s.Policies.VrfPublicKey.Verify([]byte(r.w.names[n]), ap.LookupIndex, ap.VrfProof)
	})
	if o["kind"] == "abs" {
		o["bare"] = ap.Leaf.Value == nil && (ap.Leaf.Commitment == nil || ap.Leaf.Commitment.Salt == nil)
	}
	return o
}

// leaks tells whether a response about n contains data of another user.
func (r *dirRun) leaks(n string, res *protocol.Response) bool {
	var bs [][]byte
	gather(reflect.ValueOf(res), &bs)
	for l, name := range r.w.names {
		if l != "" && l != n && contains(bs, []byte(name)) {
			return true
		}
	}
	for salt, l := range r.salts {
		if l != n && contains(bs, []byte(salt)) {
			return true
		}
	}
	own := ""
	if df, ok := res.DirectoryResponse.(*protocol.DirectoryProof); ok && df != nil {
		// the key of n itself, as told by its own proof or promise
		if len(df.AP) > 0 {
			for _, ap := range df.AP {
				if ap != nil && ap.Leaf != nil && bytes.Equal(ap.Leaf.Index, r.w.index[n]) {
					own = string(ap.Leaf.Value)
				}
			}
		}
		if df.TB != nil && bytes.Equal(df.TB.Index, r.w.index[n]) {
			own = string(df.TB.Value)
		}
	}
	for _, key := range r.w.keys {
		if string(key) != own && !bytes.Contains([]byte(own), key) && contains(bs, key) {
			return true
		}
	}
	return false
}

// respObs projects a response to a request about name n ("" if none).
func (r *dirRun) respObs(n string, res *protocol.Response, panicked string) rec {
	o := rec{"err": "panic", "aps": []rec{}, "strs": []rec{}, "tb": false, "tbval": "", "tbidx": false, "tbsig": false, "leak": false, "extra": false}
	if panicked != "" {
		return o
	}
	if res == nil {
		o["err"] = "nil"
		return o
	}
	o["err"] = codeName(res.Error)
	switch df := res.DirectoryResponse.(type) {
	case *protocol.DirectoryProof:
		strs := []rec{}
		for _, s := range df.STR {
			strs = append(strs, r.strObs(s))
		}
		aps := []rec{}
		for i, ap := range df.AP {
			var s *protocol.DirSTR
			if i < len(df.STR) {
				s = df.STR[i]
			}
			aps = append(aps, r.apObs(n, ap, s))
		}
		o["aps"], o["strs"] = aps, strs
		if df.TB != nil {
			o["tb"] = true
			o["tbval"] = r.w.key(df.TB.Value)
			o["tbidx"] = bytes.Equal(df.TB.Index, r.w.index[n])
			if len(df.STR) > 0 && df.STR[0] != nil {
				o["tbsig"] = refSigOK(r.w.signPub, refTBBytes(df.STR[0].Signature, df.TB), df.TB.Signature)
			}
		}
	case *protocol.STRHistoryRange:
		strs := []rec{}
		for _, s := range df.STR {
			strs = append(strs, r.strObs(s))
		}
		o["strs"] = strs
	case nil:
	default:
		o["extra"] = true
	}
	if n != "" {
		o["leak"] = r.leaks(n, res)
	}
	r.remember(res)
	return o
}

func (r *dirRun) remember(res *protocol.Response) {
	enc, err := json.Marshal(res)
	if err != nil {
		fatal(err)
	}
	if len(r.saved) < 400 {
		r.saved = append(r.saved, savedResp{res, enc})
	}
}

// stable tells whether the responses given so far still are what they were.
func (r *dirRun) stable() bool {
	for _, s := range r.saved {
		enc, _ := json.Marshal(s.res)
		if !bytes.Equal(enc, s.enc) {
			return false
		}
	}
	return true
}

// census looks up every name in the latest snapshot, and rebuilds the tree
// root from the proofs with the reference construction.
func (r *dirRun) census() (canon, fresh bool) {
	canon, fresh = true, true
	var es []refEntry
	var nonce, root []byte
	p := guard(func() {
		for _, l := range r.labels {
			res := r.d.KeyLookup(&protocol.KeyLookupRequest{Username: r.w.names[l]})
			df := res.DirectoryResponse.(*protocol.DirectoryProof)
			ap := df.AP[0]
			nonce, root = ap.TreeNonce, df.STR[0].TreeHash
			if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) && !ap.Leaf.IsEmpty {
				es = append(es, refEntry{ap.LookupIndex, ap.Leaf.Commitment.Value})
				salt := ap.Leaf.Commitment.Salt
				if _, ok := r.salts[string(salt)]; !ok {
					owner := fmt.Sprintf("salt of %s in %d", l, r.id)
					if !freshly(salt, owner) {
						fresh = false
					}
					r.salts[string(salt)] = l
				} else if r.salts[string(salt)] != l {
					fresh = false
				}
			}
		}
	})
	if p != "" {
		return false, fresh
	}
	owner := fmt.Sprintf("nonce of %d", r.id)
	if !freshly(nonce, owner) {
		fresh = false
	}
	return bytes.Equal(root, refRoot(nonce, es)), fresh
}

// lowEntropy recognises byte strings that cannot be hash outputs.
func lowEntropy(b []byte) bool {
	seen := map[byte]bool{}
	for _, c := range b {
		seen[c] = true
	}
	return len(seen) < len(b)/2
}

func strList(v interface{}) []string {
	var out []string
	l, _ := v.([]interface{})
	for _, x := range l {
		out = append(out, x.(string))
	}
	return out
}

func dirSuite(t *tracer) error {
	t.histories(readOps(), dirHistory)
	return nil
}

func dirHistory(t *tracer, id int, ops []rec) {
	var r *dirRun
	for _, op := range ops {
		ev := rec{"ev": str(op, "op")}
		switch str(op, "op") {
		case "New":
			names, keys := strList(op["names"]), strList(op["keys"])
			w := newWorld(*seed*1000+int64(num(op, "w")), names, keys)
			r = &dirRun{id: id, w: w, sids: intern{}, roots: intern{}, sigs: map[string]int{}, salts: map[string]string{}, labels: names}
			p := guard(func() {
				r.d = directory.New(protocol.Timestamp(num(op, "dl")), w.vrfKey, w.signKey, uint64(num(op, "cap")), true)
			})
			ev["cap"], ev["dl"], ev["lcp"] = num(op, "cap"), num(op, "dl"), w.lcps(names)
			if p != "" {
				ev["o"] = rec{"str": r.strObs(nil), "canon": false, "fresh": true, "stable": true, "deadline": -1}
			} else {
				ev["o"] = r.updObs()
			}
			t.emit(ev)
		case "Reg":
			n, k := str(op, "n"), str(op, "k")
			ev["n"], ev["k"] = n, k
			var res *protocol.Response
			kb := append([]byte{}, r.w.keys[k]...)
			p := guard(func() {
				res = r.d.Register(&protocol.RegistrationRequest{Username: r.w.names[n], Key: kb})
			})
			ev["o"] = r.respObs(n, res, p)
			t.emit(ev)
		case "Look":
			n := str(op, "n")
			ev["n"] = n
			var res *protocol.Response
			p := guard(func() { res = r.d.KeyLookup(&protocol.KeyLookupRequest{Username: r.w.names[n]}) })
			ev["o"] = r.respObs(n, res, p)
			t.emit(ev)
		case "LookEp":
			n, e := str(op, "n"), num(op, "e")
			ev["n"], ev["e"] = n, e
			var res *protocol.Response
			p := guard(func() {
				res = r.d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: r.w.names[n], Epoch: epochOf(e)})
			})
			ev["o"] = r.respObs(n, res, p)
			t.emit(ev)
		case "Mon":
			n, s, e := str(op, "n"), num(op, "s"), num(op, "e")
			ev["n"], ev["s"], ev["e"] = n, s, e
			var res *protocol.Response
			p := guard(func() {
				res = r.d.Monitor(&protocol.MonitoringRequest{Username: r.w.names[n], StartEpoch: epochOf(s), EndEpoch: epochOf(e)})
			})
			ev["o"] = r.respObs(n, res, p)
			t.emit(ev)
		case "Hist":
			s, e := num(op, "s"), num(op, "e")
			ev["s"], ev["e"] = s, e
			var res *protocol.Response
			p := guard(func() {
				res = r.d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: epochOf(s), EndEpoch: epochOf(e)})
			})
			ev["o"] = r.respObs("", res, p)
			t.emit(ev)
		case "Upd":
			p := guard(func() { r.d.Update() })
			ev["o"] = r.updObs()
			if p != "" {
				ev["o"] = rec{"str": r.strObs(nil), "canon": false, "fresh": true, "stable": true, "deadline": -1}
			}
			t.emit(ev)
		case "Pol":
			ev["dl"] = num(op, "dl")
			guard(func() { r.d.SetPolicies(protocol.Timestamp(num(op, "dl"))) })
			ev["o"] = r.updObs()
			t.emit(ev)
		default:
			fatal("unknown op " + str(op, "op"))
		}
	}
}

func responseProof(res *protocol.Response) (*protocol.DirectoryProof, bool) {
	if res == nil {
		return nil, false
	}
	df, ok := res.DirectoryResponse.(*protocol.DirectoryProof)
	return df, ok && df != nil
}

// updObs observes the latest STR.
func (r *dirRun) updObs() rec {
	o := rec{"str": r.strObs(nil), "canon": false, "fresh": true, "stable": true, "deadline": -1}
	guard(func() {
		o["str"] = r.strObs(r.d.LatestSTR())
		c, f := r.census()
		o["canon"], o["fresh"] = c, f
		o["stable"] = r.stable()
		o["deadline"] = clip(uint64(r.d.EpochDeadline()))
	})
	return o
}
