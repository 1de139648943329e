package main

// Directory, clients and auditor working together (System specification).

import (
	"encoding/json"
	"math"
	"sort"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func init() { suites["system"] = systemSuite }

type systemRun struct {
	w      *world
	inMem  bool
	d      *directory.ConiksDirectory
	cs     map[string]*client.ConsistencyChecks
	names  []string
	epochs map[string]int // strIdentity -> epoch
	sigs   [][]byte
	log    auditlog.ConiksAuditLog
	id     [32]byte
}

func (y *systemRun) copySTR(s *protocol.DirSTR) *protocol.DirSTR {
	if y.inMem {
		return s
	}
	bs, err := json.Marshal(s)
	if err != nil {
		fatal(err)
	}
	out := new(protocol.DirSTR)
	if err := json.Unmarshal(bs, out); err != nil {
		fatal(err)
	}
	return out
}

// call performs a request, as a server does it on a client's behalf.
func (y *systemRun) call(typ int, req interface{}) *protocol.Response {
	// audit requests have no encoded form yet
	if !y.inMem && (typ == protocol.RegistrationType || typ == protocol.KeyLookupType) {
		bs, err := application.MarshalRequest(typ, req)
		if err != nil {
			fatal(err)
		}
		r, err := application.UnmarshalRequest(bs)
		if err != nil {
			fatal(err)
		}
		req = r.Request
	}
	var res *protocol.Response
	switch q := req.(type) {
	case *protocol.RegistrationRequest:
		res = y.d.Register(q)
	case *protocol.KeyLookupRequest:
		res = y.d.KeyLookup(q)
	case *protocol.STRHistoryRequest:
		res = y.d.GetSTRHistory(q)
	case *protocol.AuditingRequest:
		res = y.log.GetObservedSTRs(q)
	}
	return y.deliver(res, typ)
}

func (y *systemRun) deliver(res *protocol.Response, typ int) *protocol.Response {
	if y.inMem {
		return res
	}
	bs, err := application.MarshalResponse(res)
	if err != nil {
		fatal(err)
	}
	if typ == protocol.AuditType {
		typ = protocol.STRType
	}
	return application.UnmarshalResponse(typ, bs)
}

func (y *systemRun) published() {
	s := y.d.LatestSTR()
	y.epochs[strIdentity(s)] = int(s.Epoch)
	y.sigs = append(y.sigs, cp(s.Signature))
}

func (y *systemRun) obs(code, key string) rec {
	cl := rec{}
	for c, cc := range y.cs {
		v := -1
		if s := cc.VerifiedSTR(); s != nil && s.SignedTreeRoot != nil && s.Policies != nil {
			if e, ok := y.epochs[strIdentity(s)]; ok {
				v = e
			}
		}
		ks, ts := rec{}, rec{}
		for _, l := range y.names {
			n := y.w.names[l]
			ks[l] = y.w.key(cc.Bindings[n])
			o := rec{"e": -1, "k": ""}
			if tb, ok := cc.TBs[n]; ok {
				o = rec{"e": -2, "k": "?"}
				for i := len(y.sigs) - 1; i >= 0 && tb != nil; i-- {
					if refSigOK(y.w.signPub, refTBBytes(y.sigs[i], tb), tb.Signature) {
						o = rec{"e": i, "k": y.w.key(tb.Value)}
						break
					}
				}
			}
			ts[l] = o
		}
		cl[c] = rec{"v": v, "keys": ks, "tbs": ts}
	}
	aud := -1
	if h, ok := y.log[y.id]; ok {
		if e, ok := y.epochs[strIdentity(h.VerifiedSTR())]; ok {
			aud = e
		}
	}
	return rec{"code": code, "key": key, "cl": cl, "aud": aud}
}

func systemSuite(t *tracer) error {
	t.histories(readOps(), systemHistory)
	return nil
}

func systemHistory(t *tracer, id int, ops []rec) {
	var y *systemRun
	for _, op := range ops {
		kind := str(op, "op")
		ev := rec{"ev": kind}
		for k, v := range op {
			if k != "op" {
				ev[k] = v
			}
		}
		if kind == "New" {
			w := newWorld(*seed*3000+int64(id), strList(op["names"]), strList(op["keys"]))
			y = &systemRun{w: w, inMem: id%3 == 0, cs: map[string]*client.ConsistencyChecks{}, names: strList(op["names"]), epochs: map[string]int{}, log: auditlog.New()}
			sort.Strings(y.names)
			y.d = directory.New(protocol.Timestamp(60), w.vrfKey, w.signKey, uint64(num(op, "cap")), true)
			y.published()
			for _, c := range strList(op["clients"]) {
				y.cs[c] = client.New(y.copySTR(y.d.LatestSTR()), true, w.signPub)
			}
			if err := y.log.InitHistory("dir", w.signPub, []*protocol.DirSTR{y.copySTR(y.d.LatestSTR())}); err != nil {
				fatal(err)
			}
			copy(y.id[:], refDigest(y.sigs[0]))
			ev["lcp"], ev["dl"] = w.lcps(y.names), 60
			t.emit(ev)
			continue
		}
		var err error
		var res *protocol.Response
		p := guard(func() {
			switch kind {
			case "Reg":
				k := y.w.keys[str(op, "k")]
				res = y.call(protocol.RegistrationType, &protocol.RegistrationRequest{Username: y.w.names[str(op, "n")], Key: cp(k)})
				err = y.cs[str(op, "c")].HandleResponse(protocol.RegistrationType, res, y.w.names[str(op, "n")], k)
			case "Look":
				var k []byte
				if str(op, "k") != "" {
					k = y.w.keys[str(op, "k")]
				}
				res = y.call(protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: y.w.names[str(op, "n")]})
				err = y.cs[str(op, "c")].HandleResponse(protocol.KeyLookupType, res, y.w.names[str(op, "n")], k)
			case "Upd":
				y.d.Update()
				y.published()
			case "Pol":
				y.d.SetPolicies(protocol.Timestamp(num(op, "dl")))
			case "Fetch":
				res = y.call(protocol.STRType, &protocol.STRHistoryRequest{StartEpoch: uint64(num(op, "s")), EndEpoch: math.MaxUint64})
				err = y.log[y.id].Audit(res)
			case "Comp":
				res = y.call(protocol.AuditType, &protocol.AuditingRequest{DirInitSTRHash: y.id, StartEpoch: uint64(num(op, "s")), EndEpoch: uint64(num(op, "e"))})
				err = y.cs[str(op, "c")].CheckEquivocation(res)
			default:
				fatal("system: unknown operation " + kind)
			}
		})
		code, key := crashCode(p), ""
		if p == "" {
			code = errName(err)
		}
		if code == "ok" && (kind == "Reg" || kind == "Look") {
			if p := guard(func() {
				k, err := res.GetKey()
				if err != nil {
					key = "error"
				} else if key = y.w.key(k); len(k) == 0 {
					key = ""
				}
			}); p != "" {
				key = "panic"
			}
		}
		ev["o"] = y.obs(code, key)
		ev["p"] = p
		t.emit(ev)
	}
}
