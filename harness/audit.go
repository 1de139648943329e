package main

// The auditor's log (AuditLog specification).

import (
	"sort"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
)

func init() { suites["audit"] = auditSuite }

type auditRun struct {
	u   *universe
	l   auditlog.ConiksAuditLog
	ids map[[crypto.HashSizeByte]byte]int
}

func initHash(s *protocol.DirSTR) (h [crypto.HashSizeByte]byte) {
	copy(h[:], refDigest(s.Signature))
	return
}

func auditSuite(t *tracer) error {
	t.histories(readOps(), func(t *tracer, id int, ops []rec) {
		var a *auditRun
		for _, op := range ops {
			if str(op, "op") == "New" {
				u := newUniverse(t.rnd, op["u"].([]interface{}), *seed*19+int64(id))
				u.inMem = id%3 == 0
				a = &auditRun{u: u, l: auditlog.New(), ids: map[[crypto.HashSizeByte]byte]int{}}
				for i, s := range u.strs {
					a.ids[initHash(s)] = i + 1
				}
				t.emit(rec{"ev": "New", "u": op["u"]})
				continue
			}
			a.step(t, op)
		}
	})
	return nil
}

func (a *auditRun) get(h [crypto.HashSizeByte]byte, s, e uint64) (string, []int) {
	var res *protocol.Response
	p := guard(func() {
		res = a.l.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: h, StartEpoch: s, EndEpoch: e})
	})
	if p != "" {
		return crashCode(p), []int{}
	}
	if res == nil {
		return "nil", []int{}
	}
	ids := []int{}
	if r, ok := res.DirectoryResponse.(*protocol.STRHistoryRange); ok && r != nil {
		for _, x := range r.STR {
			ids = append(ids, a.u.strID(x))
		}
	} else if res.DirectoryResponse != nil {
		ids = append(ids, -2)
	}
	return codeName(res.Error), ids
}

// held is all the log has, through its interface.
func (a *auditRun) held() []rec {
	out := []rec{}
	for h, d := range a.l {
		i, ok := a.ids[h]
		if !ok {
			i = -1
		}
		r := rec{"i": i, "last": -1, "hist": []int{-9}}
		if v := d.VerifiedSTR(); v != nil && v.SignedTreeRoot != nil {
			r["last"] = a.u.strID(v)
			if v.Epoch < 1000 {
				if e, ids := a.get(h, 0, v.Epoch); e == "ok" {
					r["hist"] = ids
				}
			}
		}
		out = append(out, r)
	}
	sort.Slice(out, func(x, y int) bool { return out[x]["i"].(int) < out[y]["i"].(int) })
	return out
}

func (a *auditRun) step(t *tracer, op rec) {
	e := rec{"ev": str(op, "op")}
	o := rec{"err": "", "strs": []int{}}
	switch str(op, "op") {
	case "Init":
		strs, eff := a.u.strRange(op["rng"].([]interface{}))
		if !a.u.inMem {
			for i, x := range eff {
				strs[i] = a.u.pinned(num2(x["s"]))
			}
		}
		var err error
		p := guard(func() { err = a.l.InitHistory("addr", a.u.spubs[num(op, "key")], strs) })
		o["err"] = crashCode(p)
		if p == "" {
			o["err"] = errName(err)
		}
		e["key"], e["rng"] = op["key"], eff
	case "Audit":
		strs, eff := a.u.strRange(op["rng"].([]interface{}))
		i := num(op, "i")
		d := a.l[initHash(a.u.strs[i-1])]
		if d == nil {
			o["err"] = "lost" // the log forgot a directory
		} else {
			var err error
			p := guard(func() {
				err = d.Audit(a.u.deliver(a.u.historyMsg(str(op, "shape"), strs), protocol.STRType))
			})
			o["err"] = crashCode(p)
			if p == "" {
				o["err"] = errName(err)
			}
		}
		e["i"], e["shape"], e["rng"] = i, a.u.seenAs(str(op, "shape")), eff
	case "Get":
		var h [crypto.HashSizeByte]byte
		if i := num(op, "i"); i > 0 {
			h = initHash(a.u.strs[i-1])
		} else if a.u.rnd.Intn(2) == 0 {
			copy(h[:], a.u.bytes(32))
		}
		o["err"], o["strs"] = a.get(h, epochOf(num(op, "s")), epochOf(num(op, "e")))
		e["i"], e["s"], e["e"] = op["i"], op["s"], op["e"]
	default:
		fatal("audit: unknown operation " + str(op, "op"))
	}
	o["log"] = a.held()
	e["o"] = o
	t.emit(e)
}

func num2(x interface{}) int { return x.(int) }
