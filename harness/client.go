package main

// The client's consistency checks, fed by an adversary (Client specification).

import (
	"strings"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
)

func init() { suites["client"] = clientSuite }

type clientRun struct {
	u   *universe
	cc  *client.ConsistencyChecks
	tbm map[string]int // signature of a promise -> STR it was given under
}

func clientSuite(t *tracer) error {
	t.histories(readOps(), func(t *tracer, id int, ops []rec) {
		var c *clientRun
		for _, op := range ops {
			switch str(op, "op") {
			case "New":
				u := newUniverse(t.rnd, op["u"].([]interface{}), *seed*17+int64(id))
				u.inMem = id%3 == 0
				c = &clientRun{u: u, tbm: map[string]int{}}
				c.cc = client.New(u.pinned(1), true, u.spubs[1])
				t.emit(rec{"ev": "New", "u": op["u"], "o": c.obs("ok")})
			case "Resp":
				c.resp(t, op["r"].(map[string]interface{}))
			case "Equiv":
				c.equiv(t, op)
			default:
				fatal("client: unknown operation " + str(op, "op"))
			}
		}
	})
	return nil
}

func crashCode(p string) string {
	if strings.HasPrefix(p, "panic") {
		return "panic"
	}
	return p
}

// obs is the client's state.
func (c *clientRun) obs(code string) rec {
	ks, ts := rec{}, rec{}
	for _, l := range c.u.labels {
		n := c.u.w.names[l]
		ks[l] = c.u.w.key(c.cc.Bindings[n])
		tb := rec{"s": 0, "k": ""}
		if p, ok := c.cc.TBs[n]; ok {
			tb = rec{"s": -1, "k": "?"}
			if p != nil {
				tb = rec{"s": c.promiseOf(p), "k": c.u.w.key(p.Value)}
			}
		}
		ts[l] = tb
	}
	return rec{"code": code, "v": c.u.strID(c.cc.VerifiedSTR()), "keys": ks, "tbs": ts}
}

func (c *clientRun) promiseOf(tb *protocol.TemporaryBinding) int {
	k := string(refDigest(tb.Signature, tb.Index, tb.Value))
	if i, ok := c.tbm[k]; ok {
		return i
	}
	c.tbm[k] = -1
	for i, s := range c.u.strs {
		if refSigOK(c.u.spubs[1], refTBBytes(s.Signature, tb), tb.Signature) {
			c.tbm[k] = i + 1
		}
	}
	return c.tbm[k]
}

func (c *clientRun) resp(t *tracer, r rec) {
	u := c.u
	eff := rec{}
	for k, v := range r {
		eff[k] = v
	}
	s, changed := u.str(num(r, "s"), str(r, "m"))
	if !changed {
		eff["m"] = "none"
	}
	ap, pm := u.apath(r)
	eff["pm"] = pm
	tb, tbm := u.tb(r)
	eff["tbm"] = tbm
	df := &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: []*protocol.DirSTR{s}, TB: tb}
	res := &protocol.Response{Error: codeByName[str(r, "err")], DirectoryResponse: df}
	switch str(r, "shape") {
	case "whole":
	case "noresp":
		res.DirectoryResponse = nil
	case "nilresp":
		res.DirectoryResponse = (*protocol.DirectoryProof)(nil)
	case "noap":
		df.AP = nil
	case "nilap":
		df.AP[0] = nil
	case "noleaf":
		ap.Leaf = nil
	case "nostr":
		df.STR = nil
	case "nilstr":
		df.STR[0] = nil
	case "nopol":
		s.Policies, s.Ad = nil, nil
	case "nosigned":
		s.SignedTreeRoot = nil
	case "history":
		res.DirectoryResponse = &protocol.STRHistoryRange{STR: df.STR}
	case "ap2": // a second path that nothing proves
		forged := copyPath(ap)
		switch u.rnd.Intn(3) {
		case 0:
			forged.Leaf.Value = []byte("forged")
			forged.Leaf.IsEmpty = false
			forged.Leaf.Index = cp(forged.LookupIndex)
		case 1:
			forged = copyPath(u.trees[num(u.spec[u.rnd.Intn(len(u.spec))], "share")].path(u.index(u.labels[u.rnd.Intn(len(u.labels))], 1)))
		case 2:
			forged.Leaf.Index = cp(forged.LookupIndex)
			forged.Leaf.Value = u.w.keys["k4"]
			setCommitment(forged.Leaf, u.bytes(32), u.bytes(32))
		}
		df.AP = append(df.AP, forged)
	case "ap2same":
		df.AP = append(df.AP, copyPath(ap))
	case "str2":
		s2, _ := u.str(1+u.rnd.Intn(len(u.strs)), "none")
		df.STR = append(df.STR, s2)
	default:
		fatal("unknown shape " + str(r, "shape"))
	}
	typ := protocol.KeyLookupType
	if str(r, "t") == "reg" {
		typ = protocol.RegistrationType
	}
	var exp []byte
	if k := str(r, "exp"); k != "" {
		exp = u.w.keys[k]
	}
	var err error
	code := ""
	p := guard(func() {
		m := u.deliver(res, typ)
		err = c.cc.HandleResponse(typ, m, u.w.names[str(r, "n")], exp)
	})
	if code = crashCode(p); p == "" {
		code = errName(err)
	}
	t.emit(rec{"ev": "Resp", "r": eff, "o": c.obs(code), "p": p})
}

func (c *clientRun) equiv(t *tracer, op rec) {
	strs, eff := c.u.strRange(op["rng"].([]interface{}))
	var err error
	p := guard(func() {
		m := c.u.deliver(c.u.historyMsg(str(op, "shape"), strs), protocol.STRType)
		err = c.cc.CheckEquivocation(m)
	})
	code := crashCode(p)
	if p == "" {
		code = errName(err)
	}
	t.emit(rec{"ev": "Equiv", "rng": eff, "shape": c.u.seenAs(str(op, "shape")), "o": c.obs(code), "p": p})
}
