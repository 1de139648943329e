package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/coniks-sys/coniks-go/merkletree"
)

func init() {
	suites["pad"] = func(t *tracer) error { t.histories(readOps(), padHistory); return nil }
	suites["raw"] = func(t *tracer) error { t.histories(readOps(), rawHistory); return nil }
}

type someAd string

func (a someAd) Serialize() []byte { return []byte(a) }

// savedProof is a proof seen earlier, with what it has to prove for ever.
type savedProof struct {
	ap        *merkletree.AuthenticationPath
	name, val []byte
	root      []byte
	shown     string
}

func proofShown(ap *merkletree.AuthenticationPath) string {
	var bs [][]byte
	gather(reflect.ValueOf(ap), &bs)
	return string(bytes.Join(bs, []byte{0xff}))
}

func padHistory(t *tracer, id int, ops []rec) {
	var p *merkletree.PAD
	var w *world
	var names []string
	roots, coms := intern{}, intern{}
	salts := map[string]string{}
	var saved []savedProof

	// observe looks up every name and rebuilds the root of the latest epoch.
	observe := func() rec {
		o := rec{"root": -1, "canon": false, "fresh": true, "stable": true, "err": "ok"}
		fresh, stable := true, true
		msg := guard(func() {
			s := p.LatestSTR()
			o["root"] = roots.id(string(s.TreeHash))
			var es []refEntry
			var nonce []byte
			for _, l := range names {
				ap, err := p.Lookup(w.names[l])
				if err != nil {
					return
				}
				nonce = ap.TreeNonce
				if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) && !ap.Leaf.IsEmpty {
					c := ap.Leaf.Commitment
					es = append(es, refEntry{ap.LookupIndex, c.Value})
					if !freshly(c.Salt, fmt.Sprintf("salt of %s with %x in pad %d", l, c.Value, id)) {
						fresh = false
					}
					salts[string(c.Salt)] = l
				}
			}
			if !freshly(nonce, fmt.Sprintf("nonce of pad %d", id)) {
				fresh = false
			}
			o["canon"] = bytes.Equal(s.TreeHash, refRoot(nonce, es))
			for _, sp := range saved {
				if proofShown(sp.ap) != sp.shown || sp.ap.Verify(sp.name, sp.val, sp.root) != nil {
					stable = false
				}
			}
		})
		if msg != "" {
			o["err"] = "panic"
		}
		o["fresh"], o["stable"] = fresh, stable
		return o
	}

	for _, op := range ops {
		ev := rec{"ev": str(op, "op")}
		switch str(op, "op") {
		case "New":
			names = strList(op["names"])
			w = newWorld(*seed*1000+int64(num(op, "w")), names, strList(op["keys"]))
			ev["cap"], ev["lcp"] = num(op, "cap"), w.lcps(names)
			guard(func() {
				p, _ = merkletree.NewPAD(someAd("data"), w.signKey, w.vrfKey, uint64(num(op, "cap")))
			})
			ev["o"] = observe()
		case "Set":
			n, v := str(op, "n"), str(op, "v")
			ev["n"], ev["v"] = n, v
			// the caller may reuse its buffer
			buf := append([]byte{}, w.keys[v]...)
			var err error
			msg := guard(func() { err = p.Set(w.names[n], buf) })
			for i := range buf {
				buf[i] ^= 0x55
			}
			ev["o"] = rec{"err": outcome(msg, err)}
		case "Upd":
			msg := guard(func() { p.Update(nil) })
			o := observe()
			if msg != "" {
				o["canon"] = false
			}
			ev["o"] = o
		case "Look":
			n, e := str(op, "n"), num(op, "e")
			ev["n"], ev["e"] = n, e
			o := rec{"err": "ok", "kind": "none", "val": "", "lvl": -1, "leaf": "?", "ver": false,
				"bare": true, "leak": false, "com": -1, "root": -1}
			var ap *merkletree.AuthenticationPath
			var s *merkletree.SignedTreeRoot
			var err error
			msg := guard(func() {
				ap, err = p.LookupInEpoch(w.names[n], uint64(e))
				s = p.GetSTR(uint64(e))
			})
			o["err"] = outcome(msg, err)
			if err == merkletree.ErrSTRNotFound {
				o["err"] = "evicted"
			}
			if o["err"] == "ok" && (ap == nil || ap.Leaf == nil || s == nil) {
				o["err"] = "nil"
			}
			if o["err"] == "ok" {
				o["kind"] = "abs"
				if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) && !ap.Leaf.IsEmpty {
					o["kind"] = "incl"
				}
				o["val"] = w.key(ap.Leaf.Value)
				o["lvl"] = int(ap.Leaf.Level)
				o["leaf"] = ""
				if !ap.Leaf.IsEmpty {
					o["leaf"] = w.byIndex(ap.Leaf.Index)
					o["com"] = coms.id(string(ap.Leaf.Commitment.Value))
				}
				o["root"] = roots.id(string(s.TreeHash))
				ver := refPathOK(ap, w.names[n], w.index[n], s.TreeHash) == o["kind"]
				guard(func() {
					ver = ver && ap.Verify([]byte(w.names[n]), ap.Leaf.Value, s.TreeHash) == nil
				})
				o["ver"] = ver
				if o["kind"] == "abs" {
					o["bare"] = ap.Leaf.Value == nil && (ap.Leaf.Commitment == nil || ap.Leaf.Commitment.Salt == nil)
				}
				var bs [][]byte
				gather(reflect.ValueOf(ap), &bs)
				for l, nm := range w.names {
					if l != "" && l != n && contains(bs, []byte(nm)) {
						o["leak"] = true
					}
				}
				for salt, l := range salts {
					if l != n && contains(bs, []byte(salt)) {
						o["leak"] = true
					}
				}
				if len(saved) < 60 {
					saved = append(saved, savedProof{ap, []byte(w.names[n]), append([]byte{}, ap.Leaf.Value...),
						append([]byte{}, s.TreeHash...), proofShown(ap)})
				}
			}
			ev["o"] = o
		default:
			fatal("unknown op")
		}
		t.emit(ev)
	}
}

func outcome(msg string, err error) string {
	if msg != "" {
		return "panic"
	}
	if err != nil {
		return "error"
	}
	return "ok"
}

// flips are the bits in which the indices of raw trees differ from the base.
var flips = []int{-1, 255, 254, 128, 127, 64, 63, 32, 31, 16, 15, 9, 8, 7, 1, 0}

func rawHistory(t *tracer, id int, ops []rec) {
	rnd := rand.New(rand.NewSource(*seed*7919 + int64(id)))
	base := make([]byte, 32)
	rnd.Read(base)
	idx := map[string][]byte{}
	lbl := map[string]string{}
	names := []string{}
	order := rnd.Perm(len(flips))
	for i := 1; i <= 12; i++ {
		n := fmt.Sprintf("n%d", i)
		b := append([]byte{}, base...)
		if f := flips[order[i-1]]; f >= 0 {
			b[f/8] ^= 1 << (7 - uint(f%8))
			if rnd.Intn(2) == 0 { // and random below
				for j := f/8 + 1; j < 32; j++ {
					b[j] = byte(rnd.Intn(256))
				}
			}
		}
		if _, dup := lbl[string(b)]; dup {
			b[31] ^= 0x10
		}
		idx[n], lbl[string(b)] = b, n
		names = append(names, n)
	}
	keys := map[string][]byte{"k1": []byte("value one"), "k2": []byte{}, "k3": bytes.Repeat([]byte{0xff, 0}, 40)}
	keyOf := func(b []byte) string {
		for k, v := range keys {
			if bytes.Equal(v, b) {
				return k
			}
		}
		return "?"
	}
	lcps := rec{}
	for _, a := range names {
		r := rec{}
		for _, b := range names {
			r[b] = lcp(idx[a], idx[b])
		}
		lcps[a] = r
	}
	var trees []*merkletree.MerkleTree
	coms := intern{}
	for _, op := range ops {
		ev := rec{"ev": str(op, "op")}
		var err error
		switch str(op, "op") {
		case "New":
			ev["lcp"] = lcps
			guard(func() {
				m, e := merkletree.NewMerkleTree()
				err = e
				trees = []*merkletree.MerkleTree{m}
			})
			ev["o"] = rec{"err": outcome("", err)}
		case "Set":
			n, v, tr := str(op, "n"), str(op, "v"), num(op, "t")
			ev["n"], ev["v"], ev["t"] = n, v, tr
			buf := append([]byte{}, keys[v]...)
			msg := guard(func() {
				err = trees[tr-1].Set(append([]byte{}, idx[n]...), "name "+n, buf)
			})
			for i := range buf {
				buf[i] ^= 0x55
			}
			ev["o"] = rec{"err": outcome(msg, err)}
		case "Clone":
			tr := num(op, "t")
			ev["t"] = tr
			var c *merkletree.MerkleTree
			msg := guard(func() { c = trees[tr-1].Clone() })
			trees = append(trees, c)
			ev["o"] = rec{"err": outcome(msg, nil)}
		case "Get":
			n, tr := str(op, "n"), num(op, "t")
			ev["n"], ev["t"] = n, tr
			var ap *merkletree.AuthenticationPath
			msg := guard(func() { ap = trees[tr-1].Get(append([]byte{}, idx[n]...)) })
			o := rec{"err": outcome(msg, nil), "kind": "none", "val": "", "lvl": -1, "sib": -1, "leaf": "?",
				"prefix": false, "opens": true, "bare": true, "com": -1, "nonce": false}
			if msg == "" && (ap == nil || ap.Leaf == nil) {
				o["err"] = "nil"
			} else if msg == "" {
				o["kind"] = "abs"
				o["lvl"], o["sib"] = int(ap.Leaf.Level), len(ap.PrunedTree)
				o["prefix"] = lcp(ap.Leaf.Index, idx[n]) >= len(ap.PrunedTree) && bytes.Equal(ap.LookupIndex, idx[n])
				o["leaf"] = ""
				o["nonce"] = len(ap.TreeNonce) == 32 && !lowEntropy(ap.TreeNonce)
				if ap.Leaf.IsEmpty {
					o["prefix"] = o["prefix"].(bool) && bytes.Equal(ap.Leaf.Index, prefixBytes(idx[n], len(ap.PrunedTree)))
					o["bare"] = ap.Leaf.Value == nil && ap.Leaf.Commitment == nil
				} else {
					o["leaf"] = lbl[string(ap.Leaf.Index)]
					c := ap.Leaf.Commitment
					o["com"] = coms.id(string(c.Value))
					if bytes.Equal(ap.Leaf.Index, idx[n]) {
						o["kind"] = "incl"
						o["val"] = keyOf(ap.Leaf.Value)
						o["opens"] = len(c.Salt) == 32 && bytes.Equal(c.Value, refDigest(c.Salt, []byte("name "+n), ap.Leaf.Value))
					} else {
						o["bare"] = ap.Leaf.Value == nil && c.Salt == nil
					}
				}
			}
			ev["o"] = o
		default:
			fatal("unknown op")
		}
		t.emit(ev)
	}
}
