package main

// Authentication paths: honest, changed, crafted and forged ones, verified by
// the real code; the facts about them are measured with the reference
// definitions.

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
)

func init() { suites["proofs"] = proofsSuite }

type hashArr = [crypto.HashSizeByte]byte

func copyPath(ap *merkletree.AuthenticationPath) *merkletree.AuthenticationPath {
	c := &merkletree.AuthenticationPath{
		TreeNonce:   append([]byte{}, ap.TreeNonce...),
		PrunedTree:  append([]hashArr{}, ap.PrunedTree...),
		LookupIndex: append([]byte{}, ap.LookupIndex...),
		VrfProof:    append([]byte{}, ap.VrfProof...),
	}
	if ap.Leaf != nil {
		l := *ap.Leaf
		l.Index = append([]byte{}, l.Index...)
		if l.Value != nil {
			l.Value = append([]byte{}, l.Value...)
		}
		if l.Commitment != nil {
			cm := *l.Commitment
			cm.Value = append([]byte{}, cm.Value...)
			if cm.Salt != nil {
				cm.Salt = append([]byte{}, cm.Salt...)
			}
			l.Commitment = &cm
		}
		c.Leaf = &l
	}
	return c
}

// fold recomputes the root, nil if that is not possible.
func fold(ap *merkletree.AuthenticationPath) (h []byte) {
	if ap.Leaf == nil || int64(ap.Leaf.Level) > int64(len(ap.PrunedTree)) || int64(ap.Leaf.Level) > int64(8*len(ap.Leaf.Index)) {
		return nil
	}
	if ap.Leaf.IsEmpty {
		h = refEmpty(ap.TreeNonce, ap.Leaf.Index, ap.Leaf.Level)
	} else if ap.Leaf.Commitment == nil {
		return nil
	} else {
		h = refLeaf(ap.TreeNonce, ap.Leaf.Index, ap.Leaf.Level, ap.Leaf.Commitment.Value)
	}
	for d := int(ap.Leaf.Level) - 1; d >= 0; d-- {
		if bitAt(ap.Leaf.Index, d) == 1 {
			h = refDigest(ap.PrunedTree[d][:], h)
		} else {
			h = refDigest(h, ap.PrunedTree[d][:])
		}
	}
	return h
}

func facts(ap *merkletree.AuthenticationPath, name, value, root []byte) rec {
	f := rec{"leaf": ap.Leaf != nil, "empty": false, "com": false, "same": false, "vnil": true, "veq": false,
		"opens": false, "root": false, "nonce": len(ap.TreeNonce), "sib": len(ap.PrunedTree), "lvl": 0,
		"lookup": len(ap.LookupIndex), "ilen": 0, "clen": 0, "slen": 0, "match": 0}
	l := ap.Leaf
	if l == nil {
		return f
	}
	f["empty"], f["same"] = l.IsEmpty, bytes.Equal(l.Index, ap.LookupIndex)
	f["vnil"], f["veq"] = l.Value == nil, bytes.Equal(l.Value, value)
	f["lvl"], f["ilen"] = clip(uint64(l.Level)), len(l.Index)
	f["match"] = lcp(l.Index, ap.LookupIndex)
	if l.Commitment != nil {
		f["com"] = true
		f["clen"], f["slen"] = len(l.Commitment.Value), len(l.Commitment.Salt)
		f["opens"] = bytes.Equal(l.Commitment.Value, refDigest(l.Commitment.Salt, name, value))
	}
	h := fold(ap)
	f["root"] = h != nil && bytes.Equal(h, root)
	return f
}

func verdict(ap *merkletree.AuthenticationPath, name, value, root []byte) string {
	res := "panic"
	if p := guard(func() {
		if ap.Verify(name, value, root) == nil {
			res = "ok"
		} else {
			res = "reject"
		}
	}); p != "" {
		return "panic"
	}
	return res
}

func claim(ap *merkletree.AuthenticationPath) string {
	if ap.Leaf != nil && bytes.Equal(ap.Leaf.Index, ap.LookupIndex) {
		return fmt.Sprintf("incl %x", ap.Leaf.Value)
	}
	return "abs"
}

// scene is a PAD of a few epochs with its proofs.
type scene struct {
	w    *world
	pad  *merkletree.PAD
	vals []map[string][]byte // per epoch
	last uint64
}

func newScene(n int, sizes []int) *scene {
	labels := []string{}
	for i := 1; i <= n; i++ {
		labels = append(labels, fmt.Sprintf("n%d", i))
	}
	s := &scene{w: newWorld(*seed*1000+int64(n)*2, labels, []string{"k1", "k2", "k3"})}
	var err error
	s.pad, err = merkletree.NewPAD(someAd("data"), s.w.signKey, s.w.vrfKey, 100)
	if err != nil {
		fatal(err)
	}
	cur := map[string][]byte{}
	s.vals = append(s.vals, map[string][]byte{})
	for e, k := range sizes {
		for i := 1; i <= k; i++ {
			l := fmt.Sprintf("n%d", i)
			if cur[l] == nil || (i+e)%3 == 0 {
				cur[l] = []byte(fmt.Sprintf("value %d of epoch %d", i, e))
				if err := s.pad.Set(s.w.names[l], cur[l]); err != nil {
					fatal(err)
				}
			}
		}
		s.pad.Update(nil)
		c := map[string][]byte{}
		for k, v := range cur {
			c[k] = v
		}
		s.vals = append(s.vals, c)
		s.last++
	}
	return s
}

func (s *scene) proof(l string, e uint64) *merkletree.AuthenticationPath {
	ap, err := s.pad.LookupInEpoch(s.w.names[l], e)
	if err != nil {
		fatal(err)
	}
	return ap
}

func (s *scene) root(e uint64) []byte { return s.pad.GetSTR(e).TreeHash }

func flip(b []byte, bit int) []byte {
	if bit < 0 || bit/8 >= len(b) {
		return b
	}
	c := append([]byte{}, b...)
	c[bit/8] ^= 1 << (7 - uint(bit%8))
	return c
}

func changeBytes(b []byte, how string, other []byte, level int) []byte {
	switch how {
	case "first":
		return flip(b, 0)
	case "last":
		return flip(b, 8*len(b)-1)
	case "cut":
		if len(b) > 0 {
			return append([]byte{}, b[:len(b)-1]...)
		}
		return b
	case "grow":
		return append(append([]byte{}, b...), 0)
	case "nil":
		return nil
	case "other":
		return append([]byte{}, other...)
	case "belowlevel": // the first bit that the path does not determine
		return flip(b, level)
	case "atlevel": // the last bit that it determines
		return flip(b, level-1)
	case "long":
		return append(append([]byte{}, b...), make([]byte, 32)...)
	}
	fatal("unknown change " + how)
	return nil
}

// sceneFor finds the honest proof called base in the scenes.
type basis struct {
	s      *scene
	l      string // name
	e      uint64
	otherL string
}

func proofsSuite(t *tracer) error {
	rnd := t.rnd
	single := newScene(4, []int{0, 1, 1, 2})
	many := newScene(30, []int{3, 12, 13, 20, 20, 24})
	find := func(s *scene, e uint64, ok func(*merkletree.AuthenticationPath) bool, deep bool) string {
		best, lvl := "", -1
		for l := range s.w.names {
			if l == "" {
				continue
			}
			ap := s.proof(l, e)
			if !ok(ap) {
				continue
			}
			v := int(ap.Leaf.Level)
			if !deep {
				v = 1000 - v
			}
			if v > lvl || (v == lvl && l < best) {
				best, lvl = l, v
			}
		}
		if best == "" {
			fatal("no proof of this kind")
		}
		return best
	}
	incl := func(ap *merkletree.AuthenticationPath) bool {
		return !ap.Leaf.IsEmpty && bytes.Equal(ap.Leaf.Index, ap.LookupIndex)
	}
	absE := func(ap *merkletree.AuthenticationPath) bool { return ap.Leaf.IsEmpty }
	absL := func(ap *merkletree.AuthenticationPath) bool { return !ap.Leaf.IsEmpty && !incl(ap) }
	bases := map[string]basis{
		"incl1":        {single, "n1", 2, "n2"},
		"incl2":        {single, find(single, 4, incl, true), 4, "n3"},
		"inclDeep":     {many, find(many, 6, incl, true), 6, "n2"},
		"inclAgain":    {many, find(many, 5, incl, false), 5, "n3"},
		"absEmpty":     {many, find(many, 3, absE, false), 3, "n1"},
		"absEmptyDeep": {many, find(many, 6, absE, true), 6, "n1"},
		"absLeaf":      {single, find(single, 2, absL, false), 2, "n1"},
		"absLeafDeep":  {many, find(many, 6, absL, true), 6, "n1"},
		"absEmptyTree": {single, "n2", 0, "n1"},
	}
	for _, op := range readOps() {
		switch str(op, "op") {
		case "Mut":
			b := bases[str(op, "base")]
			ap := copyPath(b.s.proof(b.l, b.e))
			other := b.s.proof(b.otherL, b.e)
			truth := "abs"
			name := []byte(b.s.w.names[b.l])
			a := op["a"].(map[string]interface{})
			own := b.s.vals[b.e][b.l]
			value := append([]byte{}, own...)
			switch str(a, "v") {
			case "other":
				value = []byte("another value")
			case "nil":
				value = nil
			case "grow":
				value = append(value, 0)
			}
			nameLbl := b.l
			switch str(a, "n") {
			case "other":
				name, nameLbl = []byte(b.s.w.names[b.otherL]), b.otherL
			case "empty":
				name, nameLbl = nil, ""
			}
			if v, ok := b.s.vals[b.e][nameLbl]; ok {
				truth = fmt.Sprintf("incl %x", v)
			}
			honest := true
			root := append([]byte{}, b.s.root(b.e)...)
			switch str(a, "r") {
			case "own":
			case "older":
				if b.e > 0 {
					root, honest = b.s.root(b.e-1), false
				} else {
					root, honest = many.root(0), false
				}
			case "newer":
				root, honest = b.s.root(b.e+1), false
				if b.e == b.s.last {
					root = many.root(1)
				}
			case "cut":
				root, honest = root[:31], false
			case "nil":
				root, honest = nil, false
			case "fork":
				root, honest = flip(root, rnd.Intn(256)), false
			case "zero":
				root, honest = make([]byte, 32), false
			}
			for _, m := range op["m"].([]interface{}) {
				mm := m.(map[string]interface{})
				applyChange(ap, str(mm, "f"), str(mm, "h"), other, value, name)
			}
			f := facts(ap, name, value, root)
			obs := verdict(copyPath(ap), name, value, root)
			// a claim is about the name only if the index is the name's
			about := nameLbl != "" && bytes.Equal(ap.LookupIndex, b.s.w.index[nameLbl])
			t.emit(rec{"ev": "Proof", "case": op, "f": f, "obs": obs, "honest": honest && about, "truth": truth, "claim": claim(ap)})
		case "Craft":
			ap, name, value, root := craft(rnd, op)
			t.emit(rec{"ev": "Proof", "case": op, "f": facts(ap, name, value, root), "obs": verdict(copyPath(ap), name, value, root),
				"honest": false, "truth": "", "claim": ""})
		case "Forge":
			forge(t, rnd, str(op, "how"), num(op, "k"), many.w)
		default:
			fatal("unknown op")
		}
	}
	return nil
}

func applyChange(ap *merkletree.AuthenticationPath, f, h string, other *merkletree.AuthenticationPath, value, name []byte) {
	if f == "leaf" {
		ap.Leaf = nil
		return
	}
	level := 0
	if ap.Leaf != nil {
		level = int(ap.Leaf.Level)
	}
	switch f {
	case "nonce":
		ap.TreeNonce = changeBytes(ap.TreeNonce, h, bytes.Repeat([]byte{7}, 32), level)
		return
	case "lookup":
		if h == "leaf" {
			if ap.Leaf != nil {
				ap.LookupIndex = append([]byte{}, ap.Leaf.Index...)
			}
			return
		}
		ap.LookupIndex = changeBytes(ap.LookupIndex, h, other.LookupIndex, level)
		return
	case "sib":
		p := ap.PrunedTree
		n := len(p)
		switch {
		case h == "addfirst":
			ap.PrunedTree = append([]hashArr{{}}, p...)
		case h == "addlast":
			ap.PrunedTree = append(p, hashArr{})
		case h == "many":
			ap.PrunedTree = append(p, make([]hashArr, 300)...)
		case n == 0:
		case h == "first":
			p[0][0] ^= 0x80
		case h == "last":
			p[n-1][31] ^= 1
		case h == "middle":
			p[n/2][13] ^= 4
		case h == "dropfirst":
			ap.PrunedTree = p[1:]
		case h == "droplast":
			ap.PrunedTree = p[:n-1]
		case h == "none":
			ap.PrunedTree = nil
		case h == "swap":
			p[0], p[n-1] = p[n-1], p[0]
		case h == "repeat":
			ap.PrunedTree = append(p, p[n-1])
		}
		return
	}
	l := ap.Leaf
	if l == nil {
		return
	}
	switch f {
	case "level":
		switch h {
		case "inc":
			l.Level++
		case "dec":
			l.Level--
		case "zero":
			l.Level = 0
		case "huge":
			l.Level = 1<<32 - 1
		case "wrap":
			l.Level |= 1 << 31
		}
	case "levelsib":
		switch h {
		case "inc":
			l.Level++
			ap.PrunedTree = append(ap.PrunedTree, hashArr{})
		case "dec":
			if l.Level > 0 && len(ap.PrunedTree) > 0 {
				l.Level--
				ap.PrunedTree = ap.PrunedTree[:len(ap.PrunedTree)-1]
			}
		case "zero":
			l.Level = 0
			ap.PrunedTree = nil
		case "far":
			l.Level = 257
			ap.PrunedTree = make([]hashArr, 257)
		}
	case "index":
		if h == "lookup" {
			l.Index = append([]byte{}, ap.LookupIndex...)
		} else {
			l.Index = changeBytes(l.Index, h, nil, level)
		}
	case "value":
		switch h {
		case "nil":
			l.Value = nil
		case "empty":
			l.Value = []byte{}
		case "other":
			l.Value = []byte("another value")
		case "grow":
			l.Value = append(l.Value, 0)
		case "cut":
			if len(l.Value) > 0 {
				l.Value = l.Value[:len(l.Value)-1]
			}
		case "wanted":
			l.Value = append([]byte{}, value...)
		}
	case "empty":
		l.IsEmpty = !l.IsEmpty
	case "com":
		switch h {
		case "nil":
			l.Commitment = nil
		case "fresh": // opens to the wanted value
			salt := bytes.Repeat([]byte{9, 200}, 16)
			l.Commitment = &crypto.Commit{Salt: salt, Value: refDigest(salt, name, value)}
		default:
			if l.Commitment == nil {
				l.Commitment = &crypto.Commit{}
			}
			if h == "nilvalue" {
				l.Commitment.Value = nil
			} else {
				l.Commitment.Value = changeBytes(l.Commitment.Value, h, bytes.Repeat([]byte{1, 2}, 16), level)
			}
		}
	case "salt":
		if l.Commitment == nil {
			l.Commitment = &crypto.Commit{}
		}
		c := l.Commitment
		switch h {
		case "shift": // move the first byte of the name into the salt
			if len(name) > 0 {
				c.Salt = append(c.Salt, name[0])
			}
		case "unshift":
			if len(c.Salt) > 0 {
				c.Salt = c.Salt[:len(c.Salt)-1]
			}
		default:
			c.Salt = changeBytes(c.Salt, h, bytes.Repeat([]byte{3, 4}, 16), level)
		}
	default:
		fatal("unknown field " + f)
	}
}

func randBytes(rnd *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rnd.Read(b)
	return b
}

// craft builds a path with the wanted lengths and agreements, and its root.
func craft(rnd *rand.Rand, op rec) (ap *merkletree.AuthenticationPath, name, value, root []byte) {
	lvl := num(op, "lvl")
	name = []byte("crafted name")
	sib := lvl + num(op, "sib")
	if sib < 0 {
		sib = 0
	}
	ap = &merkletree.AuthenticationPath{TreeNonce: randBytes(rnd, num(op, "nonce")), LookupIndex: randBytes(rnd, num(op, "lookup"))}
	for i := 0; i < sib; i++ {
		var h hashArr
		rnd.Read(h[:])
		ap.PrunedTree = append(ap.PrunedTree, h)
	}
	ilen := num(op, "ilen")
	if ilen < 0 {
		ilen = (lvl + 7) / 8
	}
	idx := randBytes(rnd, ilen)
	copy(idx, ap.LookupIndex)
	m := num(op, "match")
	if op["empty"] == true && ilen == (lvl+7)/8 {
		idx = prefixBytes(append(ap.LookupIndex, make([]byte, 64)...), lvl)
	}
	if m < 8*len(idx) && m < lvl {
		idx = flip(idx, m)
	} else if op["same"] != true && op["empty"] != true && lvl < 8*len(idx) {
		b := m
		if b >= 8*len(idx) {
			b = 8*len(idx) - 1
		}
		if b >= lvl {
			idx = flip(idx, b)
		}
	}
	if op["same"] == true {
		idx = append([]byte{}, ap.LookupIndex...)
		if ilen < len(idx) {
			idx = idx[:ilen]
			ap.LookupIndex = append([]byte{}, idx...)
		}
	}
	leaf := &merkletree.ProofNode{Level: uint32(lvl), Index: idx, IsEmpty: op["empty"] == true}
	if op["value"] == true {
		leaf.Value = []byte("crafted value")
	}
	value = append([]byte{}, leaf.Value...)
	if op["com"] == true {
		salt := randBytes(rnd, num(op, "slen"))
		c := refDigest(salt, name, value)
		if op["opens"] != true {
			rnd.Read(c)
		}
		cl := num(op, "clen")
		for len(c) < cl {
			c = append(c, 0)
		}
		c = c[:cl]
		if num(op, "slen") == 0 {
			salt = nil
		}
		leaf.Commitment = &crypto.Commit{Salt: salt, Value: c}
	}
	ap.Leaf = leaf
	root = fold(ap)
	if root == nil {
		root = randBytes(rnd, 32)
	}
	return
}

// forge makes two paths for one name under one root that tell different things.
func forge(t *tracer, rnd *rand.Rand, how string, k int, w *world) {
	name := []byte(w.names["n1"])
	idx := w.index["n1"]
	sibs := make([]hashArr, k)
	for i := range sibs {
		rnd.Read(sibs[i][:])
	}
	salt := randBytes(rnd, 32)
	mk := func(nonce, index []byte, empty bool, c *crypto.Commit, v []byte, n int) *merkletree.AuthenticationPath {
		return &merkletree.AuthenticationPath{TreeNonce: nonce, LookupIndex: idx, PrunedTree: sibs[:n],
			Leaf: &merkletree.ProofNode{Level: uint32(n), Index: index, IsEmpty: empty, Commitment: c, Value: v}}
	}
	nonce := randBytes(rnd, 32)
	v1, v2 := []byte("first value"), []byte("second value")
	var p1, p2 *merkletree.AuthenticationPath
	switch how {
	case "saltshift": // the first value contains the name
		v1 = append(append([]byte("x"), name...), v2...)
		com := refDigest(salt, name, v1)
		p1 = mk(nonce, idx, false, &crypto.Commit{Salt: salt, Value: com}, v1, k)
		p2 = mk(nonce, idx, false, &crypto.Commit{Salt: append(append(append([]byte{}, salt...), name...), 'x'), Value: com}, v2, k)
	case "inclempty": // an empty node at the name's full index, or not empty
		p1 = mk(nonce, prefixBytes(idx, k), true, nil, nil, k)
		p2 = mk(nonce, prefixBytes(idx, k), true, &crypto.Commit{Salt: salt, Value: refDigest(salt, name, v2)}, v2, k)
		p2.LookupIndex = idx
		p2.Leaf.Index = idx
		p1.Leaf.Index = idx
	case "emptyincl": // the hash of an empty node covers no commitment
		p1 = mk(nonce, idx, true, &crypto.Commit{Salt: salt, Value: refDigest(salt, name, v1)}, v1, k)
		p2 = mk(nonce, idx, true, &crypto.Commit{Salt: salt, Value: refDigest(salt, name, v2)}, v2, k)
	case "nonceshift": // one leaf, read with nonces of different lengths
		long := append(append(append([]byte{}, nonce...), idx...), le32(uint32(k))...)
		c1 := refDigest(salt, name, v1)
		p1 = mk(long, idx, false, &crypto.Commit{Salt: salt, Value: c1}, v1, k)
		// the same bytes: nonce, idx, level, then idx, level, commitment
		rest := append(append(append([]byte{}, idx...), le32(uint32(k))...), c1...)
		p2 = mk(nonce, flip(idx, 255), false, &crypto.Commit{Value: rest}, nil, k)
		p2.Leaf.Index = idx
	case "siblingleaf": // one level more or less
		c1 := &crypto.Commit{Salt: salt, Value: refDigest(salt, name, v1)}
		p1 = mk(nonce, idx, false, c1, v1, k)
		p2 = mk(nonce, idx, false, c1, v1, k)
		p2.PrunedTree = append(append([]hashArr{}, sibs...), hashArr{})
		p2.Leaf.IsEmpty = true
		p2.Leaf.Index = prefixBytes(idx, k)
		p2.Leaf.Value = nil
	}
	root := fold(p1)
	if root == nil {
		fatal("forge " + how)
	}
	f1, f2 := facts(p1, name, p1.Leaf.Value, root), facts(p2, name, p2.Leaf.Value, root)
	t.emit(rec{"ev": "Pair", "case": how, "f1": f1, "f2": f2,
		"obs1": verdict(copyPath(p1), name, p1.Leaf.Value, root), "obs2": verdict(copyPath(p2), name, p2.Leaf.Value, root),
		"claim1": claim(p1), "claim2": claim(p2)})
}
