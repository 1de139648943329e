package main

// Signed tree roots, authentication paths and temporary bindings as an
// adversary makes them, following a universe of the Chains specification.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

type advLeaf struct {
	name, key    string // labels
	index, salt  []byte
	commit, real []byte
}

type advTree struct {
	nonce  []byte
	vrf    int
	leaves map[string]advLeaf
	root   []byte
}

func (t *advTree) entries() (es []refEntry) {
	var ls []string
	for l := range t.leaves {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		es = append(es, refEntry{t.leaves[l].index, t.leaves[l].commit})
	}
	return es
}

// path builds the authentication path for an index.
func (t *advTree) path(idx []byte) *merkletree.AuthenticationPath {
	ap := &merkletree.AuthenticationPath{TreeNonce: t.nonce, LookupIndex: idx}
	es := t.entries()
	prefix := make([]byte, 33)
	for d := 0; ; d++ {
		if d > 0 && len(es) <= 1 {
			l := &merkletree.ProofNode{Level: uint32(d)}
			if len(es) == 0 {
				l.IsEmpty = true
				l.Index = prefixBytes(prefix, d)
			} else {
				for _, lf := range t.leaves {
					if bytes.Equal(lf.index, es[0].index) {
						l.Index = lf.index
						l.Commitment = nil
						setCommitment(l, lf.commit, nil)
						if bytes.Equal(lf.index, idx) {
							l.Value = lf.real
							setCommitment(l, lf.commit, lf.salt)
						}
					}
				}
			}
			ap.Leaf = l
			return ap
		}
		var mine, other []refEntry
		for _, e := range es {
			if bitAt(e.index, d) == bitAt(idx, d) {
				mine = append(mine, e)
			} else {
				other = append(other, e)
			}
		}
		op := append([]byte{}, prefix...)
		if bitAt(idx, d) == 1 {
			prefix[d/8] |= 1 << (7 - uint(d%8))
		} else {
			op[d/8] |= 1 << (7 - uint(d%8))
		}
		var h hashArr
		copy(h[:], refSub(t.nonce, op, d+1, other))
		ap.PrunedTree = append(ap.PrunedTree, h)
		es = mine
	}
}

type universe struct {
	w      *world
	rnd    *rand.Rand
	spec   []rec
	vrfs   map[int]vrf.PrivateKey
	vpubs  map[int]vrf.PublicKey
	signs  map[int]sign.PrivateKey
	spubs  map[int]sign.PublicKey
	trees  map[int]*advTree
	strs   []*protocol.DirSTR // strs[i-1] is STR i
	ident  map[string]int     // strIdentity -> STR number
	idx    map[string][]byte
	inMem  bool
	labels []string
}

func setCommitment(l *merkletree.ProofNode, v, salt []byte) {
	// the commitment's type is reached through the proof node only
	f := reflect.ValueOf(l).Elem().FieldByName("Commitment")
	c := reflect.New(f.Type().Elem())
	c.Elem().FieldByName("Value").SetBytes(v)
	if salt != nil {
		c.Elem().FieldByName("Salt").SetBytes(salt)
	}
	f.Set(c)
}

func (u *universe) bytes(n int) []byte {
	b := make([]byte, n)
	u.rnd.Read(b)
	return b
}

func (u *universe) index(l string, vk int) []byte {
	k := fmt.Sprintf("%d/%s", vk, l)
	if i, ok := u.idx[k]; ok {
		return i
	}
	i := u.vrfs[vk].Compute([]byte(u.w.names[l]))
	u.idx[k] = i
	return i
}

func newUniverse(rnd *rand.Rand, spec []interface{}, seed int64) *universe {
	u := &universe{rnd: rnd, vrfs: map[int]vrf.PrivateKey{}, vpubs: map[int]vrf.PublicKey{}, signs: map[int]sign.PrivateKey{},
		spubs: map[int]sign.PublicKey{}, trees: map[int]*advTree{}, ident: map[string]int{}, idx: map[string][]byte{}}
	for _, s := range spec {
		u.spec = append(u.spec, s.(map[string]interface{}))
	}
	for l := range u.spec[0]["tree"].(map[string]interface{}) {
		u.labels = append(u.labels, l)
	}
	sort.Strings(u.labels)
	u.w = newWorld(seed, u.labels, []string{"k1", "k2", "k3", "k4"})
	u.vrfs[1], u.vpubs[1] = u.w.vrfKey, u.w.vrfPub
	u.signs[1], u.spubs[1] = u.w.signKey, u.w.signPub
	var err error
	if u.vrfs[2], err = vrf.GenerateKey(detRand{rand.New(rand.NewSource(3000 + seed))}); err != nil {
		fatal(err)
	}
	u.vpubs[2], _ = u.vrfs[2].Public()
	if u.signs[2], err = sign.GenerateKey(detRand{rand.New(rand.NewSource(4000 + seed))}); err != nil {
		fatal(err)
	}
	u.spubs[2], _ = u.signs[2].Public()
	for l, n := range u.w.index {
		u.idx["1/"+l] = n
	}
	for i, s := range u.spec {
		share := num(s, "share")
		if share == i+1 {
			t := &advTree{nonce: u.bytes(32), vrf: num(s, "vrf"), leaves: map[string]advLeaf{}}
			for l, k := range s["tree"].(map[string]interface{}) {
				if k.(string) == "" {
					continue
				}
				lf := advLeaf{name: l, key: k.(string), salt: u.bytes(32), real: u.w.keys[k.(string)]}
				lf.index = u.index(l, t.vrf)
				lf.commit = refDigest(lf.salt, []byte(u.w.names[l]), lf.real)
				t.leaves[l] = lf
			}
			t.root = refRoot(t.nonce, t.entries())
			u.trees[i+1] = t
		}
		t := u.trees[share]
		prev := u.bytes(32)
		if p := num(s, "ph"); p != 0 {
			prev = refDigest(u.strs[p-1].Signature)
		}
		str := &protocol.DirSTR{
			SignedTreeRoot: &merkletree.SignedTreeRoot{
				TreeHash: t.root, Epoch: epochOf(num(s, "ep")), PreviousEpoch: epochOf(num(s, "pe")), PreviousSTRHash: prev,
			},
			Policies: protocol.NewPolicies(protocol.Timestamp(60+i), u.vpubs[num(s, "vrf")]),
		}
		str.Signature = u.signs[num(s, "signer")].Sign(refSTRBytes(str))
		str.Ad = str.Policies
		u.strs = append(u.strs, str)
		u.ident[strIdentity(str)] = i + 1
	}
	return u
}

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// str returns a copy of STR i with an alteration; eff tells whether it had an effect.
func (u *universe) str(i int, mut string) (s *protocol.DirSTR, eff bool) {
	o := u.strs[i-1]
	p := *o.Policies
	p.VrfPublicKey = cp(p.VrfPublicKey)
	s = &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{
		TreeHash: cp(o.TreeHash), Epoch: o.Epoch, PreviousEpoch: o.PreviousEpoch,
		PreviousSTRHash: cp(o.PreviousSTRHash), Signature: cp(o.Signature)}, Policies: &p}
	flipAny := func(b []byte) []byte { return flip(b, u.rnd.Intn(8*len(b))) }
	switch mut {
	case "none":
	case "sig":
		s.Signature = flipAny(s.Signature)
	case "nosig":
		s.Signature = nil
	case "epoch":
		s.Epoch += []uint64{1, 1 << 32, ^uint64(0)}[u.rnd.Intn(3)]
	case "prevepoch":
		if s.Epoch > 0 { // not signed in an initial STR
			s.PreviousEpoch += []uint64{1, 1 << 33, ^uint64(0)}[u.rnd.Intn(3)]
		}
	case "root":
		s.TreeHash = flipAny(s.TreeHash)
	case "swaproot":
		s.TreeHash = cp(u.strs[u.rnd.Intn(len(u.strs))].TreeHash)
	case "prevhash":
		s.PreviousSTRHash = flipAny(s.PreviousSTRHash)
	case "deadline":
		p.EpochDeadline += []protocol.Timestamp{1, 1 << 40}[u.rnd.Intn(2)]
	case "vrf":
		if u.rnd.Intn(2) == 0 {
			p.VrfPublicKey = flipAny(p.VrfPublicKey)
		} else {
			p.VrfPublicKey = cp(u.vpubs[3-num(u.spec[i-1], "vrf")])
		}
	case "version":
		if u.rnd.Intn(2) == 0 {
			p.Version += "1"
		} else {
			p.HashID = "SHA256"
		}
	case "polshift":
		p.Version, p.HashID = p.Version+p.HashID[:1], p.HashID[1:]
	default:
		fatal("unknown alteration " + mut)
	}
	s.Ad = s.Policies
	return s, strIdentity(s) != strIdentity(o)
}

// apath builds the authentication path of an answer.
func (u *universe) apath(r rec) (ap *merkletree.AuthenticationPath, pm string) {
	t := u.trees[num(u.spec[num(r, "pt")-1], "share")]
	idx := u.index(str(r, "pn"), num(r, "vk"))
	ap = copyPath(t.path(idx))
	ap.VrfProof = u.prove(str(r, "vn"), num(r, "vk"))
	before, _ := json.Marshal(ap)
	pm = str(r, "pm")
	flipAny := func(b []byte) []byte {
		if len(b) == 0 {
			return b
		}
		return flip(b, u.rnd.Intn(8*len(b)))
	}
	switch pm {
	case "none":
	case "value":
		if ap.Leaf.Value != nil {
			ap.Leaf.Value = []byte("another key")
		}
	case "valuenil":
		ap.Leaf.Value = nil
	case "salt":
		if ap.Leaf.Commitment != nil {
			ap.Leaf.Commitment.Salt = flipAny(ap.Leaf.Commitment.Salt)
		}
	case "com":
		if ap.Leaf.Commitment != nil {
			ap.Leaf.Commitment.Value = flipAny(ap.Leaf.Commitment.Value)
		}
	case "nonce":
		ap.TreeNonce = flipAny(ap.TreeNonce)
	case "level":
		if u.rnd.Intn(2) == 0 {
			ap.Leaf.Level++
		} else {
			ap.Leaf.Level--
		}
	case "sib":
		if n := len(ap.PrunedTree); n > 0 {
			i := u.rnd.Intn(n)
			ap.PrunedTree[i][u.rnd.Intn(32)] ^= 1
		}
	case "index":
		ap.LookupIndex = flip(ap.LookupIndex, 255)
	case "leafindex":
		ap.Leaf.Index = flip(ap.Leaf.Index, 8*len(ap.Leaf.Index)-1)
	case "empty":
		ap.Leaf.IsEmpty = !ap.Leaf.IsEmpty
	case "vrfproof":
		ap.VrfProof = flipAny(ap.VrfProof)
	case "novrf":
		ap.VrfProof = nil
	case "otherincl":
		if !ap.Leaf.IsEmpty {
			ap.LookupIndex = cp(ap.Leaf.Index)
		}
	default:
		fatal("unknown alteration " + pm)
	}
	after, _ := json.Marshal(ap)
	if bytes.Equal(before, after) {
		pm = "none"
	}
	return ap, pm
}

func (u *universe) prove(l string, vk int) []byte {
	k := fmt.Sprintf("proof %d/%s", vk, l)
	if p, ok := u.idx[k]; ok {
		return p
	}
	_, p := u.vrfs[vk].Prove([]byte(u.w.names[l]))
	u.idx[k] = p
	return p
}

func (u *universe) tb(r rec) (tb *protocol.TemporaryBinding, tbm string) {
	if r["tb"] != true {
		return nil, str(r, "tbm")
	}
	tbm = str(r, "tbm")
	s := u.strs[num(r, "tbs")-1]
	vk := num(u.spec[num(r, "s")-1], "vrf")
	tb = &protocol.TemporaryBinding{Index: cp(u.index(str(r, "tbn"), vk)), Value: cp(u.w.keys[str(r, "tbk")])}
	k := u.signs[1]
	if tbm == "signer" {
		k = u.signs[2]
	}
	tb.Signature = k.Sign(refTBBytes(s.Signature, tb))
	switch tbm {
	case "sig":
		tb.Signature = flip(tb.Signature, u.rnd.Intn(512))
	case "nosig":
		tb.Signature = nil
	case "index":
		tb.Index = flip(tb.Index, u.rnd.Intn(256))
	case "value":
		tb.Value = append(tb.Value, 7)
	}
	return tb, tbm
}

var codeByName = func() map[string]protocol.ErrorCode {
	m := map[string]protocol.ErrorCode{"code0": 0, "code7": 7, "code204": protocol.CheckBadLookupIndex}
	for c, n := range codeNames {
		m[n] = c
	}
	return m
}()

// deliver hands a response over, in encoded form unless u.inMem.
func (u *universe) deliver(res *protocol.Response, typ int) *protocol.Response {
	if u.inMem {
		return res
	}
	bs, err := application.MarshalResponse(res)
	if err != nil {
		fatal(err)
	}
	return application.UnmarshalResponse(typ, bs)
}

func (u *universe) strID(s *protocol.DirSTR) int {
	if s == nil || s.SignedTreeRoot == nil || s.Policies == nil {
		return -1
	}
	if i, ok := u.ident[strIdentity(s)]; ok {
		return i
	}
	return -1
}

// pinned returns STR i as it is handed to a client or auditor at the start.
func (u *universe) pinned(i int) *protocol.DirSTR {
	s, _ := u.str(i, "none")
	if u.inMem {
		return s
	}
	bs, err := json.Marshal(s)
	if err != nil {
		fatal(err)
	}
	out := new(protocol.DirSTR)
	if err := json.Unmarshal(bs, out); err != nil {
		fatal(err)
	}
	return out
}

// strRange builds the STRs of a range; alterations without effect are noted as "none".
func (u *universe) strRange(rng []interface{}) (out []*protocol.DirSTR, eff []rec) {
	eff = []rec{}
	for _, x := range rng {
		e := x.(map[string]interface{})
		s, changed := u.str(num(e, "s"), str(e, "m"))
		m := str(e, "m")
		if !changed {
			m = "none"
		}
		out = append(out, s)
		eff = append(eff, rec{"s": num(e, "s"), "m": m})
	}
	return
}

// seenAs is the shape as the receiver sees it: decoded as an STR history, an
// encoded proof is one, as it has an STR list.
func (u *universe) seenAs(shape string) string {
	if shape == "proof" && !u.inMem {
		return "whole"
	}
	return shape
}

// historyMsg is an STR history response of the given shape.
func (u *universe) historyMsg(shape string, strs []*protocol.DirSTR) *protocol.Response {
	res := &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.STRHistoryRange{STR: strs}}
	if len(strs) == 0 && (shape == "nilstr" || shape == "nopol" || shape == "nosigned") {
		shape = "nostr"
	}
	switch shape {
	case "whole":
	case "noresp":
		res.DirectoryResponse = nil
	case "nilresp":
		res.DirectoryResponse = (*protocol.STRHistoryRange)(nil)
	case "nostr":
		res.DirectoryResponse = &protocol.STRHistoryRange{}
	case "nilstr":
		strs[u.rnd.Intn(len(strs))] = nil
	case "nopol":
		strs[u.rnd.Intn(len(strs))].Policies = nil
	case "nosigned":
		strs[u.rnd.Intn(len(strs))].SignedTreeRoot = nil
	case "proof":
		res.DirectoryResponse = &protocol.DirectoryProof{STR: strs, AP: []*merkletree.AuthenticationPath{u.trees[1].path(u.index(u.labels[0], 1))}}
	case "malformed", "errdir":
		res.Error = codeByName[shape]
	default:
		fatal("unknown shape " + shape)
	}
	return res
}
