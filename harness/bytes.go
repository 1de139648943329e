package main

// The client and byte strings: genuine answers, edited (Malformed
// specification).

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
)

func init() { suites["bytes"] = bytesSuite }

// What an encoded answer consists of, independently of the repository's types.
type (
	mMsg struct {
		Error             int
		DirectoryResponse json.RawMessage
	}
	mRange struct{ STR []*mSTR }
	mProof struct {
		AP  []*mAP
		STR []*mSTR
		TB  *mTB
	}
	mAP struct {
		TreeNonce   []byte
		PrunedTree  [][32]byte
		LookupIndex []byte
		VrfProof    []byte
		Leaf        *mLeaf
	}
	mLeaf struct {
		Level      uint32
		Index      []byte
		Value      []byte
		IsEmpty    bool
		Commitment *struct{ Salt, Value []byte }
	}
	MSigned struct {
		TreeHash        []byte
		Epoch           uint64
		PreviousEpoch   uint64
		PreviousSTRHash []byte
		Signature       []byte
	}
	mSTR struct {
		*MSigned
		Policies *struct {
			Version       string
			HashID        string
			VrfPublicKey  []byte
			EpochDeadline uint64
		}
	}
	mTB struct{ Index, Value, Signature []byte }
)

// parsed is a received byte string, as Malformed describes it.
type parsed struct {
	decodes bool
	err     int
	lacks   []string
	parts   map[string]string
}

func parseAnswer(bs []byte, as string) (p parsed) {
	p.lacks, p.parts = []string{}, map[string]string{}
	var m mMsg
	if json.Unmarshal(bs, &m) != nil {
		return
	}
	lack := func(b bool, s string) bool {
		if b {
			p.lacks = append(p.lacks, s)
		}
		return b
	}
	p.err = m.Error
	if lack(len(m.DirectoryResponse) == 0 || string(m.DirectoryResponse) == "null", "DirectoryResponse") {
		p.decodes = true
		return
	}
	var d *mProof
	if as == "audit" {
		var r *mRange
		if json.Unmarshal(m.DirectoryResponse, &r) != nil {
			return
		}
		d = &mProof{STR: r.STR}
	} else if json.Unmarshal(m.DirectoryResponse, &d) != nil {
		return
	}
	p.decodes = true
	put := func(k string, v interface{}) { p.parts[k] = fmt.Sprintf("%v", v) }
	put("Error", m.Error)
	put("STR#", len(d.STR))
	if !lack(len(d.STR) == 0, "STR") {
		for i, s := range d.STR {
			if lack(s == nil, "STR.0") {
				continue
			}
			if !lack(s.MSigned == nil, "Signed") && i == 0 {
				put("TreeHash", s.TreeHash)
				put("Epoch", s.Epoch)
				put("PreviousEpoch", s.PreviousEpoch)
				put("PreviousSTRHash", s.PreviousSTRHash)
				put("Signature", s.Signature)
			}
			if !lack(s.Policies == nil, "Policies") && i == 0 {
				put("Version", s.Policies.Version)
				put("HashID", s.Policies.HashID)
				put("VrfPublicKey", s.Policies.VrfPublicKey)
				put("EpochDeadline", s.Policies.EpochDeadline)
			}
		}
	}
	put("AP#", len(d.AP))
	if !lack(len(d.AP) == 0, "AP") {
		for i, a := range d.AP {
			if lack(a == nil, "AP.0") {
				continue
			}
			if i == 0 {
				put("TreeNonce", a.TreeNonce)
				put("PrunedTree", a.PrunedTree)
				put("LookupIndex", a.LookupIndex)
				put("VrfProof", a.VrfProof)
			}
			if !lack(a.Leaf == nil, "Leaf") && i == 0 {
				put("Level", a.Leaf.Level)
				put("LeafIndex", a.Leaf.Index)
				put("LeafValue", a.Leaf.Value)
				put("IsEmpty", a.Leaf.IsEmpty)
				if a.Leaf.Commitment != nil {
					put("Salt", a.Leaf.Commitment.Salt)
					put("Commitment", a.Leaf.Commitment.Value)
				}
			}
		}
	}
	put("TB", d.TB != nil)
	if d.TB != nil {
		put("TBIndex", d.TB.Index)
		put("TBValue", d.TB.Value)
		put("TBSignature", d.TB.Signature)
	}
	return
}

func diffParts(a, b parsed) []string {
	out := []string{}
	for k, v := range a.parts {
		if w, ok := b.parts[k]; !ok || v != w {
			out = append(out, k)
		}
	}
	for k := range b.parts {
		if _, ok := a.parts[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// encode writes an edited JSON tree; keys may begin with "\x00" and a digit
// (so that an object can have a key twice).
func encode(w *bytes.Buffer, v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		w.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				w.WriteByte(',')
			}
			n := k
			if strings.HasPrefix(k, "\x00") {
				n = k[2:]
			}
			e, _ := json.Marshal(n)
			w.Write(e)
			w.WriteByte(':')
			encode(w, x[k])
		}
		w.WriteByte('}')
	case []interface{}:
		w.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				w.WriteByte(',')
			}
			encode(w, e)
		}
		w.WriteByte(']')
	case rawJSON:
		w.WriteString(string(x))
	default:
		e, err := json.Marshal(v)
		if err != nil {
			fatal(err)
		}
		w.Write(e)
	}
}

type rawJSON string

func deepCopyJSON(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = deepCopyJSON(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = deepCopyJSON(e)
		}
		return l
	}
	return v
}

func (u *universe) edit(root interface{}, path []interface{}, how string) interface{} {
	if len(path) == 0 {
		r, keep := u.editValue(root, how)
		if !keep {
			return nil
		}
		return r
	}
	k := path[0].(string)
	switch x := root.(type) {
	case map[string]interface{}:
		v, ok := x[k]
		if !ok {
			return root
		}
		if len(path) > 1 {
			x[k] = u.edit(v, path[1:], how)
			return root
		}
		switch how {
		case "rename":
			delete(x, k)
			x[[]string{strings.ToLower(k), k + "_", " " + k}[u.rnd.Intn(3)]] = v
			return root
		case "twice":
			nv, _ := u.editValue(deepCopyJSON(v), []string{"null", "other", "emptyobj", "number"}[u.rnd.Intn(4)])
			x["\x00"+strconv.Itoa(u.rnd.Intn(2))+k] = nv
			return root
		}
		r, keep := u.editValue(v, how)
		if keep {
			x[k] = r
		} else {
			delete(x, k)
		}
	case []interface{}:
		i, err := strconv.Atoi(k)
		if err != nil || i >= len(x) {
			return root
		}
		if len(path) > 1 {
			x[i] = u.edit(x[i], path[1:], how)
			return root
		}
		if how == "dup" || how == "twice" {
			return append(append(append([]interface{}{}, x[:i+1]...), deepCopyJSON(x[i])), x[i+1:]...)
		}
		r, keep := u.editValue(x[i], how)
		if !keep {
			return append(append([]interface{}{}, x[:i]...), x[i+1:]...)
		}
		x[i] = r
	}
	return root
}

func (u *universe) editValue(v interface{}, how string) (r interface{}, keep bool) {
	b64 := func(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
	bs := func() []byte {
		s, _ := v.(string)
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			return nil
		}
		return b
	}
	switch how {
	case "null":
		return nil, true
	case "missing":
		return nil, false
	case "number":
		return json.Number("7"), true
	case "string":
		return "not base64!", true
	case "base64":
		return b64(u.bytes([]int{0, 1, 31, 32, 33, 64, 5000}[u.rnd.Intn(7)])), true
	case "list":
		return []interface{}{json.Number("1"), json.Number("2")}, true
	case "listnull":
		return []interface{}{nil}, true
	case "object":
		return rec{"a": json.Number("1")}, true
	case "bool":
		return true, true
	case "emptystr":
		return "", true
	case "emptylist":
		return []interface{}{}, true
	case "emptyobj":
		return rec{}, true
	case "neg":
		return json.Number("-1"), true
	case "huge":
		return json.Number("18446744073709551615"), true
	case "frac":
		return json.Number("1.5"), true
	case "bignum":
		return rawJSON("1e400"), true
	case "deep":
		n := 3000 + u.rnd.Intn(9000)
		return rawJSON(strings.Repeat("[", n) + strings.Repeat("]", n)), true
	case "short", "drop":
		switch x := v.(type) {
		case string:
			if b := bs(); len(b) > 0 {
				return b64(b[:len(b)-1]), true
			}
			return "", true
		case []interface{}:
			if len(x) > 0 {
				if how == "drop" {
					return x[1:], true
				}
				return x[:len(x)-1], true
			}
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				delete(x, ks[u.rnd.Intn(len(ks))])
			}
			return x, true
		case json.Number:
			n, _ := x.Int64()
			return json.Number(strconv.FormatInt(n/2, 10)), true
		}
	case "long", "dup", "twice":
		switch x := v.(type) {
		case string:
			return b64(append(bs(), byte(u.rnd.Intn(256)))), true
		case []interface{}:
			if len(x) > 0 {
				return append(x, deepCopyJSON(x[u.rnd.Intn(len(x))])), true
			}
			return []interface{}{nil}, true
		case map[string]interface{}:
			return []interface{}{x, deepCopyJSON(x)}, true
		case json.Number:
			n, _ := x.Int64()
			return json.Number(strconv.FormatInt(n*2+1, 10)), true
		}
	case "other":
		switch x := v.(type) {
		case string:
			if b := bs(); len(b) > 0 {
				return b64(flip(b, u.rnd.Intn(8*len(b)))), true
			}
			return x + "x", true
		case json.Number:
			n, _ := x.Int64()
			return json.Number(strconv.FormatInt(n+[]int64{1, -1, 2, 1 << 32, 100}[u.rnd.Intn(5)], 10)), true
		case bool:
			return !x, true
		}
	case "extra":
		if m, ok := v.(map[string]interface{}); ok {
			m["Extra"] = rec{"x": []interface{}{json.Number("1")}}
			return m, true
		}
	case "rename":
	default:
		fatal("unknown edit " + how)
	}
	return v, true
}

func rawEdit(b []byte, how string, at, bit int) []byte {
	i := 0
	if len(b) > 0 {
		i = at * len(b) / 1000
		if how != "trunc" {
			i = (i + bit%7) % len(b)
		}
	}
	ins := func(s string) []byte { return append(append(cp(b[:i]), s...), b[i:]...) }
	switch how {
	case "trunc":
		return cp(b[:i])
	case "flip":
		c := cp(b)
		if len(c) > 0 {
			c[i] ^= 1 << uint(bit%8)
		}
		return c
	case "set":
		c := cp(b)
		if len(c) > 0 {
			c[i] = byte(bit)
		}
		return c
	case "insert":
		return ins(string([]byte{byte(bit)}))
	case "delete":
		if len(b) == 0 {
			return b
		}
		return append(cp(b[:i]), b[i+1:]...)
	case "junk":
		c := make([]byte, 1+bit*4)
		for j := range c {
			c[j] = byte(j*at + bit)
		}
		return c
	case "bom":
		return append([]byte("\xef\xbb\xbf"), b...)
	case "spaces":
		return append([]byte(strings.Repeat(" \n\t", 1+bit)), b...)
	case "trailing":
		return append(cp(b), []byte([]string{"x", "{}", "\x00", " ", "]"}[bit%5])...)
	case "empty":
		return []byte{}
	case "nul":
		return ins("\x00")
	case "repeat":
		return append(cp(b), b...)
	case "utf8":
		return ins("\xff\xfe")
	}
	fatal("unknown edit " + how)
	return nil
}

func bytesSuite(t *tracer) error {
	ops := readOps()
	var hs []rec
	chunk := (len(ops) - 1 + 31) / 32
	var univ []interface{}
	for i, op := range ops {
		if str(op, "op") == "New" {
			univ = op["u"].([]interface{})
			continue
		}
		if (i-1)%chunk == 0 {
			hs = append(hs, rec{"op": "New"})
		}
		hs = append(hs, op)
	}
	t.histories(hs, func(t *tracer, id int, ops []rec) {
		u := newUniverse(t.rnd, univ, *seed*29+int64(id))
		u.inMem = true // what it builds is encoded here
		for _, op := range ops {
			if str(op, "op") == "Bytes" {
				bytesCase(t, u, op)
			}
		}
	})
	return nil
}

func answer(u *universe, t, n, err string, s int, tb bool, tbk string) rec {
	return rec{"t": t, "n": n, "exp": "", "err": err, "shape": "whole", "s": float64(s), "m": "none", "pt": float64(s), "pn": n,
		"pm": "none", "vn": n, "vk": 1.0, "tb": tb, "tbs": float64(s), "tbn": n, "tbk": tbk, "tbm": "none"}
}

func (u *universe) message(r rec) *protocol.Response {
	s, _ := u.str(num(r, "s"), "none")
	ap, _ := u.apath(r)
	tb, _ := u.tb(r)
	return &protocol.Response{Error: codeByName[str(r, "err")],
		DirectoryResponse: &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: []*protocol.DirSTR{s}, TB: tb}}
}

func bytesCase(t *tracer, u *universe, op rec) {
	c := &clientRun{u: u, tbm: map[string]int{}}
	c.cc = client.New(u.pinned(1), true, u.spubs[1])
	prior := func(r rec) {
		typ := protocol.KeyLookupType
		if str(r, "t") == "reg" {
			typ = protocol.RegistrationType
		}
		if err := c.cc.HandleResponse(typ, u.message(r), u.w.names[str(r, "n")], nil); errName(err) != "ok" {
			fatal("honest answer refused: " + errName(err))
		}
	}
	switch str(op, "prior") {
	case "known":
		prior(answer(u, "look", "n2", "ok", 1, false, ""))
	case "promised":
		prior(answer(u, "look", "n2", "ok", 1, false, ""))
		prior(answer(u, "reg", "n1", "ok", 1, true, "k1"))
	}
	var r rec
	var res *protocol.Response
	switch a := str(op, "a"); a {
	case "regnew":
		r = answer(u, "reg", "n3", "ok", 2, true, "k3")
	case "regold":
		r = answer(u, "reg", "n2", "existed", 2, false, "")
	case "lookincl":
		r = answer(u, "look", "n1", "ok", 2, false, "")
	case "lookabs":
		r = answer(u, "look", "n3", "notfound", 2, false, "")
	case "looktb":
		r = answer(u, "look", "n3", "ok", 2, true, "k3")
	case "equiv":
		s, _ := u.str(2, "none")
		res = &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.STRHistoryRange{STR: []*protocol.DirSTR{s}}}
	default:
		fatal("unknown answer " + a)
	}
	if res == nil {
		res = u.message(r)
	}
	bs, err := application.MarshalResponse(res)
	if err != nil {
		fatal(err)
	}
	as := str(op, "as")
	orig := parseAnswer(bs, as)
	if !orig.decodes {
		fatal("the genuine answer isn't understood")
	}
	if es := op["edits"].([]interface{}); len(es) > 0 {
		d := json.NewDecoder(bytes.NewReader(bs))
		d.UseNumber()
		var tree interface{}
		if err := d.Decode(&tree); err != nil {
			fatal(err)
		}
		for _, x := range es {
			e := x.(map[string]interface{})
			tree = u.edit(tree, e["path"].([]interface{}), str(e, "how"))
		}
		var w bytes.Buffer
		encode(&w, tree)
		bs = w.Bytes()
	}
	for _, x := range op["raw"].([]interface{}) {
		e := x.(map[string]interface{})
		bs = rawEdit(bs, str(e, "how"), num(e, "at"), num(e, "bit"))
	}
	p := parseAnswer(bs, as)
	diff := []string{}
	if p.decodes {
		diff = diffParts(orig, p)
	}
	pre := c.obs("")
	var herr error
	pn := guard(func() {
		if as == "audit" {
			herr = c.cc.CheckEquivocation(application.UnmarshalResponse(protocol.STRType, bs))
			return
		}
		typ := protocol.KeyLookupType
		n := "n1"
		if r != nil {
			n = str(r, "n")
			if str(r, "t") == "reg" {
				typ = protocol.RegistrationType
			}
		}
		herr = c.cc.HandleResponse(typ, application.UnmarshalResponse(typ, bs), u.w.names[n], nil)
	})
	code := crashCode(pn)
	if pn == "" {
		code = errName(herr)
	}
	en := "other"
	if n, ok := codeNames[protocol.ErrorCode(p.err)]; ok {
		en = n
	}
	e := rec{"ev": "Bytes", "a": op["a"], "as": as, "prior": op["prior"], "decodes": p.decodes, "lacks": p.lacks, "diff": diff,
		"err": en, "same": p.decodes && len(p.lacks) == len(orig.lacks) && reflect.DeepEqual(orig.parts, p.parts),
		"pre": pre, "o": c.obs(code), "p": pn}
	if len(bs) < 4000 {
		e["bytes"] = string(bs)
	}
	e["edits"], e["raw"] = op["edits"], op["raw"]
	t.emit(e)
}
