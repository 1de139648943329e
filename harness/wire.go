package main

// Messages on the wire and pinned initial STRs (Wire specification).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func init() { suites["wire"] = wireSuite }

type wireRun struct {
	rnd    *rand.Rand
	names  map[string]string
	keys   map[string][]byte
	eps    map[string]uint64
	w      *world
	real   map[string][]*wireResp
	initS  *protocol.DirSTR
	nfiles int
}

// wireResp is an answer with what is needed to verify its parts.
type wireResp struct {
	res  *protocol.Response
	name string
	key  []byte
}

func randText(rnd *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch rnd.Intn(6) {
		case 0:
			b.WriteByte(byte(rnd.Intn(128)))
		case 1:
			b.WriteRune(rune(0x80 + rnd.Intn(0x700)))
		case 2:
			b.WriteRune(rune(0x800 + rnd.Intn(0xd000)))
		case 3:
			b.WriteRune(rune(0xe000 + rnd.Intn(0x2000)))
		case 4:
			b.WriteRune(rune(0x10000 + rnd.Intn(0x100000)))
		case 5:
			b.WriteString([]string{`\u0000`, `"`, `\`, "</script>", "&", "\u2028", "\x7f", "\ufeff", "\ufffd"}[rnd.Intn(9)])
		}
	}
	return b.String()
}

func newWireRun(rnd *rand.Rand) *wireRun {
	x := &wireRun{rnd: rnd}
	x.names = map[string]string{"n0": "", "n1": "alice", "n2": "Ünïcode-名前", "n3": `q"u\o/t<e>&'`,
		"n4": "line\nbreak\ttab\r\x00nul\x7f", "n5": "\u2028\u2029\ufeff\ufffd", "n6": "👩‍👩‍👧𝔘\U0010ffff",
		"n7": strings.Repeat("long name ", 2000), "n8": randText(rnd, 30), "n9": randText(rnd, 400),
		"n10": "null", "n11": `{"Type":1,"Request":{"Username":"x"}}`}
	big := make([]byte, 5000)
	rnd.Read(big)
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	x.keys = map[string][]byte{"k0": {}, "k1": {0}, "k2": []byte("key"), "k3": all, "k4": big, "k5": randBytes(rnd, 32)}
	x.eps = map[string]uint64{"e0": 0, "e1": 1, "e2": 1 << 31, "e3": 1<<32 + 7, "e4": 1<<53 + 1, "e5": 1 << 63,
		"e6": math.MaxInt64, "e7": math.MaxUint64 - 1, "e8": math.MaxUint64}
	return x
}

func (x *wireRun) nameTok(s string) string {
	for t, v := range x.names {
		if v == s {
			return t
		}
	}
	return "?" + fmt.Sprint(len(s))
}
func (x *wireRun) keyTok(b []byte) string {
	for t, v := range x.keys {
		if bytes.Equal(v, b) {
			return t
		}
	}
	return "?" + fmt.Sprint(len(b))
}
func (x *wireRun) epTok(e uint64) string {
	for t, v := range x.eps {
		if v == e {
			return t
		}
	}
	return fmt.Sprint("?", e)
}

func boolTok(b bool) string {
	if b {
		return "t"
	}
	return "f"
}

func zeroVals() rec {
	return rec{"name": "n0", "key": "k0", "ep": "e0", "s": "e0", "e": "e0", "f1": "f", "f2": "f"}
}

// decoded is what UnmarshalRequest makes of bytes.
func (x *wireRun) decoded(bs []byte) rec {
	o := rec{"kind": "error", "t": -1, "vals": zeroVals()}
	var req *protocol.Request
	var err error
	in := append([]byte{}, bs...)
	if p := guard(func() { req, err = application.UnmarshalRequest(in) }); p != "" {
		o["kind"] = "panic"
		return o
	}
	if !bytes.Equal(in, bs) {
		o["kind"] = "modified"
		return o
	}
	if err != nil {
		return o
	}
	if req == nil {
		o["kind"] = "nil"
		return o
	}
	o["t"] = req.Type
	v := o["vals"].(rec)
	switch r := req.Request.(type) {
	case *protocol.RegistrationRequest:
		if r == nil {
			o["kind"] = "nil"
			return o
		}
		o["kind"] = "reg"
		v["name"], v["key"], v["f1"], v["f2"] = x.nameTok(r.Username), x.keyTok(r.Key), boolTok(r.AllowUnsignedKeychange), boolTok(r.AllowPublicLookup)
	case *protocol.KeyLookupRequest:
		if r == nil {
			o["kind"] = "nil"
			return o
		}
		o["kind"] = "look"
		v["name"] = x.nameTok(r.Username)
	case *protocol.KeyLookupInEpochRequest:
		if r == nil {
			o["kind"] = "nil"
			return o
		}
		o["kind"] = "lookep"
		v["name"], v["ep"] = x.nameTok(r.Username), x.epTok(r.Epoch)
	case *protocol.MonitoringRequest:
		if r == nil {
			o["kind"] = "nil"
			return o
		}
		o["kind"] = "mon"
		v["name"], v["s"], v["e"] = x.nameTok(r.Username), x.epTok(r.StartEpoch), x.epTok(r.EndEpoch)
	case nil:
		o["kind"] = "nil"
	default:
		o["kind"] = "other"
	}
	return o
}

func (x *wireRun) req(t *tracer, op rec) {
	v := op["vals"].(rec)
	name, key := x.names[str(v, "name")], append([]byte{}, x.keys[str(v, "key")]...)
	if len(key) == 0 && x.rnd.Intn(2) == 0 {
		key = nil
	}
	var r interface{}
	switch str(op, "as") {
	case "reg":
		r = &protocol.RegistrationRequest{Username: name, Key: key, AllowUnsignedKeychange: str(v, "f1") == "t", AllowPublicLookup: str(v, "f2") == "t"}
	case "look":
		r = &protocol.KeyLookupRequest{Username: name}
	case "lookep":
		r = &protocol.KeyLookupInEpochRequest{Username: name, Epoch: x.eps[str(v, "ep")]}
	case "mon":
		r = &protocol.MonitoringRequest{Username: name, StartEpoch: x.eps[str(v, "s")], EndEpoch: x.eps[str(v, "e")]}
	}
	var bs []byte
	var err error
	p := guard(func() { bs, err = application.MarshalRequest(num(op, "t"), r) })
	op["ev"] = "Req"
	op["o"] = rec{"kind": "unencodable", "t": -1, "vals": zeroVals()}
	if p == "" && err == nil {
		op["o"] = x.decoded(bs)
	}
	t.emit(op)
}

func (x *wireRun) msg(t *tracer, op rec) {
	var bs []byte
	var err error
	p := guard(func() {
		if str(op, "what") == "reg" {
			bs, err = client.CreateRegistrationMsg(x.names[str(op, "name")], x.keys[str(op, "key")])
		} else {
			bs, err = client.CreateKeyLookupMsg(x.names[str(op, "name")])
		}
	})
	op["ev"] = "Msg"
	op["o"] = rec{"kind": "unencodable", "t": -1, "vals": zeroVals()}
	if p == "" && err == nil {
		op["o"] = x.decoded(bs)
	}
	t.emit(op)
}

// raw encodes a request by hand.
func (x *wireRun) raw(t *tracer, op rec) {
	v := op["vals"].(rec)
	js := func(y interface{}) string { b, _ := json.Marshal(y); return string(b) }
	fields := []string{}
	add := func(f, name string, good func(tok string) string, wrong ...string) {
		switch tok := str(v, f); tok {
		case "missing":
		case "null":
			fields = append(fields, fmt.Sprintf(`%q:null`, name))
		case "wrong":
			fields = append(fields, fmt.Sprintf(`%q:%s`, name, wrong[x.rnd.Intn(len(wrong))]))
		default:
			fields = append(fields, fmt.Sprintf(`%q:%s`, name, good(tok)))
		}
	}
	ep := func(tok string) string { return fmt.Sprint(x.eps[tok]) }
	badEp := []string{"-1", "1.5", "18446744073709551616", `"1"`, "{}", "[]", "true"}
	add("name", "Username", func(tok string) string { return js(x.names[tok]) }, "1", "{}", "[]", "true", `["a"]`)
	add("key", "Key", func(tok string) string { return js(x.keys[tok]) }, `"***"`, "1", "{}", `"a"`, "true")
	add("ep", "Epoch", ep, badEp...)
	add("s", "StartEpoch", ep, badEp...)
	add("e", "EndEpoch", ep, badEp...)
	flag := func(tok string) string { return fmt.Sprint(tok == "t") }
	add("f1", "AllowUnsignedKeychange", flag, `"true"`, "1", "{}")
	add("f2", "AllowPublicLookup", flag, `"true"`, "0", "[]")
	x.rnd.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	if str(op, "form") == "extra" {
		fields = append(fields, `"Unknown":{"a":[1,2]}`)
	}
	body := "{" + strings.Join(fields, ",") + "}"
	top := []string{}
	switch str(op, "tform") {
	case "int":
		top = append(top, fmt.Sprintf(`"Type":%d`, num(op, "t")))
	case "null":
		top = append(top, `"Type":null`)
	case "string":
		top = append(top, `"Type":"0"`)
	case "frac":
		top = append(top, `"Type":0.5`)
	case "obj":
		top = append(top, `"Type":{}`)
	case "huge":
		top = append(top, `"Type":99999999999999999999`)
	}
	switch str(op, "form") {
	case "null":
		body = "null"
	case "string":
		body = js(body)
	case "array":
		body = "[" + body + "]"
	case "num":
		body = "7"
	}
	if f := str(op, "form"); f != "absent" {
		top = append(top, `"Request":`+body)
	}
	if op["swap"].(bool) && len(top) == 2 {
		top[0], top[1] = top[1], top[0]
	}
	bs := "{" + strings.Join(top, ",") + "}"
	switch str(op, "form") {
	case "trunc":
		bs = bs[:x.rnd.Intn(len(bs))]
	case "trailing":
		bs += []string{"x", "{}", "]", `"a"`}[x.rnd.Intn(4)]
	case "empty":
		bs = []string{"", "{}", "null", "[]", "  ", "7", `"x"`}[x.rnd.Intn(7)]
	}
	op["ev"], op["o"] = "Raw", x.decoded([]byte(bs))
	t.emit(op)
}

// --- answers

// canon writes out everything a value consists of; empty and missing byte
// strings and lists are the same.
func canon(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		canon(b, v.Elem())
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous || f.Name == "Ad" {
				continue
			}
			b.WriteString(f.Name + ":")
			canon(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteByte('x')
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			canon(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprint(b, v.Interface())
	}
}

func canonID(x interface{}) string {
	v := reflect.ValueOf(x)
	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
		return "nil"
	}
	var b strings.Builder
	canon(&b, v)
	return fmt.Sprintf("%x", refDigest([]byte(b.String()))[:6])
}

// parts describes an answer.
func (x *wireRun) parts(r *wireResp) rec {
	o := rec{"code": "nil", "kind": "none", "ap": []string{}, "str": []string{}, "tb": "", "checks": []string{}}
	if r.res == nil {
		return o
	}
	if o["code"] = codeName(r.res.Error); codeNames[r.res.Error] == "" {
		o["code"] = fmt.Sprintf("code%d", int(r.res.Error))
	}
	var strs []*protocol.DirSTR
	var aps []*merkletree.AuthenticationPath
	var tb *protocol.TemporaryBinding
	switch d := r.res.DirectoryResponse.(type) {
	case nil:
		return o
	case *protocol.DirectoryProof:
		o["kind"] = "proof"
		if d != nil {
			strs, aps, tb = d.STR, d.AP, d.TB
		}
	case *protocol.STRHistoryRange:
		o["kind"] = "range"
		if d != nil {
			strs = d.STR
		}
	default:
		o["kind"] = fmt.Sprintf("%T", d)
		return o
	}
	a, s := []string{}, []string{}
	for _, p := range aps {
		a = append(a, canonID(p))
	}
	for _, p := range strs {
		s = append(s, canonID(p))
	}
	o["ap"], o["str"] = a, s
	if tb != nil {
		o["tb"] = canonID(tb)
	}
	o["checks"] = x.checks(strs, aps, tb, r.name, r.key)
	return o
}

// checks lists what verifies and what does not.
func (x *wireRun) checks(strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath, tb *protocol.TemporaryBinding, name string, key []byte) []string {
	cs := []string{}
	ask := func(what string, f func() interface{}) {
		var v interface{}
		if p := guard(func() { v = f() }); p != "" {
			v = "panic"
		}
		cs = append(cs, fmt.Sprint(what, ":", v))
	}
	for i, s := range strs {
		if s == nil || s.SignedTreeRoot == nil || s.Policies == nil {
			cs = append(cs, "nil")
			continue
		}
		ask("sig", func() interface{} { return x.w.signPub.Verify(s.Serialize(), s.Signature) })
		if i > 0 && strs[i-1] != nil && strs[i-1].SignedTreeRoot != nil {
			ask("chain", func() interface{} { return s.VerifyHashChain(strs[i-1]) })
		}
	}
	for i, a := range aps {
		if a == nil || len(strs) <= i || strs[i] == nil || strs[i].SignedTreeRoot == nil {
			cs = append(cs, "nil")
			continue
		}
		ask("path", func() interface{} { return a.Verify([]byte(name), key, strs[i].TreeHash) })
		ask("type", func() interface{} { return a.ProofType() })
		ask("vrf", func() interface{} { return x.w.vrfPub.Verify([]byte(name), a.LookupIndex, a.VrfProof) })
	}
	if tb != nil && len(strs) > 0 && strs[0] != nil && strs[0].SignedTreeRoot != nil {
		ask("tb", func() interface{} { return x.w.signPub.Verify(tb.Serialize(strs[0].Signature), tb.Signature) })
	}
	return cs
}

// makeReal runs a directory and keeps its answers.
func (x *wireRun) makeReal() {
	names := []string{"n1", "n2", "n3", "n4", "n5"}
	x.w = newWorld(*seed*77+5, names, []string{"k1", "k2", "k3"})
	x.real = map[string][]*wireResp{}
	d := directory.New(3600, x.w.vrfKey, x.w.signKey, 10, true)
	x.initS = d.LatestSTR()
	keep := func(what, n, k string, res *protocol.Response) {
		x.real[what] = append(x.real[what], &wireResp{res, x.w.names[n], x.w.keys[k]})
	}
	for i, n := range []string{"n1", "n2", "n3"} {
		k := []string{"k1", "k2", "k3"}[i]
		keep("reg", n, k, d.Register(&protocol.RegistrationRequest{Username: x.w.names[n], Key: x.w.keys[k]}))
		keep("look", n, k, d.KeyLookup(&protocol.KeyLookupRequest{Username: x.w.names[n]}))
		keep("existed", n, k, d.Register(&protocol.RegistrationRequest{Username: x.w.names[n], Key: x.w.keys[k]}))
		d.Update()
		keep("existed", n, k, d.Register(&protocol.RegistrationRequest{Username: x.w.names[n], Key: x.w.keys[k]}))
		keep("look", n, k, d.KeyLookup(&protocol.KeyLookupRequest{Username: x.w.names[n]}))
		keep("absent", "n5", "", d.KeyLookup(&protocol.KeyLookupRequest{Username: x.w.names["n5"]}))
		keep("past", n, k, d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: x.w.names[n], Epoch: uint64(i)}))
		keep("past", n, k, d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: x.w.names[n], Epoch: uint64(i + 1)}))
		keep("mon", n, k, d.Monitor(&protocol.MonitoringRequest{Username: x.w.names[n], StartEpoch: 0, EndEpoch: 9}))
		keep("mon", "n4", "", d.Monitor(&protocol.MonitoringRequest{Username: x.w.names["n4"], StartEpoch: uint64(i), EndEpoch: 9}))
		keep("hist", "n1", "", d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: 0, EndEpoch: 9}))
	}
}

// altered is a copy of an answer with something changed.
func (x *wireRun) altered(r *wireResp, n int, rnd *rand.Rand) *wireResp {
	out := &wireResp{copyResp(r.res), r.name, r.key}
	for ; n > 0; n-- {
		var leaves []reflect.Value
		collectLeaves(reflect.ValueOf(out.res.DirectoryResponse), &leaves)
		if len(leaves) == 0 {
			return out
		}
		alterLeaf(leaves[rnd.Intn(len(leaves))], rnd)
	}
	return out
}

// copyResp copies an answer without going through the code under test.
func copyResp(r *protocol.Response) *protocol.Response {
	out := &protocol.Response{Error: r.Error}
	if r.DirectoryResponse != nil {
		out.DirectoryResponse = deepCopy(reflect.ValueOf(r.DirectoryResponse)).Interface()
	}
	return out
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type().Elem())
		c.Elem().Set(deepCopy(v.Elem()))
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Name != "Ad" {
				c.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i)))
		}
		return c
	}
	return v
}

func collectLeaves(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			collectLeaves(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Name != "Ad" {
				collectLeaves(v.Field(i), out)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			collectLeaves(v.Index(i), out)
		}
	case reflect.Array, reflect.String, reflect.Uint64, reflect.Uint32, reflect.Bool:
		*out = append(*out, v)
	}
}

func alterLeaf(v reflect.Value, rnd *rand.Rand) {
	switch v.Kind() {
	case reflect.Slice:
		b := append([]byte{}, v.Bytes()...)
		switch {
		case len(b) == 0 || rnd.Intn(4) == 0:
			b = append(b, byte(rnd.Intn(256)))
		case rnd.Intn(3) == 0:
			b = b[:len(b)-1]
		default:
			b[rnd.Intn(len(b))] ^= 1 << uint(rnd.Intn(8))
		}
		v.SetBytes(b)
	case reflect.Array:
		e := v.Index(rnd.Intn(v.Len()))
		e.SetUint(e.Uint() ^ 1)
	case reflect.String:
		v.SetString(v.String() + randText(rnd, 3))
	case reflect.Uint64:
		v.SetUint([]uint64{0, v.Uint() + 1, math.MaxUint64, 1<<53 + 1}[rnd.Intn(4)])
	case reflect.Uint32:
		v.SetUint(uint64([]uint32{uint32(v.Uint()) + 1, 0, math.MaxUint32}[rnd.Intn(3)]))
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

func maybe(rnd *rand.Rand, n int) []byte {
	switch rnd.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return randBytes(rnd, rnd.Intn(100))
	}
	return randBytes(rnd, n)
}

func randEpoch(rnd *rand.Rand) uint64 {
	return []uint64{0, 1, uint64(rnd.Intn(1000)), rnd.Uint64(), math.MaxUint64, 1<<53 + 1, 1 << 63}[rnd.Intn(7)]
}

func randSTR(rnd *rand.Rand) *protocol.DirSTR {
	return &protocol.DirSTR{
		SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: maybe(rnd, 32), Epoch: randEpoch(rnd), PreviousEpoch: randEpoch(rnd),
			PreviousSTRHash: maybe(rnd, 32), Signature: maybe(rnd, 64)},
		Policies: &protocol.Policies{Version: randText(rnd, rnd.Intn(8)), HashID: randText(rnd, rnd.Intn(8)),
			VrfPublicKey: maybe(rnd, 32), EpochDeadline: protocol.Timestamp(randEpoch(rnd))},
	}
}

func randResp(rnd *rand.Rand) *wireResp {
	var strs []*protocol.DirSTR
	for i := rnd.Intn(4); i > 0; i-- {
		strs = append(strs, randSTR(rnd))
	}
	r := &wireResp{&protocol.Response{}, randText(rnd, 5), randBytes(rnd, 7)}
	if rnd.Intn(4) == 0 {
		r.res.DirectoryResponse = &protocol.STRHistoryRange{STR: strs}
		return r
	}
	d := &protocol.DirectoryProof{STR: strs}
	for i := rnd.Intn(4); i > 0; i-- {
		a := &merkletree.AuthenticationPath{TreeNonce: maybe(rnd, 32), LookupIndex: maybe(rnd, 32), VrfProof: maybe(rnd, 96)}
		for j := rnd.Intn(5); j > 0; j-- {
			var h [crypto.HashSizeByte]byte
			rnd.Read(h[:])
			a.PrunedTree = append(a.PrunedTree, h)
		}
		a.Leaf = &merkletree.ProofNode{Level: uint32(len(a.PrunedTree)), Index: maybe(rnd, 32), Value: maybe(rnd, 20), IsEmpty: rnd.Intn(2) == 0}
		if rnd.Intn(3) == 0 {
			a.Leaf.Level = rnd.Uint32()
		}
		if rnd.Intn(2) == 0 {
			a.Leaf.Commitment = &crypto.Commit{Salt: maybe(rnd, 32), Value: maybe(rnd, 32)}
		}
		d.AP = append(d.AP, a)
	}
	if rnd.Intn(2) == 0 {
		d.TB = &protocol.TemporaryBinding{Index: maybe(rnd, 32), Value: maybe(rnd, 30), Signature: maybe(rnd, 64)}
	}
	r.res.DirectoryResponse = d
	return r
}

func codeOf(name string) protocol.ErrorCode {
	for c, n := range codeNames {
		if n == name {
			return c
		}
	}
	var n int
	fmt.Sscanf(name, "code%d", &n)
	return protocol.ErrorCode(n)
}

func (x *wireRun) resp(t *tracer, op rec) {
	rnd := rand.New(rand.NewSource(int64(num(op, "v")) + *seed*100003))
	var r *wireResp
	switch src := str(op, "src"); src {
	case "none":
		r = &wireResp{&protocol.Response{}, "", nil}
	case "random":
		r = randResp(rnd)
	default:
		rs := x.real[src]
		r = rs[num(op, "v")%len(rs)]
	}
	r = x.altered(r, num(op, "alt"), rnd)
	r.res.Error = codeOf(str(op, "code"))
	op["ev"] = "Resp"
	op["r"] = x.parts(r)
	o := &wireResp{nil, r.name, r.key}
	var err error
	p := guard(func() {
		var bs []byte
		if bs, err = application.MarshalResponse(r.res); err == nil {
			o.res = application.UnmarshalResponse(num(op, "t"), bs)
		}
	})
	oo := x.parts(o)
	if p != "" || err != nil {
		oo["code"] = "failed " + p
	}
	op["o"] = oo
	t.emit(op)
}

func (x *wireRun) badResp(t *tracer, op rec) {
	rnd := rand.New(rand.NewSource(int64(num(op, "v")) + *seed*100003))
	rs := x.real[[]string{"reg", "look", "mon", "hist"}[rnd.Intn(4)]]
	bs, err := json.Marshal(rs[rnd.Intn(len(rs))].res)
	if err != nil {
		fatal(err)
	}
	good := string(bs)
	switch str(op, "how") {
	case "trunc":
		good = good[:rnd.Intn(len(good))]
	case "null":
		good = `{"Error":100,"DirectoryResponse":null}`
	case "string":
		good = `{"Error":100,"DirectoryResponse":"x"}`
	case "badap":
		good = `{"Error":100,"DirectoryResponse":{"AP":[{"Leaf":7}],"STR":[]}}`
	case "badstr":
		good = `{"Error":100,"DirectoryResponse":{"AP":[],"STR":[{"Epoch":"zero"}]}}`
	case "badtb":
		good = `{"Error":100,"DirectoryResponse":{"AP":[],"STR":[],"TB":[1]}}`
	case "noterror":
		good = `{"Error":"success","DirectoryResponse":{"AP":[],"STR":[]}}`
	case "array":
		good = "[" + good + "]"
	case "empty":
		good = []string{"", "{}", "null", " ", "[]", "{", `{"Error":100}`}[rnd.Intn(7)]
	}
	o := &wireResp{}
	p := guard(func() { o.res = application.UnmarshalResponse(num(op, "t"), []byte(good)) })
	oo := x.parts(o)
	if p != "" {
		oo["code"] = "panic"
	}
	op["ev"], op["o"] = "BadResp", oo
	t.emit(op)
}

// --- pinned STRs

// pinPath makes a fresh place for a pinned STR: the path of the file and how
// the configuration file names it.
func (x *wireRun) pinPath(rel bool) (path, inConf, conf string) {
	x.nfiles++
	dir := filepath.Join(*scratch, fmt.Sprintf("pin%d", x.nfiles))
	if err := os.MkdirAll(filepath.Join(dir, "sub"), 0700); err != nil {
		fatal(err)
	}
	conf = filepath.Join(dir, "config.toml")
	if rel {
		return filepath.Join(dir, "sub", "init.str"), "sub/init.str", conf
	}
	return filepath.Join(dir, "init.str"), filepath.Join(dir, "init.str"), conf
}

func (x *wireRun) load(inConf, conf string) (*protocol.DirSTR, string) {
	var s *protocol.DirSTR
	var err error
	if p := guard(func() { s, err = application.LoadInitSTR(inConf, conf) }); p != "" {
		return nil, "panic"
	}
	if err != nil {
		if s != nil {
			return nil, "error with an STR"
		}
		return nil, "error"
	}
	return s, canonID(s)
}

func (x *wireRun) pin(t *tracer, op rec) {
	path, inConf, conf := x.pinPath(op["rel"].(bool))
	defer os.RemoveAll(filepath.Dir(conf))
	s := randSTR(x.rnd)
	if str(op, "src") == "real" {
		s = deepCopy(reflect.ValueOf(x.initS)).Interface().(*protocol.DirSTR)
	}
	s.Epoch = x.eps[str(op, "e")]
	o := rec{"kept": true, "mode": "", "got": ""}
	old := []byte("something else")
	if op["there"].(bool) {
		if err := os.WriteFile(path, old, 0644); err != nil {
			fatal(err)
		}
	}
	var err error
	before := canonID(s)
	p := guard(func() { err = application.SaveSTR(path, s) })
	switch {
	case p != "":
		o["saved"] = "panic"
	case err != nil:
		o["saved"] = "refused"
	default:
		o["saved"] = "ok"
	}
	if canonID(s) != before {
		o["saved"] = "modified"
	}
	if op["there"].(bool) {
		now, _ := os.ReadFile(path)
		o["kept"] = bytes.Equal(now, old)
	} else if fi, err := os.Stat(path); err == nil {
		o["mode"] = fi.Mode().String()
	}
	var back *protocol.DirSTR
	back, got := x.load(inConf, conf)
	o["got"] = got
	o["checks"] = x.checks([]*protocol.DirSTR{back}, nil, nil, "", nil)
	op["ev"], op["o"], op["str"] = "Pin", o, before
	op["checks"] = x.checks([]*protocol.DirSTR{s}, nil, nil, "", nil)
	t.emit(op)
}

func (x *wireRun) badPin(t *tracer, op rec) {
	path, inConf, conf := x.pinPath(op["rel"].(bool))
	defer os.RemoveAll(filepath.Dir(conf))
	bs, _ := json.Marshal(x.initS)
	good := string(bs)
	switch str(op, "how") {
	case "trunc":
		good = good[:x.rnd.Intn(len(good))]
	case "null":
		good = "null"
	case "object":
		good = "{}"
	case "nopolicies":
		good = good[:strings.Index(good, `,"Policies"`)] + "}"
	case "noroot":
		good = "{" + good[strings.Index(good, `"Policies"`):]
	case "string":
		good = `"x"`
	case "array":
		good = "[" + good + "]"
	case "epochstring":
		good = strings.Replace(good, `"Epoch":0`, `"Epoch":"0"`, 1)
	case "negative":
		good = strings.Replace(good, `"Epoch":0`, `"Epoch":-1`, 1)
	case "garbage":
		good = string(randBytes(x.rnd, 100))
	case "empty":
		good = ""
	}
	switch str(op, "how") {
	case "missing":
	case "dir":
		os.MkdirAll(path, 0700)
	default:
		if err := os.WriteFile(path, []byte(good), 0600); err != nil {
			fatal(err)
		}
	}
	_, got := x.load(inConf, conf)
	op["ev"], op["o"] = "BadPin", rec{"got": got}
	t.emit(op)
}

func wireSuite(t *tracer) error {
	x := newWireRun(t.rnd)
	x.makeReal()
	for _, op := range readOps() {
		switch str(op, "op") {
		case "Req":
			x.req(t, op)
		case "Msg":
			x.msg(t, op)
		case "Raw":
			x.raw(t, op)
		case "Resp":
			x.resp(t, op)
		case "BadResp":
			x.badResp(t, op)
		case "Pin":
			x.pin(t, op)
		case "BadPin":
			x.badPin(t, op)
		default:
			fatal("wire: unknown operation " + str(op, "op"))
		}
	}
	return nil
}
