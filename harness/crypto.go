package main

// VRF, signatures, commitments and digests (Crypto specification).

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"runtime"
	"strings"
	"sync"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
)

func init() { suites["crypto"] = cryptoSuite }

type cryptoRun struct {
	vsk  []vrf.PrivateKey
	vpk  []vrf.PublicKey
	ssk  []sign.PrivateKey
	spk  []sign.PublicKey
	msgs [][]byte
	mu   sync.Mutex
	memo map[[2]int][2][]byte
	smem map[[2]int][]byte
	hmem map[int]edPoint
	long map[string][]byte
}

const nKeys, nMsgs = 8, 34

func newCryptoRun(rnd *mrand.Rand) *cryptoRun {
	x := &cryptoRun{memo: map[[2]int][2][]byte{}, smem: map[[2]int][]byte{}, hmem: map[int]edPoint{}}
	a, b := randBytes(rnd, 32), []byte(nil)
	b = append(b, a...)
	b[31] ^= 1
	seeds := [][]byte{nil, make([]byte, 32), bytes.Repeat([]byte{255}, 32), a, b}
	for len(seeds) <= nKeys {
		seeds = append(seeds, randBytes(rnd, 32))
	}
	x.vsk, x.vpk, x.ssk, x.spk = make([]vrf.PrivateKey, nKeys+1), make([]vrf.PublicKey, nKeys+1), make([]sign.PrivateKey, nKeys+1), make([]sign.PublicKey, nKeys+1)
	for k := 1; k <= nKeys; k++ {
		v, err := vrf.GenerateKey(bytes.NewReader(seeds[k]))
		s, err2 := sign.GenerateKey(bytes.NewReader(seeds[k]))
		if err != nil || err2 != nil {
			fatal("no key")
		}
		x.vsk[k], x.ssk[k] = v, s
		x.vpk[k], _ = v.Public()
		x.spk[k], _ = s.Public()
	}
	long := randBytes(rnd, 5000)
	with := func(n int, last byte) []byte { return append(append([]byte{}, long[:n]...), last) }
	x.msgs = [][]byte{nil, {}, {0}, {0, 0}, []byte("alice"), []byte("Alice"), []byte("alicf"), []byte("alice\x00"), []byte("\x00alice"),
		with(15, 0), with(15, 1), long[:31], with(31, 0), with(31, 1), long[:33], with(63, 0), with(63, 1), with(64, 0), with(64, 1),
		long[:135], long[:136], long[:137], with(136, 0), with(136, 1), long[:168], with(168, 5), with(255, 0), with(255, 1), with(1023, 0), with(1023, 1),
		long, append([]byte{1}, long...), with(4096, 7), bytes.Repeat(long, 20), bytes.Repeat([]byte{0}, 1000)}
	if len(x.msgs) != nMsgs+1 {
		fatal(len(x.msgs))
	}
	x.long = map[string][]byte{"a": {'a'}, "b": {'b'}, "nul": {0}, "L1": long[:200], "L2": long[1000:1168]}
	return x
}

// made is the output and proof of key k for message m.
func (x *cryptoRun) made(k, m int) (out, proof []byte) {
	x.mu.Lock()
	p, ok := x.memo[[2]int{k, m}]
	x.mu.Unlock()
	if !ok {
		o, pr := x.vsk[k].Prove(x.msgs[m])
		p = [2][]byte{o, pr}
		x.mu.Lock()
		x.memo[[2]int{k, m}] = p
		x.mu.Unlock()
	}
	return append([]byte{}, p[0]...), append([]byte{}, p[1]...)
}

func (x *cryptoRun) signed(k, m int) []byte {
	x.mu.Lock()
	defer x.mu.Unlock()
	s, ok := x.smem[[2]int{k, m}]
	if !ok {
		s = x.ssk[k].Sign(x.msgs[m])
		x.smem[[2]int{k, m}] = s
	}
	return append([]byte{}, s...)
}

func (x *cryptoRun) point(m int) edPoint {
	x.mu.Lock()
	h, ok := x.hmem[m]
	x.mu.Unlock()
	if !ok {
		h = refHashToCurve(x.msgs[m])
		x.mu.Lock()
		x.hmem[m] = h
		x.mu.Unlock()
	}
	return h
}

// frozen calls f and tells whether it left the given byte strings alone, also
// beyond their ends.
func frozen(f func(), bs ...[]byte) (intact bool, p string) {
	var before [][]byte
	for _, b := range bs {
		before = append(before, append([]byte{}, b[:cap(b)]...))
	}
	p = guard(f)
	intact = true
	for i, b := range bs {
		intact = intact && bytes.Equal(before[i], b[:cap(b)])
	}
	return
}

// roomy is a copy with some spare capacity, for operations that append.
func roomy(b []byte) []byte {
	c := make([]byte, len(b), len(b)+40)
	copy(c, b)
	for i := range c[len(c):cap(c)] {
		c[:cap(c)][len(c)+i] = 0xaa
	}
	return c
}

func accepts(ok bool, p string) string {
	if p != "" {
		return p
	}
	if ok {
		return "accept"
	}
	return "refuse"
}

func (x *cryptoRun) vrfVerify(pk, m, out, proof []byte) rec {
	pk, m, out, proof = roomy(pk), roomy(m), roomy(out), roomy(proof)
	var ok bool
	intact, p := frozen(func() { ok = vrf.PublicKey(pk).Verify(m, out, proof) }, pk, m, out, proof)
	return rec{"res": accepts(ok, p), "intact": intact}
}

func src(v interface{}) (int, int) { r := v.(rec); return num(r, "k"), num(r, "m") }

func mangle(b []byte, how string, pos, bit int, rnd *mrand.Rand) {
	switch how {
	case "flip":
		b[pos] ^= 1 << uint(bit)
	case "zero":
		for i := range b {
			b[i] = 0
		}
	case "ones":
		for i := range b {
			b[i] = 255
		}
	case "swap":
		n := len(b) / 2
		t := append([]byte{}, b[:n]...)
		copy(b, b[n:])
		copy(b[len(b)-n:], t)
	case "reverse":
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	case "random":
		rnd.Read(b)
	}
}

func resize(b []byte, n int) []byte {
	c := make([]byte, n)
	copy(c, b)
	return c
}

func (x *cryptoRun) vrfVer(t *tracer, op rec) {
	part := func(n string) []byte {
		o, p := x.made(src(op[n]))
		switch n {
		case "out":
			return o
		case "s":
			return p[:32]
		case "t":
			return p[32:64]
		}
		return p[64:]
	}
	out := part("out")
	proof := append(append(append([]byte{}, part("s")...), part("t")...), part("ii")...)
	pk := append([]byte{}, x.vpk[num(op, "k")]...)
	alt, pos := str(op, "alt"), num(op, "pos")
	reg := map[string][]byte{"out": out, "s": proof[:32], "t": proof[32:64], "ii": proof[64:]}[str(op, "region")]
	switch alt {
	case "none":
	case "length", "nil":
		n := pos
		switch str(op, "region") {
		case "out":
			out = resize(out, n)
		case "proof":
			proof = resize(proof, n)
		case "key":
			pk = resize(pk, n)
		}
		if alt == "nil" {
			switch str(op, "region") {
			case "out":
				out = nil
			case "proof":
				proof = nil
			case "key":
				pk = nil
			}
		}
	default:
		was := append([]byte{}, reg...)
		mangle(reg, alt, pos, num(op, "bit"), t.rnd)
		if bytes.Equal(was, reg) {
			reg[0] ^= 1
		}
	}
	t.emit(rec{"ev": "VrfVer", "op": op, "o": x.vrfVerify(pk, x.msgs[num(op, "m")], out, proof)})
}

func (x *cryptoRun) vrfMake(t *tracer, op rec, table func(rec)) {
	k, m := num(op, "k"), num(op, "m")
	sk, msg := roomy(x.vsk[k]), roomy(x.msgs[m])
	var c1, c2, o1, o2, p1, p2 []byte
	intact, p := frozen(func() {
		c1 = vrf.PrivateKey(sk).Compute(msg)
		o1, p1 = vrf.PrivateKey(sk).Prove(msg)
		c2 = vrf.PrivateKey(sk).Compute(msg)
		o2, p2 = vrf.PrivateKey(sk).Prove(msg)
	}, sk, msg)
	if p != "" {
		t.emit(rec{"ev": "VrfMake", "k": k, "m": m, "o": rec{"res": p, "outs": []string{}, "intact": intact, "proofs": []string{}}})
		return
	}
	pk, ok := vrf.PrivateKey(sk).Public()
	res := "ok"
	if !ok || len(pk) != vrf.PublicKeySize || !pk.Verify(msg, o1, p1) || !pk.Verify(msg, o2, p2) || len(o1) != vrf.Size || len(p1) != vrf.ProofSize {
		res = "refused"
	}
	outs := []string{hex.EncodeToString(c1), hex.EncodeToString(c2), hex.EncodeToString(o1), hex.EncodeToString(o2)}
	t.emit(rec{"ev": "VrfMake", "k": k, "m": m, "o": rec{"res": res, "outs": outs, "intact": intact}})
	ii := "short"
	if len(p1) == vrf.ProofSize {
		ii = hex.EncodeToString(p1[64:])
	}
	table(rec{"k": k, "m": m, "out": outs[0], "ii": ii, "pk": hex.EncodeToString(pk)})
}

// vrfMany makes and verifies proofs for many fresh keys and inputs.
func (x *cryptoRun) vrfMany(t *tracer, op rec) {
	bad, outs, n := "none", map[string]bool{}, num(op, "n")
	p := guard(func() {
		for i := 0; i < n; i++ {
			sk, err := vrf.GenerateKey(detRand{t.rnd})
			if err != nil {
				panic(err)
			}
			pk, _ := sk.Public()
			m := randBytes(t.rnd, t.rnd.Intn(300))
			c := sk.Compute(m)
			o, pr := sk.Prove(m)
			if !bytes.Equal(c, o) || !pk.Verify(m, o, pr) || pk.Verify(append(m, 0), o, pr) {
				bad = hex.EncodeToString(sk) + "," + hex.EncodeToString(m)
			}
			outs[string(o)] = true
		}
	})
	if p != "" {
		bad = p
	}
	t.emit(rec{"ev": "VrfMany", "n": n, "o": rec{"bad": bad, "distinct": len(outs)}})
}

func (x *cryptoRun) forge(t *tracer, op rec) {
	how, k, m, k2, m2 := str(op, "how"), num(op, "k"), num(op, "m"), num(op, "k2"), num(op, "m2")
	if k2 == k {
		k2 = 1 + k%nKeys
	}
	if m2 == m {
		m2 = 1 + m%nMsgs
	}
	rscalar := func() *big.Int { return new(big.Int).Rand(t.rnd, edL) }
	H, msg := x.point(m), x.msgs[m]
	pk, sec := []byte(x.vpk[k]), refVrfSecret(x.vsk[k])
	honestOut, honest := x.made(k, m)
	omit := map[string]bool{}
	for _, o := range strings.Split(strings.TrimPrefix(how, "omit"), "+") {
		omit[o] = true
	}
	hB := H.bytes()
	proofOf := func(c, tt *big.Int, ii []byte) []byte {
		return append(append(le(lmod(c)), le(lmod(tt))...), ii...)
	}
	sub := func(a, b, c *big.Int) *big.Int { return lmod(new(big.Int).Sub(a, new(big.Int).Mul(b, c))) } // a - b*c
	quo := func(a, b *big.Int) *big.Int { return lmod(new(big.Int).Mul(a, new(big.Int).ModInverse(b, edL))) }
	var out, proof []byte
	extra := rec{}
	switch how {
	case "omitHR":
		r, y := rscalar(), rscalar()
		ii := edMul(y, H).bytes()
		c := refChallenge(omit, hB, pk, ii, edMul(r, edG).bytes(), nil, msg)
		proof = proofOf(c, sub(r, c, sec), ii)
	case "omitGR":
		r, y := rscalar(), rscalar()
		ii := edMul(y, H).bytes()
		c := refChallenge(omit, hB, pk, ii, nil, edMul(r, H).bytes(), msg)
		proof = proofOf(c, sub(r, c, y), ii)
	case "omitII":
		r1, r2 := rscalar(), rscalar()
		c := refChallenge(omit, hB, pk, nil, edMul(r1, edG).bytes(), edMul(r2, H).bytes(), msg)
		tt := sub(r1, c, sec)
		proof = proofOf(c, tt, edMul(quo(new(big.Int).Sub(r2, tt), c), H).bytes())
	case "omitII+GR":
		r1, r2 := rscalar(), rscalar()
		c := refChallenge(omit, hB, pk, nil, nil, edMul(r2, H).bytes(), msg)
		proof = proofOf(c, r1, edMul(quo(new(big.Int).Sub(r2, r1), c), H).bytes())
	case "omitP", "omitP+HR":
		r1, r2, y := rscalar(), rscalar(), rscalar()
		ii := edMul(y, H).bytes()
		c := refChallenge(omit, hB, nil, ii, edMul(r1, edG).bytes(), edMul(r2, H).bytes(), msg)
		tt := sub(r2, c, y)
		pk = edMul(quo(new(big.Int).Sub(r1, tt), c), edG).bytes()
		proof = proofOf(c, tt, ii)
	case "torsion2", "torsion4", "torsion8", "keytorsion":
		n := map[string]int64{"torsion2": 2, "torsion4": 4, "torsion8": 8, "keytorsion": 8}[how]
		T := edMul(big.NewInt(8/n), edT8)
		ii := edMul(sec, H)
		if how == "keytorsion" {
			pk = edAdd(edMul(sec, edG), T).bytes()
		} else {
			ii = edAdd(ii, T)
		}
		for {
			r := rscalar()
			c := refChallenge(nil, hB, pk, ii.bytes(), edMul(r, edG).bytes(), edMul(r, H).bytes(), msg)
			if new(big.Int).Mod(c, big.NewInt(n)).Sign() == 0 {
				proof = proofOf(c, sub(r, c, sec), ii.bytes())
				break
			}
		}
	case "identitykey", "identityII", "noncanonicalII":
		one := le(big.NewInt(1))
		pk = append([]byte{}, one...)
		ii := append([]byte{}, one...)
		if how == "identityII" {
			ii[31] |= 0x80
			pk[31] |= 0x80
		} else if how == "noncanonicalII" {
			ii = le(new(big.Int).Add(edP, big.NewInt(1)))
			pk = append([]byte{}, ii...)
		}
		r := rscalar()
		c := refChallenge(nil, hB, pk, ii, edMul(r, edG).bytes(), edMul(r, H).bytes(), msg)
		proof = proofOf(c, r, ii)
	case "scalar+l":
		proof = honest
		n := new(big.Int).Mul(edL, big.NewInt(1+int64(t.rnd.Intn(14))))
		copy(proof[32:64], le(n.Add(n, unle(proof[32:64]))))
		out = honestOut
	case "challenge+l":
		proof = honest
		copy(proof[:32], le(new(big.Int).Add(unle(proof[:32]), edL)))
		out = honestOut
	case "predict":
		proof = honest
		msg = x.msgs[m2]
		out = shake256(32, proof[64:], msg)
		extra["predicted"] = bytes.Equal(out, x.vsk[k].Compute(msg))
	case "zeros":
		proof = make([]byte, 96)
	case "otherkey":
		sec = refVrfSecret(x.vsk[k2])
		r := rscalar()
		ii := edMul(sec, H).bytes()
		c := refChallenge(nil, hB, pk, ii, edMul(r, edG).bytes(), edMul(r, H).bytes(), msg)
		proof = proofOf(c, sub(r, c, sec), ii)
	case "noproof":
		proof = proofOf(rscalar(), rscalar(), honest[64:])
	case "sumproof":
		_, p2 := x.made(k, m2)
		proof = proofOf(new(big.Int).Add(unle(honest[:32]), unle(p2[:32])), new(big.Int).Add(unle(honest[32:64]), unle(p2[32:64])), honest[64:])
	case "longkey":
		pk = append(append([]byte{}, pk...), le(big.NewInt(int64(t.rnd.Intn(1000))))[:1+t.rnd.Intn(32)]...)
		r := rscalar()
		ii := edMul(sec, H).bytes()
		c := refChallenge(nil, hB, pk, ii, edMul(r, edG).bytes(), edMul(r, H).bytes(), msg)
		proof = proofOf(c, sub(r, c, sec), ii)
	case "selftest": // an honest prover: whether the scheme is the one known here
		r := rscalar()
		ii := edMul(sec, H).bytes()
		c := refChallenge(nil, hB, pk, ii, edMul(r, edG).bytes(), edMul(r, H).bytes(), msg)
		proof = proofOf(c, sub(r, c, sec), ii)
	default:
		fatal(how)
	}
	if out == nil {
		out = shake256(32, proof[64:], msg)
	}
	o := x.vrfVerify(pk, msg, out, proof)
	o["predicted"] = extra["predicted"] == true
	t.emit(rec{"ev": "VrfForge", "how": how, "o": o})
}

func (x *cryptoRun) sigVer(t *tracer, op rec) {
	r := x.signed(src(op["r"]))
	s := x.signed(src(op["s"]))
	sig := append(append([]byte{}, r[:32]...), s[32:]...)
	msg := roomy(x.msgs[num(op, "m")])
	switch str(op, "alt") {
	case "none":
	case "length":
		sig = resize(sig, num(op, "pos"))
	case "nil":
		sig = nil
	case "s+l":
		copy(sig[32:], le(new(big.Int).Add(unle(sig[32:]), edL)))
	default:
		mangle(sig, str(op, "alt"), num(op, "pos"), num(op, "bit"), t.rnd)
	}
	pk := roomy(x.spk[num(op, "k")])
	var ok bool
	sig = roomy(sig)
	intact, p := frozen(func() { ok = sign.PublicKey(pk).Verify(msg, sig) }, pk, msg, sig)
	sk := roomy(x.ssk[num(op, "k")])
	i2, p2 := frozen(func() { sign.PrivateKey(sk).Sign(msg) }, sk, msg)
	t.emit(rec{"ev": "SigVer", "op": op, "o": rec{"res": accepts(ok, p+p2), "intact": intact && i2}})
}

// strs makes byte strings of lists of pieces.
func (x *cryptoRun) strs(v interface{}) [][]byte {
	out := [][]byte{}
	l, _ := v.([]interface{})
	for _, s := range l {
		var b []byte
		ps, _ := s.([]interface{})
		for _, p := range ps {
			b = append(b, x.long[p.(string)]...)
		}
		out = append(out, roomy(b))
	}
	return out
}

func (x *cryptoRun) open(t *tracer, op rec) {
	v := op["v"].(rec)
	var cs []*crypto.Commit
	intact, res := true, ""
	for _, c := range op["cs"].([]interface{}) {
		vals := x.strs(c)
		var com *crypto.Commit
		ok, p := frozen(func() {
			var err error
			if com, err = crypto.NewCommit(vals...); err != nil {
				panic(err)
			}
		}, vals...)
		if p != "" {
			t.emit(rec{"ev": "Open", "cs": op["cs"], "v": v, "o": rec{"res": p, "intact": ok, "honest": false}})
			return
		}
		intact = intact && ok
		cs = append(cs, com)
	}
	honest := cs[0].Verify(x.strs(op["cs"].([]interface{})[0])...) && len(cs[0].Salt) == 32 && len(cs[0].Value) == 32
	com := &crypto.Commit{Salt: roomy(cs[num(v, "salt")-1].Salt), Value: roomy(cs[num(v, "value")-1].Value)}
	vals := x.strs(v["vals"])
	pos, bit := num(v, "pos"), uint(num(v, "bit"))
	switch str(v, "alt") {
	case "flipsalt":
		com.Salt[pos] ^= 1 << bit
	case "flipvalue":
		com.Value[pos] ^= 1 << bit
	case "shift": // bytes of the salt moved to the values
		vals = append([][]byte{com.Salt[pos:]}, vals...)
		com.Salt = com.Salt[:pos]
	case "unshift": // the values moved into the salt
		com.Salt = append(com.Salt[:32:32], append(bytes.Join(vals, nil), 'x')[:len(bytes.Join(vals, nil))]...)
		if len(com.Salt) == 32 {
			com.Salt = com.Salt[:31]
		}
		vals = nil
	case "emptysalt":
		vals = append([][]byte{com.Salt}, vals...)
		com.Salt = []byte{}
	case "nilsalt":
		com.Salt = nil
	case "longsalt":
		com.Salt = append(com.Salt, 0)
	case "shortvalue":
		com.Value = com.Value[:pos]
	case "longvalue":
		com.Value = append(com.Value, 0)
	case "nilvalue":
		com.Value = nil
	}
	var ok bool
	all := append([][]byte{com.Salt, com.Value}, vals...)
	in, p := frozen(func() { ok = com.Verify(vals...) }, all...)
	t.emit(rec{"ev": "Open", "cs": op["cs"], "v": v, "o": rec{"res": accepts(ok, res+p), "intact": intact && in, "honest": honest}})
}

func (x *cryptoRun) digest(t *tracer, op rec) {
	a, b := x.strs(op["a"]), x.strs(op["b"])
	var da, db []byte
	intact, p := frozen(func() { da, db = crypto.Digest(a...), crypto.Digest(b...) }, append(append([][]byte{}, a...), b...)...)
	t.emit(rec{"ev": "Digest", "a": op["a"], "b": op["b"], "o": rec{"same": bytes.Equal(da, db), "intact": intact && p == "",
		"ref": bytes.Equal(da, refDigest(a...)) && bytes.Equal(db, refDigest(b...))}})
}

func (x *cryptoRun) digestLen(t *tracer, op rec) {
	n := num(op, "n")
	b := randBytes(t.rnd, n)
	ok := bytes.Equal(crypto.Digest(b), refDigest(b))
	for i := 0; i < 5; i++ { // cut at random places
		c := t.rnd.Intn(n + 1)
		ok = ok && bytes.Equal(crypto.Digest(b[:c], nil, b[c:]), refDigest(b))
	}
	t.emit(rec{"ev": "DigestLen", "n": n, "ref": ok})
}

// rand_ looks at many salts and random strings.
func (x *cryptoRun) rand_(t *tracer, op rec) {
	n := num(op, "n")
	seen := map[string]bool{}
	ones := make([]int, 256)
	total, lens := 0, map[int]bool{}
	ids := []string{}
	add := func(b []byte, err error) {
		if err != nil {
			fatal(err)
		}
		total++
		lens[len(b)] = true
		seen[string(b)] = true
		for i := 0; i < 256 && i < 8*len(b); i++ {
			ones[i] += bitAt(b, i)
		}
		if total%50 == 1 && len(b) >= 12 {
			ids = append(ids, hex.EncodeToString(b[:12]))
		}
	}
	for i := 0; i < n/2; i++ {
		add(crypto.MakeRand())
		c, err := crypto.NewCommit([]byte("x"))
		if err != nil {
			fatal(err)
		}
		add(c.Salt, nil)
	}
	biased := 0
	for _, o := range ones { // more than eight standard deviations
		if d := 2*o - total; d*d > 64*total {
			biased++
		}
	}
	sizes := []int{}
	for l := range lens {
		sizes = append(sizes, l)
	}
	t.emit(rec{"ev": "Rand", "n": total, "o": rec{"distinct": len(seen), "biased": biased, "sizes": sizes, "ids": ids}})
}

type faultyReader struct{ n int }

func (f *faultyReader) Read(b []byte) (int, error) {
	if f.n == 0 {
		return 0, errors.New("no entropy")
	}
	k := f.n
	if k > len(b) {
		k = len(b)
	}
	f.n -= k
	return k, nil
}

func (x *cryptoRun) randFault(t *tracer, op rec) {
	old := rand.Reader
	var r io.Reader = old
	switch str(op, "fault") {
	case "short0", "error":
		r = &faultyReader{0}
	case "short31":
		r = &faultyReader{31}
	}
	rand.Reader = r
	var err error
	var got bool
	p := guard(func() {
		switch str(op, "what") {
		case "commit":
			var c *crypto.Commit
			c, err = crypto.NewCommit([]byte("x"))
			got = c != nil
		case "rand":
			var b []byte
			b, err = crypto.MakeRand()
			got = b != nil
		case "sigkey":
			_, err = sign.GenerateKey(nil)
			got = err == nil
		case "vrfkey":
			_, err = vrf.GenerateKey(nil)
			got = err == nil
		}
	})
	rand.Reader = old
	res := "ok"
	if p != "" {
		res = p
	} else if err != nil {
		res = "error"
	}
	t.emit(rec{"ev": "RandFault", "fault": op["fault"], "what": op["what"], "o": rec{"res": res, "got": got}})
}

func cryptoSuite(t *tracer) error {
	x := newCryptoRun(t.rnd)
	ops := readOps()
	subs := make([]*tracer, len(ops))
	var mu sync.Mutex
	var table []rec
	var wg sync.WaitGroup
	next := make(chan int)
	var serial []int
	for j := 0; j < runtime.NumCPU(); j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				op, s := ops[i], subs[i]
				switch str(op, "op") {
				case "VrfMake":
					x.vrfMake(s, op, func(r rec) { mu.Lock(); table = append(table, r); mu.Unlock() })
				case "VrfMany":
					x.vrfMany(s, op)
				case "VrfVer":
					x.vrfVer(s, op)
				case "VrfForge":
					x.forge(s, op)
				case "SigVer":
					x.sigVer(s, op)
				case "Open":
					x.open(s, op)
				case "Digest":
					x.digest(s, op)
				case "DigestLen":
					x.digestLen(s, op)
				case "Rand":
					x.rand_(s, op)
				default:
					fatal(fmt.Sprint(op))
				}
			}
		}()
	}
	for i := range ops {
		subs[i] = &tracer{rnd: mrand.New(mrand.NewSource(*seed*1000003 + int64(i)))}
		if str(ops[i], "op") == "RandFault" {
			serial = append(serial, i)
			continue
		}
		next <- i
	}
	close(next)
	wg.Wait()
	for _, i := range serial {
		x.randFault(subs[i], ops[i])
	}
	for _, s := range subs {
		t.lines = append(t.lines, s.lines...)
	}
	if len(table) > 0 {
		t.emit(rec{"ev": "VrfTable", "entries": table})
	}
	return nil
}
