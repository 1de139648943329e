package main

// Arithmetic on the Edwards form of Curve25519 and the VRF scheme over it,
// independent of the code under test: what a dishonest prover computes with.

import (
	"math/big"

	"golang.org/x/crypto/sha3"
)

func bigDec(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

var (
	edP  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	edL  = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), bigDec("27742317777372353535851937790883648493"))
	edD  = fdiv(fneg(big.NewInt(121665)), big.NewInt(121666))
	edI  = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(edP, big.NewInt(1)), 2), edP)
	edA  = big.NewInt(486662)
	edG  = edBase()
	edT8 = edTorsion()
)

func fmod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, edP) }
func fmul(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
func fadd(a, b *big.Int) *big.Int { return fmod(new(big.Int).Add(a, b)) }
func fsub(a, b *big.Int) *big.Int { return fmod(new(big.Int).Sub(a, b)) }
func fneg(a *big.Int) *big.Int    { return fmod(new(big.Int).Neg(a)) }
func fdiv(a, b *big.Int) *big.Int {
	return fmul(a, new(big.Int).Exp(b, new(big.Int).Sub(edP, big.NewInt(2)), edP))
}

// edPoint is a point in extended coordinates.
type edPoint struct{ X, Y, Z, T *big.Int }

func edAffine(x, y *big.Int) edPoint { return edPoint{x, y, big.NewInt(1), fmul(x, y)} }

var edZero = edAffine(big.NewInt(0), big.NewInt(1))

func edAdd(p, q edPoint) edPoint {
	a := fmul(p.X, q.X)
	b := fmul(p.Y, q.Y)
	c := fmul(edD, fmul(p.T, q.T))
	d := fmul(p.Z, q.Z)
	e := fsub(fmul(fadd(p.X, p.Y), fadd(q.X, q.Y)), fadd(a, b))
	f, g, h := fsub(d, c), fadd(d, c), fadd(b, a)
	return edPoint{fmul(e, f), fmul(g, h), fmul(f, g), fmul(e, h)}
}

func edMul(n *big.Int, p edPoint) edPoint {
	r := edZero
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if n.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}

func (p edPoint) xy() (*big.Int, *big.Int) { return fdiv(p.X, p.Z), fdiv(p.Y, p.Z) }

func le(n *big.Int) []byte {
	b := make([]byte, 32)
	n.FillBytes(b)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

func unle(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

func (p edPoint) bytes() []byte {
	x, y := p.xy()
	b := le(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// edX returns an x for y, with the given parity; nil if there is none.
func edX(y *big.Int, parity uint) *big.Int {
	y2 := fmul(y, y)
	x2 := fdiv(fsub(y2, big.NewInt(1)), fadd(fmul(edD, y2), big.NewInt(1)))
	x := new(big.Int).Exp(x2, new(big.Int).Rsh(new(big.Int).Add(edP, big.NewInt(3)), 3), edP)
	if fmul(x, x).Cmp(x2) != 0 {
		x = fmul(x, edI)
	}
	if fmul(x, x).Cmp(x2) != 0 {
		return nil
	}
	if x.Bit(0) != parity {
		x = fneg(x)
	}
	return x
}

func edBase() edPoint {
	y := fdiv(big.NewInt(4), big.NewInt(5))
	return edAffine(edX(y, 0), y)
}

// edTorsion returns a point of order 8.
func edTorsion() edPoint {
	for n := int64(2); ; n++ {
		y := big.NewInt(n)
		x := edX(y, 0)
		if x == nil {
			continue
		}
		t := edMul(edL, edAffine(x, y))
		if _, y4 := edMul(big.NewInt(4), t).xy(); y4.Cmp(big.NewInt(1)) != 0 {
			return t
		}
	}
}

func shake256(n int, parts ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}

// refHashToCurve is the VRF's hash of an input to a point of prime order.
func refHashToCurve(m []byte) edPoint {
	hm := shake256(32, m)
	bit := uint(hm[31] >> 7)
	hm[31] &= 127
	r := fmod(unle(hm))
	one := big.NewInt(1)
	v := fneg(fdiv(edA, fadd(fmul(big.NewInt(2), fmul(r, r)), one)))
	v2 := fmul(v, v)
	e := fadd(fadd(fmul(v2, v), fmul(edA, v2)), v)
	chi := new(big.Int).Exp(e, new(big.Int).Rsh(new(big.Int).Sub(edP, one), 1), edP)
	if chi.Cmp(one) > 0 {
		v = fsub(fneg(v), edA)
	}
	y := fdiv(fsub(v, one), fadd(v, one))
	x := edX(y, bit)
	if x == nil {
		panic("hash to curve")
	}
	return edMul(big.NewInt(8), edAffine(x, y))
}

// refVrfSecret is the scalar of a private key.
func refVrfSecret(sk []byte) *big.Int {
	x := shake256(64, sk[:32])[:32]
	x[0] &= 248
	x[31] &= 127
	x[31] |= 64
	return unle(x)
}

// refChallenge hashes what a proof commits to, without the parts to omit.
func refChallenge(omit map[string]bool, h, pk, ii, gr, hr, m []byte) *big.Int {
	var parts [][]byte
	for _, p := range []struct {
		n string
		b []byte
	}{{"G", edG.bytes()}, {"H", h}, {"P", pk}, {"II", ii}, {"GR", gr}, {"HR", hr}, {"M", m}} {
		if !omit[p.n] {
			parts = append(parts, p.b)
		}
	}
	return new(big.Int).Mod(unle(shake256(64, parts...)), edL)
}

func lmod(a *big.Int) *big.Int { return new(big.Int).Mod(a, edL) }
