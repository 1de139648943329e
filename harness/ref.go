package main

// Reference definitions, independent of the code under test: hashes, the
// canonical Merkle prefix tree, the signed form of STRs and TBs.

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"golang.org/x/crypto/sha3"
)

func refDigest(parts ...[]byte) []byte {
	out := make([]byte, 32)
	sha3.ShakeSum128(out, bytes.Join(parts, nil))
	return out
}

func le32(n uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, n); return b }
func le64(n uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, n); return b }

func bitAt(bs []byte, i int) int { return int(bs[i/8]>>(7-uint(i%8))) & 1 }

func refLeaf(nonce, index []byte, level uint32, commit []byte) []byte {
	return refDigest([]byte{'L'}, nonce, index, le32(level), commit)
}

func refEmpty(nonce, prefix []byte, level uint32) []byte {
	return refDigest([]byte{'E'}, nonce, prefix, le32(level))
}

// prefixBytes returns the first n bits of idx, zero padded to whole bytes.
func prefixBytes(idx []byte, n int) []byte {
	out := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		if bitAt(idx, i) == 1 {
			out[i/8] |= 1 << (7 - uint(i%8))
		}
	}
	return out
}

type refEntry struct{ index, commit []byte }

// refRoot computes the root of the canonical tree over the entries.
func refRoot(nonce []byte, es []refEntry) []byte {
	return refSub(nonce, make([]byte, 33), 0, es)
}

// refSub computes the hash of the subtree with the given prefix.
func refSub(nonce, prefix []byte, depth int, es []refEntry) []byte {
	if depth > 0 && len(es) == 0 {
		return refEmpty(nonce, prefixBytes(prefix, depth), uint32(depth))
	}
	if depth > 0 && len(es) == 1 {
		return refLeaf(nonce, es[0].index, uint32(depth), es[0].commit)
	}
	var l, r []refEntry
	for _, e := range es {
		if bitAt(e.index, depth) == 0 {
			l = append(l, e)
		} else {
			r = append(r, e)
		}
	}
	lp := append([]byte{}, prefix...)
	rp := append([]byte{}, prefix...)
	rp[depth/8] |= 1 << (7 - uint(depth%8))
	return refDigest(refSub(nonce, lp, depth+1, l), refSub(nonce, rp, depth+1, r))
}

// refPathRoot recomputes the root from an authentication path, nil if the
// path is malformed.
func refPathRoot(ap *merkletree.AuthenticationPath) []byte {
	if ap == nil || ap.Leaf == nil || int(ap.Leaf.Level) != len(ap.PrunedTree) ||
		8*len(ap.Leaf.Index) < len(ap.PrunedTree) {
		return nil
	}
	var h []byte
	if ap.Leaf.IsEmpty {
		h = refEmpty(ap.TreeNonce, ap.Leaf.Index, ap.Leaf.Level)
	} else {
		if ap.Leaf.Commitment == nil {
			return nil
		}
		h = refLeaf(ap.TreeNonce, ap.Leaf.Index, ap.Leaf.Level, ap.Leaf.Commitment.Value)
	}
	for d := len(ap.PrunedTree) - 1; d >= 0; d-- {
		if bitAt(ap.Leaf.Index, d) == 1 {
			h = refDigest(ap.PrunedTree[d][:], h)
		} else {
			h = refDigest(h, ap.PrunedTree[d][:])
		}
	}
	return h
}

// refPathOK decides whether ap is a valid proof for (name, index) under root:
// "incl" with the value, "abs", or "" if it is not valid.
func refPathOK(ap *merkletree.AuthenticationPath, name string, index, root []byte) (kind string) {
	defer func() {
		if recover() != nil {
			kind = ""
		}
	}()
	h := refPathRoot(ap)
	if h == nil || !bytes.Equal(h, root) || !bytes.Equal(ap.LookupIndex, index) ||
		len(ap.TreeNonce) != 32 {
		return ""
	}
	if !ap.Leaf.IsEmpty && bytes.Equal(ap.Leaf.Index, index) {
		c := ap.Leaf.Commitment
		if !bytes.Equal(c.Value, refDigest(c.Salt, []byte(name), ap.Leaf.Value)) {
			return ""
		}
		return "incl"
	}
	for i := range ap.PrunedTree {
		if bitAt(ap.Leaf.Index, i) != bitAt(index, i) {
			return ""
		}
	}
	if ap.Leaf.IsEmpty {
		if !bytes.Equal(ap.Leaf.Index, prefixBytes(index, len(ap.PrunedTree))) || ap.Leaf.Commitment != nil {
			return ""
		}
	} else if len(ap.Leaf.Index) != 32 || len(ap.Leaf.Commitment.Value) != 32 {
		return ""
	}
	return "abs"
}

func refPolicies(p *protocol.Policies) []byte {
	return bytes.Join([][]byte{[]byte(p.Version), []byte(p.HashID), p.VrfPublicKey, le64(uint64(p.EpochDeadline))}, nil)
}

func refSTRBytes(s *protocol.DirSTR) []byte {
	parts := [][]byte{le64(s.Epoch)}
	if s.Epoch > 0 {
		parts = append(parts, le64(s.PreviousEpoch))
	}
	parts = append(parts, s.TreeHash, s.PreviousSTRHash, refPolicies(s.Policies))
	return bytes.Join(parts, nil)
}

func refSigOK(pk, msg, sig []byte) bool {
	return len(pk) == ed25519.PublicKeySize && len(sig) == ed25519.SignatureSize &&
		ed25519.Verify(ed25519.PublicKey(pk), msg, sig)
}

func refSTRSigOK(pk []byte, s *protocol.DirSTR) bool {
	return refSigOK(pk, refSTRBytes(s), s.Signature)
}

func refTBBytes(strSig []byte, tb *protocol.TemporaryBinding) []byte {
	return bytes.Join([][]byte{strSig, tb.Index, tb.Value}, nil)
}

// strIdentity is everything an STR consists of.
func strIdentity(s *protocol.DirSTR) string {
	return string(refDigest(le64(s.Epoch), le64(s.PreviousEpoch), le32(uint32(len(s.TreeHash))), s.TreeHash,
		le32(uint32(len(s.PreviousSTRHash))), s.PreviousSTRHash, s.Signature, le32(uint32(len(s.Policies.Version))), le32(uint32(len(s.Policies.HashID))), refPolicies(s.Policies)))
}
