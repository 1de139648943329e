From ed32d3109e1d10003140acf289f64bfa5e16ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 01/21] fix: evict the old snapshot when the PAD's cache holds
 a single STR

With a capacity of one, half of the capacity is zero: nothing was ever
evicted and the cache grew without bound.
---
 merkletree/pad.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkletree/pad.go b/merkletree/pad.go
index 2754263..9952dbe 100644
--- a/merkletree/pad.go
+++ b/merkletree/pad.go
@@ -91,6 +91,10 @@ func (pad *PAD) Update(ad AssocData) {
 	// delete older str(s) as needed
 	if len(pad.loadedEpochs) == cap(pad.loadedEpochs) {
 		n := cap(pad.loadedEpochs) / 2
+		if n == 0 {
+			// always make room for the new STR
+			n = len(pad.loadedEpochs)
+		}
 		for i := 0; i < n; i++ {
 			delete(pad.snapshots, pad.loadedEpochs[i])
 		}
-- 
2.43.0


From 8951eebd0afc46500b0d37c198d82eff486dfa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 02/21] fix: answer an STR history request for evicted epochs
 with ErrDirectory

GetSTRHistory() dereferenced the missing STR and panicked.
---
 protocol/directory/directory.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 3412bc4..d5bc59f 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -323,6 +323,8 @@ func (d *ConiksDirectory) Monitor(req *protocol.MonitoringRequest) *protocol.Res
 // and endEpoch are the epoch range endpoints indicated in the client's
 // request. If req.endEpoch is greater than d.LatestSTR().Epoch,
 // the end of the range will be set to d.LatestSTR().Epoch.
+// If an STR in the range has been removed from memory, GetSTRHistory()
+// returns a message.NewErrorResponse(ErrDirectory).
 func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protocol.Response {
 	// make sure the request is well-formed
 	if req.StartEpoch > d.LatestSTR().Epoch ||
@@ -337,8 +339,11 @@ func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protoc
 
 	var strs []*protocol.DirSTR
 	for ep := req.StartEpoch; ep <= endEp; ep++ {
-		str := protocol.NewDirSTR(d.pad.GetSTR(ep))
-		strs = append(strs, str)
+		str := d.pad.GetSTR(ep)
+		if str == nil {
+			return protocol.NewErrorResponse(protocol.ErrDirectory)
+		}
+		strs = append(strs, protocol.NewDirSTR(str))
 	}
 
 	return protocol.NewSTRHistoryRange(strs)
-- 
2.43.0


From 6d9092b69c6597d4f92e7c46cbb12407e4450f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/21] fix: write the policies' epoch deadline into a new
 server config

NewConfig() left the top-level epoch_deadline at 0, so a server started
from a config generated by 'coniksserver init' updated its directory in
a busy loop instead of once per epoch deadline.
---
 application/server/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/server/config.go b/application/server/config.go
index 3b363c0..b515280 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -44,6 +44,9 @@ func NewConfig(file, encoding string, addrs []*Address,
 		Policies:            policies,
 		InitSTRPath:         initSTRPath,
 	}
+	if policies != nil {
+		conf.EpochDeadline = policies.EpochDeadline
+	}
 
 	return &conf
 }
-- 
2.43.0


From e37e624731167a5cda355fda2365e4287f9c1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 04/21] fix: check the shape of an authentication path before
 verifying it

Verify() didn't compare the leaf's level with the length of the pruned
tree nor check the lengths of the leaf's index and commitment:
- it panicked on a malformed path;
- moving bytes between the nonce and the index of a leaf yields the same
  leaf hash, so that the absence of an included name could be proven;
- the hash of an empty leaf doesn't cover a commitment, so that a
  directory could open a tree root to arbitrary values later on.
---
 merkletree/proof.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 5514c93..3c49e91 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -97,7 +97,41 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 	return hash
 }
 
-// Verify first compares the lookup index with the leaf index.
+// checkShape checks that ap has the shape of an authentication path
+// returned by Get(). Neither the length of the nonce nor the length of the
+// index is delimited in the input of a proof node's hash, and the hash of an
+// empty node doesn't cover a commitment. Thus, if the shape weren't
+// checked, the same hash could be explained by different proof nodes.
+func (ap *AuthenticationPath) checkShape() error {
+	leaf := ap.Leaf
+	if leaf == nil || uint64(leaf.Level) != uint64(len(ap.PrunedTree)) ||
+		len(ap.TreeNonce) > crypto.HashSizeByte {
+		return ErrUnequalTreeHashes
+	}
+	if len(ap.PrunedTree) > 8*len(ap.LookupIndex) {
+		return ErrIndicesMismatch
+	}
+	if leaf.IsEmpty {
+		if ap.ProofType() == ProofOfInclusion {
+			return ErrUnverifiableCommitment
+		}
+		if len(leaf.Index) != (len(ap.PrunedTree)+7)/8 {
+			return ErrIndicesMismatch
+		}
+		return nil
+	}
+	if len(leaf.Index) != len(ap.LookupIndex) {
+		return ErrIndicesMismatch
+	}
+	if leaf.Commitment == nil ||
+		len(leaf.Commitment.Value) != crypto.HashSizeByte {
+		return ErrUnverifiableCommitment
+	}
+	return nil
+}
+
+// Verify first checks the shape of the authentication path,
+// and compares the lookup index with the leaf index.
 // It expects the lookup index and the leaf index match in the
 // first l bits with l is the Level of the proof node if ap is
 // a proof of absence. It also verifies the value and
@@ -108,6 +142,10 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 //
 // This should be called after the VRF index is verified successfully.
 func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
+	if err := ap.checkShape(); err != nil {
+		return err
+	}
+
 	if ap.ProofType() == ProofOfAbsence {
 		// Check if i and j match in the first l bits
 		indexBits := utils.ToBits(ap.Leaf.Index)
-- 
2.43.0


From 9d67b2a5abca1f18be5c5076a1b303c096f429c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 05/21] fix: reject malformed responses instead of crashing on
 them

Validate() accepted a null response, null authentication paths, null STRs
and STRs without policies, and the audit checks assumed the type of the
response: any of these crashed the client or the auditor.
---
 protocol/auditlog/auditlog.go        |  5 ++++-
 protocol/auditor/auditor.go          |  8 ++++++--
 protocol/client/consistencychecks.go |  5 ++++-
 protocol/message.go                  | 25 +++++++++++++++++++++----
 protocol/str.go                      |  9 +++++++++
 5 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index bbcd50d..b4bc2c5 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -72,7 +72,10 @@ func (h *directoryHistory) Audit(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// audit the STRs
 	// if strs.STR is somehow malformed or invalid (e.g. strs.STR
diff --git a/protocol/auditor/auditor.go b/protocol/auditor/auditor.go
index d6e2f0b..422a272 100644
--- a/protocol/auditor/auditor.go
+++ b/protocol/auditor/auditor.go
@@ -87,6 +87,10 @@ func (a *AudState) verifySTRConsistency(prevSTR, str *protocol.DirSTR) error {
 // or str's epoch is anything other than the same or one ahead of
 // a.verifiedSTR.
 func (a *AudState) CheckSTRAgainstVerified(str *protocol.DirSTR) error {
+	if err := str.Validate(); err != nil {
+		return err
+	}
+
 	// FIXME: check whether the STR was issued on time and whatnot.
 	// Maybe it has something to do w/ #81 and client
 	// transitioning between epochs.
@@ -117,8 +121,8 @@ func (a *AudState) VerifySTRRange(prevSTR *protocol.DirSTR, strs []*protocol.Dir
 	prev := prevSTR
 	for i := 0; i < len(strs); i++ {
 		str := strs[i]
-		if str == nil {
-			return protocol.ErrMalformedMessage
+		if err := str.Validate(); err != nil {
+			return err
 		}
 
 		// verify the consistency of each STR in the range
diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5e2c124..1816d5f 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -70,7 +70,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
diff --git a/protocol/message.go b/protocol/message.go
index bafc86a..363c3b7 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -278,20 +278,37 @@ func (msg *Response) Validate() error {
 	}
 	switch df := msg.DirectoryResponse.(type) {
 	case *DirectoryProof:
-		if len(df.STR) == 0 || len(df.AP) == 0 {
+		if df == nil || len(df.AP) == 0 {
 			return ErrMalformedMessage
 		}
-		return nil
+		for _, ap := range df.AP {
+			if ap == nil || ap.Leaf == nil {
+				return ErrMalformedMessage
+			}
+		}
+		return validateSTRs(df.STR)
 	case *STRHistoryRange:
-		if len(df.STR) == 0 {
+		if df == nil {
 			return ErrMalformedMessage
 		}
-		return nil
+		return validateSTRs(df.STR)
 	default:
 		panic("[coniks] Malformed response")
 	}
 }
 
+func validateSTRs(strs []*DirSTR) error {
+	if len(strs) == 0 {
+		return ErrMalformedMessage
+	}
+	for _, str := range strs {
+		if err := str.Validate(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // GetKey returns the key extracted from
 // a validated CONIKS directory's response.
 //
diff --git a/protocol/str.go b/protocol/str.go
index db92f96..3c4c7f7 100644
--- a/protocol/str.go
+++ b/protocol/str.go
@@ -17,6 +17,15 @@ func NewDirSTR(str *merkletree.SignedTreeRoot) *DirSTR {
 	}
 }
 
+// Validate verifies whether the STR has all its parts; a DirSTR parsed from
+// a received message may lack some of them.
+func (str *DirSTR) Validate() error {
+	if str == nil || str.SignedTreeRoot == nil || str.Policies == nil {
+		return ErrMalformedMessage
+	}
+	return nil
+}
+
 // Serialize overrides merkletree.SignedTreeRoot.Serialize
 func (str *DirSTR) Serialize() []byte {
 	return append(str.SerializeInternal(), str.Policies.Serialize()...)
-- 
2.43.0


From ae023609c771debd25e2b13d0258bcba1dd1d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 06/21] fix: extract the key from a response, and pin it

GetKey() always returned nil. As a consequence the client never pinned
the keys it had accepted (any later key was accepted as well), and the
test client displayed an empty key for every name found.
---
 protocol/client/consistencychecks.go |  6 ++++--
 protocol/message.go                  | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 1816d5f..43c5f16 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -124,8 +124,10 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
 		return err
 	}
-	recvKey, _ := msg.GetKey()
-	cc.Bindings[uname] = recvKey
+	// keep what we know about uname if the response doesn't include a key
+	if recvKey, _ := msg.GetKey(); recvKey != nil {
+		cc.Bindings[uname] = recvKey
+	}
 	return nil
 }
 
diff --git a/protocol/message.go b/protocol/message.go
index 363c3b7..5ea926a 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -319,7 +319,23 @@ func validateSTRs(strs []*DirSTR) error {
 // If the response contains a range of authentication paths,
 // the key is obtained from the authentication path corresponding
 // to the most recent signed tree root.
-// FIXME: remove this obsolete function
+//
+// The returned key is nil if the response proves that the name
+// isn't registered.
 func (msg *Response) GetKey() ([]byte, error) {
+	if err := msg.Validate(); err != nil {
+		return nil, err
+	}
+	df, ok := msg.DirectoryResponse.(*DirectoryProof)
+	if !ok {
+		return nil, ErrMalformedMessage
+	}
+	ap := df.AP[len(df.AP)-1]
+	if ap.ProofType() == merkletree.ProofOfInclusion {
+		return ap.Leaf.Value, nil
+	}
+	if df.TB != nil && msg.Error != ReqNameNotFound {
+		return df.TB.Value, nil
+	}
 	return nil, nil
 }
-- 
2.43.0


From d0fff53312e5ee36e6a07567954c1b34565e0db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 07/21] fix: detect a broken promise when the promised name is
 absent

A saved temporary binding was only compared with a later proof of
inclusion. The directory could break its promise unnoticed, by leaving
the name out of the next snapshot, by promising another key or by
denying the name within the epoch of the promise.
---
 protocol/client/consistencychecks.go | 33 +++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 43c5f16..5653dbe 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -249,9 +249,13 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
+			if err := cc.verifyPendingPromise(uname, df); err != nil {
+				return err
+			}
 			cc.TBs[uname] = df.TB
+			return nil
 		}
-		return nil
+		return cc.verifyFulfilledPromise(uname, df.STR[0], df.AP[0])
 
 	case protocol.KeyLookupType:
 		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
@@ -269,7 +273,15 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
+			if err := cc.verifyPendingPromise(uname, df); err != nil {
+				return err
+			}
 			cc.TBs[uname] = df.TB
+
+		case msg.Error == protocol.ReqNameNotFound:
+			if err := cc.verifyPendingPromise(uname, df); err != nil {
+				return err
+			}
 		}
 
 	default:
@@ -292,6 +304,25 @@ func (cc *ConsistencyChecks) verifyFulfilledPromise(uname string, str *protocol.
 	return nil
 }
 
+// verifyPendingPromise verifies that a proof of absence doesn't break
+// the promise the directory gave for uname. A promise may only be pending
+// in the epoch it was issued in (i.e. it includes the signature of the
+// current STR), and has to be repeated in each response of this epoch.
+func (cc *ConsistencyChecks) verifyPendingPromise(uname string,
+	df *protocol.DirectoryProof) error {
+	saved, ok := cc.TBs[uname]
+	if !ok {
+		return nil
+	}
+	if !cc.Verify(saved.Serialize(df.STR[0].Signature), saved.Signature) ||
+		df.TB == nil ||
+		!bytes.Equal(df.TB.Index, saved.Index) ||
+		!bytes.Equal(df.TB.Value, saved.Value) {
+		return protocol.CheckBrokenPromise
+	}
+	return nil
+}
+
 // verifyReturnedPromise validates a returned promise.
 // Note that the directory returns a promise iff the returned proof is
 // _a proof of absence_.
-- 
2.43.0


From b62630e519fdebfff7b942ebc9fdab9966924be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 08/21] fix: refuse commitment openings whose salt has another
 size

The boundary between salt and committed values isn't delimited, so that a
directory could open one commitment to two different values of a name.
---
 crypto/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/util.go b/crypto/util.go
index ccb8944..4597d76 100644
--- a/crypto/util.go
+++ b/crypto/util.go
@@ -70,6 +70,9 @@ func NewCommit(stuff ...[]byte) (*Commit, error) {
 
 // Verify verifies that the underlying commit c was a commit to the passed
 // byte slices stuff (which won't be mutated).
+// The boundary between the salt and the committed values isn't part of the
+// commitment: only a salt of the size chosen by NewCommit() is accepted, as
+// otherwise the same commitment could be opened to different values.
 func (c *Commit) Verify(stuff ...[]byte) bool {
-	return bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
+	return len(c.Salt) == HashSizeByte && bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
 }
-- 
2.43.0


From 2cd8e131a76ed9915d439bc7467114148ce695bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 09/21] fix: refuse registration and lookup responses with more
 than one proof

The key of such a response was taken from its last authentication path, but
only the first one is verified.
---
 protocol/client/consistencychecks.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5653dbe..1ccea32 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -109,7 +109,13 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	}
 	switch requestType {
 	case protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
-		if _, ok := msg.DirectoryResponse.(*protocol.DirectoryProof); !ok {
+		df, ok := msg.DirectoryResponse.(*protocol.DirectoryProof)
+		if !ok {
+			return protocol.ErrMalformedMessage
+		}
+		// a registration or lookup is answered for a single epoch
+		if (requestType == protocol.RegistrationType || requestType == protocol.KeyLookupType) &&
+			(len(df.AP) != 1 || len(df.STR) != 1) {
 			return protocol.ErrMalformedMessage
 		}
 	default:
@@ -170,8 +176,6 @@ func (cc *ConsistencyChecks) checkConsistency(requestType int, msg *protocol.Res
 func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
 	ap := df.AP[0]
 	str := df.STR[0]
 
@@ -190,8 +194,6 @@ func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 func (cc *ConsistencyChecks) verifyKeyLookup(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
 	ap := df.AP[0]
 	str := df.STR[0]
 
-- 
2.43.0


From 5dcc855bcae06f383c13f3533cc11f4005d219bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 10/21] fix: verify the first STR of an auditor's range

Its contents could be altered without being noticed, as only its signature is
covered by the hash chain.
---
 protocol/client/consistencychecks.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 1ccea32..1b8b7d7 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -78,6 +78,14 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
 	if len(strs.STR) > 1 {
+		// the range begins with an STR that isn't verified yet
+		first := strs.STR[0]
+		if err := first.Validate(); err != nil {
+			return err
+		}
+		if !cc.Verify(first.Serialize(), first.Signature) {
+			return protocol.CheckBadSignature
+		}
 		if err := cc.VerifySTRRange(strs.STR[0], strs.STR[1:]); err != nil {
 			return err
 		}
-- 
2.43.0


From a4265c72059224f837970aa6db769d5d0b1fb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 11/21] fix: refuse STR histories with another status than
 success

---
 protocol/message.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 5ea926a..26ed852 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -288,7 +288,8 @@ func (msg *Response) Validate() error {
 		}
 		return validateSTRs(df.STR)
 	case *STRHistoryRange:
-		if df == nil {
+		// STRs are only returned if the request was successful
+		if df == nil || msg.Error != ReqSuccess {
 			return ErrMalformedMessage
 		}
 		return validateSTRs(df.STR)
-- 
2.43.0


From c9b0b8fb85b592137283fac9b140e798171b4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 12/21] fix: do not read the server's listen verb while Run
 changes it

---
 application/serverbase.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/application/serverbase.go b/application/serverbase.go
index 76525db..e1c9539 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -93,9 +93,11 @@ func NewServerBase(conf *CommonConfig, listenVerb string,
 func (sb *ServerBase) ListenAndHandle(addr *ServerAddress,
 	reqHandler func(req *protocol.Request) *protocol.Response) {
 	ln, tlsConfig := addr.resolveAndListen()
+	// the verb may differ for the next address
+	verb := sb.Verb
 	sb.waitStop.Add(1)
 	go func() {
-		sb.logger.Info(sb.Verb, "address", addr.Address)
+		sb.logger.Info(verb, "address", addr.Address)
 		sb.acceptRequests(addr, ln, tlsConfig, reqHandler)
 		sb.waitStop.Done()
 	}()
-- 
2.43.0


From 7178843021f87cef6c078ca87690df0b5459119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 13/21] fix: scanning an inverted key range finds nothing
 instead of panicking

---
 storage/kv/leveldbkv/leveldbkv.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index 6091727..04f1c19 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -16,6 +16,7 @@
 package leveldbkv
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/coniks-sys/coniks-go/storage/kv"
@@ -68,7 +69,12 @@ func (db *leveldbkv) NewIterator(rg *kv.Range) kv.Iterator {
 	if rg == nil {
 		return (*leveldb.DB)(db).NewIterator(nil, nil)
 	}
-	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: rg.Start, Limit: rg.Limit}, nil)
+	start, limit := rg.Start, rg.Limit
+	if limit != nil && bytes.Compare(start, limit) > 0 {
+		// leveldb panics on an inverted range; it has no keys
+		start = limit
+	}
+	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: start, Limit: limit}, nil)
 }
 
 func (db *leveldbkv) Close() error {
-- 
2.43.0


From f66c305864846a29d79ea67cb3f033357985063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 14/21] fix: refuse an initial STR file without a complete STR
 instead of crashing

---
 application/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/config.go b/application/config.go
index 7cf46d8..97487c1 100644
--- a/application/config.go
+++ b/application/config.go
@@ -80,6 +80,9 @@ func LoadInitSTR(path, file string) (*protocol.DirSTR, error) {
 	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
 		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
 	}
+	if err := initSTR.Validate(); err != nil {
+		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
+	}
 	if initSTR.Epoch != 0 {
 		return nil, fmt.Errorf("Initial STR epoch must be 0 (got %d)", initSTR.Epoch)
 	}
-- 
2.43.0


From fba966910dec1b7878d149db6ee956d7eb765e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 15/21] fix: the registration bot returns the server's whole
 answer, not its first 8192 bytes

---
 application/bots/bot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/application/bots/bot.go b/application/bots/bot.go
index 4621e1e..83d74a4 100644
--- a/application/bots/bot.go
+++ b/application/bots/bot.go
@@ -46,7 +46,7 @@ func SendRequestToCONIKS(addr string, msg []byte) ([]byte, error) {
 
 	conn.CloseWrite()
 	var buf bytes.Buffer
-	if _, err := io.CopyN(&buf, conn, 8192); err != nil && err != io.EOF {
+	if _, err := io.Copy(&buf, conn); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From af0921601f2a5c2300e05f89a79368aaf51aebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 16/21] fix: the registration bot reports a server that does
 not answer as a directory error

---
 application/bots/bot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/application/bots/bot.go b/application/bots/bot.go
index 83d74a4..26af935 100644
--- a/application/bots/bot.go
+++ b/application/bots/bot.go
@@ -49,6 +49,10 @@ func SendRequestToCONIKS(addr string, msg []byte) ([]byte, error) {
 	if _, err := io.Copy(&buf, conn); err != nil {
 		return nil, err
 	}
+	if buf.Len() == 0 {
+		// the server went away without answering
+		return nil, io.ErrUnexpectedEOF
+	}
 
 	return buf.Bytes(), nil
 }
-- 
2.43.0


From 8006300c62b631a618e6beaf9eda3f2f1c04a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 17/21] fix: refuse VRF proofs whose scalar is not reduced

---
 crypto/vrf/vrf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crypto/vrf/vrf.go b/crypto/vrf/vrf.go
index be7291d..3201a0a 100644
--- a/crypto/vrf/vrf.go
+++ b/crypto/vrf/vrf.go
@@ -184,6 +184,16 @@ func (pkBytes PublicKey) Verify(m, vrfBytes, proof []byte) bool {
 	copy(t[:32], proof[32:64])
 	copy(hxB[:], proof[64:96])
 
+	// t must be fully reduced (as s is, see below): otherwise
+	// other encodings of t would give further proofs.
+	var tWide [64]byte
+	var tRef [32]byte
+	copy(tWide[:], t[:])
+	edwards25519.ScReduce(&tRef, &tWide)
+	if tRef != t {
+		return false
+	}
+
 	hash := sha3.NewShake256()
 	hash.Write(hxB[:]) // const length
 	hash.Write(m)
-- 
2.43.0


From 289fb5c8fd793163d0a934f7d7683bc188008787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 18/21] fix: a file that appears while another is about to be
 written is not overwritten

---
 utils/utils.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index fe18400..e4eaefa 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -3,7 +3,6 @@ package utils
 import (
 	"encoding/binary"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 )
@@ -42,16 +41,22 @@ func UInt32ToBytes(num uint32) []byte {
 }
 
 // WriteFile writes buf to a file whose path is indicated by filename.
+// It never overwrites an existing file.
 func WriteFile(filename string, buf []byte, perm os.FileMode) error {
-	if _, err := os.Stat(filename); err == nil {
+	file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if os.IsExist(err) {
 		return fmt.Errorf("Can't write file. File '%s' already exists\n",
 			filename)
 	}
-
-	if err := ioutil.WriteFile(filename, buf, perm); err != nil {
+	if err != nil {
 		return err
 	}
-	return nil
+
+	_, err = file.Write(buf)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	return err
 }
 
 // ResolvePath returns the absolute path of file.
-- 
2.43.0


From 45a95ba3f68837063608ecf5d80da2ce7a77962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 19/21] fix: init -c does not overwrite an existing TLS key or
 certificate

---
 cli/coniksserver/internal/cmd/init.go | 33 ++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/init.go b/cli/coniksserver/internal/cmd/init.go
index 198f9cc..2e62191 100644
--- a/cli/coniksserver/internal/cmd/init.go
+++ b/cli/coniksserver/internal/cmd/init.go
@@ -1,7 +1,9 @@
 package cmd
 
 import (
+	"io/ioutil"
 	"log"
+	"os"
 	"path"
 	"strconv"
 
@@ -32,7 +34,36 @@ func initRunFunc(cmd *cobra.Command, args []string) {
 
 	cert, err := strconv.ParseBool(cmd.Flag("cert").Value.String())
 	if err == nil && cert {
-		testutil.CreateTLSCert(dir)
+		mkTLSCert(dir)
+	}
+}
+
+// mkTLSCert doesn't overwrite existing files: it moves a new pair there from
+// a temporary directory.
+func mkTLSCert(dir string) {
+	tmp, err := ioutil.TempDir("", "coniksserver")
+	if err != nil {
+		log.Println(err)
+		return
+	}
+	defer os.RemoveAll(tmp)
+	if err := testutil.CreateTLSCert(tmp); err != nil {
+		log.Println(err)
+		return
+	}
+	for _, f := range []struct {
+		name string
+		perm os.FileMode
+	}{{"server.key", 0600}, {"server.pem", 0644}} {
+		buf, err := ioutil.ReadFile(path.Join(tmp, f.name))
+		if err != nil {
+			log.Println(err)
+			return
+		}
+		if err := utils.WriteFile(path.Join(dir, f.name), buf, f.perm); err != nil {
+			log.Println(err)
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 5b690c8cfb5041240872ee4933eae0c259f3ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 20/21] fix: the process id file holds nothing of a longer,
 older id

---
 cli/coniksserver/internal/cmd/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/run.go b/cli/coniksserver/internal/cmd/run.go
index 36fb2fe..e7a5cb9 100644
--- a/cli/coniksserver/internal/cmd/run.go
+++ b/cli/coniksserver/internal/cmd/run.go
@@ -50,7 +50,7 @@ func run(cmd *cobra.Command, args []string) {
 }
 
 func writePID() {
-	pidf, err := os.OpenFile(path.Join(".", "coniks.pid"), os.O_CREATE|os.O_WRONLY, 0666)
+	pidf, err := os.OpenFile(path.Join(".", "coniks.pid"), os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
 	if err != nil {
 		log.Printf("Cannot create coniks.pid: %v", err)
 		return
-- 
2.43.0


From a80ff6241d32ee38150a81b8126006edd90d790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 21/21] fix: a configuration's path is where it was loaded
 from, not where it was first written

---
 application/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/application/config.go b/application/config.go
index 97487c1..20f8097 100644
--- a/application/config.go
+++ b/application/config.go
@@ -26,9 +26,9 @@ type AppConfig interface {
 // values including the file path, logger configuration, and config
 // loader.
 type CommonConfig struct {
-	Path     string
+	Path     string        `toml:"-"` // where the file is now, not where it was written
 	Logger   *LoggerConfig `toml:"logger"`
-	Encoding string
+	Encoding string        `toml:"-"`
 	loader   ConfigLoader
 }
 
-- 
2.43.0

