From 1c436b3dc43bc2ea79ca0344d3f77052960ce0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 01/20] fix: commit to the updated sum at its own index when a
 leaf layer vertex changes

---
 verkle/tree.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..20e89bd 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -401,9 +401,7 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	new := descendants[index].(int64)
 	newVal := c.NewZrFromInt(new)
 
-	v.sum = updateSum(v.sum, oldVal, newVal)
-
-	// Update index with new value
+	// The vector that is currently committed to
 	m := make(common.Vec, t.PP.N)
 	for i := 0; i < len(m); i++ {
 		if val, exists := v.values[uint16(i)]; exists {
@@ -413,15 +411,19 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 		}
 	}
 
-	// Artificially append the sum
-	m = append(m, v.sum)
+	// The sum resides right before the blinding factor
+	sumIndex := len(m) - 2
+	m[sumIndex] = v.sum
+	m[sumIndex+1] = v.BlindingFactor
+
+	v.sum = updateSum(v.sum, oldVal, newVal)
 
 	// Update index with new value
 	pp.Update(t.PP, v.V, m, newVal, index)
 	v.values[uint16(index)] = newVal
 
-	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	// Update the sum
+	pp.Update(t.PP, v.V, m, v.sum, sumIndex)
 
 	return key
 }
-- 
2.43.0


From 5724cd6d321f9e0756e9eac25a7e2dcf23c5a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 02/20] fix: do not return a stale root after the liability set
 changed

---
 pol/pol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..1b51657 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -51,11 +51,14 @@ func (pp *PublicParams) Size() int {
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
 // Only a fan-out of the form 2^k - 1 for some natural k is permitted.
 func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint16) *LiabilitySet {
+	// The tree writes through the memorized root, otherwise the latter turns stale.
+	db = &DBMemorizeRoot{DB: db}
+
 	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
 	tree.PP = pp.PPPP
 
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   db,
 		pp:   pp,
 		tree: tree,
 	}
-- 
2.43.0


From 95c9927524e8b2d0c5d8028084905ec21410cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 03/20] fix: pad paths of small decimal identifiers to the full
 path length

---
 sparse/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..76ef402 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -150,7 +150,7 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		}
 
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
-- 
2.43.0


From 4e9a154e04c794d5bd6b85e51fb807c9d6351616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 04/20] fix: refuse signs in decimal identifiers

---
 sparse/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparse/tree.go b/sparse/tree.go
index 76ef402..492f9db 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -137,6 +137,11 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
+		for _, digit := range []byte(s) {
+			if digit < '0' || digit > '9' {
+				panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
+			}
+		}
 		num, err := strconv.ParseInt(s, 10, 32)
 		if err != nil {
 			panic(fmt.Sprintf("%s is not a valid decimal number", s))
-- 
2.43.0


From 469e0911799b59bfa90d61b4c131185cfc0f68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 05/20] fix: refuse hexadecimal identifiers with a sign or
 without exactly 64 digits

---
 sparse/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparse/tree.go b/sparse/tree.go
index 492f9db..99b76e2 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -207,6 +207,11 @@ func HexId2PathForFanOut(fanout uint16) func(string) []uint16 {
 	}
 
 	return func(s string) []uint16 {
+		// A sign or a different amount of digits would let different identifiers share a path.
+		if _, err := hex.DecodeString(s); err != nil || len(s) != 2*sha256.Size {
+			panic(fmt.Sprintf("%s is not a hexadecimal number of %d digits", s, 2*sha256.Size))
+		}
+
 		expectedPathLen := ExpectedHexPathLengthByFanOut[fanout]
 
 		for {
-- 
2.43.0


From 9cd3fd68f7cfcb24627131ec657ac64ca86600a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 06/20] fix: refuse liability proofs with missing or surplus
 vertices or range proofs

---
 pol/pol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 1b51657..3cb0d30 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -130,6 +130,10 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
+	// Surplus vertices would not be authenticated by the root
+	if len(lp.V) != len(path) || len(lp.RangeProofs) != len(path) {
+		return nil, fmt.Errorf("expected %d vertices and range proofs but got %d and %d", len(path), len(lp.V), len(lp.RangeProofs))
+	}
 
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
-- 
2.43.0


From b87467c235577a647d05875466a8caab5b005c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 07/20] fix: bind the aggregated opening of a liability proof
 to the digests of its vertices

---
 pol/pol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 3cb0d30..3c2a89d 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -199,6 +199,15 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		}
 	}
 
+	// The aggregated opening must be of the digests the vertices were checked against
+	t := make(common.Vec, len(path)-1)
+	for i := 0; i < len(t); i++ {
+		t[i] = pp.RO(publicParams.PPPP, lp.W, i)
+	}
+	if !lp.Digests[:len(t)].InnerProd(t).Equals(lp.PointProofΣ) {
+		return nil, fmt.Errorf("hash chain aggregation proof is not of the digests in the proof")
+	}
+
 	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
-- 
2.43.0


From 1f67a99d93e61efc3f9861fafb2f920c785a7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 08/20] fix: do not verify an opening against the negation of
 the opened value

---
 pp/pointproofs.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..12ce30f 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -116,7 +116,7 @@ func Open(pp *PP, i int, m common.Vec) (mi *math.Zr, π *math.G1) {
 func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	left := common.G1v{C}.InnerProd(common.G2v{pp.G2s[pp.N-i-1]})
 	right := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right.Mul(pp.Gt.Exp(mi))
+	right.Mul(expGt(pp.Gt, mi))
 
 	if left.Equals(right) {
 		return nil
@@ -157,7 +157,7 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	left := commitments.InnerProd(g2s.Mulv(exponents))
 
 	πg2 := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right := pp.Gt.Exp(Σ)
+	right := expGt(pp.Gt, Σ)
 	right.Mul(πg2)
 
 	if right.Equals(left) {
@@ -167,6 +167,13 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	return fmt.Errorf("invalid aggregation")
 }
 
+// expGt returns g^x. The sign of x is ignored by the exponentiation, so x is reduced first.
+func expGt(g *math.Gt, x *math.Zr) *math.Gt {
+	x = x.Copy()
+	x.Mod(GroupOrder)
+	return g.Exp(x)
+}
+
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-- 
2.43.0


From 18ca73ae4f9515017f46384f098744f5c45f042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 09/20] fix: refuse negative totals

---
 pol/pol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 3c2a89d..076fc88 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -288,6 +288,9 @@ type TotalProof struct {
 }
 
 func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) error {
+	if tp.Sum < 0 {
+		return fmt.Errorf("total liabilities cannot be negative")
+	}
 	mi := common.IntToZr(tp.Sum)
 	return pp.Verify(publicParams.PPPP, mi, tp.LiabilityProof, V, publicParams.Fanout)
 }
-- 
2.43.0


From 4f224570f440a68e36da7d133fbe42133030d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 10/20] fix: give every commitment of an aggregation its own
 challenge

---
 pp/pointproofs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 12ce30f..d78120d 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -3,6 +3,7 @@ package pp
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 	"pol/common"
 
@@ -177,7 +178,9 @@ func expGt(g *math.Gt, x *math.Zr) *math.Gt {
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	index := make([]byte, 4)
+	binary.BigEndian.PutUint32(index, uint32(i))
+	h.Write(index)
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0


From 39b791d188c7d18025b24a9556d6f04df612fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 11/20] fix: derive the inner product challenge from the
 statement

---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..a8baf92 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -104,7 +104,8 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	hashPreImage = append(hashPreImage, c.Bytes()...)
+	hashPreImage = append(hashPreImage, pp.Digest...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From 3013b7da9d2c7a028252f0c0cad9c7ab86b4dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 12/20] fix: do not modify proofs while verifying them

---
 bp/range.go | 7 ++++---
 poe/poe.go  | 7 ++++---
 sum/sa.go   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/bp/range.go b/bp/range.go
index 7e0f9a9..a663001 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -133,9 +133,10 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 	ipaPP.H = Fprime
 	ipaPP.RecomputeDigest()
 
-	rp.Π.C = rp.c
-	rp.Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
-	if err := rp.Π.Verify(ipaPP); err != nil {
+	Π := *rp.Π
+	Π.C = rp.c
+	Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
+	if err := Π.Verify(ipaPP); err != nil {
 		return fmt.Errorf("inner product proof invalid: %v", err)
 	}
 
diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..a5cdc3a 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -119,10 +119,11 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 
 	bpPP.RecomputeDigest()
 
-	proof.IPP.C = proof.c
-	proof.IPP.P = P
+	ipp := *proof.IPP
+	ipp.C = proof.c
+	ipp.P = P
 
-	return proof.IPP.Verify(bpPP)
+	return ipp.Verify(bpPP)
 
 }
 
diff --git a/sum/sa.go b/sum/sa.go
index a341649..b00650d 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -198,9 +198,10 @@ func (proof *Proof) Verify(pp *PP, a *Argument) error {
 
 	ipaPP.RecomputeDigest()
 
-	proof.π.C = proof.c.Mul(x)
-	proof.π.P = P
-	return proof.π.Verify(ipaPP)
+	π := *proof.π
+	π.C = proof.c.Mul(x)
+	π.P = P
+	return π.Verify(ipaPP)
 }
 
 func negZr(x *math.Zr) *math.Zr {
-- 
2.43.0


From e53cb6535ed015ef0d533cee9744d54defb85225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 13/20] fix: serialize the vertices of the tree

---
 verkle/tree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 20e89bd..47e6d83 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -189,11 +189,12 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 
 func (t *Tree) Serialize(out io.Writer) {
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
-		_, isVertex := data.(*Vertex)
+		// Inner vertices are referenced by their key in the DB
+		key, isVertex := data.(string)
 		if !isVertex {
 			return nil
 		}
-		return data.(*Vertex).Bytes()
+		return t.fetchVertex(key).Bytes()
 	})
 }
 
-- 
2.43.0


From 82b7b1e68e08f2e00c9549cf97a6b3c7d2047563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 14/20] fix: refuse proofs with missing or surplus elements
 instead of crashing or ignoring them

---
 bp/innerprod.go | 4 ++++
 bp/ir.go        | 5 +++++
 poe/poe.go      | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a8baf92..0836440 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -133,6 +134,9 @@ func (ipa *InnerProdArgument) Prove() *InnerProductProof {
 }
 
 func (ipp *InnerProductProof) Verify(pp *PP) error {
+	if expected := 2 * (bits.Len(uint(len(pp.G))) - 1); len(ipp.LRs) != expected {
+		return fmt.Errorf("expected %d elements but got %d", expected, len(ipp.LRs))
+	}
 	pp, P := computeInstanceSpecificParams(pp, ipp.P, ipp.C)
 	return verify(pp, P, pp.G, pp.H, ipp.LRs, ipp.a, ipp.b)
 }
diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..844e1c6 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -14,6 +15,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 		panic(fmt.Sprintf("G Public Parameter should be a group vector of length that is power of two but its length is %d", n))
 	}
 
+	if rounds := bits.Len(uint(n)) - 1; len(Δ) != rounds {
+		return nil, nil, fmt.Errorf("expected %d rounds but got %d", rounds, len(Δ))
+	}
+
 	n /= 2
 
 	G := common.G1v(pp.G)
diff --git a/poe/poe.go b/poe/poe.go
index a5cdc3a..5e6460f 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,10 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.V) {
+		return fmt.Errorf("expected %d masked commitments but got %d and %d", len(e.V), len(proof.Vaggr), len(proof.Waggr))
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
-- 
2.43.0


From 2456602e31d5179358dd3aef25e3052c36d7e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 15/20] fix: account for all elements in the reported sizes

---
 pol/pol.go | 3 ++-
 sum/sa.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 076fc88..fbd7ee9 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -45,7 +45,7 @@ type PublicParams struct {
 }
 
 func (pp *PublicParams) Size() int {
-	return pp.RPPP.Size() + pp.POEPP.Size() + pp.SAPP.Size() - len(pp.SAPP.Gs.Bytes()) - len(pp.SAPP.F.Bytes()) - len(pp.RPPP.Gs.Bytes()) - len(pp.RPPP.F.Bytes()) - pp.PPPP.Size()
+	return pp.RPPP.Size() + pp.POEPP.Size() + pp.SAPP.Size() - len(pp.SAPP.Gs.Bytes()) - len(pp.SAPP.F.Bytes()) - len(pp.RPPP.Gs.Bytes()) - len(pp.RPPP.F.Bytes())
 }
 
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
@@ -121,6 +121,7 @@ func (lp LiabilityProof) Size() int {
 		size += rp.Size()
 	}
 	size += lp.EqualityProof.Size()
+	size += len(lp.LiabilityProof.LiabilityProof.Bytes())
 	return size
 }
 
diff --git a/sum/sa.go b/sum/sa.go
index b00650d..7be46c7 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -103,7 +103,7 @@ func createHVZKChallenge(V common.G1v, m int) common.Vec {
 }
 
 func (proof *Proof) Size() int {
-	return len(proof.c.Bytes()) + len(proof.W.Bytes()) + len(proof.ρ.Bytes())
+	return len(proof.c.Bytes()) + len(proof.W.Bytes()) + len(proof.ρ.Bytes()) + proof.π.Size()
 }
 
 func (proof *Proof) VerifyAggregated(pp *PP, V common.G1v) error {
-- 
2.43.0


From 9b25f09cb66205ca7f72b34a1766504d992656d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 16/20] fix: refuse unsupported fan-outs instead of looping
 forever

---
 common/math.go | 2 +-
 sparse/tree.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index f1c29e8..3e3168c 100644
--- a/common/math.go
+++ b/common/math.go
@@ -496,7 +496,7 @@ func feFrom256Bits(bytes []byte) *fr.Element {
 }
 
 func IsPowerOfTwo(n uint16) bool {
-	if n == 1 {
+	if n < 2 {
 		return false
 	}
 
diff --git a/sparse/tree.go b/sparse/tree.go
index 99b76e2..4ada96c 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -164,6 +164,10 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 }
 
 func DigitPathLen(fanout uint16) int {
+	if fanout < 2 {
+		panic(fmt.Sprintf("a fanout of %d is not supported!", fanout))
+	}
+
 	fo := big.NewInt(0).SetInt64(int64(fanout))
 
 	space := big.NewInt(0).Exp(big.NewInt(10), big.NewInt(9), nil)
-- 
2.43.0


From 1805567b62fd196787897b44ab5f2286e2caeb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 17/20] fix: check sums of vectors to be committed in the field

---
 sum/sa.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sum/sa.go b/sum/sa.go
index 7be46c7..acdd69f 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -127,7 +127,12 @@ func NewCommitment(pp *PP, v common.Vec, r *math.Zr) *Argument {
 		sum = sum.Plus(v[i])
 	}
 
-	if !v[n-1].Equals(sum) {
+	// Both sides are field elements but might not be reduced
+	last := v[n-1].Copy()
+	last.Mod(GroupOrder)
+	sum.Mod(GroupOrder)
+
+	if !last.Equals(sum) {
 		panic("v[n-1] != Σv[j] j: 0->n-2")
 	}
 
-- 
2.43.0


From 5c8ef47336403960520aa818c358d4f1aeb46da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 18/20] fix: draw a fresh blinding factor whenever a vertex is
 updated

An updated vertex kept its blinding factor, so its former and new commitment
differed by the assigned amount only, and a guess of it could be confirmed.
---
 verkle/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 47e6d83..1b840b6 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -322,7 +322,8 @@ func (t *Tree) updateInnerLayer(key string, node interface{}, descendants []inte
 	// Artificially append the sum
 	m[len(m)-2] = v.sum
 
-	// Artificially append the blinding factor
+	// Artificially append the blinding factor. A former one would reveal how the vertex changed.
+	v.BlindingFactor = c.NewRandomZr(rand.Reader)
 	m[len(m)-1] = v.BlindingFactor
 
 	//pp.Update(t.PP, v.V, m, newVal, index)
@@ -426,6 +427,10 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	// Update the sum
 	pp.Update(t.PP, v.V, m, v.sum, sumIndex)
 
+	// Update the blinding factor. A former one would reveal how the vertex changed.
+	v.BlindingFactor = c.NewRandomZr(rand.Reader)
+	pp.Update(t.PP, v.V, m, v.BlindingFactor, sumIndex+1)
+
 	return key
 }
 
-- 
2.43.0


From c10bbe3134d444e5dfb3d2daf2f8292dcf9e043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 19/20] fix: refuse a fan-out of 1 for dense identifiers, whose
 mapping never ended

---
 sparse/tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index 4ada96c..b965c68 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -133,6 +133,9 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		panic(fmt.Sprintf("fanout %d+1 is not a power of two", fanout))
 	}
 
+	// Refuses a fanout of 1, in which numbers have no expansion
+	pathLen := DigitPathLen(fanout)
+
 	return func(s string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
@@ -154,7 +157,6 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 			num /= int64(fanout)
 		}
 
-		pathLen := DigitPathLen(fanout)
 		for len(res) < pathLen {
 			res = append(res, 0)
 		}
-- 
2.43.0


From 2c494b0766d4c11f0eb443ba3b949a06ff3645e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 20/20] fix: chain the challenges of an inner product proof's
 rounds

Each round's challenge was the hash of its two messages and of the statement
only, so two rounds with the same messages had the same challenge. A prover
could use this to have twice, or half, the product accepted.
---
 bp/innerprod.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 0836440..a586e4c 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -160,6 +160,7 @@ func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *
 
 	nextParams := computeNextParams(L, R, pp, g, h, P)
 
+	pp = nextParams.pp
 	g = nextParams.g
 	h = nextParams.h
 	P = nextParams.P
@@ -198,6 +199,7 @@ func prove(pp *PP, a, b common.Vec, P *math.G1, g, h common.G1v) ([]*math.G1, []
 
 	x := nextParams.x
 	xInverse := nextParams.xInverse
+	pp = nextParams.pp
 	P = nextParams.P
 	g = nextParams.g
 	h = nextParams.h
@@ -213,6 +215,7 @@ func prove(pp *PP, a, b common.Vec, P *math.G1, g, h common.G1v) ([]*math.G1, []
 }
 
 type nextParams struct {
+	pp          *PP
 	x, xInverse *math.Zr
 	g, h        common.G1v
 	P           *math.G1
@@ -239,7 +242,12 @@ func computeNextParams(L *math.G1, R *math.G1, pp *PP, g common.G1v, h common.G1
 	nextP.Add(P)
 	nextP.Add(R2)
 
+	// The next challenge depends on this one too, otherwise rounds of equal messages would share a challenge
+	nextPP := *pp
+	nextPP.Digest = digest
+
 	return nextParams{
+		pp:       &nextPP,
 		x:        x,
 		xInverse: xInverse,
 		g:        nextG,
-- 
2.43.0

