From fa50acbf80710aec8412d6a4d1fb24b8019472a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 01/24] fix: derive a field element from its bytes
 deterministically

In the rare case when the bytes convert to 2^31-1, toElement drew new
randomness, so that the parties of the FSS protocol derived different
elements from the same seed (and the unmasked new draw could exceed the
field).
---
 lib/field/field.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index a26387e..a28bf55 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -25,23 +25,19 @@ func NegateVector(in []uint32) []uint32 {
 	return in
 }
 
-// Element converts input bytes into a field toElement.
-// It sources a new random byte string in the rare case
-// when the input bytes convert to ModP
+// toElement converts input bytes into a field element. The conversion is a
+// function of the input only, because the parties of a protocol have to
+// derive the same element from the same bytes: in the rare case when the
+// input bytes convert to ModP, the result is the representative of ModP in
+// the field, i.e. zero.
 func toElement(in []byte) uint32 {
 	// Clearing the top most bit of uint32
 	in[0] &= Mask
 	// Take the first Bytes bytes
 	//out := *(*uint32)(unsafe.Pointer(&in))
 	out := binary.BigEndian.Uint32(in[:Bytes])
-	// Make sure that toElement is not equal 2^31 - 1
-	for out == ModP {
-		var buf [Bytes]byte
-		_, err := utils.RandomPRG().Read(buf[:])
-		if err != nil {
-			panic("error in randomness")
-		}
-		out = binary.BigEndian.Uint32(buf[:])
+	if out == ModP {
+		out = 0
 	}
 	return out
 }
-- 
2.43.0


From e9bfab936710056374948a353e181a05c8587b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 02/24] fix: mask every element of the last FSS correction word

convertBlock derived floor(n/4) AES blocks for n elements, so that the last
element of five (the authenticated scheme) and the only element of one (the
unauthenticated scheme) were derived from zeros: the final correction word
held them in the clear, or negated.
---
 lib/fss/client.go |  2 +-
 lib/fss/common.go | 21 +++++++++++++++++++--
 lib/fss/server.go |  2 +-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/fss/client.go b/lib/fss/client.go
index 9d2ebbf..16f0669 100644
--- a/lib/fss/client.go
+++ b/lib/fss/client.go
@@ -30,7 +30,7 @@ func ClientInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*initPRFLen)
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
+	f.OutConvertBlock = make([]byte, convertBlocks(blockLength)*aes.BlockSize)
 
 	return f
 }
diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..6c7c3a4 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -65,8 +65,25 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 	}
 }
 
+// convertBlocks returns the number of AES blocks needed to derive n field
+// elements: we can generate four uint32 numbers with a 16-bytes AES block
+func convertBlocks(n int) int {
+	return (n*field.Bytes + aes.BlockSize - 1) / aes.BlockSize
+}
+
 func convertBlock(f Fss, x []byte, out []uint32) {
-	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
+	in := make([]byte, aes.BlockSize)
+	copy(in, x)
+	numKeys := len(f.FixedBlocks)
+	blocks := convertBlocks(len(out))
+	for i := 0; i < blocks; i += numKeys {
+		// change the input at every pass over the fixed keys
+		in[0] = x[0] ^ byte(i/numKeys)
+		n := blocks - i
+		if n > numKeys {
+			n = numKeys
+		}
+		prf(in, f.FixedBlocks, uint(n), f.Temp, f.OutConvertBlock[i*aes.BlockSize:])
+	}
 	field.BytesToElements(out, f.OutConvertBlock)
 }
diff --git a/lib/fss/server.go b/lib/fss/server.go
index ea404c2..a7de64c 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -26,7 +26,7 @@ func ServerInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*len(PrfKeys))
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
+	f.OutConvertBlock = make([]byte, convertBlocks(blockLength)*aes.BlockSize)
 
 	return f
 }
-- 
2.43.0


From 67df096bbf573267647faaf4ea9b2c1aae65ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 03/24] fix: evaluate time predicates independently of the time
 zone

Two servers (or a client and a server) in different zones encoded the same
creation time differently and so evaluated the key on different inputs.
---
 lib/query/query.go | 5 +++--
 lib/server/fss.go  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index e150f60..3127369 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -191,7 +191,8 @@ func (i *Info) IdForPubKeyAlgo(pka packet.PublicKeyAlgorithm) []bool {
 }
 
 func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
-	binaryMatch, err := t.MarshalBinary()
+	// the encoding includes the zone, which is not part of the instant
+	binaryMatch, err := t.UTC().MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +200,7 @@ func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
 }
 
 func (i *Info) IdForYearCreationTime(t time.Time) ([]bool, error) {
-	y := uint32(t.Year())
+	y := uint32(t.UTC().Year())
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, y)
 	return utils.ByteToBits(b), nil
diff --git a/lib/server/fss.go b/lib/server/fss.go
index dd2a920..92a99ad 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -116,7 +116,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
+			diffYears := time.Now().UTC().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From 636daaf3255314220b19267b44e1395d131b33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 04/24] fix: return an error for the average of no matches

The client divided by the reconstructed count and crashed.
---
 lib/client/fss.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..52843be 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -111,6 +111,11 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		// without any match there is nothing to average
+		if dataCount == 0 {
+			return 0, errors.New("no match, average undefined")
+		}
+
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From 63da09cbd68f838e604de93534766bd2d5ba85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 05/24] fix: refuse point queries with a negative index or
 fewer than two servers

The two conditions were combined with &&, so that a query to one server
contained the position in the clear.
---
 lib/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..2ad31d8 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -88,7 +88,7 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 
 // return true if the query inputs are invalid for IT schemes
 func invalidQueryInputsIT(index, numServers int) bool {
-	return index < 0 && numServers < 2
+	return index < 0 || numServers < 2
 }
 
 func invalidQueryInputsFSS(numServers int) bool {
-- 
2.43.0


From 762258adfb132d3ca269e59856fb4d79fae16213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 06/24] fix: generate Merkle proofs by position

Proofs were looked up by the contents of the block and their length computed
from the number of distinct blocks: databases with repeated (for example
empty) records got proofs for another position, or crashed.
---
 lib/database/merkle.go   |  7 ++++---
 lib/merkle/merkletree.go | 21 ++++++++++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..22f50ef 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,11 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+// generateMerkleProofs processes the blocks stored from index first on
+func generateMerkleProofs(data [][]byte, first int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		p, err := t.GenerateProofAt(uint32(first + b))
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..85a6742 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"hash/fnv"
 	"math"
+	"math/bits"
 )
 
 // MerkleTree is the structure for the Merkle tree.
@@ -58,8 +59,17 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
-	hashes := make([][]byte, proofLen)
+	return t.GenerateProofAt(index)
+}
+
+// GenerateProofAt generates the proof for the piece of data at the given
+// index, also when the same piece of data is stored at several indices.
+func (t *MerkleTree) GenerateProofAt(index uint32) (*Proof, error) {
+	if int(index) >= len(t.nodes)/2 {
+		return nil, errors.New("index out of range")
+	}
+
+	hashes := make([][]byte, t.depth())
 
 	cur := 0
 	minI := uint32(math.Pow(2, float64(1))) - 1
@@ -70,11 +80,16 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 	return newProof(hashes, index), nil
 }
 
+// depth returns the number of hashes in a proof
+func (t *MerkleTree) depth() int {
+	return bits.Len(uint(len(t.nodes)/2)) - 1
+}
+
 // EncodedProofLength returns the byte length of the proof for a piece of data.
 // 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return t.depth()*t.hash.HashLength() + numHashesByteSize + indexByteSize
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
-- 
2.43.0


From d9fcba3850c127e82f84d4e0effcfb711b547e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 07/24] fix: return errors for malformed point, Merkle and
 predicate answers

Answers that are too short, blocks without padding, encoded proofs with a
wrong number of hashes and predicate answers of differing or unexpected
lengths crashed the client.
---
 lib/client/client.go |  9 +++++++++
 lib/client/fss.go    |  8 ++++++++
 lib/database/pgp.go  |  4 ++++
 lib/merkle/proof.go  | 11 ++++++++++-
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 2ad31d8..b48a91e 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -56,11 +56,17 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 			return block, err
 		}
 		block = database.UnPadBlock(block)
+		if len(block) < dbInfo.ProofLen {
+			return nil, errors.New("REJECT!")
+		}
 		data := block[:len(block)-dbInfo.ProofLen]
 
 		// check Merkle proof
 		encodedProof := block[len(block)-dbInfo.ProofLen:]
 		proof := merkle.DecodeProof(encodedProof)
+		if proof == nil {
+			return nil, errors.New("REJECT!")
+		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
 			log.Fatalf("impossible to verify proof: %v", err)
@@ -80,6 +86,9 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 	bs := dbInfo.BlockSize
 	sum := make([]byte, bs)
 	for k := range answers {
+		if len(answers[k]) < bs*(state.ix+1) {
+			return nil, errors.New("answer too short")
+		}
 		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
 	}
 
diff --git a/lib/client/fss.go b/lib/client/fss.go
index 52843be..e520fa9 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -81,6 +81,14 @@ func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
 }
 
 func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
+	// the answers come from the servers and can have any length
+	if len(answers) != 2 || len(answers[0]) != len(answers[1]) {
+		return 0, errors.New("malformed answers")
+	}
+	if n := len(answers[0]); n != c.executions && n != 2*c.executions {
+		return 0, errors.New("malformed answers")
+	}
+
 	// AVG case
 	if len(answers[0]) == 2*c.executions {
 		countFirst := answers[0][:c.executions]
diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..ec7c0e5 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -176,6 +176,10 @@ func UnPadBlock(block []byte) []byte {
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	// no padding at all
+	if len(block) == 0 {
+		return block
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..d3e8bd4 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -77,12 +77,21 @@ func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	return proofHash
 }
 
+// DecodeProof returns nil if p is not the encoding of a proof.
 func DecodeProof(p []byte) *Proof {
+	hashLength := uint32(32) // blake3
+
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil
+	}
+
 	// number of hashes
 	numHashes := binary.LittleEndian.Uint32(p[:numHashesByteSize])
+	if uint64(numHashes)*uint64(hashLength) != uint64(len(p)-numHashesByteSize-indexByteSize) {
+		return nil
+	}
 
 	// hashes
-	hashLength := uint32(32) // blake3
 	hashes := make([][]byte, numHashes)
 	for i := uint32(0); i < numHashes; i++ {
 		hashes[i] = p[4+hashLength*i : 4+hashLength*(i+1)]
-- 
2.43.0


From 4fbeb17425fa404e69af5e1bd169c241eb4f2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 08/24] fix: check that a Merkle proof is for the queried block

The client accepted a correct block of the database with its proof, even
when it was not the block at the queried position.
---
 lib/client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/client/client.go b/lib/client/client.go
index b48a91e..e5c9de8 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -67,6 +67,10 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 		if proof == nil {
 			return nil, errors.New("REJECT!")
 		}
+		// the proof has to be for the block that was queried
+		if uint64(proof.Index) != uint64(state.ix*dbInfo.NumColumns+state.iy) {
+			return nil, errors.New("REJECT!")
+		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
 			log.Fatalf("impossible to verify proof: %v", err)
-- 
2.43.0


From d98ec5834d91de83fdcfe5812dadb030936e7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 09/24] fix: give random matrices the length of their contents

The slice of bytes was reinterpreted as a slice of 32-bit elements with the
length in bytes: additions, encodings and accesses reached four times beyond
the end of the allocation.
---
 lib/matrix/matrix.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 4774d85..9faaca1 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -108,8 +108,10 @@ func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 
 	m := New(r, c)
 
-	// ugly hack for performance
-	m.data = *(*[]uint32)(unsafe.Pointer(&b))
+	// ugly hack for performance: view the bytes as the r*c elements they are
+	if len(m.data) > 0 {
+		m.data = unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), r*c)
+	}
 
 	return m
 }
-- 
2.43.0


From e459b89697c268da0ab4d462f502c8aac4fb13c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 10/24] fix: return errors for malformed lattice queries and
 answers

Encodings that are too short or contradict their dimensions crashed clients
and servers of the LWE schemes.
---
 lib/client/amplify.go   |  4 ++++
 lib/client/lwe.go       |  5 +++++
 lib/client/lwe128.go    |  5 +++++
 lib/matrix/matrix.go    | 25 +++++++++++++++++++++++++
 lib/matrix/matrix128.go |  4 ++++
 lib/server/amplify.go   | 13 ++++++++++++-
 lib/server/lwe.go       |  8 +++++++-
 lib/server/lwe128.go    |  8 +++++++-
 8 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 18ac684..12188f1 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -46,6 +46,10 @@ func (a *Amplify) QueryBytes(index int) ([]byte, error) {
 }
 
 func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
+	if len(answers) != a.repetitions {
+		return 0, errors.New("malformed answer")
+	}
+
 	outputs := make([]uint32, a.repetitions)
 	var err error
 	for i := range outputs {
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index 4e03463..0c12ce9 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -72,6 +72,11 @@ func (c *LWE) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE) Reconstruct(answers *matrix.Matrix) (uint32, error) {
+	// the answer comes from the server and can have any shape
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("malformed answer")
+	}
+
 	s_trans_d := matrix.Mul(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1835bdf..dc0d30e 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -73,6 +73,11 @@ func (c *LWE128) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE128) Reconstruct(answers *matrix.Matrix128) (uint32, error) {
+	// the answer comes from the server and can have any shape
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("malformed answer")
+	}
+
 	s_trans_d := matrix.Mul128(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 9faaca1..4bad229 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -47,7 +47,22 @@ func MatrixToBytes(in *Matrix) []byte {
 	return append(params, utils.Uint32SliceToByteSlice(in.data)...)
 }
 
+// validEncoding tells whether in encodes a matrix with elements of elemSize
+// bytes: the dimensions followed by the elements.
+func validEncoding(in []byte, elemSize int) bool {
+	if len(in) < 8 || (len(in)-8)%elemSize != 0 {
+		return false
+	}
+	rows := uint64(binary.BigEndian.Uint32(in[:4]))
+	cols := uint64(binary.BigEndian.Uint32(in[4:8]))
+	return rows*cols == uint64((len(in)-8)/elemSize)
+}
+
+// BytesToMatrix returns nil if in is not the encoding of a matrix.
 func BytesToMatrix(in []byte) *Matrix {
+	if !validEncoding(in, 4) {
+		return nil
+	}
 	// retrieve the matrix dimensions
 	r := in[:4]
 	rows := int(binary.BigEndian.Uint32(r))
@@ -83,9 +98,16 @@ func MatricesToBytes(in []*Matrix) []byte {
 	return out
 }
 
+// BytesToMatrices returns nil if in is not the encoding of a list of matrices.
 func BytesToMatrices(in []byte) []*Matrix {
+	if len(in) < 4 {
+		return nil
+	}
 	// retrieve length of single encoded matrix
 	length := int(binary.BigEndian.Uint32(in[:4]))
+	if length == 0 || (len(in)-4)%length != 0 {
+		return nil
+	}
 
 	// how many matrices?
 	n := uint32((len(in) - 4) / length)
@@ -94,6 +116,9 @@ func BytesToMatrices(in []byte) []*Matrix {
 
 	for i := range out {
 		out[i] = BytesToMatrix(in[4+i*length : 4+(i+1)*length])
+		if out[i] == nil {
+			return nil
+		}
 	}
 
 	return out
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index a0f6ab2..51698b2 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -43,7 +43,11 @@ func Matrix128ToBytes(in *Matrix128) []byte {
 	return append(params, out...)
 }
 
+// BytesToMatrix128 returns nil if in is not the encoding of a matrix.
 func BytesToMatrix128(in []byte) *Matrix128 {
+	if !validEncoding(in, 16) {
+		return nil
+	}
 	// retrieve the matrix dimensions
 	rows := int(binary.BigEndian.Uint32(in[:4]))
 	cols := int(binary.BigEndian.Uint32(in[4:]))
diff --git a/lib/server/amplify.go b/lib/server/amplify.go
index aaaaabb..550db78 100644
--- a/lib/server/amplify.go
+++ b/lib/server/amplify.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -29,7 +31,16 @@ func (a *Amplify) Answer(qq []*matrix.Matrix) []*matrix.Matrix {
 }
 
 func (a *Amplify) AnswerBytes(qq []byte) ([]byte, error) {
-	ans := a.Answer(matrix.BytesToMatrices(qq))
+	queries := matrix.BytesToMatrices(qq)
+	if len(queries) == 0 {
+		return nil, errors.New("malformed query")
+	}
+	for _, q := range queries {
+		if q.Rows() != 1 || q.Cols() != a.lwe.db.NumRows {
+			return nil, errors.New("malformed query")
+		}
+	}
+	ans := a.Answer(queries)
 
 	// encode
 	return matrix.MatricesToBytes(ans), nil
diff --git a/lib/server/lwe.go b/lib/server/lwe.go
index 8cc167d..47e9c83 100644
--- a/lib/server/lwe.go
+++ b/lib/server/lwe.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,11 @@ func (s *LWE) DBInfo() *database.Info {
 }
 
 func (s *LWE) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix(q))
+	m := matrix.BytesToMatrix(q)
+	if m == nil || m.Rows() != 1 || m.Cols() != s.db.NumRows {
+		return nil, errors.New("malformed query")
+	}
+	a := s.Answer(m)
 	return matrix.MatrixToBytes(a), nil
 }
 
diff --git a/lib/server/lwe128.go b/lib/server/lwe128.go
index caed9cb..4f15bc2 100644
--- a/lib/server/lwe128.go
+++ b/lib/server/lwe128.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,11 @@ func (s *LWE128) DBInfo() *database.Info {
 }
 
 func (s *LWE128) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix128(q))
+	m := matrix.BytesToMatrix128(q)
+	if m == nil || m.Rows() != 1 || m.Cols() != s.db.NumRows {
+		return nil, errors.New("malformed query")
+	}
+	a := s.Answer(m)
 	return matrix.Matrix128ToBytes(a), nil
 }
 
-- 
2.43.0


From 35bef69b0f9b9998482950446de229d5abe321d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 11/24] fix: use the same bound on both sides in the 128-bit
 LWE client

Values of -B-1 and -B were accepted as noise.
---
 lib/client/lwe128.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index dc0d30e..b0fe358 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -101,7 +101,7 @@ func (c *LWE128) ReconstructBytes(a []byte) (uint32, error) {
 }
 
 func (c *LWE128) inRange(val uint128.Uint128) bool {
-	// max is q-1, so we add + 1 to B
-	tmp := uint128.Max.Sub(uint128.From64(uint64(c.params.B + 1)))
+	// max is q-1, so -B is represented by max - (B - 1)
+	tmp := uint128.Max.Sub(uint128.From64(uint64(c.params.B) - 1))
 	return val.Cmp64(uint64(c.params.B)) == -1 || val.Cmp(tmp) == 1
 }
-- 
2.43.0


From 074f789ab3c9b41bb9151439d988e7ce9ca0b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 12/24] fix: do not shift negative noise samples by one

NewGauss128 represented g < 0 as g-1.
---
 lib/matrix/matrix128.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index 51698b2..3a28a64 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -85,7 +85,8 @@ func NewGauss128(r int, c int) *Matrix128 {
 		if g >= 0 {
 			m.data[i] = uint128.From64(uint64(g))
 		} else {
-			m.data[i] = uint128.Max.Sub64(uint64(-g))
+			// max is q-1, so g is represented by max - (-g - 1)
+			m.data[i] = uint128.Max.Sub64(uint64(-g) - 1)
 		}
 	}
 
-- 
2.43.0


From fc86f4bf290fab6cb5033a29bf7b34ff45c06e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 13/24] fix: decode words whose first symbol is wrong

The majority vote never changed its first candidate.
---
 lib/ecc/ecc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..f7cead6 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -27,6 +27,9 @@ func (e *ECC) Decode(in []uint32) (uint32, error) {
 	for i := 1; i < len(in); i++ {
 		if in[i] == decoded {
 			votes++
+		} else if votes == 0 {
+			decoded = in[i]
+			votes = 1
 		} else {
 			votes--
 		}
-- 
2.43.0


From 8ba410f57973acf19373f284c9c9df9ce558a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 14/24] fix: return errors for discrete-log answers of a wrong
 length

An answer with a partial element or with fewer elements than rows crashed
the client.
---
 lib/client/dh.go         | 3 +++
 lib/database/elliptic.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..9e00c7b 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -78,6 +78,9 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(answer) != c.dbInfo.NumRows {
+		return nil, errors.New("malformed answer")
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..417f2ab 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -3,6 +3,7 @@ package database
 import (
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -121,6 +122,9 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
 	var err error
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("malformed group elements")
+	}
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
 		elem := g.NewElement()
-- 
2.43.0


From b7a88b243efb0426890cb1540555ac4161b86489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 15/24] fix: encode the identity element with the size of the
 other elements

---
 lib/client/dh.go         |  3 +--
 lib/database/elliptic.go | 38 +++++++++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 9e00c7b..2f168d3 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -85,8 +85,7 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
+		d, err := database.UnmarshalGroupElement(c.dbInfo.SubDigests[i*digSize:(i+1)*digSize], g)
 		if err != nil {
 			return nil, err
 		}
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index 417f2ab..5f43f32 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -75,6 +75,7 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 
 func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h crypto.Hash, replyTo chan<- []byte) {
 	digs := make([]byte, 0, (end-begin)*h.Size())
+	elemSize := getGroupElementSize(g)
 	for i := begin; i < end; i++ {
 		d := g.Identity()
 		for j := 0; j < rowLen; j++ {
@@ -82,7 +83,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 				d.Add(d, HashIndexToGroup(uint64(j), g))
 			}
 		}
-		tmp, err := d.MarshalBinaryCompress()
+		tmp, err := marshalGroupElement(d, elemSize)
 		if err != nil {
 			log.Fatal(err)
 		}
@@ -106,11 +107,40 @@ func CommitScalarToIndex(x group.Scalar, j uint64, g group.Group) group.Element
 	return g.NewElement().Mul(H, x)
 }
 
+// marshalGroupElement encodes an element in marshalledLen bytes. The groups
+// encode the identity in a single byte, which is padded with zeros here.
+func marshalGroupElement(el group.Element, marshalledLen int) ([]byte, error) {
+	tmp, err := el.MarshalBinaryCompress()
+	if err != nil {
+		return nil, err
+	}
+	if el.IsIdentity() {
+		return make([]byte, marshalledLen), nil
+	}
+	return tmp, nil
+}
+
+// UnmarshalGroupElement decodes an element encoded by marshalGroupElement
+func UnmarshalGroupElement(in []byte, g group.Group) (group.Element, error) {
+	identity := true
+	for _, b := range in {
+		identity = identity && b == 0
+	}
+	if identity {
+		return g.Identity(), nil
+	}
+	elem := g.NewElement()
+	if err := elem.UnmarshalBinary(in); err != nil {
+		return nil, err
+	}
+	return elem, nil
+}
+
 // Marshal a slice of group elements
 func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error) {
 	encoded := make([]byte, 0, marshalledLen*len(q))
 	for _, el := range q {
-		tmp, err := el.MarshalBinaryCompress()
+		tmp, err := marshalGroupElement(el, marshalledLen)
 		if err != nil {
 			return nil, err
 		}
@@ -121,14 +151,12 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
-	var err error
 	if len(q)%elemSize != 0 {
 		return nil, errors.New("malformed group elements")
 	}
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
-		elem := g.NewElement()
-		err = elem.UnmarshalBinary(q[i : i+elemSize])
+		elem, err := UnmarshalGroupElement(q[i:i+elemSize], g)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From d71e4aa9759c5cc29a7097f1a8c5f43a228bca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 16/24] fix: build directories with fewer than ten keys

---
 lib/database/pgp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index ec7c0e5..1f59e82 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -62,7 +62,7 @@ func GenerateRealKeyBytes(dataPaths []string, rebalanced bool) (*Bytes, error) {
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := hashTableLength(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 
 	ht := makeHashTable(keys, numRows*numColumns)
@@ -101,7 +101,7 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := hashTableLength(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 	ht := makeHashTable(keys, numRows*numColumns)
 
@@ -146,6 +146,16 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	return m, nil
 }
 
+// hashTableLength returns the number of buckets for the given number of keys,
+// at least one.
+func hashTableLength(numKeys int) int {
+	length := int(float32(numKeys) * numKeysToDBLengthRatio)
+	if length == 0 {
+		return 1
+	}
+	return length
+}
+
 func makeHashTable(keys []*pgp.Key, tableLen int) map[int][]byte {
 	// prepare db
 	db := make(map[int][]byte)
-- 
2.43.0


From 322e882cd6fc76e5ff504910d36efd09a3a9ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 17/24] fix: negate the zero field element to zero

---
 lib/field/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index a28bf55..4f275c8 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -19,7 +19,7 @@ const (
 
 func NegateVector(in []uint32) []uint32 {
 	for i := range in {
-		in[i] = ModP - in[i]
+		in[i] = (ModP - in[i]) % ModP
 	}
 
 	return in
-- 
2.43.0


From b2d0be3dbafd00130a01272589d3cb86783ef6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:17 +0000
Subject: [PATCH 18/24] fix: create elliptic databases with few rows

---
 lib/database/elliptic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index 5f43f32..4a7a5f9 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -43,6 +43,10 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 		if end > numRows {
 			end = numRows
 		}
+		// there can be fewer rows than routines
+		if begin > end {
+			begin = end
+		}
 		replyChan := make(chan []byte, 1)
 		replies[i] = replyChan
 		go computeDigests(begin, end, data, numColumns, g, h, replyChan)
-- 
2.43.0


From 54b99c0a4ccea7b750f0a5eab130502670aedc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 19/24] fix: send each query share to its own server

---
 cmd/grpc/client/main.go            | 7 +++----
 simulations/multi/client/client.go | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..9974fe3 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -397,14 +397,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server of the configuration
+	for j, addr := range lc.config.Addresses {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 2e9889d..9bb5f4d 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -369,14 +369,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server of the configuration
+	for j, addr := range lc.config.Addresses[:len(lc.connections)] {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
-- 
2.43.0


From 92dcc2700975842a80d3b6f5280742f44b33554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 20/24] fix: compare every field of the servers' database
 descriptions

---
 cmd/grpc/client/main.go            | 8 +++++---
 cmd/grpc/client/manager/mod.go     | 6 +++++-
 simulations/multi/client/client.go | 6 +++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 9974fe3..6f40117 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -448,9 +449,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
-			//info[0].IDLength != info[i].IDLength ||
-			//info[0].KeyLength != info[i].KeyLength {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			return false
 		}
 	}
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..92b68fd 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -1,6 +1,7 @@
 package manager
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"fmt"
@@ -172,7 +173,10 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	for i := range dbInfo {
 		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
 			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
+			dbInfo[0].BlockSize != dbInfo[i].BlockSize ||
+			dbInfo[0].PIRType != dbInfo[i].PIRType ||
+			dbInfo[0].ProofLen != dbInfo[i].ProofLen ||
+			!bytes.Equal(dbInfo[0].Root, dbInfo[i].Root) {
 
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 9bb5f4d..95064ec 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"flag"
@@ -335,7 +336,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			return false
 		}
 	}
-- 
2.43.0


From 846008399185fb98da8f78f65fc7610b229355dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:05 +0000
Subject: [PATCH 21/24] fix: answer the requests in progress before stopping
 the worker

---
 cmd/grpc/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..4572af4 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -209,8 +209,9 @@ func main() {
 	case err := <-errCh:
 		log.Fatalf("failed to serve: %v", err)
 	case <-sigCh:
-		server.stopWorker()
+		// stop the worker only after the requests in progress are answered
 		rpcServer.GracefulStop()
+		server.stopWorker()
 		lis.Close()
 		log.Println("clean shutdown of server done")
 	}
-- 
2.43.0


From 6c49f04754374787d4a9a2781f21d8bb65eb9fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:05 +0000
Subject: [PATCH 22/24] fix: serialise requests in the simulation server

---
 simulations/multi/server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulations/multi/server/server.go b/simulations/multi/server/server.go
index ed9f8fb..eedf49d 100644
--- a/simulations/multi/server/server.go
+++ b/simulations/multi/server/server.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"os/signal"
 	"runtime"
+	"sync"
 	"syscall"
 
 	"github.com/si-co/vpir-code/lib/database"
@@ -188,6 +189,7 @@ func main() {
 type vpirServer struct {
 	proto.UnimplementedVPIRServer
 	Server server.Server
+	mu     sync.Mutex
 
 	scheme string
 	cores  int
@@ -219,7 +221,10 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 	*proto.QueryResponse, error) {
 	log.Print("got query request")
 
+	// the servers are not safe for concurrent use
+	s.mu.Lock()
 	a, err := s.Server.AnswerBytes(qr.GetQuery())
+	s.mu.Unlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5381f331089bbd02d1214be5e154a449a4e72357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:32 +0000
Subject: [PATCH 23/24] fix: expect DPF keys when two servers are configured

---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 4572af4..f7598dc 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			// with two servers the clients send DPF keys
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From af549b9c970f703207efdd2572a605089874ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 24/24] fix: web client gives no count for a query that failed

---
 cmd/grpc/client/web/mod.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 519746f..f4c60e4 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -335,6 +335,7 @@ func getHandleCountAlgo(actor manager.Actor) func(w http.ResponseWriter, req *ht
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
@@ -366,6 +367,7 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
-- 
2.43.0

