From f2d5d5778716d5809af5184cda829a95550b4609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 01/47] fix: ecc: decode any word with a majority, not only
 those starting with it

---
 lib/ecc/ecc.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..c9464db 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -20,19 +20,25 @@ func (e *ECC) Encode(in uint32) []uint32 {
 	return out
 }
 
-// Boyer-Moore Majority Vote algorithm
+// Decode returns the symbol that appears in a strict majority of the positions
+// of the received word, found with the Boyer-Moore majority vote algorithm.
 func (e *ECC) Decode(in []uint32) (uint32, error) {
-	decoded := in[0]
-	votes := 1
-	for i := 1; i < len(in); i++ {
+	// find the only possible candidate
+	var decoded uint32
+	votes := 0
+	for i := range in {
+		if votes == 0 {
+			decoded = in[i]
+		}
 		if in[i] == decoded {
 			votes++
 		} else {
 			votes--
 		}
 	}
-	count := 0
 
+	// check that the candidate really has a majority
+	count := 0
 	for i := range in {
 		if in[i] == decoded {
 			count++
-- 
2.43.0


From 884e3473c8e8459678ccb8244b3457815c756d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 02/47] fix: merkle: proofs for equal blocks and blocks with
 colliding FNV digests

---
 lib/database/merkle.go   |  8 +++--
 lib/merkle/merkletree.go | 73 ++++++++++++++++++++++------------------
 2 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..288e4ec 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,12 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+// generateMerkleProofs embeds the proofs in data, whose first block is at
+// position begin in the tree
+func generateMerkleProofs(data [][]byte, begin int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		p, err := t.GenerateProofAt(begin + b)
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..fa76ce7 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -17,32 +17,32 @@ package merkle
 import (
 	"encoding/binary"
 	"errors"
-	"hash/fnv"
 	"math"
+	"math/bits"
+
+	"lukechampine.com/blake3"
 )
 
+// blake3Size is the size in bytes of the digests that index the data
+const blake3Size = 32
+
 // MerkleTree is the structure for the Merkle tree.
 type MerkleTree struct {
 	// hash is a pointer to the hashing struct
 	hash HashType
 	// data is the data from which the Merkle tree is created
-	// data are stored as a map from the actual data encoded to string to
-	// the index of the data in the tree
-	data map[uint64]uint32
+	// data are stored as a map from the BLAKE3 digest of the actual data to
+	// the index of the data in the tree. If the same data appears more than
+	// once, any of its indices can be stored.
+	data map[[blake3Size]byte]uint32
+	// numLeaves is the number of pieces of data in the tree
+	numLeaves int
 	// nodes are the leaf and branch nodes of the Merkle tree
 	nodes [][]byte
 }
 
-func hashFNV1a64(data []byte) uint64 {
-	h := fnv.New64a()
-	if _, err := h.Write(data); err != nil {
-		panic(err)
-	}
-	return h.Sum64()
-}
-
 func (t *MerkleTree) indexOf(input []byte) (uint32, error) {
-	if i, ok := t.data[hashFNV1a64(input)]; ok {
+	if i, ok := t.data[blake3.Sum256(input)]; ok {
 		return i, nil
 	}
 	return 0, errors.New("data not found")
@@ -51,6 +51,7 @@ func (t *MerkleTree) indexOf(input []byte) (uint32, error) {
 // GenerateProof generates the proof for a piece of data.
 // If the data is not present in the tree this will return an error.
 // If the data is present in the tree this will return the hashes for each level in the tree and the index of the value in the tree
+// If the data is present more than once, use GenerateProofAt to choose the position.
 func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 	// Find the index of the data
 	index, err := t.indexOf(data)
@@ -58,23 +59,33 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
-	hashes := make([][]byte, proofLen)
+	return t.GenerateProofAt(int(index))
+}
+
+// GenerateProofAt generates the proof for the piece of data at the given index.
+func (t *MerkleTree) GenerateProofAt(index int) (*Proof, error) {
+	if index < 0 || index >= t.numLeaves {
+		return nil, errors.New("index out of range")
+	}
 
-	cur := 0
-	minI := uint32(math.Pow(2, float64(1))) - 1
-	for i := index + uint32(len(t.nodes)/2); i > minI; i /= 2 {
-		hashes[cur] = t.nodes[i^1]
-		cur++
+	hashes := make([][]byte, 0, t.height())
+	for i := index + len(t.nodes)/2; i > 1; i /= 2 {
+		hashes = append(hashes, t.nodes[i^1])
 	}
-	return newProof(hashes, index), nil
+	return newProof(hashes, uint32(index)), nil
+}
+
+// height returns the number of branch levels, i.e. the number of hashes in a
+// proof. There are as many leaves, padding included, as half of the nodes.
+func (t *MerkleTree) height() int {
+	return bits.Len(uint(len(t.nodes)/2)) - 1
 }
 
 // EncodedProofLength returns the byte length of the proof for a piece of data.
-// 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
+// 4 bytes are for how many hashes are in the path, 4 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return t.height()*t.hash.HashLength() + numHashesByteSize + indexByteSize
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
@@ -93,19 +104,14 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 	branchesLen := int(math.Exp2(math.Ceil(math.Log2(float64(len(data))))))
 
 	// map with the original data to easily loop up the index
-	md := make(map[uint64]uint32, len(data))
-	hashForNodes := fnv.New64a()
+	md := make(map[[blake3Size]byte]uint32, len(data))
 	// We pad our data length up to the power of 2
 	nodes := make([][]byte, branchesLen+len(data)+(branchesLen-len(data)))
 	// Leaves
 	for i := range data {
 		ib := indexToBytes(i)
 		nodes[i+branchesLen] = hash.Hash(data[i], ib)
-		if _, err := hashForNodes.Write(data[i]); err != nil {
-			return nil, err
-		}
-		md[hashForNodes.Sum64()] = uint32(i)
-		hashForNodes.Reset()
+		md[blake3.Sum256(data[i])] = uint32(i)
 	}
 	for i := len(data) + branchesLen; i < len(nodes); i++ {
 		nodes[i] = make([]byte, hash.HashLength())
@@ -117,9 +123,10 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 	}
 
 	tree := &MerkleTree{
-		hash:  hash,
-		nodes: nodes,
-		data:  md,
+		hash:      hash,
+		nodes:     nodes,
+		numLeaves: len(data),
+		data:      md,
 	}
 
 	return tree, nil
-- 
2.43.0


From c11bd3e3657c3d518cc6a2b118e5053d3723e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 03/47] fix: merkle: report malformed proofs and proofs of
 leaves that cannot exist

---
 lib/merkle/proof.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..5223229 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -15,6 +15,7 @@ package merkle
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
 const (
@@ -53,6 +54,13 @@ func VerifyProof(data []byte, proof *Proof, root []byte) (bool, error) {
 //
 // This returns true if the proof is verified, otherwise false.
 func VerifyProofUsing(data []byte, proof *Proof, root []byte, hashType HashType) (bool, error) {
+	if proof == nil {
+		return false, errors.New("malformed proof")
+	}
+	// a tree with as many levels as the proof has no such leaf
+	if uint64(proof.Index)>>uint(len(proof.Hashes)) != 0 {
+		return false, nil
+	}
 	proofHash := generateProofHash(data, proof, hashType)
 	if bytes.Equal(root, proofHash) {
 		return true, nil
@@ -77,9 +85,18 @@ func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	return proofHash
 }
 
+// DecodeProof decodes an encoded proof. It returns nil if the input is not the
+// encoding of a proof.
 func DecodeProof(p []byte) *Proof {
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil
+	}
+
 	// number of hashes
 	numHashes := binary.LittleEndian.Uint32(p[:numHashesByteSize])
+	if uint64(len(p)) != numHashesByteSize+uint64(numHashes)*32+indexByteSize {
+		return nil
+	}
 
 	// hashes
 	hashLength := uint32(32) // blake3
-- 
2.43.0


From c5667d37096be156b5dcc398d8100a3ad88b1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 04/47] fix: client: refuse lookups outside of the database or
 with a single server

---
 lib/client/client.go    |  2 +-
 lib/client/pir_point.go | 28 ++++++++++++++++++----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..2ad31d8 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -88,7 +88,7 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 
 // return true if the query inputs are invalid for IT schemes
 func invalidQueryInputsIT(index, numServers int) bool {
-	return index < 0 && numServers < 2
+	return index < 0 || numServers < 2
 }
 
 func invalidQueryInputsFSS(numServers int) bool {
diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index 1be9dc8..5b84eab 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math/bits"
@@ -36,16 +37,28 @@ func NewPIR(rnd io.Reader, info *database.Info) *PIR {
 
 // QueryBytes is wrapper around Query to implement the Client interface
 func (c *PIR) QueryBytes(in []byte, numServers int) ([][]byte, error) {
+	if len(in) < 4 {
+		return nil, errors.New("invalid query inputs")
+	}
 	index := int(binary.BigEndian.Uint32(in))
-	return c.Query(index, numServers), nil
+	return c.query(index, numServers)
 }
 
 // Query performs a client query for the given database index to numServers
 // servers. This function performs both vector and rebalanced query depending
 // on the database representation
 func (c *PIR) Query(index int, numServers int) [][]byte {
-	if invalidQueryInputsIT(index, numServers) {
-		log.Fatal("invalid query inputs")
+	queries, err := c.query(index, numServers)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return queries
+}
+
+func (c *PIR) query(index int, numServers int) ([][]byte, error) {
+	if invalidQueryInputsIT(index, numServers) || index >= c.dbInfo.NumRows*c.dbInfo.NumColumns {
+		return nil, errors.New("invalid query inputs")
 	}
 	// set the client state. The entries specific to VPIR are not used
 	ix, iy := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
@@ -56,15 +69,10 @@ func (c *PIR) Query(index int, numServers int) [][]byte {
 
 	if numServers == 2 {
 		k0, k1 := dpf.Gen(uint64(c.state.iy), uint64(bits.Len(uint(c.dbInfo.NumColumns))))
-		return [][]byte{k0, k1}
-	}
-
-	vectors, err := c.secretShare(numServers)
-	if err != nil {
-		log.Fatal(err)
+		return [][]byte{k0, k1}, nil
 	}
 
-	return vectors
+	return c.secretShare(numServers)
 }
 
 // ReconstructBytes returns []byte
-- 
2.43.0


From e1da102ab0a8ea0ceb115806f4f7bba33371cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 05/47] fix: database: unpad blocks without data

---
 lib/database/pgp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..4552f63 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -176,6 +176,10 @@ func UnPadBlock(block []byte) []byte {
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	// nothing to unpad, as in a block without data
+	if len(block) == 0 {
+		return block
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
-- 
2.43.0


From 307830af9b19f12c13f84a9ffd424a48c12448b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 06/47] fix: matrix: random matrices hold as many elements as
 their dimensions tell

---
 lib/matrix/matrix.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 4774d85..0d42c9c 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -3,7 +3,6 @@ package matrix
 import (
 	"encoding/binary"
 	"io"
-	"unsafe"
 
 	"github.com/si-co/vpir-code/lib/utils"
 )
@@ -107,9 +106,9 @@ func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	}
 
 	m := New(r, c)
-
-	// ugly hack for performance
-	m.data = *(*[]uint32)(unsafe.Pointer(&b))
+	for i := range m.data {
+		m.data[i] = binary.LittleEndian.Uint32(b[i*bytesMod:])
+	}
 
 	return m
 }
-- 
2.43.0


From 654d7fc554f0a44da7e8f28bd641b888f6f24d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 07/47] fix: read all the random bytes that are asked for, also
 from short reads

---
 lib/client/pir_point.go      | 2 +-
 lib/database/bytes.go        | 2 +-
 lib/database/elliptic.go     | 2 +-
 lib/database/lwe.go          | 2 +-
 lib/database/lwe128.go       | 2 +-
 lib/database/merkle.go       | 2 +-
 lib/field/field.go           | 4 ++--
 lib/matrix/matrix.go         | 2 +-
 lib/matrix/matrix128.go      | 2 +-
 simulations/preprocessing.go | 2 +-
 10 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index 5b84eab..15993b2 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -99,7 +99,7 @@ func (c *PIR) secretShare(numServers int) ([][]byte, error) {
 	// Get random elements for all numServers-1 vectors.
 	// This is faster than extracting single bits
 	rand := make([]byte, (numServers-1)*vectorLen)
-	if _, err := c.rnd.Read(rand); err != nil {
+	if _, err := io.ReadFull(c.rnd, rand); err != nil {
 		return nil, err
 	}
 
diff --git a/lib/database/bytes.go b/lib/database/bytes.go
index e3ef760..fb322f8 100644
--- a/lib/database/bytes.go
+++ b/lib/database/bytes.go
@@ -49,7 +49,7 @@ func InitBytes(numRows, numColumns, blockLen int) *Bytes {
 func CreateRandomBytes(rnd io.Reader, dbLen, numRows, blockLen int) *Bytes {
 	// sample random entries
 	entries := make([]byte, dbLen/8)
-	if _, err := rnd.Read(entries); err != nil {
+	if _, err := io.ReadFull(rnd, entries); err != nil {
 		log.Fatal(err)
 	}
 
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..f22b72e 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -22,7 +22,7 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 	// read random bytes for filling out the entries
 	// For simplicity, we use the whole byte to store 0 or 1
 	data := make([]byte, numRows*numColumns)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		log.Fatal(err)
 	}
 	for i := 0; i < len(data); i++ {
diff --git a/lib/database/lwe.go b/lib/database/lwe.go
index 62937ad..57bb5f3 100644
--- a/lib/database/lwe.go
+++ b/lib/database/lwe.go
@@ -33,7 +33,7 @@ func CreateRandomBinaryLWE(rnd io.Reader, numRows, numColumns int) *LWE {
 	m := matrix.NewBytes(numRows, numColumns)
 	// read random bytes for filling out the entries
 	data := make([]byte, (numRows*numColumns)/8+1)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		panic(err)
 	}
 
diff --git a/lib/database/lwe128.go b/lib/database/lwe128.go
index 811c622..cb39d8b 100644
--- a/lib/database/lwe128.go
+++ b/lib/database/lwe128.go
@@ -31,7 +31,7 @@ func CreateRandomBinaryLWE128(rnd io.Reader, numRows, numColumns int) *LWE128 {
 	// read random bytes for filling out the entries
 	// the +1 takes into account a float division by 8
 	data := make([]byte, numRows*numColumns/8+1)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		panic(err)
 	}
 
diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 288e4ec..739a118 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -15,7 +15,7 @@ func CreateRandomMerkle(rnd io.Reader, dbLen, numRows, blockLen int) *Bytes {
 	numBlocks := dbLen / (8 * blockLen)
 	// generate random numBlocks blocks
 	data := make([]byte, numBlocks*blockLen)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		log.Fatal(err)
 	}
 
diff --git a/lib/field/field.go b/lib/field/field.go
index a26387e..fea6f9d 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -51,7 +51,7 @@ func RandElementWithPRG(rnd io.Reader) uint32 {
 	var out = ModP
 	// Make sure that toElement is not equal 2^31 - 1
 	for out == ModP {
-		_, err := rnd.Read(buf[:])
+		_, err := io.ReadFull(rnd, buf[:])
 		if err != nil {
 			panic("error in randomness")
 		}
@@ -69,7 +69,7 @@ func RandElement() uint32 {
 func RandVectorWithPRG(length int, rnd io.Reader) []uint32 {
 	bytesLength := length * Bytes
 	buf := make([]byte, bytesLength)
-	_, err := rnd.Read(buf)
+	_, err := io.ReadFull(rnd, buf)
 	if err != nil {
 		panic("error in randomness")
 	}
diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 0d42c9c..0335b25 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -101,7 +101,7 @@ func BytesToMatrices(in []byte) []*Matrix {
 func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	bytesMod := utils.ParamsDefault().BytesMod
 	b := make([]byte, bytesMod*r*c)
-	if _, err := rnd.Read(b); err != nil {
+	if _, err := io.ReadFull(rnd, b); err != nil {
 		panic(err)
 	}
 
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index a0f6ab2..904a77a 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -61,7 +61,7 @@ func BytesToMatrix128(in []byte) *Matrix128 {
 func NewRandom128(rnd io.Reader, r int, c int) *Matrix128 {
 	bytesMod := utils.ParamsDefault128().BytesMod
 	b := make([]byte, bytesMod*r*c)
-	if _, err := rnd.Read(b); err != nil {
+	if _, err := io.ReadFull(rnd, b); err != nil {
 		panic(err)
 	}
 
diff --git a/simulations/preprocessing.go b/simulations/preprocessing.go
index 0d5b807..04a885b 100644
--- a/simulations/preprocessing.go
+++ b/simulations/preprocessing.go
@@ -19,7 +19,7 @@ func RandomMerkleDB(rnd io.Reader, dbLen, numRows, blockLen, nRepeat int) []*Chu
 	numBlocks := dbLen / (8 * blockLen)
 	// generate random numBlocks blocks
 	data := make([]byte, numBlocks*blockLen)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		log.Fatal(err)
 	}
 
-- 
2.43.0


From 244addde5b6decb43e79a1d881af6bad593e74fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 08/47] fix: utils: the output of the PRG does not depend on
 what the buffer contained

---
 lib/utils/rand.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/utils/rand.go b/lib/utils/rand.go
index eab7c71..661cf06 100644
--- a/lib/utils/rand.go
+++ b/lib/utils/rand.go
@@ -104,6 +104,10 @@ func (s *PRGReader) Read(p []byte) (int, error) {
 		s.stream.XORKeyStream(buf[:], buf[:])
 		copy(p[:], buf[:])
 	} else {
+		// the stream is XORed into its destination
+		for i := range p {
+			p[i] = 0
+		}
 		s.stream.XORKeyStream(p, p)
 	}
 	return len(p), nil
-- 
2.43.0


From 2f34111d429ddf52b9f17f950059ee93f07ead6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 09/47] fix: field: convert bytes and negate deterministically
 to canonical elements

---
 lib/field/field.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index fea6f9d..7f3f457 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -19,29 +19,21 @@ const (
 
 func NegateVector(in []uint32) []uint32 {
 	for i := range in {
-		in[i] = ModP - in[i]
+		in[i] = (ModP - in[i]) % ModP
 	}
 
 	return in
 }
 
-// Element converts input bytes into a field toElement.
-// It sources a new random byte string in the rare case
-// when the input bytes convert to ModP
+// toElement converts input bytes into a field element, reducing them
+// modulo ModP.
 func toElement(in []byte) uint32 {
-	// Clearing the top most bit of uint32
-	in[0] &= Mask
-	// Take the first Bytes bytes
-	//out := *(*uint32)(unsafe.Pointer(&in))
-	out := binary.BigEndian.Uint32(in[:Bytes])
-	// Make sure that toElement is not equal 2^31 - 1
-	for out == ModP {
-		var buf [Bytes]byte
-		_, err := utils.RandomPRG().Read(buf[:])
-		if err != nil {
-			panic("error in randomness")
-		}
-		out = binary.BigEndian.Uint32(buf[:])
+	// Take the first Bytes bytes, clearing the top most bit of uint32
+	out := binary.BigEndian.Uint32(in[:Bytes]) & ModP
+	// ModP is the only remaining value that is not reduced. All the parties
+	// must end up with the same element here.
+	if out == ModP {
+		out = 0
 	}
 	return out
 }
-- 
2.43.0


From 744cacb85393bc30bc8c264b47ca7c8228e4e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 10/47] fix: fss: mask all the elements of the shares

---
 lib/fss/client.go |  2 +-
 lib/fss/common.go | 24 ++++++++++++++++++++++--
 lib/fss/server.go |  2 +-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/fss/client.go b/lib/fss/client.go
index 9d2ebbf..df593e0 100644
--- a/lib/fss/client.go
+++ b/lib/fss/client.go
@@ -30,7 +30,7 @@ func ClientInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*initPRFLen)
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
+	f.OutConvertBlock = make([]byte, numConvertBlocks(blockLength)*aes.BlockSize)
 
 	return f
 }
diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..60bd685 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -5,6 +5,7 @@ package fss
 import (
 	"crypto/aes"
 	"crypto/cipher"
+	"encoding/binary"
 
 	"github.com/lukechampine/fastxor"
 	"github.com/si-co/vpir-code/lib/field"
@@ -65,8 +66,27 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 	}
 }
 
+// numConvertBlocks returns the number of AES blocks that hold blockLength
+// elements: an AES block gives four uint32 numbers
+func numConvertBlocks(blockLength int) int {
+	return (blockLength*field.Bytes + aes.BlockSize - 1) / aes.BlockSize
+}
+
 func convertBlock(f Fss, x []byte, out []uint32) {
-	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
+	numBlocks := numConvertBlocks(len(out))
+	numKeys := len(f.FixedBlocks)
+	in := make([]byte, aes.BlockSize)
+	for start := 0; start < numBlocks; start += numKeys {
+		// tweak the input every time that the PRF keys are used again
+		copy(in, x)
+		tweak := binary.BigEndian.Uint32(in) ^ uint32(start/numKeys)
+		binary.BigEndian.PutUint32(in, tweak)
+
+		n := numBlocks - start
+		if n > numKeys {
+			n = numKeys
+		}
+		prf(in, f.FixedBlocks, uint(n), f.Temp, f.OutConvertBlock[start*aes.BlockSize:])
+	}
 	field.BytesToElements(out, f.OutConvertBlock)
 }
diff --git a/lib/fss/server.go b/lib/fss/server.go
index ea404c2..e53e101 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -26,7 +26,7 @@ func ServerInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*len(PrfKeys))
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
+	f.OutConvertBlock = make([]byte, numConvertBlocks(blockLength)*aes.BlockSize)
 
 	return f
 }
-- 
2.43.0


From 628223e0c0a3c3f4b8b3d16d3f9570e15c97c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 11/47] fix: fss: evaluate all the bits of long inputs

---
 lib/fss/server.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index e53e101..c66a101 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -41,11 +41,9 @@ func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	tmp := make([]uint32, len(out))
 	for i := uint(0); i < f.NumBits; i++ {
 		var xBit byte = 0
-		if i != f.N {
-			// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
-			if x[i] {
-				xBit = 1
-			}
+		// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
+		if x[i] {
+			xBit = 1
 		}
 
 		prf(sCurr, f.FixedBlocks, 3, f.Temp, f.Out)
-- 
2.43.0


From 344cee3cf1a669a1aaff8fcb133289512608d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 12/47] fix: fss: shares are canonical field elements

---
 lib/fss/client.go | 2 +-
 lib/fss/server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fss/client.go b/lib/fss/client.go
index df593e0..975a050 100644
--- a/lib/fss/client.go
+++ b/lib/fss/client.go
@@ -143,7 +143,7 @@ func (f Fss) GenerateTreePF(a []bool, b []uint32) []FssKeyEq2P {
 		fssKeys[0].FinalCW[i] = val
 		fssKeys[1].FinalCW[i] = fssKeys[0].FinalCW[i]
 		if tCurr1 == 1 {
-			fssKeys[0].FinalCW[i] = field.ModP - fssKeys[0].FinalCW[i] // negation
+			fssKeys[0].FinalCW[i] = (field.ModP - fssKeys[0].FinalCW[i]) % field.ModP // negation
 			fssKeys[1].FinalCW[i] = fssKeys[0].FinalCW[i]
 		}
 	}
diff --git a/lib/fss/server.go b/lib/fss/server.go
index c66a101..511e4f5 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -78,7 +78,7 @@ func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 			// tCurr is either 0 or 1, no need to mod
 			out[i] = (tmp[i] + uint32(tCurr)*k.FinalCW[i]) % field.ModP
 		} else {
-			out[i] = field.ModP - ((tmp[i] + uint32(tCurr)*k.FinalCW[i]) % field.ModP)
+			out[i] = (field.ModP - ((tmp[i] + uint32(tCurr)*k.FinalCW[i]) % field.ModP)) % field.ModP
 		}
 	}
 }
-- 
2.43.0


From 722a575a1408c23d0d7fc45b50426863cbb8be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 13/47] fix: server: do not share the FSS scratch space among
 concurrent queries

---
 lib/server/fss.go            | 14 ++++++++------
 lib/server/predicate_apir.go |  5 ++---
 lib/server/predicate_pir.go  |  3 +--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index dd2a920..51dd887 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -17,7 +17,6 @@ type serverFSS struct {
 	cores int
 
 	serverNum byte
-	fss       *fss.Fss
 }
 
 func (s *serverFSS) dbInfo() *database.Info {
@@ -41,6 +40,9 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 
 func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 	numIdentifiers := s.db.NumColumns
+	// the evaluation uses scratch space that cannot be shared among
+	// concurrent requests
+	eval := fss.ServerInitialize(len(out))
 
 	if !q.And && !q.Avg && !q.Sum {
 		switch q.Target {
@@ -51,7 +53,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				if !valid {
 					continue
 				}
-				s.fss.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				eval.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
@@ -60,7 +62,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 		case query.PubKeyAlgo:
 			for i := 0; i < numIdentifiers; i++ {
 				id := q.IdForPubKeyAlgo(s.db.KeysInfo[i].PubKeyAlgo)
-				s.fss.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				eval.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
@@ -72,7 +74,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				if err != nil {
 					panic("impossible to marshal creation date")
 				}
-				s.fss.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				eval.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
@@ -95,7 +97,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				continue
 			}
 			in := append(yearMatch, id...)
-			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
+			eval.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 			for j := range out {
 				out[j] = (out[j] + tmp[j]) % field.ModP
 			}
@@ -113,7 +115,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				continue
 			}
 
-			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
+			eval.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
 			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
diff --git a/lib/server/predicate_apir.go b/lib/server/predicate_apir.go
index f85bafb..9f56db9 100644
--- a/lib/server/predicate_apir.go
+++ b/lib/server/predicate_apir.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/field"
-	"github.com/si-co/vpir-code/lib/fss"
 	"github.com/si-co/vpir-code/lib/query"
 )
 
@@ -26,8 +25,6 @@ func NewPredicateAPIR(db *database.DB, serverNum byte, cores ...int) *PredicateA
 			db:        db,
 			cores:     numCores,
 			serverNum: serverNum,
-			// one value for the data, four values for the info-theoretic MAC
-			fss: fss.ServerInitialize(1 + field.ConcurrentExecutions),
 		},
 	}
 }
@@ -37,6 +34,7 @@ func (s *PredicateAPIR) DBInfo() *database.Info {
 }
 
 func (s *PredicateAPIR) AnswerBytes(q []byte) ([]byte, error) {
+	// one value for the data, four values for the info-theoretic MAC
 	out := make([]uint32, 1+field.ConcurrentExecutions)
 	tmp := make([]uint32, 1+field.ConcurrentExecutions)
 
@@ -44,6 +42,7 @@ func (s *PredicateAPIR) AnswerBytes(q []byte) ([]byte, error) {
 }
 
 func (s *PredicateAPIR) Answer(q *query.FSS) []uint32 {
+	// one value for the data, four values for the info-theoretic MAC
 	out := make([]uint32, 1+field.ConcurrentExecutions)
 	tmp := make([]uint32, 1+field.ConcurrentExecutions)
 
diff --git a/lib/server/predicate_pir.go b/lib/server/predicate_pir.go
index c9cd4f4..86edddc 100644
--- a/lib/server/predicate_pir.go
+++ b/lib/server/predicate_pir.go
@@ -4,7 +4,6 @@ import (
 	"runtime"
 
 	"github.com/si-co/vpir-code/lib/database"
-	"github.com/si-co/vpir-code/lib/fss"
 	"github.com/si-co/vpir-code/lib/query"
 )
 
@@ -25,7 +24,6 @@ func NewPredicatePIR(db *database.DB, serverNum byte, cores ...int) *PredicatePI
 			db:        db,
 			cores:     numCores,
 			serverNum: serverNum,
-			fss:       fss.ServerInitialize(1), // only one value for data
 		},
 	}
 }
@@ -37,6 +35,7 @@ func (s *PredicatePIR) DBInfo() *database.Info {
 
 // AnswerBytes computes the answer for the given query encoded in bytes
 func (s *PredicatePIR) AnswerBytes(q []byte) ([]byte, error) {
+	// only one value for data
 	out := make([]uint32, 1)
 	tmp := make([]uint32, 1)
 
-- 
2.43.0


From 15f8b3cc22e0b5173052538a8261c8127d957486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 14/47] fix: server: report malformed predicate queries as
 errors

---
 lib/fss/common.go            | 16 ++++++++
 lib/query/query.go           |  3 ++
 lib/server/fss.go            | 72 +++++++++++++++++++++++++++---------
 lib/server/predicate_apir.go |  2 +-
 lib/server/predicate_pir.go  |  2 +-
 5 files changed, 76 insertions(+), 19 deletions(-)

diff --git a/lib/fss/common.go b/lib/fss/common.go
index 60bd685..f29ff8f 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -6,6 +6,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"encoding/binary"
+	"errors"
 
 	"github.com/lukechampine/fastxor"
 	"github.com/si-co/vpir-code/lib/field"
@@ -32,6 +33,21 @@ type FssKeyEq2P struct {
 	FinalCW []uint32
 }
 
+// Validate checks that the key has the shape of a key for a function with
+// values of blockLength elements.
+func (k *FssKeyEq2P) Validate(blockLength int) error {
+	if len(k.SInit) != aes.BlockSize || k.TInit > 1 || len(k.FinalCW) != blockLength {
+		return errors.New("malformed FSS key")
+	}
+	for _, cw := range k.CW {
+		if len(cw) != aes.BlockSize+2 {
+			return errors.New("malformed FSS key")
+		}
+	}
+
+	return nil
+}
+
 type CWLt struct {
 	cs [][]byte
 	ct []uint8
diff --git a/lib/query/query.go b/lib/query/query.go
index e150f60..79fd226 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -168,6 +168,9 @@ func (q *FSS) IdForYearCreationTime(t time.Time) ([]bool, error) {
 
 func (i *Info) IdForEmail(email string) ([]bool, bool) {
 	var id []bool
+	if i.FromStart < 0 || i.FromEnd < 0 {
+		return nil, false
+	}
 	if i.FromStart != 0 {
 		if i.FromStart > len(email) {
 			return nil, false
diff --git a/lib/server/fss.go b/lib/server/fss.go
index 51dd887..eacd6ae 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -3,6 +3,7 @@ package server
 import (
 	"bytes"
 	"encoding/gob"
+	"errors"
 	"time"
 
 	"github.com/si-co/vpir-code/lib/database"
@@ -33,16 +34,33 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 	}
 
 	// get answer
-	a := s.answer(query, out, tmp)
+	a, err := s.answer(query, out, tmp)
+	if err != nil {
+		return nil, err
+	}
 
 	return utils.Uint32SliceToByteSlice(a), nil
 }
 
-func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
+func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) ([]uint32, error) {
+	if q == nil || q.Info == nil {
+		return nil, errors.New("incomplete query")
+	}
+	if err := q.FssKey.Validate(len(out)); err != nil {
+		return nil, err
+	}
+
 	numIdentifiers := s.db.NumColumns
 	// the evaluation uses scratch space that cannot be shared among
 	// concurrent requests
 	eval := fss.ServerInitialize(len(out))
+	evaluate := func(in []bool) error {
+		if len(in) != len(q.FssKey.CW) {
+			return errors.New("key and input have different lengths")
+		}
+		eval.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
+		return nil
+	}
 
 	if !q.And && !q.Avg && !q.Sum {
 		switch q.Target {
@@ -53,42 +71,48 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				if !valid {
 					continue
 				}
-				eval.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				if err := evaluate(id); err != nil {
+					return nil, err
+				}
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
 			}
-			return out
+			return out, nil
 		case query.PubKeyAlgo:
 			for i := 0; i < numIdentifiers; i++ {
 				id := q.IdForPubKeyAlgo(s.db.KeysInfo[i].PubKeyAlgo)
-				eval.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				if err := evaluate(id); err != nil {
+					return nil, err
+				}
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
 			}
-			return out
+			return out, nil
 		case query.CreationTime:
 			for i := 0; i < numIdentifiers; i++ {
 				id, err := q.IdForCreationTime(s.db.KeysInfo[i].CreationTime)
 				if err != nil {
-					panic("impossible to marshal creation date")
+					return nil, err
+				}
+				if err := evaluate(id); err != nil {
+					return nil, err
 				}
-				eval.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
 			}
-			return out
+			return out, nil
 		default:
-			panic("not yet implemented")
+			return nil, errors.New("unknown target")
 		}
 	} else if q.And && !q.Avg && !q.Sum { // conjunction
 		for i := 0; i < numIdentifiers; i++ {
 			// year
 			yearMatch, err := q.IdForYearCreationTime(s.db.KeysInfo[i].CreationTime)
 			if err != nil {
-				panic(err)
+				return nil, err
 			}
 			// edu
 			email := s.db.KeysInfo[i].UserId.Email
@@ -97,15 +121,17 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				continue
 			}
 			in := append(yearMatch, id...)
-			eval.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
+			if err := evaluate(in); err != nil {
+				return nil, err
+			}
 			for j := range out {
 				out[j] = (out[j] + tmp[j]) % field.ModP
 			}
 		}
-		return out
+		return out, nil
 
 	} else if q.And && q.Sum && !q.Avg { // sum
-		panic("sum not implemented")
+		return nil, errors.New("sum not implemented")
 	} else if q.And && q.Avg && !q.Sum { // avg
 		sum := make([]uint32, len(out))
 		for i := 0; i < numIdentifiers; i++ {
@@ -115,7 +141,9 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				continue
 			}
 
-			eval.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
+			if err := evaluate(in); err != nil {
+				return nil, err
+			}
 
 			// compute difference in years between now and creation time
 			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
@@ -133,8 +161,18 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				sum[j] = (sum[j] + uint32(tmpYears)) % field.ModP
 			}
 		}
-		return append(out, sum...)
+		return append(out, sum...), nil
 	} else {
-		panic("query not recognized")
+		return nil, errors.New("query not recognized")
 	}
 }
+
+// mustAnswer is as answer, for queries that are known to be well formed
+func (s *serverFSS) mustAnswer(q *query.FSS, out, tmp []uint32) []uint32 {
+	a, err := s.answer(q, out, tmp)
+	if err != nil {
+		panic(err)
+	}
+
+	return a
+}
diff --git a/lib/server/predicate_apir.go b/lib/server/predicate_apir.go
index 9f56db9..3fc347d 100644
--- a/lib/server/predicate_apir.go
+++ b/lib/server/predicate_apir.go
@@ -46,5 +46,5 @@ func (s *PredicateAPIR) Answer(q *query.FSS) []uint32 {
 	out := make([]uint32, 1+field.ConcurrentExecutions)
 	tmp := make([]uint32, 1+field.ConcurrentExecutions)
 
-	return s.serverFSS.answer(q, out, tmp)
+	return s.serverFSS.mustAnswer(q, out, tmp)
 }
diff --git a/lib/server/predicate_pir.go b/lib/server/predicate_pir.go
index 86edddc..949ef4c 100644
--- a/lib/server/predicate_pir.go
+++ b/lib/server/predicate_pir.go
@@ -47,5 +47,5 @@ func (s *PredicatePIR) Answer(q *query.FSS) []uint32 {
 	out := []uint32{0}
 	tmp := []uint32{0}
 
-	return s.serverFSS.answer(q, out, tmp)
+	return s.serverFSS.mustAnswer(q, out, tmp)
 }
-- 
2.43.0


From f36025c11e3d55c80c19b18549c3ade7f7228763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 15/47] fix: query: creation times match whatever their time
 zone

---
 lib/query/query.go | 5 +++--
 lib/server/fss.go  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index 79fd226..2b4163d 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -194,7 +194,8 @@ func (i *Info) IdForPubKeyAlgo(pka packet.PublicKeyAlgorithm) []bool {
 }
 
 func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
-	binaryMatch, err := t.MarshalBinary()
+	// the same instant must match whatever the time zone it is expressed in
+	binaryMatch, err := t.UTC().MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
@@ -202,7 +203,7 @@ func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
 }
 
 func (i *Info) IdForYearCreationTime(t time.Time) ([]bool, error) {
-	y := uint32(t.Year())
+	y := uint32(t.UTC().Year())
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, y)
 	return utils.ByteToBits(b), nil
diff --git a/lib/server/fss.go b/lib/server/fss.go
index eacd6ae..f73bafe 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -146,7 +146,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) ([]uint32, error) {
 			}
 
 			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
+			diffYears := time.Now().UTC().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From 88db01e63e22b7b53e5c387187f5fb06ac38c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 16/47] fix: client: report malformed answers to predicate
 queries

---
 lib/client/client.go |  6 ++++++
 lib/client/fss.go    | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 2ad31d8..c6db26e 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -7,6 +7,7 @@ import (
 	"github.com/cloudflare/circl/group"
 	"github.com/lukechampine/fastxor"
 	"github.com/si-co/vpir-code/lib/database"
+	"github.com/si-co/vpir-code/lib/field"
 	"github.com/si-co/vpir-code/lib/merkle"
 	"github.com/si-co/vpir-code/lib/utils"
 )
@@ -26,6 +27,8 @@ type state struct {
 	// for multi-server
 	alphas []uint32 // four alphas to meet desired soundness
 	a      []uint32 // cointains [1, alpha_i], i = 0, .., 3
+	// length in field elements of the expected answers
+	answerLen int
 
 	// for single-server (DH)
 	r  group.Scalar
@@ -38,6 +41,9 @@ func decodeAnswer(in [][]byte) ([][]uint32, error) {
 	// decode all the answers one by one
 	answer := make([][]uint32, len(in))
 	for i, a := range in {
+		if len(a)%field.Bytes != 0 {
+			return nil, errors.New("answer is not made of field elements")
+		}
 		answer[i] = utils.ByteSliceToUint32Slice(a)
 	}
 
diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..673eb1a 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -50,7 +50,11 @@ func (c *clientFSS) query(q *query.ClientFSS, numServers int) []*query.FSS {
 	}
 
 	// set client state
-	c.state = &state{}
+	c.state = &state{answerLen: c.executions}
+	if q.Avg {
+		// both the count and the sum
+		c.state.answerLen = 2 * c.executions
+	}
 	c.state.alphas = make([]uint32, c.executions)
 	c.state.a = make([]uint32, c.executions)
 	c.state.a[0] = 1 // to retrieve data
@@ -81,6 +85,10 @@ func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
 }
 
 func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
+	if err := c.checkAnswers(answers); err != nil {
+		return 0, err
+	}
+
 	// AVG case
 	if len(answers[0]) == 2*c.executions {
 		countFirst := answers[0][:c.executions]
@@ -133,3 +141,26 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 	}
 
 }
+
+// checkAnswers checks that the answers have the shape of answers to the last
+// query.
+func (c *clientFSS) checkAnswers(answers [][]uint32) error {
+	if c.state == nil {
+		return errors.New("no query to reconstruct")
+	}
+	if len(answers) != 2 {
+		return errors.New("wrong number of answers")
+	}
+	for _, a := range answers {
+		if len(a) != c.state.answerLen {
+			return errors.New("answer of wrong length")
+		}
+		for _, e := range a {
+			if e >= field.ModP {
+				return errors.New("answer is not made of field elements")
+			}
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 9936351092de5d266bd626d80f67e0bc37fcb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 17/47] fix: client: report the average over an empty selection
 as an error

---
 lib/client/fss.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/client/fss.go b/lib/client/fss.go
index 673eb1a..32230fc 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -119,6 +119,10 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		if dataCount == 0 {
+			return 0, errors.New("average over an empty selection")
+		}
+
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From 077f4da51042befeb393427f828c9579b89c90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 18/47] fix: client: refuse invalid predicate queries without
 terminating the program

---
 lib/client/fss.go            | 21 +++++++++++++++++----
 lib/client/predicate_apir.go |  2 +-
 lib/client/predicate_pir.go  |  2 +-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/client/fss.go b/lib/client/fss.go
index 32230fc..560b88d 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -28,7 +28,10 @@ func (c *clientFSS) queryBytes(in []byte, numServers int) ([][]byte, error) {
 		return nil, err
 	}
 
-	queries := c.query(inQuery, numServers)
+	queries, err := c.query(inQuery, numServers)
+	if err != nil {
+		return nil, err
+	}
 
 	// encode all the queries in bytes
 	data := make([][]byte, len(queries))
@@ -44,9 +47,9 @@ func (c *clientFSS) queryBytes(in []byte, numServers int) ([][]byte, error) {
 	return data, nil
 }
 
-func (c *clientFSS) query(q *query.ClientFSS, numServers int) []*query.FSS {
-	if invalidQueryInputsFSS(numServers) {
-		log.Fatal("invalid query inputs")
+func (c *clientFSS) query(q *query.ClientFSS, numServers int) ([]*query.FSS, error) {
+	if invalidQueryInputsFSS(numServers) || q.Info == nil {
+		return nil, errors.New("invalid query inputs")
 	}
 
 	// set client state
@@ -72,7 +75,17 @@ func (c *clientFSS) query(q *query.ClientFSS, numServers int) []*query.FSS {
 	return []*query.FSS{
 		{Info: q.Info, FssKey: fssKeys[0]},
 		{Info: q.Info, FssKey: fssKeys[1]},
+	}, nil
+}
+
+// mustQuery is as query, and terminates the program if the inputs are invalid
+func (c *clientFSS) mustQuery(q *query.ClientFSS, numServers int) []*query.FSS {
+	queries, err := c.query(q, numServers)
+	if err != nil {
+		log.Fatal(err)
 	}
+
+	return queries
 }
 
 func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
diff --git a/lib/client/predicate_apir.go b/lib/client/predicate_apir.go
index b174178..e82610f 100644
--- a/lib/client/predicate_apir.go
+++ b/lib/client/predicate_apir.go
@@ -40,7 +40,7 @@ func (c *PredicateAPIR) QueryBytes(in []byte, numServers int) ([][]byte, error)
 // Query takes as input the index of the entry to be retrieved and the number
 // of servers (= 2 in the DPF case). It returns the two FSS keys.
 func (c *PredicateAPIR) Query(q *query.ClientFSS, numServers int) []*query.FSS {
-	return c.query(q, numServers)
+	return c.mustQuery(q, numServers)
 }
 
 // ReconstructBytes decodes the answers from the servers and reconstruct the
diff --git a/lib/client/predicate_pir.go b/lib/client/predicate_pir.go
index 970f2e0..75b8c26 100644
--- a/lib/client/predicate_pir.go
+++ b/lib/client/predicate_pir.go
@@ -37,7 +37,7 @@ func (c *PredicatePIR) QueryBytes(in []byte, numServers int) ([][]byte, error) {
 // Query outputs the queries, i.e. DPF keys, for index i. The DPF
 // implementation assumes two servers.
 func (c *PredicatePIR) Query(q *query.ClientFSS, numServers int) []*query.FSS {
-	return c.query(q, numServers)
+	return c.mustQuery(q, numServers)
 }
 
 // ReconstructBytes returns []byte
-- 
2.43.0


From d6e7e2ec59f1db3a6e2ee72dd884cf8f67d379df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 19/47] fix: client: accept only the proof of the requested
 position

---
 lib/client/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index c6db26e..259b35c 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -2,7 +2,6 @@ package client
 
 import (
 	"errors"
-	"log"
 
 	"github.com/cloudflare/circl/group"
 	"github.com/lukechampine/fastxor"
@@ -62,14 +61,21 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 			return block, err
 		}
 		block = database.UnPadBlock(block)
+		if dbInfo.Merkle == nil || dbInfo.ProofLen < 0 || dbInfo.ProofLen > len(block) {
+			return nil, errors.New("REJECT!")
+		}
 		data := block[:len(block)-dbInfo.ProofLen]
 
 		// check Merkle proof
 		encodedProof := block[len(block)-dbInfo.ProofLen:]
 		proof := merkle.DecodeProof(encodedProof)
+		// the proof must be for the requested position
+		if proof == nil || int(proof.Index) != state.ix*dbInfo.NumColumns+state.iy {
+			return nil, errors.New("REJECT!")
+		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
-			log.Fatalf("impossible to verify proof: %v", err)
+			return nil, err
 		}
 		if !verified {
 			return nil, errors.New("REJECT!")
@@ -77,7 +83,7 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 
 		return data, nil
 	default:
-		panic("unknown PIRType")
+		return nil, errors.New("unknown PIRType")
 	}
 }
 
-- 
2.43.0


From 63e692e67b3fcb5d2925d60a26a5587ba57cd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 20/47] fix: client: report malformed answers to point queries

---
 lib/client/client.go    | 13 +++++++++++++
 lib/client/pir_point.go |  5 +++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 259b35c..797a1f4 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -22,6 +22,8 @@ type state struct {
 	// only used for Merkle tree-based approach and classic PIR
 	ix int
 	iy int
+	// number of servers to which the query is sent
+	numServers int
 
 	// for multi-server
 	alphas []uint32 // four alphas to meet desired soundness
@@ -88,8 +90,19 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 }
 
 func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state) ([]byte, error) {
+	if state == nil {
+		return nil, errors.New("no query to reconstruct")
+	}
+	if len(answers) != state.numServers {
+		return nil, errors.New("wrong number of answers")
+	}
 	// sum answers as vectors in GF(2)
 	bs := dbInfo.BlockSize
+	for k := range answers {
+		if len(answers[k]) != dbInfo.NumRows*bs {
+			return nil, errors.New("answer of wrong length")
+		}
+	}
 	sum := make([]byte, bs)
 	for k := range answers {
 		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index 15993b2..986fa2c 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -63,8 +63,9 @@ func (c *PIR) query(index int, numServers int) ([][]byte, error) {
 	// set the client state. The entries specific to VPIR are not used
 	ix, iy := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	c.state = &state{
-		ix: ix,
-		iy: iy,
+		ix:         ix,
+		iy:         iy,
+		numServers: numServers,
 	}
 
 	if numServers == 2 {
-- 
2.43.0


From c89cf171606082404645cb04eb18e190c2db20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 21/47] fix: database: compute the group-based digests of
 databases with few rows

---
 lib/database/elliptic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index f22b72e..ca5f0e0 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -38,7 +38,11 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 	var begin, end int
 	for i := 0; i < NGoRoutines; i++ {
 		begin, end = i*rowsPerRoutine, (i+1)*rowsPerRoutine
-		// make the last routine take all the left-over (from division) rows
+		// make the last routine take all the left-over (from division) rows,
+		// there is nothing left for some routines if there are few rows
+		if begin > numRows {
+			begin = numRows
+		}
 		if end > numRows {
 			end = numRows
 		}
-- 
2.43.0


From a3eaa0e1ac90898b341c39cb3385a968cce3ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 22/47] fix: database: encode all the group elements, also the
 identity, with the same length

---
 lib/client/dh.go         | 14 +++++++-------
 lib/database/elliptic.go | 29 ++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..c252cfb 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -71,22 +71,22 @@ func (c *DH) QueryBytes(index int) ([]byte, error) {
 
 func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	g := c.dbInfo.Group
-	digSize := c.dbInfo.ElementSize
 	rneg := g.NewScalar().Neg(c.state.r)
 	// get the tags of all the rows
 	answer, err := database.UnmarshalGroupElements(a, c.dbInfo.Group, c.dbInfo.ElementSize)
 	if err != nil {
 		return nil, err
 	}
+	// get the digests of all the rows
+	digests, err := database.UnmarshalGroupElements(c.dbInfo.SubDigests, c.dbInfo.Group, c.dbInfo.ElementSize)
+	if err != nil {
+		return nil, err
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
-		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
-		if err != nil {
-			return nil, err
-		}
+		// raise the row digest to a power r
+		d := digests[i]
 		d.Mul(d, rneg)
 		m.Add(d, answer[i])
 		if !m.IsIdentity() && !m.IsEqual(c.state.ht) {
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ca5f0e0..7ab0f54 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -1,8 +1,10 @@
 package database
 
 import (
+	"bytes"
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -77,7 +79,8 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 }
 
 func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h crypto.Hash, replyTo chan<- []byte) {
-	digs := make([]byte, 0, (end-begin)*h.Size())
+	elemSize := getGroupElementSize(g)
+	digs := make([]byte, 0, (end-begin)*elemSize)
 	for i := begin; i < end; i++ {
 		d := g.Identity()
 		for j := 0; j < rowLen; j++ {
@@ -85,7 +88,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 				d.Add(d, HashIndexToGroup(uint64(j), g))
 			}
 		}
-		tmp, err := d.MarshalBinaryCompress()
+		tmp, err := MarshalGroupElements([]group.Element{d}, elemSize)
 		if err != nil {
 			log.Fatal(err)
 		}
@@ -109,7 +112,7 @@ func CommitScalarToIndex(x group.Scalar, j uint64, g group.Group) group.Element
 	return g.NewElement().Mul(H, x)
 }
 
-// Marshal a slice of group elements
+// Marshal a slice of group elements, each into marshalledLen bytes
 func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error) {
 	encoded := make([]byte, 0, marshalledLen*len(q))
 	for _, el := range q {
@@ -117,20 +120,28 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 		if err != nil {
 			return nil, err
 		}
+		if el.IsIdentity() {
+			// some groups have a shorter encoding for the identity
+			tmp = make([]byte, marshalledLen)
+		}
 		encoded = append(encoded, tmp...)
 	}
 	return encoded, nil
 }
 
-// Unmarshal a slice of group elements
+// Unmarshal a slice of group elements, each from elemSize bytes
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
-	var err error
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("truncated group element")
+	}
+	identity := make([]byte, elemSize)
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
-		elem := g.NewElement()
-		err = elem.UnmarshalBinary(q[i : i+elemSize])
-		if err != nil {
-			return nil, err
+		elem := g.Identity()
+		if !bytes.Equal(q[i:i+elemSize], identity) {
+			if err := elem.UnmarshalBinary(q[i : i+elemSize]); err != nil {
+				return nil, err
+			}
 		}
 		decoded = append(decoded, elem)
 	}
-- 
2.43.0


From 5105d1c5722e544681b9455cf622c6580ce893e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 23/47] fix: client: report malformed answers to group-based
 queries

---
 lib/client/dh.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index c252cfb..55a0ae9 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -70,6 +70,9 @@ func (c *DH) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
+	if c.state == nil {
+		return nil, errors.New("no query to reconstruct")
+	}
 	g := c.dbInfo.Group
 	rneg := g.NewScalar().Neg(c.state.r)
 	// get the tags of all the rows
@@ -82,6 +85,9 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(answer) != c.dbInfo.NumRows || len(digests) != c.dbInfo.NumRows {
+		return nil, errors.New("wrong number of group elements")
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
-- 
2.43.0


From e134930fef5b413e1bdb10937d41957cad183b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 24/47] fix: client: refuse single-server lookups outside of
 the database

---
 lib/client/amplify.go | 6 +++++-
 lib/client/dh.go      | 4 ++++
 lib/client/lwe.go     | 3 +++
 lib/client/lwe128.go  | 3 +++
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 18ac684..47cf07f 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -38,7 +38,11 @@ func (a *Amplify) Query(i, j int) []*matrix.Matrix {
 }
 
 func (a *Amplify) QueryBytes(index int) ([]byte, error) {
-	i, j := utils.VectorToMatrixIndices(index, a.lwes[0].dbInfo.NumColumns)
+	info := a.lwes[0].dbInfo
+	if index < 0 || index >= info.NumRows*info.NumColumns {
+		return nil, errors.New("invalid query inputs")
+	}
+	i, j := utils.VectorToMatrixIndices(index, info.NumColumns)
 	ms := a.Query(i, j)
 
 	// encode
diff --git a/lib/client/dh.go b/lib/client/dh.go
index 55a0ae9..e63a7d7 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -37,6 +37,10 @@ func NewDH(rnd io.Reader, info *database.Info) *DH {
 // QueryBytes takes as input the index of an entry in the database and returns
 // the query for the server encoded in bytes
 func (c *DH) QueryBytes(index int) ([]byte, error) {
+	if index < 0 || index >= c.dbInfo.NumRows*c.dbInfo.NumColumns {
+		return nil, errors.New("invalid query inputs")
+	}
+
 	g := c.dbInfo.Group
 
 	// sample two random scalars
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index 4e03463..c42e831 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -66,6 +66,9 @@ func (c *LWE) Query(i, j int) *matrix.Matrix {
 }
 
 func (c *LWE) QueryBytes(index int) ([]byte, error) {
+	if index < 0 || index >= c.dbInfo.NumRows*c.dbInfo.NumColumns {
+		return nil, errors.New("invalid query inputs")
+	}
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
 	return matrix.MatrixToBytes(m), nil
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1835bdf..5846171 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -67,6 +67,9 @@ func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
 }
 
 func (c *LWE128) QueryBytes(index int) ([]byte, error) {
+	if index < 0 || index >= c.dbInfo.NumRows*c.dbInfo.NumColumns {
+		return nil, errors.New("invalid query inputs")
+	}
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
 	return matrix.Matrix128ToBytes(m), nil
-- 
2.43.0


From 880ec4965ec41b65c22ae838d12ba6d67ab6ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 25/47] fix: server: report malformed group-based queries

---
 lib/server/dh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/server/dh.go b/lib/server/dh.go
index 772c33b..987412e 100644
--- a/lib/server/dh.go
+++ b/lib/server/dh.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math"
 
 	"github.com/cloudflare/circl/group"
@@ -22,6 +23,10 @@ func (s *DH) AnswerBytes(q []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(query) != s.db.NumColumns {
+		return nil, errors.New("wrong number of group elements")
+	}
+
 	NGoRoutines := 1
 	// make sure that we do not need up with routines processing 0 elements
 	if NGoRoutines > s.db.NumRows {
-- 
2.43.0


From dae153b51c21ff5cdc054918109f7a37c35aba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 26/47] fix: matrix: report inconsistent encodings and handle
 matrices without elements

---
 lib/matrix/matrix.go    | 63 +++++++++++++++++++++++++++++++++++++----
 lib/matrix/matrix128.go | 18 ++++++++++--
 2 files changed, 74 insertions(+), 7 deletions(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 0335b25..8196aa1 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -28,6 +28,10 @@ func New(r int, c int) *Matrix {
 }
 
 func NewWithData(r int, c int, data []uint32) *Matrix {
+	if len(data) != r*c {
+		panic("Dimension mismatch")
+	}
+
 	return &Matrix{
 		rows: r,
 		cols: c,
@@ -46,12 +50,14 @@ func MatrixToBytes(in *Matrix) []byte {
 	return append(params, utils.Uint32SliceToByteSlice(in.data)...)
 }
 
+// BytesToMatrix decodes a matrix encoded with MatrixToBytes. It returns nil if
+// the input is not the encoding of a matrix.
 func BytesToMatrix(in []byte) *Matrix {
 	// retrieve the matrix dimensions
-	r := in[:4]
-	rows := int(binary.BigEndian.Uint32(r))
-	c := in[4:8]
-	cols := int(binary.BigEndian.Uint32(c))
+	rows, cols, ok := decodeDimensions(in, 4)
+	if !ok {
+		return nil
+	}
 	data := utils.ByteSliceToUint32Slice(in[8:])
 	return &Matrix{
 		rows: rows,
@@ -60,7 +66,27 @@ func BytesToMatrix(in []byte) *Matrix {
 	}
 }
 
+// decodeDimensions retrieves the dimensions from the encoding of a matrix and
+// checks that the encoding holds as many elements as these dimensions require.
+func decodeDimensions(in []byte, bytesElement int) (int, int, bool) {
+	if len(in) < 8 || (len(in)-8)%bytesElement != 0 {
+		return 0, 0, false
+	}
+	rows := binary.BigEndian.Uint32(in[:4])
+	cols := binary.BigEndian.Uint32(in[4:8])
+	if uint64(rows)*uint64(cols) != uint64((len(in)-8)/bytesElement) {
+		return 0, 0, false
+	}
+
+	return int(rows), int(cols), true
+}
+
 func MatricesToBytes(in []*Matrix) []byte {
+	// nothing to encode: the length of a single matrix is zero
+	if len(in) == 0 {
+		return make([]byte, 4)
+	}
+
 	// the matrices are all the same, so
 	// we can use MatrixToBytes to see how many
 	// bytes are necessary for one, and then encode the length
@@ -82,17 +108,34 @@ func MatricesToBytes(in []*Matrix) []byte {
 	return out
 }
 
+// BytesToMatrices decodes the matrices encoded with MatricesToBytes. It
+// returns nil if the input is not the encoding of a list of matrices that all
+// have the same dimensions.
 func BytesToMatrices(in []byte) []*Matrix {
+	if len(in) < 4 {
+		return nil
+	}
+
 	// retrieve length of single encoded matrix
 	length := int(binary.BigEndian.Uint32(in[:4]))
 
+	if len(in) == 4 && length == 0 {
+		return []*Matrix{}
+	}
+	if len(in) == 4 || length == 0 || (len(in)-4)%length != 0 {
+		return nil
+	}
+
 	// how many matrices?
-	n := uint32((len(in) - 4) / length)
+	n := (len(in) - 4) / length
 
 	out := make([]*Matrix, n)
 
 	for i := range out {
 		out[i] = BytesToMatrix(in[4+i*length : 4+(i+1)*length])
+		if out[i] == nil || out[i].rows != out[0].rows || out[i].cols != out[0].cols {
+			return nil
+		}
 	}
 
 	return out
@@ -152,6 +195,11 @@ func BinaryMul(a *Matrix, b *MatrixBytes) *Matrix {
 	}
 
 	out := New(a.rows, b.cols)
+	// nothing to compute, and no element to point to
+	if len(a.data) == 0 || len(b.data) == 0 {
+		return out
+	}
+
 	C.binary_multiply(C.int(a.rows), C.int(a.cols), C.int(b.cols),
 		(*C.uint32_t)(&a.data[0]), (*C.uint8_t)(&b.data[0]),
 		(*C.uint32_t)(&out.data[0]))
@@ -175,6 +223,11 @@ func Mul(a *Matrix, b *Matrix) *Matrix {
 	}
 
 	out := New(a.rows, b.cols)
+	// nothing to compute, and no element to point to
+	if len(a.data) == 0 || len(b.data) == 0 {
+		return out
+	}
+
 	C.multiply(C.int(a.rows), C.int(a.cols), C.int(b.cols),
 		(*C.uint32_t)(&a.data[0]), (*C.uint32_t)(&b.data[0]),
 		(*C.uint32_t)(&out.data[0]))
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index 904a77a..40aec12 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -43,10 +43,14 @@ func Matrix128ToBytes(in *Matrix128) []byte {
 	return append(params, out...)
 }
 
+// BytesToMatrix128 decodes a matrix encoded with Matrix128ToBytes. It returns
+// nil if the input is not the encoding of a matrix.
 func BytesToMatrix128(in []byte) *Matrix128 {
 	// retrieve the matrix dimensions
-	rows := int(binary.BigEndian.Uint32(in[:4]))
-	cols := int(binary.BigEndian.Uint32(in[4:]))
+	rows, cols, ok := decodeDimensions(in, 16)
+	if !ok {
+		return nil
+	}
 	data := make([]uint128.Uint128, len(in[8:])/16)
 	for i := range data {
 		data[i] = uint128.FromBytes(in[8+i*16:])
@@ -109,6 +113,11 @@ func BinaryMul128(a *Matrix128, b *MatrixBytes) *Matrix128 {
 		panic("Dimension mismatch")
 	}
 
+	// nothing to compute, and no element to point to
+	if len(a.data) == 0 || len(b.data) == 0 {
+		return New128(a.rows, b.cols)
+	}
+
 	aa := make([]byte, 16*a.rows*a.cols)
 	for i := range a.data {
 		a.data[i].PutBytes(aa[16*i:])
@@ -136,6 +145,11 @@ func Mul128(a *Matrix128, b *Matrix128) *Matrix128 {
 		panic("Dimension mismatch")
 	}
 
+	// nothing to compute, and no element to point to
+	if len(a.data) == 0 || len(b.data) == 0 {
+		return New128(a.rows, b.cols)
+	}
+
 	aa := make([]byte, 16*a.rows*a.cols)
 	for i := range a.data {
 		a.data[i].PutBytes(aa[16*i:])
-- 
2.43.0


From 17ca0adaab09d24cae8ab921297563e7e497e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 27/47] fix: server: report malformed lattice-based queries

---
 lib/server/amplify.go | 13 ++++++++++++-
 lib/server/lwe.go     |  8 +++++++-
 lib/server/lwe128.go  |  8 +++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/server/amplify.go b/lib/server/amplify.go
index aaaaabb..e92f672 100644
--- a/lib/server/amplify.go
+++ b/lib/server/amplify.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -29,7 +31,16 @@ func (a *Amplify) Answer(qq []*matrix.Matrix) []*matrix.Matrix {
 }
 
 func (a *Amplify) AnswerBytes(qq []byte) ([]byte, error) {
-	ans := a.Answer(matrix.BytesToMatrices(qq))
+	queries := matrix.BytesToMatrices(qq)
+	if len(queries) == 0 {
+		return nil, errors.New("invalid query")
+	}
+	for _, q := range queries {
+		if q.Rows() != 1 || q.Cols() != a.lwe.db.NumRows {
+			return nil, errors.New("invalid query")
+		}
+	}
+	ans := a.Answer(queries)
 
 	// encode
 	return matrix.MatricesToBytes(ans), nil
diff --git a/lib/server/lwe.go b/lib/server/lwe.go
index 8cc167d..401ead2 100644
--- a/lib/server/lwe.go
+++ b/lib/server/lwe.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,11 @@ func (s *LWE) DBInfo() *database.Info {
 }
 
 func (s *LWE) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix(q))
+	m := matrix.BytesToMatrix(q)
+	if m == nil || m.Rows() != 1 || m.Cols() != s.db.NumRows {
+		return nil, errors.New("invalid query")
+	}
+	a := s.Answer(m)
 	return matrix.MatrixToBytes(a), nil
 }
 
diff --git a/lib/server/lwe128.go b/lib/server/lwe128.go
index caed9cb..d262cef 100644
--- a/lib/server/lwe128.go
+++ b/lib/server/lwe128.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,11 @@ func (s *LWE128) DBInfo() *database.Info {
 }
 
 func (s *LWE128) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix128(q))
+	m := matrix.BytesToMatrix128(q)
+	if m == nil || m.Rows() != 1 || m.Cols() != s.db.NumRows {
+		return nil, errors.New("invalid query")
+	}
+	a := s.Answer(m)
 	return matrix.Matrix128ToBytes(a), nil
 }
 
-- 
2.43.0


From c7b776e5ae87d86f866d0349f043a5b9dfc5bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 28/47] fix: client: do not mask lattice-based queries with a
 scalar in the noise range

---
 lib/client/lwe.go    | 24 +++++++++++++++++++++---
 lib/client/lwe128.go | 21 ++++++++++++++++++---
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index c42e831..aa1fa48 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -11,6 +11,10 @@ import (
 
 // LEW based authenticated single server PIR client
 
+// maxSamplesT bounds the number of scalars sampled for a query, so that a
+// broken source of randomness does not block the client
+const maxSamplesT = 128
+
 // Client description
 type LWE struct {
 	dbInfo *database.Info
@@ -37,8 +41,7 @@ func NewLWE(rnd io.Reader, info *database.Info, params *utils.ParamsLWE) *LWE {
 }
 
 func (c *LWE) Query(i, j int) *matrix.Matrix {
-	// Lazy way to sample a random scalar
-	rand := matrix.NewRandom(c.rnd, 1, 1)
+	t := c.sampleT()
 
 	// digest is already stored in the state when receiving the database info
 	c.state = &StateLWE{
@@ -47,7 +50,7 @@ func (c *LWE) Query(i, j int) *matrix.Matrix {
 		secret: matrix.NewRandom(c.rnd, 1, c.params.N),
 		i:      i,
 		j:      j,
-		t:      rand.Get(0, 0),
+		t:      t,
 	}
 
 	// Query has dimension 1 x l
@@ -97,6 +100,21 @@ func (c *LWE) ReconstructBytes(a []byte) (uint32, error) {
 	return c.Reconstruct(matrix.BytesToMatrix(a))
 }
 
+// sampleT samples the random scalar that masks the retrieved column. The scalar
+// has to be far enough from zero for the noise around it to be told from the
+// noise around zero.
+func (c *LWE) sampleT() uint32 {
+	bound := 2 * uint64(c.params.B)
+	for k := 0; k < maxSamplesT; k++ {
+		// Lazy way to sample a random scalar
+		t := matrix.NewRandom(c.rnd, 1, 1).Get(0, 0)
+		if uint64(t) >= bound && uint64(t)+bound < 1<<32 {
+			return t
+		}
+	}
+	panic("impossible to sample a random scalar out of the noise range")
+}
+
 func (c *LWE) inRange(val uint32) bool {
 	return (val < c.params.B) || (val > -c.params.B)
 }
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 5846171..6fc051a 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -38,8 +38,7 @@ func NewLWE128(rnd io.Reader, info *database.Info, params *utils.ParamsLWE) *LWE
 }
 
 func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
-	// Lazy way to sample a random scalar
-	rand := matrix.NewRandom128(c.rnd, 1, 1)
+	t := c.sampleT()
 
 	// digest is already stored in the state when receiving the database info
 	c.state = &StateLWE128{
@@ -48,7 +47,7 @@ func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
 		secret: matrix.NewRandom128(c.rnd, 1, c.params.N),
 		i:      i,
 		j:      j,
-		t:      rand.Get(0, 0),
+		t:      t,
 	}
 
 	// Query has dimension 1 x l
@@ -98,6 +97,22 @@ func (c *LWE128) ReconstructBytes(a []byte) (uint32, error) {
 	return c.Reconstruct(matrix.BytesToMatrix128(a))
 }
 
+// sampleT samples the random scalar that masks the retrieved column. The scalar
+// has to be far enough from zero for the noise around it to be told from the
+// noise around zero.
+func (c *LWE128) sampleT() uint128.Uint128 {
+	min := uint128.From64(2 * uint64(c.params.B))
+	max := uint128.Max.Sub(min)
+	for k := 0; k < maxSamplesT; k++ {
+		// Lazy way to sample a random scalar
+		t := matrix.NewRandom128(c.rnd, 1, 1).Get(0, 0)
+		if t.Cmp(min) >= 0 && t.Cmp(max) <= 0 {
+			return t
+		}
+	}
+	panic("impossible to sample a random scalar out of the noise range")
+}
+
 func (c *LWE128) inRange(val uint128.Uint128) bool {
 	// max is q-1, so we add + 1 to B
 	tmp := uint128.Max.Sub(uint128.From64(uint64(c.params.B + 1)))
-- 
2.43.0


From 2d96b9e4f1c5df0d72a64ee4595ffd372ecfa602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 29/47] fix: client: report malformed answers to lattice-based
 queries

---
 lib/client/amplify.go | 4 ++++
 lib/client/lwe.go     | 7 +++++++
 lib/client/lwe128.go  | 7 +++++++
 3 files changed, 18 insertions(+)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 47cf07f..a01f295 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -50,6 +50,10 @@ func (a *Amplify) QueryBytes(index int) ([]byte, error) {
 }
 
 func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
+	if len(answers) != a.repetitions {
+		return 0, errors.New("wrong number of answers")
+	}
+
 	outputs := make([]uint32, a.repetitions)
 	var err error
 	for i := range outputs {
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index aa1fa48..bd4116f 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -78,6 +78,13 @@ func (c *LWE) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE) Reconstruct(answers *matrix.Matrix) (uint32, error) {
+	if c.state == nil {
+		return 0, errors.New("no query to reconstruct")
+	}
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("invalid answer")
+	}
+
 	s_trans_d := matrix.Mul(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 6fc051a..9610658 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -75,6 +75,13 @@ func (c *LWE128) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE128) Reconstruct(answers *matrix.Matrix128) (uint32, error) {
+	if c.state == nil {
+		return 0, errors.New("no query to reconstruct")
+	}
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("invalid answer")
+	}
+
 	s_trans_d := matrix.Mul128(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
-- 
2.43.0


From ab322ef4bc78561c13b838457b11fc189965b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 30/47] fix: matrix: represent negative noise exactly with the
 128-bit modulus

---
 lib/matrix/matrix128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index 40aec12..257780e 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -85,7 +85,7 @@ func NewGauss128(r int, c int) *Matrix128 {
 		if g >= 0 {
 			m.data[i] = uint128.From64(uint64(g))
 		} else {
-			m.data[i] = uint128.Max.Sub64(uint64(-g))
+			m.data[i] = uint128.Zero.SubWrap64(uint64(-g))
 		}
 	}
 
-- 
2.43.0


From 817f9730f7509ac8e505c42c5d1bc09a3468710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 31/47] fix: server: report malformed point queries

---
 lib/server/point.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/server/point.go b/lib/server/point.go
index 86e0031..97824f1 100644
--- a/lib/server/point.go
+++ b/lib/server/point.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math/bits"
 	"runtime"
 
@@ -48,9 +49,29 @@ func (s *PIR) DBInfo() *database.Info {
 
 // AnswerBytes computes the answer for the given query encoded in bytes
 func (s *PIR) AnswerBytes(q []byte) ([]byte, error) {
+	if len(q) != s.queryLength() {
+		return nil, errors.New("invalid query length")
+	}
 	return s.Answer(q), nil
 }
 
+// queryLength returns the length of the queries for the database
+func (s *PIR) queryLength() int {
+	if s.numServers != 2 {
+		// one query bit per column
+		return s.db.NumColumns/8 + 1
+	}
+
+	// DPF key: a seed with its control bit, a correction word with two
+	// control bits per level, and the final correction word. The last seven
+	// levels of the tree are in the final word.
+	length := 16 + 1 + 16
+	if levels := bits.Len(uint(s.db.NumColumns)) - 7; levels > 0 {
+		length += levels * (16 + 2)
+	}
+	return length
+}
+
 // Answer computes the answer for the given query
 func (s *PIR) Answer(q []byte) []byte {
 	nRows := s.db.NumRows
-- 
2.43.0


From 0d98a5c375c925fa2cbaaaefa5291a20e47f5c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 32/47] fix: grpc server: answer the DPF queries that clients
 send to two servers

---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..fc4ee6d 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		// the clients query two servers with a DPF
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From 75205f0eff51459f5a47fde32745dfbf7fddcfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 33/47] fix: grpc server: finish the accepted requests before
 stopping the worker

---
 cmd/grpc/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index fc4ee6d..d69c95d 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -214,8 +214,9 @@ func main() {
 	case err := <-errCh:
 		log.Fatalf("failed to serve: %v", err)
 	case <-sigCh:
-		server.stopWorker()
+		// stop the worker only when no accepted request needs it anymore
 		rpcServer.GracefulStop()
+		server.stopWorker()
 		lis.Close()
 		log.Println("clean shutdown of server done")
 	}
-- 
2.43.0


From 82657616b6e8e8ff38dba62cecb74e0e55cfbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 34/47] fix: grpc server: report invalid server ids and numbers
 of key files

---
 cmd/grpc/server/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index d69c95d..591b6f4 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -89,6 +89,9 @@ func main() {
 	if err != nil {
 		log.Fatalf("could not load the server config file: %v", err)
 	}
+	if *sid < 0 || *sid >= len(config.Addresses) || *sid >= len(utils.ServerCertificates) {
+		log.Fatalf("invalid server id: %d", *sid)
+	}
 	addr := config.Addresses[*sid]
 
 	// load the db
@@ -356,6 +359,9 @@ func getSksFiles(filesNumber int) []string {
 	if err != nil {
 		log.Fatalf("impossible to get sks files: %v", err)
 	}
+	if filesNumber < 0 || filesNumber > len(files) {
+		log.Fatalf("impossible to take %d key files out of %d", filesNumber, len(files))
+	}
 	// take only filesNumber files
 	return files[:filesNumber]
 }
-- 
2.43.0


From b24767d94f61f7ae1a4d0199de81642525e2e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 35/47] fix: utils: report missing, duplicate and negative
 server indices

---
 lib/utils/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/utils/config.go b/lib/utils/config.go
index 29686fe..f97eab6 100644
--- a/lib/utils/config.go
+++ b/lib/utils/config.go
@@ -35,6 +35,13 @@ func LoadConfig(configFile string) (*Config, error) {
 		if err != nil {
 			return nil, xerrors.Errorf("could not convert server index to integer: %v", err)
 		}
+		// every index identifies exactly one server
+		if i < 0 || i >= len(addresses) {
+			return nil, xerrors.Errorf("server index out of range: %d", i)
+		}
+		if addresses[i] != "" {
+			return nil, xerrors.Errorf("duplicate server index: %d", i)
+		}
 		addresses[i] = fmt.Sprintf("%s:%d", server.IP, server.Port)
 	}
 	c.Addresses = addresses
-- 
2.43.0


From e5324392da63899e15847b2fca9264c6d23f059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 36/47] fix: clients: send to every server the query meant for
 it

---
 cmd/grpc/client/main.go            | 24 ++++++++++--------------
 simulations/multi/client/client.go | 24 ++++++++++--------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..af43eb5 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -127,6 +127,10 @@ func (lc *localClient) connectToServers() error {
 	// connect to servers and store connections
 	lc.connections = make(map[string]*grpc.ClientConn)
 	for _, s := range lc.config.Addresses {
+		if _, ok := lc.connections[s]; ok {
+			return xerrors.Errorf("duplicate server address: %s", s)
+		}
+
 		conn, err := connectToServer(creds, s)
 		if err != nil {
 			return xerrors.Errorf("failed to connect: %v", err)
@@ -395,27 +399,19 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 	subCtx, cancel := context.WithTimeout(lc.ctx, time.Hour)
 	defer cancel()
 
+	// the j-th query and the j-th answer are those of the j-th server
 	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	answers := make([][]byte, len(queries))
+	for j, addr := range lc.config.Addresses {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
-			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
+			answers[j] = queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
-	close(resCh)
-
-	// combinate answers of all the servers
-	q := make([][]byte, 0)
-	for v := range resCh {
-		q = append(q, v)
-	}
 
-	return q
+	return answers
 }
 
 func queryServer(ctx context.Context, conn *grpc.ClientConn, opts []grpc.CallOption, query []byte) []byte {
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 2e9889d..10bc55a 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -259,6 +259,10 @@ func (lc *localClient) connectToServers(numServers int) error {
 	// connect to servers and store connections
 	lc.connections = make(map[string]*grpc.ClientConn)
 	for _, s := range lc.config.Addresses[0:numServers] {
+		if _, ok := lc.connections[s]; ok {
+			return xerrors.Errorf("duplicate server address: %s", s)
+		}
+
 		conn, err := connectToServer(creds, s)
 		if err != nil {
 			return xerrors.Errorf("failed to connect: %v", err)
@@ -367,27 +371,19 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 	subCtx, cancel := context.WithTimeout(lc.ctx, time.Hour)
 	defer cancel()
 
+	// the j-th query and the j-th answer are those of the j-th server
 	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	answers := make([][]byte, len(queries))
+	for j, addr := range lc.config.Addresses[0:lc.flags.numServers] {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
-			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
+			answers[j] = queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
-	close(resCh)
-
-	// combinate answers of all the servers
-	q := make([][]byte, 0)
-	for v := range resCh {
-		q = append(q, v)
-	}
 
-	return q
+	return answers
 }
 
 func queryServer(ctx context.Context, conn *grpc.ClientConn, opts []grpc.CallOption, query []byte) []byte {
-- 
2.43.0


From 1ec6a6785af2b246fb018100ffe3db8f6d767efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 37/47] fix: clients: compare the whole description of the
 database

---
 cmd/grpc/client/main.go            | 6 +++++-
 cmd/grpc/client/manager/mod.go     | 6 +++++-
 simulations/multi/client/client.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index af43eb5..2f29bd6 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -445,7 +446,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			!bytes.Equal(info[0].Root, info[i].Root) ||
+			info[0].ProofLen != info[i].ProofLen {
 			//info[0].IDLength != info[i].IDLength ||
 			//info[0].KeyLength != info[i].KeyLength {
 			return false
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..2ab07e5 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -1,6 +1,7 @@
 package manager
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"fmt"
@@ -172,7 +173,10 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	for i := range dbInfo {
 		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
 			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
+			dbInfo[0].BlockSize != dbInfo[i].BlockSize ||
+			dbInfo[0].PIRType != dbInfo[i].PIRType ||
+			!bytes.Equal(dbInfo[0].Root, dbInfo[i].Root) ||
+			dbInfo[0].ProofLen != dbInfo[i].ProofLen {
 
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 10bc55a..41acc69 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"flag"
@@ -339,7 +340,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			!bytes.Equal(info[0].Root, info[i].Root) ||
+			info[0].ProofLen != info[i].ProofLen {
 			return false
 		}
 	}
-- 
2.43.0


From 5002c3d07c94a8dee01bfe10cb2a2839a5bdc125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 38/47] fix: grpc client manager: report the errors of the
 servers without terminating the program

---
 cmd/grpc/client/interactive/mod.go |  5 +-
 cmd/grpc/client/manager/mod.go     | 82 ++++++++++++------------------
 cmd/grpc/client/web/mod.go         |  5 +-
 3 files changed, 40 insertions(+), 52 deletions(-)

diff --git a/cmd/grpc/client/interactive/mod.go b/cmd/grpc/client/interactive/mod.go
index 85d20b6..1578adf 100644
--- a/cmd/grpc/client/interactive/mod.go
+++ b/cmd/grpc/client/interactive/mod.go
@@ -454,7 +454,10 @@ func executeStatsQuery(clientQuery *query.ClientFSS, actor manager.Actor) (uint3
 		return 0, xerrors.Errorf("failed to query bytes: %v", err)
 	}
 
-	answers := actor.RunQueries(queries)
+	answers, err := actor.RunQueries(queries)
+	if err != nil {
+		return 0, xerrors.Errorf("failed to query the servers: %v", err)
+	}
 
 	result, err := client.ReconstructBytes(answers)
 	if err != nil {
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 2ab07e5..1587e58 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -88,27 +88,9 @@ func (a *Actor) GetKey(id string, dbInfo database.Info, client *client.PIR) (str
 	log.Printf("done with queries computation")
 
 	// send queries to servers
-	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
-	defer cancel()
-
-	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(a.servers))
-
-	for i, srv := range a.servers {
-		wg.Add(1)
-		go func(srv server, query []byte) {
-			resCh <- srv.query(ctx, query)
-			wg.Done()
-		}(srv, queries[i])
-	}
-
-	wg.Wait()
-	close(resCh)
-
-	// combinate answers of all the servers
-	answers := make([][]byte, 0)
-	for v := range resCh {
-		answers = append(answers, v)
+	answers, err := a.RunQueries(queries)
+	if err != nil {
+		return "", xerrors.Errorf("error when querying the servers: %v", err)
 	}
 
 	// reconstruct block
@@ -148,25 +130,24 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	defer cancel()
 
 	wg := sync.WaitGroup{}
-	resCh := make(chan database.Info, len(a.servers))
+	dbInfo := make([]database.Info, len(a.servers))
+	errs := make([]error, len(a.servers))
 
-	for _, srv := range a.servers {
+	for i, srv := range a.servers {
 		wg.Add(1)
-		go func(srv server) {
+		go func(i int, srv server) {
 			defer wg.Done()
 
-			info := srv.getDBInfo(ctx)
-			resCh <- info
-		}(srv)
+			dbInfo[i], errs[i] = srv.getDBInfo(ctx)
+		}(i, srv)
 	}
 
 	wg.Wait()
-	close(resCh)
-
-	dbInfo := make([]database.Info, 0, len(resCh))
 
-	for info := range resCh {
-		dbInfo = append(dbInfo, info)
+	for _, err := range errs {
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// check if db info are all equal before returning
@@ -189,31 +170,32 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 
 // RunQueries dispatch queries in parallel to all servers. It then combines the
 // answers.
-func (a *Actor) RunQueries(queries [][]byte) [][]byte {
+func (a *Actor) RunQueries(queries [][]byte) ([][]byte, error) {
 	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
 	defer cancel()
 
 	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(a.servers))
+	answers := make([][]byte, len(a.servers))
+	errs := make([]error, len(a.servers))
 
 	for i, srv := range a.servers {
 		wg.Add(1)
-		go func(srv server, query []byte) {
-			resCh <- srv.query(ctx, query)
-			wg.Done()
-		}(srv, queries[i])
+		go func(i int, srv server, query []byte) {
+			defer wg.Done()
+
+			answers[i], errs[i] = srv.query(ctx, query)
+		}(i, srv, queries[i])
 	}
 
 	wg.Wait()
-	close(resCh)
 
-	// combinate answers of all the servers
-	q := make([][]byte, 0)
-	for v := range resCh {
-		q = append(q, v)
+	for _, err := range errs {
+		if err != nil {
+			return nil, err
+		}
 	}
 
-	return q
+	return answers, nil
 }
 
 // server represents a remote server
@@ -224,30 +206,30 @@ type server struct {
 }
 
 // query performs a query on the server
-func (s server) query(ctx context.Context, query []byte) []byte {
+func (s server) query(ctx context.Context, query []byte) ([]byte, error) {
 	c := proto.NewVPIRClient(s.conn)
 	q := &proto.QueryRequest{Query: query}
 
 	answer, err := c.Query(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not query %s: %v",
+		return nil, xerrors.Errorf("could not query %s: %v",
 			s.conn.Target(), err)
 	}
 
 	log.Printf("sent query to %s", s.conn.Target())
 	log.Printf("query size in bytes %d", len(query))
 
-	return answer.GetAnswer()
+	return answer.GetAnswer(), nil
 }
 
 // getDBInfo returns DB info about the server
-func (s server) getDBInfo(ctx context.Context) database.Info {
+func (s server) getDBInfo(ctx context.Context) (database.Info, error) {
 	c := proto.NewVPIRClient(s.conn)
 	q := &proto.DatabaseInfoRequest{}
 
 	answer, err := c.DatabaseInfo(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not send database info request to %s: %v",
+		return database.Info{}, xerrors.Errorf("could not send database info request to %s: %v",
 			s.conn.Target(), err)
 	}
 
@@ -261,5 +243,5 @@ func (s server) getDBInfo(ctx context.Context) database.Info {
 		Merkle:     &database.Merkle{Root: answer.GetRoot(), ProofLen: int(answer.GetProofLen())},
 	}
 
-	return dbInfo
+	return dbInfo, nil
 }
diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 519746f..c187b4d 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -391,7 +391,10 @@ func executeStatsQuery(clientQuery *query.ClientFSS, actor manager.Actor) (uint3
 		return 0, xerrors.Errorf("failed to query bytes: %v", err)
 	}
 
-	answers := actor.RunQueries(queries)
+	answers, err := actor.RunQueries(queries)
+	if err != nil {
+		return 0, xerrors.Errorf("failed to query the servers: %v", err)
+	}
 
 	result, err := client.ReconstructBytes(answers)
 	if err != nil {
-- 
2.43.0


From a92e653dff01f16d6ee95b55dc1b7c73c4cb1f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 39/47] fix: web: answer malformed requests with a single error

---
 cmd/grpc/client/web/mod.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index c187b4d..068d186 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 
@@ -335,6 +336,7 @@ func getHandleCountAlgo(actor manager.Actor) func(w http.ResponseWriter, req *ht
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
@@ -355,6 +357,10 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 			http.Error(w, "year argument not found", http.StatusBadRequest)
 			return
 		}
+		if _, err := strconv.Atoi(year); err != nil {
+			http.Error(w, "year argument is not a number", http.StatusBadRequest)
+			return
+		}
 
 		info := &query.Info{
 			Target: query.CreationTime,
@@ -366,6 +372,7 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
-- 
2.43.0


From d33e769976052b7794dd5caa080ab538fc9957a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 40/47] fix: grpc clients: look up addresses with upper-case
 letters

---
 cmd/grpc/client/main.go        | 4 ++++
 cmd/grpc/client/manager/mod.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 2f29bd6..817d00e 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -10,6 +10,7 @@ import (
 	"log"
 	"os"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -283,6 +284,9 @@ func (lc *localClient) retrieveComplexQuery() (uint32, error) {
 func (lc *localClient) retrieveKeyGivenId(id string) (string, error) {
 	t := time.Now()
 
+	// the directory holds lower-cased addresses
+	id = strings.ToLower(id)
+
 	// compute hash key for id
 	hashKey := database.HashToIndex(id, lc.dbInfo.NumRows*lc.dbInfo.NumColumns)
 	log.Printf("id: %s, hashKey: %d", id, hashKey)
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 1587e58..ed79f3c 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"log"
+	"strings"
 	"sync"
 	"time"
 
@@ -72,6 +73,9 @@ type Actor struct {
 func (a *Actor) GetKey(id string, dbInfo database.Info, client *client.PIR) (string, error) {
 	t := time.Now()
 
+	// the directory holds lower-cased addresses
+	id = strings.ToLower(id)
+
 	// compute hash key for id
 	hashKey := database.HashToIndex(id, dbInfo.NumRows*dbInfo.NumColumns)
 	log.Printf("id: %s, hashKey: %d", id, hashKey)
-- 
2.43.0


From 6601de3b48dce55c19169cdb6b636cc3e3707dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 41/47] fix: database: directories of very few keys have a
 block

---
 lib/database/pgp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index 4552f63..91f41ea 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -62,7 +62,7 @@ func GenerateRealKeyBytes(dataPaths []string, rebalanced bool) (*Bytes, error) {
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := numBlocksForKeys(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 
 	ht := makeHashTable(keys, numRows*numColumns)
@@ -101,7 +101,7 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := numBlocksForKeys(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 	ht := makeHashTable(keys, numRows*numColumns)
 
@@ -146,6 +146,16 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	return m, nil
 }
 
+// numBlocksForKeys returns the number of blocks of the hash table for the given
+// number of keys. There is always a block, also when there are very few keys.
+func numBlocksForKeys(numKeys int) int {
+	numBlocks := int(float32(numKeys) * numKeysToDBLengthRatio)
+	if numBlocks == 0 {
+		return 1
+	}
+	return numBlocks
+}
+
 func makeHashTable(keys []*pgp.Key, tableLen int) map[int][]byte {
 	// prepare db
 	db := make(map[int][]byte)
-- 
2.43.0


From 871d57a3e12356fb5873b7508c4e2e0f9788f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 42/47] fix: simulations: retrieve also the whole database

---
 simulations/multi/client/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 41acc69..27f6681 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -208,8 +208,12 @@ func (lc *localClient) retrievePointPIR() {
 	numTotalBlocks := lc.dbInfo.NumRows * lc.dbInfo.NumColumns
 	numRetrieveBlocks := bitsToBlocks(lc.dbInfo.BlockSize, lc.flags.elemBitSize, lc.flags.bitsToRetrieve)
 
+	if numRetrieveBlocks > numTotalBlocks {
+		log.Fatal("the database has fewer bits than those to retrieve")
+	}
+
 	// pick a random block index to start the retrieval
-	startIndex := rand.Intn(numTotalBlocks - numRetrieveBlocks)
+	startIndex := rand.Intn(numTotalBlocks - numRetrieveBlocks + 1)
 
 	queryByte := make([]byte, 4)
 	for j := 0; j < lc.flags.repetitions; j++ {
-- 
2.43.0


From 5d039242cc1711d05db86f40284c9adffb411dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 43/47] fix: pgp: an unreadable key in a dump does not hide the
 key before it

---
 lib/pgp/pgp.go | 49 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/lib/pgp/pgp.go b/lib/pgp/pgp.go
index 4c4462f..68d5f82 100644
--- a/lib/pgp/pgp.go
+++ b/lib/pgp/pgp.go
@@ -1,6 +1,7 @@
 package pgp
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/gob"
 	"encoding/hex"
@@ -18,6 +19,8 @@ import (
 	"github.com/nikirill/go-crypto/openpgp/armor"
 
 	"github.com/nikirill/go-crypto/openpgp"
+	pgperrors "github.com/nikirill/go-crypto/openpgp/errors"
+	"github.com/nikirill/go-crypto/openpgp/packet"
 )
 
 const (
@@ -26,6 +29,10 @@ const (
 	SksParsedFullFileName = "sks-full.pgp"
 	SksOriginalFolder     = "sks-original"
 	SksParsedFolder       = "sks"
+
+	// tags of the OpenPGP packets that start a key
+	privateKeyTag = 5
+	publicKeyTag  = 6
 )
 
 // Key defines a PGP item after processing and saving into a binary file
@@ -44,13 +51,9 @@ func AnalyzeKeyDump(files []string) (map[string]*openpgp.Entity, error) {
 		if err != nil {
 			return nil, err
 		}
-		el, err := openpgp.ReadKeyRing(in)
-		if err != nil {
+		if err = forEachEntity(in, func(e *openpgp.Entity) { saveKeyIfValid(e, keys) }); err != nil {
 			return nil, err
 		}
-		for _, e := range el {
-			saveKeyIfValid(e, keys)
-		}
 		if err = in.Close(); err != nil {
 			log.Printf("Unable to close file %s\n", file)
 			return nil, err
@@ -60,6 +63,42 @@ func AnalyzeKeyDump(files []string) (map[string]*openpgp.Entity, error) {
 	return keys, nil
 }
 
+// forEachEntity calls f with every readable key of a dump, in order. The dump
+// is split into keys before they are parsed, so that a key that cannot be read
+// does not affect its neighbors.
+func forEachEntity(dump io.Reader, f func(*openpgp.Entity)) error {
+	var key bytes.Buffer
+	parse := func() {
+		// skip unreadable, unsupported and badly-formatted keys
+		if e, err := openpgp.ReadEntity(packet.NewReader(&key)); err == nil {
+			f(e)
+		}
+		key.Reset()
+	}
+
+	packets := packet.NewOpaqueReader(bufio.NewReader(dump))
+	for {
+		p, err := packets.Next()
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			break
+		} else if _, ok := err.(pgperrors.StructuralError); ok {
+			// look for the next packet
+			continue
+		} else if err != nil {
+			return err
+		}
+		if p.Tag == publicKeyTag || p.Tag == privateKeyTag {
+			parse()
+		}
+		if err = p.Serialize(&key); err != nil {
+			return err
+		}
+	}
+	parse()
+
+	return nil
+}
+
 // Analyzes whether a given key is valid for us and, if so, saves it to the key map
 func saveKeyIfValid(e *openpgp.Entity, keyMap map[string]*openpgp.Entity) {
 	//var expired bool
-- 
2.43.0


From 98af93d66f94ce15ff8549912e6f82f3331fc875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 44/47] fix: a profiled server finishes its requests when it is
 interrupted

---
 cmd/grpc/server/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 591b6f4..fdbfd5c 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -50,7 +50,15 @@ func main() {
 
 	// start profiling
 	if *prof {
-		utils.StartProfiling(fmt.Sprintf("server-%v.prof", *sid))
+		// interrupts are handled below
+		f, err := os.Create(fmt.Sprintf("server-%v.prof", *sid))
+		if err != nil {
+			log.Fatal(err)
+		}
+		if err := pprof.StartCPUProfile(f); err != nil {
+			log.Fatal(err)
+		}
+		defer f.Close()
 		defer utils.StopProfiling()
 	}
 
-- 
2.43.0


From 20918ee492d5ac0577728c9d39ff1c42f93c1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 45/47] fix: config: servers may have IPv6 addresses

---
 lib/utils/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/utils/config.go b/lib/utils/config.go
index f97eab6..868c938 100644
--- a/lib/utils/config.go
+++ b/lib/utils/config.go
@@ -1,8 +1,9 @@
 package utils
 
 import (
-	"fmt"
+	"net"
 	"strconv"
+	"strings"
 
 	"github.com/BurntSushi/toml"
 	"golang.org/x/xerrors"
@@ -42,7 +43,9 @@ func LoadConfig(configFile string) (*Config, error) {
 		if addresses[i] != "" {
 			return nil, xerrors.Errorf("duplicate server index: %d", i)
 		}
-		addresses[i] = fmt.Sprintf("%s:%d", server.IP, server.Port)
+		// an IPv6 address may come with or without brackets
+		host := strings.TrimSuffix(strings.TrimPrefix(server.IP, "["), "]")
+		addresses[i] = net.JoinHostPort(host, strconv.Itoa(server.Port))
 	}
 	c.Addresses = addresses
 
-- 
2.43.0


From 69400c925864aa8d695355a81796c4df7820b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 46/47] fix: server: experiments can be stopped at an IPv6
 address

---
 cmd/grpc/server/main.go            | 2 +-
 simulations/multi/server/server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index fdbfd5c..0435434 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -208,7 +208,7 @@ func main() {
 		h := func(w http.ResponseWriter, _ *http.Request) {
 			sigCh <- os.Interrupt
 		}
-		httpAddr := fmt.Sprintf("%s:%s", host, "8080")
+		httpAddr := net.JoinHostPort(host, "8080")
 		srv := &http.Server{Addr: httpAddr}
 		http.HandleFunc("/", h)
 		go func() {
diff --git a/simulations/multi/server/server.go b/simulations/multi/server/server.go
index ed9f8fb..a704d32 100644
--- a/simulations/multi/server/server.go
+++ b/simulations/multi/server/server.go
@@ -166,7 +166,7 @@ func main() {
 	h := func(w http.ResponseWriter, _ *http.Request) {
 		sigCh <- os.Interrupt
 	}
-	httpAddr := fmt.Sprintf("%s:%s", host, "8080")
+	httpAddr := net.JoinHostPort(host, "8080")
 	srv := &http.Server{Addr: httpAddr}
 	http.HandleFunc("/", h)
 	go func() {
-- 
2.43.0


From 759ec0584aa55d5c065116af8693e270ed984982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 47/47] fix: simulations: several stop requests do not keep the
 server running

---
 simulations/multi/server/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulations/multi/server/server.go b/simulations/multi/server/server.go
index a704d32..b048136 100644
--- a/simulations/multi/server/server.go
+++ b/simulations/multi/server/server.go
@@ -164,7 +164,11 @@ func main() {
 		log.Fatal("impossible to parse addr for HTTP server")
 	}
 	h := func(w http.ResponseWriter, _ *http.Request) {
-		sigCh <- os.Interrupt
+		// the first of many requests stops the server
+		select {
+		case sigCh <- os.Interrupt:
+		default:
+		}
 	}
 	httpAddr := net.JoinHostPort(host, "8080")
 	srv := &http.Server{Addr: httpAddr}
-- 
2.43.0

