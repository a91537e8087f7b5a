From 59b413c452310960d771c69ae1a3251d6890ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 01/23] fix: Merkle proofs of repeated blocks prove the wrong
 position

Proofs were looked up by block content, so equal blocks (for example two
empty hash table buckets) all got the proof of the last one, and the proof
length was computed from the number of distinct blocks, which made building
a database with repeated blocks panic. Generate proofs by position.
---
 lib/database/merkle.go   |  8 +++++---
 lib/merkle/merkletree.go | 26 +++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..2121ad9 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,12 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+// generateMerkleProofs outputs the given blocks, the first of which is at the
+// position first of the tree, with their proofs
+func generateMerkleProofs(data [][]byte, first int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		p, err := t.GenerateProofForIndex(uint32(first + b))
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..b858e97 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -31,6 +31,9 @@ type MerkleTree struct {
 	data map[uint64]uint32
 	// nodes are the leaf and branch nodes of the Merkle tree
 	nodes [][]byte
+	// numLeaves is the number of pieces of data in the tree, including
+	// repeated ones
+	numLeaves int
 }
 
 func hashFNV1a64(data []byte) uint64 {
@@ -58,8 +61,18 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
-	hashes := make([][]byte, proofLen)
+	return t.GenerateProofForIndex(index)
+}
+
+// GenerateProofForIndex generates the proof for the piece of data at the given
+// index. Unlike GenerateProof, it is not ambiguous when the same data appears
+// several times in the tree.
+func (t *MerkleTree) GenerateProofForIndex(index uint32) (*Proof, error) {
+	if int(index) >= t.numLeaves {
+		return nil, errors.New("index out of range")
+	}
+
+	hashes := make([][]byte, t.depth())
 
 	cur := 0
 	minI := uint32(math.Pow(2, float64(1))) - 1
@@ -74,7 +87,12 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 // 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return t.depth()*t.hash.HashLength() + numHashesByteSize + indexByteSize
+}
+
+// depth returns the number of hashes in a proof
+func (t *MerkleTree) depth() int {
+	return int(math.Ceil(math.Log2(float64(t.numLeaves))))
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
@@ -120,6 +138,8 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 		hash:  hash,
 		nodes: nodes,
 		data:  md,
+
+		numLeaves: len(data),
 	}
 
 	return tree, nil
-- 
2.43.0


From 2e5c46eb7728e80c99dfe9de3dc172ae51c7b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 02/23] fix: authenticated PIR accepts the record of another
 position

A server could answer with a genuine record and proof of any position: the
client verified the proof but not that it is for the position it asked for.
---
 lib/client/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..a9c0cec 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -58,9 +58,12 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 		block = database.UnPadBlock(block)
 		data := block[:len(block)-dbInfo.ProofLen]
 
-		// check Merkle proof
+		// check Merkle proof, which must be for the position queried
 		encodedProof := block[len(block)-dbInfo.ProofLen:]
 		proof := merkle.DecodeProof(encodedProof)
+		if proof.Index != uint32(state.ix*dbInfo.NumColumns+state.iy) {
+			return nil, errors.New("REJECT! proof for another position")
+		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
 			log.Fatalf("impossible to verify proof: %v", err)
-- 
2.43.0


From cf0e1d0a9c639d457a4f89165af5596d60fd6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 03/23] fix: malformed point answers crash the client

Short or over-long answers, blocks without padding and malformed Merkle
proofs made the client panic, exit or allocate gigabytes. Return an error.
---
 lib/client/client.go | 12 ++++++++++--
 lib/database/pgp.go  |  4 ++++
 lib/merkle/proof.go  |  9 +++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index a9c0cec..1463c9c 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -2,7 +2,6 @@ package client
 
 import (
 	"errors"
-	"log"
 
 	"github.com/cloudflare/circl/group"
 	"github.com/lukechampine/fastxor"
@@ -56,17 +55,23 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 			return block, err
 		}
 		block = database.UnPadBlock(block)
+		if len(block) < dbInfo.ProofLen {
+			return nil, errors.New("REJECT! block without proof")
+		}
 		data := block[:len(block)-dbInfo.ProofLen]
 
 		// check Merkle proof, which must be for the position queried
 		encodedProof := block[len(block)-dbInfo.ProofLen:]
 		proof := merkle.DecodeProof(encodedProof)
+		if proof == nil {
+			return nil, errors.New("REJECT! malformed proof")
+		}
 		if proof.Index != uint32(state.ix*dbInfo.NumColumns+state.iy) {
 			return nil, errors.New("REJECT! proof for another position")
 		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
-			log.Fatalf("impossible to verify proof: %v", err)
+			return nil, err
 		}
 		if !verified {
 			return nil, errors.New("REJECT!")
@@ -83,6 +88,9 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 	bs := dbInfo.BlockSize
 	sum := make([]byte, bs)
 	for k := range answers {
+		if len(answers[k]) != dbInfo.NumRows*bs {
+			return nil, errors.New("answer with invalid length")
+		}
 		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
 	}
 
diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..4728d35 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -176,6 +176,10 @@ func UnPadBlock(block []byte) []byte {
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	if len(block) == 0 {
+		// not a padded block
+		return block
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..6eac1ca 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -77,12 +77,21 @@ func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	return proofHash
 }
 
+// DecodeProof decodes a proof encoded by EncodeProof. It returns nil if the
+// input is not the encoding of a proof.
 func DecodeProof(p []byte) *Proof {
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil
+	}
+
 	// number of hashes
 	numHashes := binary.LittleEndian.Uint32(p[:numHashesByteSize])
 
 	// hashes
 	hashLength := uint32(32) // blake3
+	if uint64(len(p)) != numHashesByteSize+uint64(numHashes)*uint64(hashLength)+indexByteSize {
+		return nil
+	}
 	hashes := make([][]byte, numHashes)
 	for i := uint32(0); i < numHashes; i++ {
 		hashes[i] = p[4+hashLength*i : 4+hashLength*(i+1)]
-- 
2.43.0


From aa00efe422a75a42c7e1bef280dac8acb1d80df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 04/23] fix: command-line clients send query shares to the
 wrong servers

---
 cmd/grpc/client/main.go            | 7 +++----
 simulations/multi/client/client.go | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..dcbd432 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -397,14 +397,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the i-th query is for the i-th server of the configuration
+	for j, addr := range lc.config.Addresses {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 2e9889d..4a317f2 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -369,14 +369,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the i-th query is for the i-th server of the configuration
+	for j, addr := range lc.config.Addresses[:lc.flags.numServers] {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
-- 
2.43.0


From e81d60c052dc7c3646d7e02fcb3cf93e8c0757e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 05/23] fix: deployed point server cannot answer two-server
 queries

---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..f9286f8 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		// with two servers the clients send function-shared queries
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From d60a88e0d626d3e09632096cf11b95f043a04973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 06/23] fix: server shutdown closes the query queue under
 running requests

---
 cmd/grpc/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index f9286f8..fc0b8e5 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -214,8 +214,9 @@ func main() {
 	case err := <-errCh:
 		log.Fatalf("failed to serve: %v", err)
 	case <-sigCh:
-		server.stopWorker()
+		// the worker has to answer the requests still in progress
 		rpcServer.GracefulStop()
+		server.stopWorker()
 		lis.Close()
 		log.Println("clean shutdown of server done")
 	}
-- 
2.43.0


From 7246b41d331e7ca4920aa78ec9b6a51d174f00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 07/23] fix: a malformed query stops the server

---
 cmd/grpc/server/main.go            | 14 +++++++++++++-
 simulations/multi/server/server.go | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index fc0b8e5..9702bce 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -282,7 +282,7 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 func (s *vpirServer) startWorker() {
 	for wrap := range s.queryChan {
 
-		a, err := s.Server.AnswerBytes(wrap.query.GetQuery())
+		a, err := answer(s.Server, wrap.query.GetQuery())
 		if err != nil {
 			wrap.error <- err
 			continue
@@ -297,6 +297,18 @@ func (s *vpirServer) startWorker() {
 	}
 }
 
+// answer computes the answer to a query, which may be malformed: this must not
+// stop the server
+func answer(s server.Server, query []byte) (a []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			a, err = nil, fmt.Errorf("invalid query: %v", r)
+		}
+	}()
+
+	return s.AnswerBytes(query)
+}
+
 func (s *vpirServer) stopWorker() {
 	close(s.queryChan)
 }
diff --git a/simulations/multi/server/server.go b/simulations/multi/server/server.go
index ed9f8fb..03aec68 100644
--- a/simulations/multi/server/server.go
+++ b/simulations/multi/server/server.go
@@ -219,7 +219,7 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 	*proto.QueryResponse, error) {
 	log.Print("got query request")
 
-	a, err := s.Server.AnswerBytes(qr.GetQuery())
+	a, err := answer(s.Server, qr.GetQuery())
 	if err != nil {
 		return nil, err
 	}
@@ -229,6 +229,18 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 	return &proto.QueryResponse{Answer: a}, nil
 }
 
+// answer computes the answer to a query, which may be malformed: this must not
+// stop the server
+func answer(s server.Server, query []byte) (a []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			a, err = nil, fmt.Errorf("invalid query: %v", r)
+		}
+	}()
+
+	return s.AnswerBytes(query)
+}
+
 func readServerID() int {
 	file, err := os.Open("sid")
 	if err != nil {
-- 
2.43.0


From 55aa035da92a6b82b7a589a1a3eecff5faf6959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 08/23] fix: clients accept servers that disagree on root,
 proof length or scheme

---
 cmd/grpc/client/main.go            | 6 +++++-
 cmd/grpc/client/manager/mod.go     | 6 +++++-
 simulations/multi/client/client.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index dcbd432..3be5132 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -448,7 +449,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			//info[0].IDLength != info[i].IDLength ||
 			//info[0].KeyLength != info[i].KeyLength {
 			return false
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..92b68fd 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -1,6 +1,7 @@
 package manager
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"fmt"
@@ -172,7 +173,10 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	for i := range dbInfo {
 		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
 			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
+			dbInfo[0].BlockSize != dbInfo[i].BlockSize ||
+			dbInfo[0].PIRType != dbInfo[i].PIRType ||
+			dbInfo[0].ProofLen != dbInfo[i].ProofLen ||
+			!bytes.Equal(dbInfo[0].Root, dbInfo[i].Root) {
 
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 4a317f2..4d6a587 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"flag"
@@ -335,7 +336,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			return false
 		}
 	}
-- 
2.43.0


From 745589996be392f471972ce5bf04a61a8b165f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 09/23] fix: predicate reconstruction mistakes truncated
 averages for counts and crashes

---
 lib/client/client.go |  1 +
 lib/client/fss.go    | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 1463c9c..6dbceb8 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -25,6 +25,7 @@ type state struct {
 	// for multi-server
 	alphas []uint32 // four alphas to meet desired soundness
 	a      []uint32 // cointains [1, alpha_i], i = 0, .., 3
+	avg    bool     // true if the query is for an average
 
 	// for single-server (DH)
 	r  group.Scalar
diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..8bca880 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -50,7 +50,7 @@ func (c *clientFSS) query(q *query.ClientFSS, numServers int) []*query.FSS {
 	}
 
 	// set client state
-	c.state = &state{}
+	c.state = &state{avg: q.Avg}
 	c.state.alphas = make([]uint32, c.executions)
 	c.state.a = make([]uint32, c.executions)
 	c.state.a[0] = 1 // to retrieve data
@@ -81,8 +81,17 @@ func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
 }
 
 func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
+	// the length of the answers must be that for the query issued
+	length := c.executions
+	if c.state.avg {
+		length = 2 * c.executions
+	}
+	if len(answers) != 2 || len(answers[0]) != length || len(answers[1]) != length {
+		return 0, errors.New("answer with invalid length")
+	}
+
 	// AVG case
-	if len(answers[0]) == 2*c.executions {
+	if c.state.avg {
 		countFirst := answers[0][:c.executions]
 		countSecond := answers[1][:c.executions]
 		sumFirst := answers[0][c.executions:]
@@ -111,6 +120,10 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		if dataCount == 0 {
+			return 0, errors.New("no entry matches the query")
+		}
+
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From a9ccaba71df17c1819eebab8c360cbb7dde1201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 10/23] fix: majority decoding never replaces its first
 candidate

---
 lib/ecc/ecc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..c20ec1b 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -25,7 +25,10 @@ func (e *ECC) Decode(in []uint32) (uint32, error) {
 	decoded := in[0]
 	votes := 1
 	for i := 1; i < len(in); i++ {
-		if in[i] == decoded {
+		if votes == 0 {
+			decoded = in[i]
+			votes = 1
+		} else if in[i] == decoded {
 			votes++
 		} else {
 			votes--
-- 
2.43.0


From 580af0b3a9e2cb048fd95e232d617c9f918743f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 11/23] fix: point client issues queries for a single server

---
 lib/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 6dbceb8..839308d 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -100,7 +100,7 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 
 // return true if the query inputs are invalid for IT schemes
 func invalidQueryInputsIT(index, numServers int) bool {
-	return index < 0 && numServers < 2
+	return index < 0 || numServers < 2
 }
 
 func invalidQueryInputsFSS(numServers int) bool {
-- 
2.43.0


From c82ff00831332566851bf547127f41d6386e51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 12/23] fix: predicate evaluation ignores bit 256 of the input

---
 lib/fss/server.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index ea404c2..8a19d8d 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -41,11 +41,9 @@ func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	tmp := make([]uint32, len(out))
 	for i := uint(0); i < f.NumBits; i++ {
 		var xBit byte = 0
-		if i != f.N {
-			// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
-			if x[i] {
-				xBit = 1
-			}
+		// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
+		if x[i] {
+			xBit = 1
 		}
 
 		prf(sCurr, f.FixedBlocks, 3, f.Temp, f.Out)
-- 
2.43.0


From 5030f99a96da0dff4b1112c7dcc56e3be14c914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 13/23] fix: creation-time predicates depend on the local time
 zone

---
 lib/query/query.go | 5 +++--
 lib/server/fss.go  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index e150f60..4ddd869 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -191,7 +191,8 @@ func (i *Info) IdForPubKeyAlgo(pka packet.PublicKeyAlgorithm) []bool {
 }
 
 func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
-	binaryMatch, err := t.MarshalBinary()
+	// the encoding must depend on the instant only, not on the time zone
+	binaryMatch, err := t.UTC().MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +200,7 @@ func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
 }
 
 func (i *Info) IdForYearCreationTime(t time.Time) ([]bool, error) {
-	y := uint32(t.Year())
+	y := uint32(t.UTC().Year())
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, y)
 	return utils.ByteToBits(b), nil
diff --git a/lib/server/fss.go b/lib/server/fss.go
index dd2a920..92a99ad 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -116,7 +116,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
+			diffYears := time.Now().UTC().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From 38af9076d58531fd9d6f82870cb153a70b48f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 14/23] fix: group digest of small databases and of empty rows

---
 lib/client/dh.go         |  3 +--
 lib/database/elliptic.go | 46 ++++++++++++++++++++++++++++++++++------
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..610db77 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -82,8 +82,7 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
+		d, err := database.UnmarshalGroupElement(c.dbInfo.SubDigests[i*digSize:(i+1)*digSize], g)
 		if err != nil {
 			return nil, err
 		}
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..3380229 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -1,8 +1,10 @@
 package database
 
 import (
+	"bytes"
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -42,6 +44,10 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 		if end > numRows {
 			end = numRows
 		}
+		// there may be no rows left for the last routines
+		if begin > end {
+			begin = end
+		}
 		replyChan := make(chan []byte, 1)
 		replies[i] = replyChan
 		go computeDigests(begin, end, data, numColumns, g, h, replyChan)
@@ -73,7 +79,8 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 }
 
 func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h crypto.Hash, replyTo chan<- []byte) {
-	digs := make([]byte, 0, (end-begin)*h.Size())
+	elemSize := getGroupElementSize(g)
+	digs := make([]byte, 0, (end-begin)*elemSize)
 	for i := begin; i < end; i++ {
 		d := g.Identity()
 		for j := 0; j < rowLen; j++ {
@@ -81,7 +88,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 				d.Add(d, HashIndexToGroup(uint64(j), g))
 			}
 		}
-		tmp, err := d.MarshalBinaryCompress()
+		tmp, err := marshalGroupElement(d, elemSize)
 		if err != nil {
 			log.Fatal(err)
 		}
@@ -105,11 +112,37 @@ func CommitScalarToIndex(x group.Scalar, j uint64, g group.Group) group.Element
 	return g.NewElement().Mul(H, x)
 }
 
+// Marshal a group element in exactly marshalledLen bytes. The identity, whose
+// encoding is shorter in some groups, is padded with zeros.
+func marshalGroupElement(el group.Element, marshalledLen int) ([]byte, error) {
+	tmp, err := el.MarshalBinaryCompress()
+	if err != nil {
+		return nil, err
+	}
+	out := make([]byte, marshalledLen)
+	copy(out, tmp)
+	return out, nil
+}
+
+// UnmarshalGroupElement is the inverse of the encoding used for group elements
+// in digests, queries and answers.
+func UnmarshalGroupElement(in []byte, g group.Group) (group.Element, error) {
+	zeros := make([]byte, len(in))
+	if bytes.Equal(in, zeros) {
+		return g.Identity(), nil
+	}
+	elem := g.NewElement()
+	if err := elem.UnmarshalBinary(in); err != nil {
+		return nil, err
+	}
+	return elem, nil
+}
+
 // Marshal a slice of group elements
 func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error) {
 	encoded := make([]byte, 0, marshalledLen*len(q))
 	for _, el := range q {
-		tmp, err := el.MarshalBinaryCompress()
+		tmp, err := marshalGroupElement(el, marshalledLen)
 		if err != nil {
 			return nil, err
 		}
@@ -120,11 +153,12 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
-	var err error
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("group elements with invalid length")
+	}
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
-		elem := g.NewElement()
-		err = elem.UnmarshalBinary(q[i : i+elemSize])
+		elem, err := UnmarshalGroupElement(q[i:i+elemSize], g)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c22ef2a81ef2de0c4efe719608e881abc6acf55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 15/23] fix: web front end stops on a non-numeric year and
 reports a count after an error

---
 cmd/grpc/client/web/mod.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 519746f..91b7c4f 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 
@@ -335,6 +336,7 @@ func getHandleCountAlgo(actor manager.Actor) func(w http.ResponseWriter, req *ht
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
@@ -355,6 +357,10 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 			http.Error(w, "year argument not found", http.StatusBadRequest)
 			return
 		}
+		if _, err := strconv.Atoi(year); err != nil {
+			http.Error(w, "year argument is not a number", http.StatusBadRequest)
+			return
+		}
 
 		info := &query.Info{
 			Target: query.CreationTime,
@@ -366,6 +372,7 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
-- 
2.43.0


From 8be2db2049c5ced66342119b321adce99195edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 16/23] fix: one failing RPC stops the web front end

---
 cmd/grpc/client/interactive/mod.go |  5 +-
 cmd/grpc/client/manager/mod.go     | 82 ++++++++++++------------------
 cmd/grpc/client/web/mod.go         |  5 +-
 3 files changed, 40 insertions(+), 52 deletions(-)

diff --git a/cmd/grpc/client/interactive/mod.go b/cmd/grpc/client/interactive/mod.go
index 85d20b6..abde546 100644
--- a/cmd/grpc/client/interactive/mod.go
+++ b/cmd/grpc/client/interactive/mod.go
@@ -454,7 +454,10 @@ func executeStatsQuery(clientQuery *query.ClientFSS, actor manager.Actor) (uint3
 		return 0, xerrors.Errorf("failed to query bytes: %v", err)
 	}
 
-	answers := actor.RunQueries(queries)
+	answers, err := actor.RunQueries(queries)
+	if err != nil {
+		return 0, xerrors.Errorf("failed to run queries: %v", err)
+	}
 
 	result, err := client.ReconstructBytes(answers)
 	if err != nil {
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 92b68fd..10d3cb5 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -88,27 +88,9 @@ func (a *Actor) GetKey(id string, dbInfo database.Info, client *client.PIR) (str
 	log.Printf("done with queries computation")
 
 	// send queries to servers
-	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
-	defer cancel()
-
-	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(a.servers))
-
-	for i, srv := range a.servers {
-		wg.Add(1)
-		go func(srv server, query []byte) {
-			resCh <- srv.query(ctx, query)
-			wg.Done()
-		}(srv, queries[i])
-	}
-
-	wg.Wait()
-	close(resCh)
-
-	// combinate answers of all the servers
-	answers := make([][]byte, 0)
-	for v := range resCh {
-		answers = append(answers, v)
+	answers, err := a.RunQueries(queries)
+	if err != nil {
+		return "", xerrors.Errorf("error when querying the servers: %v", err)
 	}
 
 	// reconstruct block
@@ -148,25 +130,24 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	defer cancel()
 
 	wg := sync.WaitGroup{}
-	resCh := make(chan database.Info, len(a.servers))
+	dbInfo := make([]database.Info, len(a.servers))
+	errs := make([]error, len(a.servers))
 
-	for _, srv := range a.servers {
+	for i, srv := range a.servers {
 		wg.Add(1)
-		go func(srv server) {
+		go func(i int, srv server) {
 			defer wg.Done()
 
-			info := srv.getDBInfo(ctx)
-			resCh <- info
-		}(srv)
+			dbInfo[i], errs[i] = srv.getDBInfo(ctx)
+		}(i, srv)
 	}
 
 	wg.Wait()
-	close(resCh)
-
-	dbInfo := make([]database.Info, 0, len(resCh))
 
-	for info := range resCh {
-		dbInfo = append(dbInfo, info)
+	for _, err := range errs {
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// check if db info are all equal before returning
@@ -189,31 +170,32 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 
 // RunQueries dispatch queries in parallel to all servers. It then combines the
 // answers.
-func (a *Actor) RunQueries(queries [][]byte) [][]byte {
+func (a *Actor) RunQueries(queries [][]byte) ([][]byte, error) {
 	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
 	defer cancel()
 
 	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(a.servers))
+	answers := make([][]byte, len(a.servers))
+	errs := make([]error, len(a.servers))
 
 	for i, srv := range a.servers {
 		wg.Add(1)
-		go func(srv server, query []byte) {
-			resCh <- srv.query(ctx, query)
-			wg.Done()
-		}(srv, queries[i])
+		go func(i int, srv server) {
+			defer wg.Done()
+
+			answers[i], errs[i] = srv.query(ctx, queries[i])
+		}(i, srv)
 	}
 
 	wg.Wait()
-	close(resCh)
 
-	// combinate answers of all the servers
-	q := make([][]byte, 0)
-	for v := range resCh {
-		q = append(q, v)
+	for _, err := range errs {
+		if err != nil {
+			return nil, err
+		}
 	}
 
-	return q
+	return answers, nil
 }
 
 // server represents a remote server
@@ -224,30 +206,30 @@ type server struct {
 }
 
 // query performs a query on the server
-func (s server) query(ctx context.Context, query []byte) []byte {
+func (s server) query(ctx context.Context, query []byte) ([]byte, error) {
 	c := proto.NewVPIRClient(s.conn)
 	q := &proto.QueryRequest{Query: query}
 
 	answer, err := c.Query(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not query %s: %v",
+		return nil, xerrors.Errorf("could not query %s: %v",
 			s.conn.Target(), err)
 	}
 
 	log.Printf("sent query to %s", s.conn.Target())
 	log.Printf("query size in bytes %d", len(query))
 
-	return answer.GetAnswer()
+	return answer.GetAnswer(), nil
 }
 
 // getDBInfo returns DB info about the server
-func (s server) getDBInfo(ctx context.Context) database.Info {
+func (s server) getDBInfo(ctx context.Context) (database.Info, error) {
 	c := proto.NewVPIRClient(s.conn)
 	q := &proto.DatabaseInfoRequest{}
 
 	answer, err := c.DatabaseInfo(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not send database info request to %s: %v",
+		return database.Info{}, xerrors.Errorf("could not send database info request to %s: %v",
 			s.conn.Target(), err)
 	}
 
@@ -261,5 +243,5 @@ func (s server) getDBInfo(ctx context.Context) database.Info {
 		Merkle:     &database.Merkle{Root: answer.GetRoot(), ProofLen: int(answer.GetProofLen())},
 	}
 
-	return dbInfo
+	return dbInfo, nil
 }
diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 91b7c4f..04cbfbe 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -398,7 +398,10 @@ func executeStatsQuery(clientQuery *query.ClientFSS, actor manager.Actor) (uint3
 		return 0, xerrors.Errorf("failed to query bytes: %v", err)
 	}
 
-	answers := actor.RunQueries(queries)
+	answers, err := actor.RunQueries(queries)
+	if err != nil {
+		return 0, xerrors.Errorf("failed to run queries: %v", err)
+	}
 
 	result, err := client.ReconstructBytes(answers)
 	if err != nil {
-- 
2.43.0


From 949f495def1caf579dd251747061fa8af6abd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 17/23] fix: malformed single-server answers crash the client

---
 lib/client/amplify.go | 13 ++++++++++++-
 lib/client/dh.go      |  3 +++
 lib/client/lwe.go     | 15 ++++++++++++++-
 lib/client/lwe128.go  | 10 +++++++++-
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 18ac684..a780073 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -1,6 +1,7 @@
 package client
 
 import (
+	"encoding/binary"
 	"errors"
 	"io"
 
@@ -61,5 +62,15 @@ func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
 }
 
 func (a *Amplify) ReconstructBytes(answers []byte) (uint32, error) {
-	return a.Reconstruct(matrix.BytesToMatrices(answers))
+	length := a.lwes[0].answerLen()
+	if len(answers) != 4+length*a.repetitions || int(binary.BigEndian.Uint32(answers)) != length {
+		return 0, errors.New("answer with invalid length")
+	}
+	ms := matrix.BytesToMatrices(answers)
+	for _, m := range ms {
+		if m.Rows() != 1 || m.Cols() != a.lwes[0].params.M {
+			return 0, errors.New("answer with invalid dimensions")
+		}
+	}
+	return a.Reconstruct(ms)
 }
diff --git a/lib/client/dh.go b/lib/client/dh.go
index 610db77..f1a218e 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -78,6 +78,9 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(answer) != c.dbInfo.NumRows {
+		return nil, errors.New("answer with invalid length")
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index 4e03463..03be053 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -91,7 +91,20 @@ func (c *LWE) Reconstruct(answers *matrix.Matrix) (uint32, error) {
 }
 
 func (c *LWE) ReconstructBytes(a []byte) (uint32, error) {
-	return c.Reconstruct(matrix.BytesToMatrix(a))
+	if len(a) != c.answerLen() {
+		return 0, errors.New("answer with invalid length")
+	}
+	m := matrix.BytesToMatrix(a)
+	if m.Rows() != 1 || m.Cols() != c.params.M {
+		return 0, errors.New("answer with invalid dimensions")
+	}
+	return c.Reconstruct(m)
+}
+
+// answerLen is the length in bytes of an encoded answer: two integers for the
+// dimensions followed by a row of M elements
+func (c *LWE) answerLen() int {
+	return 8 + 4*c.params.M
 }
 
 func (c *LWE) inRange(val uint32) bool {
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1835bdf..b775ed7 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -92,7 +92,15 @@ func (c *LWE128) Reconstruct(answers *matrix.Matrix128) (uint32, error) {
 }
 
 func (c *LWE128) ReconstructBytes(a []byte) (uint32, error) {
-	return c.Reconstruct(matrix.BytesToMatrix128(a))
+	// two integers for the dimensions followed by a row of M elements
+	if len(a) != 8+16*c.params.M {
+		return 0, errors.New("answer with invalid length")
+	}
+	m := matrix.BytesToMatrix128(a)
+	if m.Rows() != 1 || m.Cols() != c.params.M {
+		return 0, errors.New("answer with invalid dimensions")
+	}
+	return c.Reconstruct(m)
 }
 
 func (c *LWE128) inRange(val uint128.Uint128) bool {
-- 
2.43.0


From d5c28bd2fea404b3cf4fddec4a442a821255790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 18/23] fix: concurrent predicate queries share scratch buffers

---
 lib/server/fss.go            | 14 ++++++++------
 lib/server/predicate_apir.go |  4 +---
 lib/server/predicate_pir.go  |  2 --
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index 92a99ad..b50acc1 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -17,7 +17,6 @@ type serverFSS struct {
 	cores int
 
 	serverNum byte
-	fss       *fss.Fss
 }
 
 func (s *serverFSS) dbInfo() *database.Info {
@@ -42,6 +41,9 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 	numIdentifiers := s.db.NumColumns
 
+	// the evaluator holds scratch space, which concurrent queries cannot share
+	evaluator := fss.ServerInitialize(len(out))
+
 	if !q.And && !q.Avg && !q.Sum {
 		switch q.Target {
 		case query.UserId:
@@ -51,7 +53,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				if !valid {
 					continue
 				}
-				s.fss.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				evaluator.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
@@ -60,7 +62,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 		case query.PubKeyAlgo:
 			for i := 0; i < numIdentifiers; i++ {
 				id := q.IdForPubKeyAlgo(s.db.KeysInfo[i].PubKeyAlgo)
-				s.fss.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				evaluator.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
@@ -72,7 +74,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				if err != nil {
 					panic("impossible to marshal creation date")
 				}
-				s.fss.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
+				evaluator.EvaluatePF(s.serverNum, q.FssKey, id, tmp)
 				for j := range out {
 					out[j] = (out[j] + tmp[j]) % field.ModP
 				}
@@ -95,7 +97,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				continue
 			}
 			in := append(yearMatch, id...)
-			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
+			evaluator.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 			for j := range out {
 				out[j] = (out[j] + tmp[j]) % field.ModP
 			}
@@ -113,7 +115,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 				continue
 			}
 
-			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
+			evaluator.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
 			diffYears := time.Now().UTC().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
diff --git a/lib/server/predicate_apir.go b/lib/server/predicate_apir.go
index f85bafb..37b4498 100644
--- a/lib/server/predicate_apir.go
+++ b/lib/server/predicate_apir.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/field"
-	"github.com/si-co/vpir-code/lib/fss"
 	"github.com/si-co/vpir-code/lib/query"
 )
 
@@ -26,8 +25,6 @@ func NewPredicateAPIR(db *database.DB, serverNum byte, cores ...int) *PredicateA
 			db:        db,
 			cores:     numCores,
 			serverNum: serverNum,
-			// one value for the data, four values for the info-theoretic MAC
-			fss: fss.ServerInitialize(1 + field.ConcurrentExecutions),
 		},
 	}
 }
@@ -37,6 +34,7 @@ func (s *PredicateAPIR) DBInfo() *database.Info {
 }
 
 func (s *PredicateAPIR) AnswerBytes(q []byte) ([]byte, error) {
+	// one value for the data, four values for the info-theoretic MAC
 	out := make([]uint32, 1+field.ConcurrentExecutions)
 	tmp := make([]uint32, 1+field.ConcurrentExecutions)
 
diff --git a/lib/server/predicate_pir.go b/lib/server/predicate_pir.go
index c9cd4f4..db5b7b4 100644
--- a/lib/server/predicate_pir.go
+++ b/lib/server/predicate_pir.go
@@ -4,7 +4,6 @@ import (
 	"runtime"
 
 	"github.com/si-co/vpir-code/lib/database"
-	"github.com/si-co/vpir-code/lib/fss"
 	"github.com/si-co/vpir-code/lib/query"
 )
 
@@ -25,7 +24,6 @@ func NewPredicatePIR(db *database.DB, serverNum byte, cores ...int) *PredicatePI
 			db:        db,
 			cores:     numCores,
 			serverNum: serverNum,
-			fss:       fss.ServerInitialize(1), // only one value for data
 		},
 	}
 }
-- 
2.43.0


From efe77e3e5e8bc4a96b27cafa8f051d54823622de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 19/23] fix: predicate keys leave the last value unmasked

---
 lib/fss/common.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..398296f 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -66,7 +66,12 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 }
 
 func convertBlock(f Fss, x []byte, out []uint32) {
-	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
+	// we can generate four uint32 numbers with a 16-bytes AES block; the last
+	// block may be used only in part
+	numBlocks := (len(out) + 3) / 4
+	if numBlocks > len(f.FixedBlocks) {
+		numBlocks = len(f.FixedBlocks)
+	}
+	prf(x, f.FixedBlocks, uint(numBlocks), f.Temp, f.OutConvertBlock)
 	field.BytesToElements(out, f.OutConvertBlock)
 }
-- 
2.43.0


From 95d978edcafa5da5dacae12b4c511edf7aafbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 20/23] fix: report read errors while curating a key dump

openpgp.ReadKeyRing skips whatever it fails to read. A read error on a
dump file silently dropped keys, and a persistent one made it loop
forever. Read each file fully before parsing it.
---
 lib/pgp/pgp.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/pgp/pgp.go b/lib/pgp/pgp.go
index 4c4462f..6e9360f 100644
--- a/lib/pgp/pgp.go
+++ b/lib/pgp/pgp.go
@@ -40,21 +40,19 @@ func AnalyzeKeyDump(files []string) (map[string]*openpgp.Entity, error) {
 
 	for _, file := range files {
 		fmt.Printf("Processing %s\n", file)
-		in, err := os.Open(file)
+		// Read the whole file first: ReadKeyRing skips whatever it fails
+		// to read, so it would skip keys on a read error, or retry forever.
+		in, err := os.ReadFile(file)
 		if err != nil {
 			return nil, err
 		}
-		el, err := openpgp.ReadKeyRing(in)
+		el, err := openpgp.ReadKeyRing(bytes.NewReader(in))
 		if err != nil {
 			return nil, err
 		}
 		for _, e := range el {
 			saveKeyIfValid(e, keys)
 		}
-		if err = in.Close(); err != nil {
-			log.Printf("Unable to close file %s\n", file)
-			return nil, err
-		}
 	}
 
 	return keys, nil
-- 
2.43.0


From aa9a0fe282b220542c5501a9732015777c424499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 21/23] fix: an error text of a server passes for an absent key

---
 cmd/grpc/client/interactive/mod.go | 6 ++----
 cmd/grpc/client/manager/mod.go     | 2 +-
 cmd/grpc/client/web/mod.go         | 6 ++----
 lib/pgp/pgp.go                     | 5 ++++-
 4 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/cmd/grpc/client/interactive/mod.go b/cmd/grpc/client/interactive/mod.go
index abde546..90e0e25 100644
--- a/cmd/grpc/client/interactive/mod.go
+++ b/cmd/grpc/client/interactive/mod.go
@@ -6,11 +6,11 @@ import (
 	"log"
 	"os"
 	"strconv"
-	"strings"
 
 	"github.com/AlecAivazis/survey/v2"
 	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
 	"github.com/si-co/vpir-code/lib/client"
+	"github.com/si-co/vpir-code/lib/pgp"
 	"github.com/si-co/vpir-code/lib/query"
 	"github.com/si-co/vpir-code/lib/utils"
 	"golang.org/x/xerrors"
@@ -18,8 +18,6 @@ import (
 	"google.golang.org/grpc/encoding/gzip"
 )
 
-const keyNotFoundErr string = "no key with the given email id is found"
-
 var staticConfig = true
 
 var staticPointConfig = &utils.Config{
@@ -190,7 +188,7 @@ func downloadKey(actor manager.Actor) error {
 
 	result, err := actor.GetKey(email, dbInfo[0], client)
 	if err != nil {
-		if strings.Contains(err.Error(), keyNotFoundErr) {
+		if xerrors.Is(err, pgp.ErrKeyNotFound) {
 			fmt.Println("No key is found for the given email")
 		} else {
 			return xerrors.Errorf("failed to get result: %v", err)
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 10d3cb5..af523a7 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -106,7 +106,7 @@ func (a *Actor) GetKey(id string, dbInfo database.Info, client *client.PIR) (str
 	// get a key from the block with the id of the search
 	retrievedKey, err := pgp.RecoverKeyFromBlock(result, id)
 	if err != nil {
-		return "", xerrors.Errorf("error retrieving key from the block: %v", err)
+		return "", xerrors.Errorf("error retrieving key from the block: %w", err)
 	}
 	log.Printf("PGP key retrieved from block")
 
diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 04cbfbe..664acee 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -11,11 +11,11 @@ import (
 	"net/http"
 	"os"
 	"strconv"
-	"strings"
 	"time"
 
 	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
 	"github.com/si-co/vpir-code/lib/client"
+	"github.com/si-co/vpir-code/lib/pgp"
 	"github.com/si-co/vpir-code/lib/query"
 	"github.com/si-co/vpir-code/lib/utils"
 	"golang.org/x/xerrors"
@@ -39,8 +39,6 @@ var static embed.FS
 
 var staticConfig = true
 
-const keyNotFoundErr string = "no key with the given email id is found"
-
 var staticPointConfig = &utils.Config{
 	Servers: map[string]utils.Server{
 		"0": {
@@ -235,7 +233,7 @@ func gethandleRetreive(actor manager.Actor) func(w http.ResponseWriter, req *htt
 
 		result, err := actor.GetKey(email, dbInfo[0], client)
 		if err != nil {
-			if strings.Contains(err.Error(), keyNotFoundErr) {
+			if xerrors.Is(err, pgp.ErrKeyNotFound) {
 				result = "key not found in block"
 			} else {
 				http.Error(w, fmt.Sprintf("failed to get result: %v", err),
diff --git a/lib/pgp/pgp.go b/lib/pgp/pgp.go
index 6e9360f..9f1038f 100644
--- a/lib/pgp/pgp.go
+++ b/lib/pgp/pgp.go
@@ -242,6 +242,9 @@ func PrimaryEmail(e *openpgp.Entity) string {
 	return strings.ToLower(email)
 }
 
+// ErrKeyNotFound says that no key of a block has the searched email.
+var ErrKeyNotFound = errors.New("no key with the given email id is found")
+
 // Returns an Entity with the given email in the primary ID from a block of
 // serialized entities.
 func RecoverKeyFromBlock(block []byte, email string) (*openpgp.Entity, error) {
@@ -258,7 +261,7 @@ func RecoverKeyFromBlock(block []byte, email string) (*openpgp.Entity, error) {
 		}
 	}
 	log.Printf("The key with user email %s is not the block %s\n", email, hex.EncodeToString(block))
-	return nil, errors.New("no key with the given email id is found")
+	return nil, ErrKeyNotFound
 }
 
 func ArmorKey(entity *openpgp.Entity) (string, error) {
-- 
2.43.0


From d8df33d3287ca9dc22783e860338da26fd2da732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 22/23] fix: altering one row of a point answer reveals the row
 queried

A server that alters the bytes of one row of its answer learnt from the
client accepting or refusing whether that was the row queried, since only
the Merkle proof of the block in the queried row was checked. Check the
blocks of all the rows.
---
 lib/client/client.go | 76 ++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 839308d..653c4ec 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -49,33 +49,24 @@ func decodeAnswer(in [][]byte) ([][]uint32, error) {
 func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]byte, error) {
 	switch dbInfo.PIRType {
 	case "classical", "":
-		return reconstructValuePIR(answers, dbInfo, state)
+		return reconstructValuePIR(answers, dbInfo, state.ix)
 	case "merkle":
-		block, err := reconstructValuePIR(answers, dbInfo, state)
-		if err != nil {
-			return block, err
-		}
-		block = database.UnPadBlock(block)
-		if len(block) < dbInfo.ProofLen {
-			return nil, errors.New("REJECT! block without proof")
-		}
-		data := block[:len(block)-dbInfo.ProofLen]
-
-		// check Merkle proof, which must be for the position queried
-		encodedProof := block[len(block)-dbInfo.ProofLen:]
-		proof := merkle.DecodeProof(encodedProof)
-		if proof == nil {
-			return nil, errors.New("REJECT! malformed proof")
-		}
-		if proof.Index != uint32(state.ix*dbInfo.NumColumns+state.iy) {
-			return nil, errors.New("REJECT! proof for another position")
-		}
-		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
-		if err != nil {
-			return nil, err
-		}
-		if !verified {
-			return nil, errors.New("REJECT!")
+		// The blocks of all the rows are verified, and not only the one
+		// queried: otherwise a server that alters a row of its answer
+		// would learn from the rejection which row the client queried.
+		var data []byte
+		for row := 0; row < dbInfo.NumRows; row++ {
+			block, err := reconstructValuePIR(answers, dbInfo, row)
+			if err != nil {
+				return block, err
+			}
+			d, err := verifyBlock(block, row*dbInfo.NumColumns+state.iy, dbInfo)
+			if err != nil {
+				return nil, err
+			}
+			if row == state.ix {
+				data = d
+			}
 		}
 
 		return data, nil
@@ -84,7 +75,36 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 	}
 }
 
-func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state) ([]byte, error) {
+// verifyBlock checks the Merkle proof of a padded block for the given position
+// and returns the data in the block.
+func verifyBlock(block []byte, position int, dbInfo *database.Info) ([]byte, error) {
+	block = database.UnPadBlock(block)
+	if len(block) < dbInfo.ProofLen {
+		return nil, errors.New("REJECT! block without proof")
+	}
+	data := block[:len(block)-dbInfo.ProofLen]
+
+	// check Merkle proof, which must be for the given position
+	encodedProof := block[len(block)-dbInfo.ProofLen:]
+	proof := merkle.DecodeProof(encodedProof)
+	if proof == nil {
+		return nil, errors.New("REJECT! malformed proof")
+	}
+	if proof.Index != uint32(position) {
+		return nil, errors.New("REJECT! proof for another position")
+	}
+	verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
+	if err != nil {
+		return nil, err
+	}
+	if !verified {
+		return nil, errors.New("REJECT!")
+	}
+
+	return data, nil
+}
+
+func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, row int) ([]byte, error) {
 	// sum answers as vectors in GF(2)
 	bs := dbInfo.BlockSize
 	sum := make([]byte, bs)
@@ -92,7 +112,7 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 		if len(answers[k]) != dbInfo.NumRows*bs {
 			return nil, errors.New("answer with invalid length")
 		}
-		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
+		fastxor.Bytes(sum, sum, answers[k][row*bs:bs*(row+1)])
 	}
 
 	return sum, nil
-- 
2.43.0


From 5101a777da8d6695a1f6a82eef97c6259865b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 23/23] fix: altering the padding of a block reveals the length
 of the block

The padding of a block is not covered by its Merkle proof, and a padding
byte with any value other than zero was taken for the 0x80 that ends the
block.
---
 lib/client/client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/client/client.go b/lib/client/client.go
index 653c4ec..06c57b6 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -1,6 +1,7 @@
 package client
 
 import (
+	"bytes"
 	"errors"
 
 	"github.com/cloudflare/circl/group"
@@ -78,6 +79,13 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 // verifyBlock checks the Merkle proof of a padded block for the given position
 // and returns the data in the block.
 func verifyBlock(block []byte, position int, dbInfo *database.Info) ([]byte, error) {
+	// The padding is not covered by the proof. Since the lengths of the
+	// blocks differ, a server that alters a byte of padding must not learn
+	// from the answer being accepted how long the block is.
+	padded := bytes.TrimRight(block, "\x00")
+	if len(padded) == 0 || padded[len(padded)-1] != 0x80 {
+		return nil, errors.New("REJECT! malformed padding")
+	}
 	block = database.UnPadBlock(block)
 	if len(block) < dbInfo.ProofLen {
 		return nil, errors.New("REJECT! block without proof")
-- 
2.43.0

