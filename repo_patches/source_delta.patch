From abdc89f2abb0eef5e1a71af7e106046530c54f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 01/26] fix: rewind the txs of a block in reverse order

A block whose txs spend each other could be advanced to but not rewound: the
first tx was undone while its outputs were still consumed by a later tx of the
same block, which panicked the chain routine.
---
 internal/chain/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..22da21c 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,7 +85,9 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
-	for _, tx := range rTxs {
+	// Undo txs last-to-first, since a tx may spend outputs of an earlier tx in its own block
+	for i := len(rTxs) - 1; i >= 0; i-- {
+		tx := rTxs[i]
 		txId := tx.Hash()
 		// Return tx back to mempool
 		s.mempool.Add(txId)
-- 
2.43.0


From 1c0993560b3a7241dcb5f679d371177e30e558d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 02/26] fix: reject txs whose total input or output value
 overflows

Output values summing to 2^64 or more wrapped around, so a tx could create
arbitrarily many coins and still appear to have a surplus.
---
 pkg/core/transaction.go | 24 ++++++++++++++++++++++++
 pkg/core/verify.go      |  5 +++++
 2 files changed, 29 insertions(+)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index 55f01ed..49d20bd 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -80,6 +80,30 @@ func (tx Tx) OutputsValue() uint64 {
 	return total
 }
 
+// Whether the total value of inputs fits in a uint64.
+func (tx Tx) inputsFit() bool {
+	total := uint64(0)
+	for _, txi := range tx.Inputs {
+		if total+txi.Utxo.Value < total {
+			return false
+		}
+		total += txi.Utxo.Value
+	}
+	return true
+}
+
+// Whether the total value of outputs fits in a uint64.
+func (tx Tx) outputsFit() bool {
+	total := uint64(0)
+	for _, txo := range tx.Outputs {
+		if total+txo.Value < total {
+			return false
+		}
+		total += txo.Value
+	}
+	return true
+}
+
 func (tx Tx) VSize() uint64 {
 	// 8 from MinBlock, 32 each from top-level hash of Inputs and Outputs
 	vSize := uint64(8 + 32 + 32)
diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..e189cdc 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -244,6 +244,11 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		}
 	}
 
+	// Verify input and output totals do not overflow
+	if !tx.inputsFit() || !tx.outputsFit() {
+		return fmt.Errorf("tx total value overflows")
+	}
+
 	// Verify within vSize limit
 	if tx.VSize() > v.params.MaxTxVSize {
 		return fmt.Errorf("tx vSize exceeds limit")
-- 
2.43.0


From 12d0f65642fab8d22ebd59f2e9a06717cb134eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 03/26] fix: reject txs that consume the same utxo in several
 inputs

Such a tx was accepted to the mempool and offered to miners, but every block
including it is invalid, so mining stalled until it was outbid.
---
 pkg/core/verify.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index e189cdc..f128688 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -249,6 +249,15 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx total value overflows")
 	}
 
+	// Verify no utxo is consumed by more than one input
+	utxos := set.NewSet[Utxo]()
+	for _, txi := range tx.Inputs {
+		if utxos.Includes(txi.Utxo) {
+			return fmt.Errorf("tx consumes utxo more than once")
+		}
+		utxos.Add(txi.Utxo)
+	}
+
 	// Verify within vSize limit
 	if tx.VSize() > v.params.MaxTxVSize {
 		return fmt.Errorf("tx vSize exceeds limit")
-- 
2.43.0


From 810847ba5816bbf2f0e107b3c573e85fbcceeb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 04/26] fix: check the time of the last block of each
 difficulty period

Operator precedence made the check never apply, so a chain whose last block of
a period was not after its first one was accepted and then panicked NextTarget.
---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index f128688..0947d82 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -183,7 +183,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From 6f894fee972d4ae846c47374f391c5d9b7ef6b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 05/26] fix: use verified txs that a restart dropped from the
 mempool

Txs stored on disk but unconfirmed at a restart were known but in neither the
mempool nor the chain: resubmitting them had no effect, and every block
including one of them was refused, leaving the node stuck on its fork.
---
 internal/chain/chain.go |  9 +++++----
 internal/chain/state.go | 10 ++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 781aa9b..513fb49 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -208,12 +208,13 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 
 func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 	txId := event.Tx.Hash()
-	if c.inv.HasTx(txId) {
+	if !c.inv.HasTx(txId) {
+		if err := c.inv.StoreTx(event.Tx); err != nil {
+			return err
+		}
+	} else if c.state.IsTxPendingOrIncluded(txId) {
 		return nil
 	}
-	if err := c.inv.StoreTx(event.Tx); err != nil {
-		return err
-	}
 	c.state.AddMempoolTx(txId)
 	c.bus.ValidatedTx.Pub(bus.ValidatedTxEvent{
 		TxId: txId,
diff --git a/internal/chain/state.go b/internal/chain/state.go
index 22da21c..f3bca52 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -157,6 +157,10 @@ func (s *State) Advance(nextBlockId core.HashT, autoAddMempoolInsecure bool) err
 	}
 	for _, tx := range nTxs {
 		txId := tx.Hash()
+		// The mempool doesn't survive restarts, so we may know a tx that's in neither mempool nor chain
+		if s.inv.HasTx(txId) && !s.IsTxPendingOrIncluded(txId) {
+			s.AddMempoolTx(txId)
+		}
 		err := s.VerifyTxIncludable(txId, autoAddMempoolInsecure)
 		if err != nil {
 			return fmt.Errorf("tx not includable: %s", err.Error())
@@ -256,6 +260,12 @@ func (s *State) GetSortedIncludableMempool() []core.HashT {
 	return memL
 }
 
+// Check whether a tx is in our mempool or included in our chain.
+func (s *State) IsTxPendingOrIncluded(txId core.HashT) bool {
+	_, included := s.includedTxBlocks[txId]
+	return included || s.mempool.Includes(txId)
+}
+
 // Add a tx to the mempool.
 func (s *State) AddMempoolTx(txId core.HashT) {
 	tx := s.inv.GetTx(txId)
-- 
2.43.0


From 9f057fd1ca2a791138d02712be339f125411ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 06/26] fix: handle rich list queries with a huge max length

Converting the length to int made it negative, which returned nothing or
panicked the chain routine.
---
 internal/chain/state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index f3bca52..ce3625f 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -394,9 +394,9 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 		return pkhBals[pkhs[i]] > pkhBals[pkhs[j]]
 	})
 	// outLen = min(maxLen, len(pkhs))
-	outLen := int(maxLen)
-	if len(pkhs) < outLen {
-		outLen = len(pkhs)
+	outLen := len(pkhs)
+	if maxLen < uint64(outLen) {
+		outLen = int(maxLen)
 	}
 	out := make(map[core.HashT]uint64, outLen)
 	for i := 0; i < outLen; i++ {
-- 
2.43.0


From 02a5a691a1ba299e0e503b13cf9ba92de1f619be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 07/26] fix: replace saved files atomically

The head file was truncated and rewritten in place, so a crash in between lost
the head; a partly written record could be parsed as a different one.
---
 internal/chain/chain.go        | 7 ++++++-
 pkg/disksyncmap/disksyncmap.go | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 513fb49..30d449c 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -227,7 +227,12 @@ func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 }
 
 func (c *Chain) saveHeadToFile(head core.HashT) error {
-	return os.WriteFile(*c.saveDir+"/head", []byte(head.String()), 0666)
+	// Write to a temporary file first, so a crash can't leave a partial head
+	path := *c.saveDir + "/head"
+	if err := os.WriteFile(path+".tmp", []byte(head.String()), 0666); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 func loadHeadFromFile(saveDir *string) (head *core.HashT, err error) {
diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1268a8c..db9650f 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -75,7 +75,11 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return os.WriteFile(path, []byte(val.String()), 0666)
+	// Write to a temporary file first, so a crash can't leave a partial entry
+	if err := os.WriteFile(path+".tmp", []byte(val.String()), 0666); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 // Load the given file from disk and parse.
-- 
2.43.0


From fddf5e913d0bd69db39cb9b1cf1dccf1713db8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 08/26] fix: do not let miners share the memory of a template's
 tx list

---
 pkg/util/util.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..fab3a8f 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -11,16 +11,12 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 	return out
 }
 
-// Prepend into slice.
+// Prepend into slice. Does not modify in-place, returns a new one.
 func Prepend[K any](ls []K, items ...K) []K {
 	for _, item := range items {
-		if len(ls) == 0 {
-			ls = []K{item}
-		} else {
-			ls = append(ls, item)
-			copy(ls[1:], ls)
-			ls[0] = item
-		}
+		out := make([]K, 0, len(ls)+1)
+		out = append(out, item)
+		ls = append(out, ls...)
 	}
 	return ls
 }
-- 
2.43.0


From 29b82e08d3708031ec5525c5ac8639bf4cd145e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 09/26] fix: give mined blocks a time the rules accept when
 recent blocks are ahead of the clock

---
 internal/miner/miner.go |  7 ++++++-
 pkg/core/difficulty.go  | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/miner/miner.go b/internal/miner/miner.go
index 227be14..e53b146 100644
--- a/internal/miner/miner.go
+++ b/internal/miner/miner.go
@@ -109,6 +109,11 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 	for i, merkleId := range merkleIds {
 		outMerkles[i] = merkleMap[merkleId]
 	}
+	// Blocks must be later than some of their ancestors, whatever our clock says
+	minedTime := uint64(time.Now().Unix())
+	if earliest := core.EarliestMinedTime(m.inv.GetCoreParams(), m.inv, head); minedTime < earliest {
+		minedTime = earliest
+	}
 	// Set our template and output data
 	m.template = &core.Block{
 		PrevBlockId: head,
@@ -116,7 +121,7 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 		Target:      target,
 		Noise:       core.NewHashTRand(),
 		Nonce:       0,
-		MinedTime:   uint64(time.Now().Unix()),
+		MinedTime:   minedTime,
 	}
 	m.outCoinbase = &coinbaseTx
 	m.outMerkles = outMerkles
diff --git a/pkg/core/difficulty.go b/pkg/core/difficulty.go
index 5c10a78..388f291 100644
--- a/pkg/core/difficulty.go
+++ b/pkg/core/difficulty.go
@@ -3,6 +3,7 @@ package core
 import (
 	"fmt"
 	"math/big"
+	"sort"
 )
 
 // Subset of Inv methods required to compute a next target.
@@ -46,6 +47,42 @@ func ExpectedTargetAdjustment(params Params, inv InvTargeter, head HashT) (uint6
 	return actualTime, desiredTime, nil
 }
 
+// Get the earliest mined time that VerifyBlock accepts for a child of the given block.
+func EarliestMinedTime(params Params, inv InvTargeter, prevBlockId HashT) uint64 {
+	// Special case - first block can have any time
+	if prevBlockId.EqZero() {
+		return 0
+	}
+
+	// Must be above median of previous 5
+	times := make([]uint64, 0, 5)
+	for id := prevBlockId; !id.EqZero() && len(times) < 5; {
+		block := inv.GetBlock(id)
+		times = append(times, block.MinedTime)
+		id = block.PrevBlockId
+	}
+	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
+	median := times[len(times)/2]
+	if len(times)%2 == 0 {
+		median = (times[len(times)/2-1] + times[len(times)/2]) / 2
+	}
+	earliest := median + 1
+
+	// Last block in period must be above first block in period
+	height := inv.GetBlockHeight(prevBlockId) + 1
+	if (height+1)%params.DifficultyPeriod == 0 {
+		depth := params.DifficultyPeriod - 2
+		if height+1 == params.DifficultyPeriod {
+			depth--
+		}
+		firstTime := inv.GetBlock(inv.GetBlockSpecificAncestor(prevBlockId, int(depth))).MinedTime
+		if earliest <= firstTime {
+			earliest = firstTime + 1
+		}
+	}
+	return earliest
+}
+
 func NextTarget(params Params, inv InvTargeter, prevBlockId HashT) HashT {
 	// Special case - first block gets original target
 	if prevBlockId.EqZero() {
-- 
2.43.0


From 24853c1883525af79f65ee4e008bd9337f18f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 10/26] fix: insert the entities of a synced chain in
 dependency order

---
 internal/peer/sync.go | 56 +++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..79b04a2 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -146,49 +146,53 @@ func (p *Peer) handleInboundSyncChain() error {
 		return p.conn.Err()
 	}
 	// Request the peer for entities we don't know about
+	// Go from the oldest block to the newest, so txs can be verified in the order received
 	newMerkles := make([]core.MerkleNode, 0)
 	newTxs := make([]core.Tx, 0)
-	idQueue := queue.NewQueue[core.HashT]()
 	receivedIds := set.NewSet[core.HashT]()
-	for _, block := range newBlocks {
-		idQueue.Push(block.MerkleRoot)
-	}
-	for idQueue.Size() > 0 {
-		id, _ := idQueue.Pop()
-		if p.inv.HasEntity(id) || receivedIds.Includes(id) {
-			continue
-		}
-		p.conn.WriteHashT(id)
-		isTx := p.conn.ReadBool()
-		if p.conn.HasErr() {
-			return p.conn.Err()
-		} else if !isTx {
-			merkle := p.conn.ReadMerkle(id)
-			if p.conn.HasErr() {
-				return p.conn.Err()
+	for i := len(newBlocks) - 1; i >= 0; i-- {
+		blockMerkles := make([]core.MerkleNode, 0)
+		idQueue := queue.NewQueue[core.HashT]()
+		idQueue.Push(newBlocks[i].MerkleRoot)
+		for idQueue.Size() > 0 {
+			id, _ := idQueue.Pop()
+			if p.inv.HasEntity(id) || receivedIds.Includes(id) {
+				continue
 			}
-			newMerkles = append(newMerkles, merkle)
-			idQueue.Push(merkle.LChild, merkle.RChild)
-		} else {
-			tx := p.conn.ReadTx(id)
+			p.conn.WriteHashT(id)
+			isTx := p.conn.ReadBool()
 			if p.conn.HasErr() {
 				return p.conn.Err()
+			} else if !isTx {
+				merkle := p.conn.ReadMerkle(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				blockMerkles = append(blockMerkles, merkle)
+				idQueue.Push(merkle.LChild, merkle.RChild)
+			} else {
+				tx := p.conn.ReadTx(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				newTxs = append(newTxs, tx)
 			}
-			newTxs = append(newTxs, tx)
+			receivedIds.Add(id)
 		}
-		receivedIds.Add(id)
+		// Merkles are discovered parents first, but must be inserted children first
+		newMerkles = append(newMerkles, util.Reverse(blockMerkles)...)
 	}
 	p.conn.WriteHashT(core.HashT{})
 	p.conn.WriteString("complete")
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	}
-	// Send the new entities to the head (reversed so they're inserted in correct order)
+	// Send the new entities to the head (in the order they should be inserted)
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
 		Head:                   newHead,
 		Blocks:                 util.Reverse(newBlocks),
-		Merkles:                util.Reverse(newMerkles),
-		Txs:                    util.Reverse(newTxs),
+		Merkles:                newMerkles,
+		Txs:                    newTxs,
 		AutoAddMempoolInsecure: false,
 	})
 	return nil
-- 
2.43.0


From f17eff98fa2f902f14f15fdfcf455a564a78d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 11/26] fix: give a new peer the newest head, not the last one
 processed

---
 internal/peer/peer.go               |  7 +++++--
 internal/peerfactory/peerfactory.go | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 3a0987d..942f157 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -47,7 +47,10 @@ type Peer struct {
 }
 
 // Create a new peer given a message bus instance.
-func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.HashT) *Peer {
+// The current head is read once we're subscribed, so no head can be missed in between.
+func NewPeer(
+	msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, getCurHead func() core.HashT,
+) *Peer {
 	subs := &subscriptions{
 		PrintUpdate:        msgBus.PrintUpdate.SubCh(),
 		SendPeers:          msgBus.SendPeers.SubCh(),
@@ -62,7 +65,7 @@ func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.H
 		subs:        subs,
 		conn:        conn,
 		shouldClose: false,
-		curHead:     curHead,
+		curHead:     getCurHead(),
 	}
 }
 
diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 268af5e..309bdb1 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -26,7 +26,7 @@ type subcriptions struct {
 	PeersReceived     *topic.SubCh[bus.PeersReceivedEvent]
 	PeersRequested    *topic.SubCh[bus.PeersRequestedEvent]
 	PrintUpdate       *topic.SubCh[bus.PrintUpdateEvent]
-	ValidatedHead     *topic.SubCh[bus.ValidatedHeadEvent]
+	ValidatedHead     topic.Sub[bus.ValidatedHeadEvent] // Polled, not a channel
 }
 
 // A peer factory. Does not manage the peers after creation.
@@ -54,7 +54,7 @@ func NewPeerFactory(params Params, msgBus *bus.Bus, inv inv.InvReader) *PeerFact
 		PeersReceived:     msgBus.PeersReceived.SubCh(),
 		PeersRequested:    msgBus.PeersRequested.SubCh(),
 		PrintUpdate:       msgBus.PrintUpdate.SubCh(),
-		ValidatedHead:     msgBus.ValidatedHead.SubCh(),
+		ValidatedHead:     msgBus.ValidatedHead.Sub(),
 	}
 	return &PeerFactory{
 		params:         params,
@@ -116,6 +116,7 @@ func (pf *PeerFactory) Loop() {
 	// Loop
 	seekPeersTicker := time.NewTicker(pf.params.SeekNewPeersFreq)
 	for {
+		pf.getCurHead()
 		select {
 		case conn := <-pf.newConns:
 			pf.addConn(conn)
@@ -140,9 +141,6 @@ func (pf *PeerFactory) Loop() {
 				PeerAddrs:       util.CopyMap(pf.knownPeerAddrs),
 			})
 
-		case event := <-pf.subs.ValidatedHead.C:
-			pf.curHead = event.Head
-
 		case event := <-pf.subs.PrintUpdate.C:
 			if !event.PeerFactory {
 				continue
@@ -221,6 +219,14 @@ func (pf *PeerFactory) listen() {
 	}
 }
 
+// Get the current head, from every validated head published so far.
+func (pf *PeerFactory) getCurHead() core.HashT {
+	for event, ok := pf.subs.ValidatedHead.Pop(); ok; event, ok = pf.subs.ValidatedHead.Pop() {
+		pf.curHead = event.Head
+	}
+	return pf.curHead
+}
+
 // Upgrade a connection to peer, if appropriate.
 func (pf *PeerFactory) addConn(conn *prot.Conn) {
 	if conn.HasErr() {
@@ -231,7 +237,7 @@ func (pf *PeerFactory) addConn(conn *prot.Conn) {
 	if pf.knownPeers.Size() < pf.params.MaxPeers &&
 		!pf.knownPeers.Includes(runtimeId) {
 		// Upgrade to peer
-		go peer.NewPeer(pf.bus, pf.inv, conn, pf.curHead).Loop()
+		go peer.NewPeer(pf.bus, pf.inv, conn, pf.getCurHead).Loop()
 		pf.knownPeers.Add(runtimeId)
 		// Set our localaddr and start listen if we only now can
 		if pf.params.Listen && pf.params.LocalAddr == "" {
-- 
2.43.0


From 76f09e6499882c03ad9e689e4e271a6137d7551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 12/26] fix: keep partially read bytes when a read times out

---
 pkg/prot/conn.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..c4fde85 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -17,6 +17,7 @@ type Conn struct {
 	tc            *net.TCPConn
 	peerRuntimeId string
 	err           error
+	unread        []byte // Bytes taken from tc by reads that timed out
 }
 
 // Create a new connection from an existing TCP Connection.
@@ -111,8 +112,14 @@ func (c *Conn) readRawTimeout(numBytes uint16, timeout time.Duration) []byte {
 	c.tc.SetReadDeadline(time.Now().Add(timeout))
 	defer c.tc.SetReadDeadline(time.Time{})
 	data := make([]byte, numBytes)
-	_, err := io.ReadFull(c.tc, data)
+	numKept := copy(data, c.unread)
+	c.unread = c.unread[numKept:]
+	numRead, err := io.ReadFull(c.tc, data[numKept:])
 	if err != nil {
+		if os.IsTimeout(err) {
+			// Keep what did arrive, so the next read starts at the same point in the stream
+			c.unread = append(data[:numKept+numRead], c.unread...)
+		}
 		c.err = err
 		return nil
 	}
-- 
2.43.0


From 9640eed673d10d5c7f583b730d9056251d2279ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 13/26] fix: carry out both commands when one of two
 simultaneous ones fails

---
 internal/peer/peer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 942f157..e9e922f 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -208,9 +208,11 @@ func (p *Peer) issueCommand(command string, handler func() error) error {
 	if bytes.HasPrefix(resp, []byte("cmd:")) {
 		if p.conn.WeAreInitiator() {
 			// If we initiated the original connection, honor their command first
+			// Even if handling theirs fails, they'll still honor ours
 			if err := p.handleReceivedMessage(resp); err != nil {
-				return err
-			} else if p.shouldClose {
+				fmt.Printf("error handling '%s': %s\n", resp, err.Error())
+			}
+			if p.shouldClose {
 				return errPeerClosed
 			}
 			p.conn.ReadStringExpected("ack:" + command)
@@ -224,9 +226,11 @@ func (p *Peer) issueCommand(command string, handler func() error) error {
 			if p.conn.HasErr() {
 				return p.conn.Err()
 			}
+			// Even if handling ours fails, they still expect us to honor theirs
 			if err := handler(); err != nil {
-				return err
-			} else if p.shouldClose {
+				fmt.Printf("error issuing %s: %s\n", command, err.Error())
+			}
+			if p.shouldClose {
 				return errPeerClosed
 			}
 			return p.handleReceivedMessage(resp)
-- 
2.43.0


From 119ce70086e4cd36c3c7a2ea9c54332db047e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 14/26] fix: refuse strings too long for their length header

---
 pkg/prot/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index c4fde85..b989452 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -177,8 +177,8 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 {
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From 62c7b338ef033a511087bae98a2039218eb16390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 15/26] fix: report why a received chain failed verification
 instead of panicking

---
 internal/peer/sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 79b04a2..bdc189f 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -139,7 +139,7 @@ func (p *Peer) handleInboundSyncChain() error {
 		if p.conn.HasErr() {
 			return p.conn.Err()
 		}
-		return fmt.Errorf("failed to verify received chain: %s", p.conn.Err().Error())
+		return fmt.Errorf("failed to verify received chain: %s", err.Error())
 	}
 	p.conn.WriteBool(true)
 	if p.conn.HasErr() {
-- 
2.43.0


From c8424b9e5b3bc1d6fac646b84f2d0101efb65b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 16/26] fix: close the connection of a peer whose loop ended

---
 internal/peer/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index e9e922f..250db1b 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -80,6 +80,7 @@ func (p *Peer) Loop() {
 			fmt.Printf("peer %s closed\n", p.conn.PeerRuntimeId())
 		}
 		p.subs.Close()
+		p.conn.Close()
 		p.bus.PeerClosing.Pub(bus.PeerClosingEvent{
 			PeerRuntimeId: p.conn.PeerRuntimeId(),
 		})
-- 
2.43.0


From d0f751ca87e2e10b48fd2b8bd5b995b4b7781f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 17/26] fix: do not allocate by the counts a peer claims for a
 tx

---
 pkg/prot/core.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..cb0974f 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,14 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
-	}
-	if c.err != nil {
-		return core.Tx{}
-	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+		Inputs:     make([]core.TxIn, 0),
+		Outputs:    make([]core.TxOut, 0),
+	}
+	// The peer may claim any counts, so only grow as we actually receive
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
+	for i := uint64(0); i < numInputs && c.err == nil; i++ {
+		tx.Inputs = append(tx.Inputs, core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -116,13 +116,13 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			},
 			PublicKey: c.Read(),
 			Signature: c.Read(),
-		}
+		})
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs && c.err == nil; i++ {
+		tx.Outputs = append(tx.Outputs, core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
-		}
+		})
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From 45913835c0d0f98c502e338dc4dac56edf8b693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 18/26] fix: do not allocate or loop by the count a peer claims
 for addrs

---
 internal/peer/handlers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..78d1cea 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,9 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	peerAddrs := make(map[string]string)
+	// The peer may claim any count, so stop once they don't actually send it
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
-- 
2.43.0


From 3b999298ff79dad28f1da6be093591ac31ce9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 19/26] fix: do not let one handshake keep other peers from
 connecting

---
 internal/peerfactory/peerfactory.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 309bdb1..10b7174 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -209,14 +209,20 @@ func (pf *PeerFactory) listen() {
 		if err != nil {
 			continue
 		}
-		protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
-		conn := prot.NewConn(protParams, tcpConn)
-		if conn.HasErr() {
-			conn.CloseIfPossible(nil)
-			continue
-		}
-		pf.newConns <- conn
+		// Handshake in the background, so slow peers can't keep others from connecting
+		go pf.acceptConn(tcpConn)
+	}
+}
+
+// Handshake with an inbound connection.
+func (pf *PeerFactory) acceptConn(tcpConn *net.TCPConn) {
+	protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
+	conn := prot.NewConn(protParams, tcpConn)
+	if conn.HasErr() {
+		conn.CloseIfPossible(nil)
+		return
 	}
+	pf.newConns <- conn
 }
 
 // Get the current head, from every validated head published so far.
-- 
2.43.0


From 24bae2876b598fd7ec2f2958e989d2dc65c555ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 20/26] fix: do not keep the address of a peer that has closed

A peer's address and its closing reach the peer factory over two
subscriptions, in no fixed order: an address that came last stayed
forever, and was handed out.
---
 internal/peerfactory/peerfactory.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 10b7174..eb9b6c7 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -122,7 +122,10 @@ func (pf *PeerFactory) Loop() {
 			pf.addConn(conn)
 
 		case event := <-pf.subs.PeerAnnouncedAddr.C:
-			pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			// The peer might have closed by the time we get this
+			if pf.knownPeers.Includes(event.PeerRuntimeId) {
+				pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			}
 
 		case event := <-pf.subs.PeerClosing.C:
 			pf.knownPeers.Remove(event.PeerRuntimeId)
-- 
2.43.0


From f20873d78d06ca3aa06dc95f7d8af9dd34cd1d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 21/26] fix: report an error when a wallet transaction's
 amounts do not work out

---
 pkg/core/txfactory.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..1948beb 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -3,6 +3,7 @@ package core
 import (
 	"crypto/ecdsa"
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/levilutz/basiccoin/pkg/util"
@@ -38,6 +39,9 @@ func MakeOutboundTx(
 	// Get total outputs and verify <= utxos
 	totalOut := uint64(0)
 	for _, val := range dests {
+		if totalOut+val < totalOut {
+			return nil, fmt.Errorf("total of outputs too large")
+		}
 		totalOut += val
 	}
 	if totalOut >= balance {
@@ -93,16 +97,17 @@ func MakeOutboundTx(
 		}
 
 		// Check if we now have enough inputs to cover outputs + fees
-		if totalIn >= totalOut+tx.FeeFromRate(targetFeeRate) {
+		if totalIn >= totalOut && totalIn-totalOut >= feeFromRate(tx, targetFeeRate) {
 			break
 		}
 
 		// If we reached the end of the loop without breaking, we can't make it work
 		if i == len(utxos)-1 {
 			return nil, fmt.Errorf(
-				"insufficient balance to pay outputs and target fee rate - %d < %d",
+				"insufficient balance to pay outputs and target fee rate - %d < %d + %d",
 				balance,
-				totalOut+tx.FeeFromRate(targetFeeRate),
+				totalOut,
+				feeFromRate(tx, targetFeeRate),
 			)
 		}
 	}
@@ -111,7 +116,7 @@ func MakeOutboundTx(
 	// Ideally we would do this after replacing sigs bc vSize and thus fee would decrease
 	// But unfortunately we need this output finalized so we can compute preSigHash
 	// Thus we will on average overestimate vSize by ~1 vByte per output (<1% fee diff)
-	tx.Outputs[0].Value = totalIn - totalOut - tx.FeeFromRate(targetFeeRate)
+	tx.Outputs[0].Value = totalIn - totalOut - feeFromRate(tx, targetFeeRate)
 
 	// Sign the inputs, replacing placeholders
 	preSigHash := TxHashPreSig(tx.MinBlock, tx.Outputs)
@@ -201,7 +206,11 @@ func MakeConsolidateTx(
 	}
 
 	// Set the output amount
-	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
+	fee := feeFromRate(tx, targetFeeRate)
+	if len(tx.Inputs) == 0 || totalIn < fee {
+		return nil, fmt.Errorf("insufficient balance to pay target fee rate - %d < %d", totalIn, fee)
+	}
+	tx.Outputs[0].Value = totalIn - fee
 
 	// Sign the inputs, replacing placeholders
 	preSigHash := TxHashPreSig(tx.MinBlock, tx.Outputs)
@@ -223,6 +232,14 @@ func MakeConsolidateTx(
 	return &tx, nil
 }
 
+// Get the fee a tx should pay at the given rate, at most the largest amount.
+func feeFromRate(tx Tx, targetFeeRate float64) uint64 {
+	if targetFeeRate*float64(tx.VSize()) >= math.MaxUint64 {
+		return math.MaxUint64
+	}
+	return tx.FeeFromRate(targetFeeRate)
+}
+
 // Given private keys, make a mapping from their public key hashes to each private key.
 func getPkkPrivs(privateKeys []*ecdsa.PrivateKey) (map[HashT]*ecdsa.PrivateKey, error) {
 	out := make(map[HashT]*ecdsa.PrivateKey, len(privateKeys))
@@ -240,12 +257,18 @@ func getPkkPrivs(privateKeys []*ecdsa.PrivateKey) (map[HashT]*ecdsa.PrivateKey,
 func getBalanceAndRichestPkh(
 	utxoPkhs map[Utxo]HashT, pkhPrivs map[HashT]*ecdsa.PrivateKey,
 ) (uint64, HashT, error) {
+	if len(utxoPkhs) == 0 {
+		return 0, HashT{}, fmt.Errorf("insufficient balance")
+	}
 	balance := uint64(0)
 	pkhBalances := make(map[HashT]uint64)
 	for utxo, pkh := range utxoPkhs {
 		if _, ok := pkhPrivs[pkh]; !ok {
 			return 0, HashT{}, fmt.Errorf("pkh %s not controlled by private keys", pkh)
 		}
+		if balance+utxo.Value < balance {
+			return 0, HashT{}, fmt.Errorf("total balance too large")
+		}
 		balance += utxo.Value
 		pkhBalances[pkh] += utxo.Value
 	}
-- 
2.43.0


From 50cf9027e011c031afdfdf6924f5ed6762aadc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 22/26] fix: pay at least one coin in fees, less is not
 accepted

---
 pkg/core/txfactory.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 1948beb..c4486dd 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -232,12 +232,15 @@ func MakeConsolidateTx(
 	return &tx, nil
 }
 
-// Get the fee a tx should pay at the given rate, at most the largest amount.
+// Get the fee a tx should pay at the given rate, the network requires at least 1 coin.
 func feeFromRate(tx Tx, targetFeeRate float64) uint64 {
 	if targetFeeRate*float64(tx.VSize()) >= math.MaxUint64 {
 		return math.MaxUint64
 	}
-	return tx.FeeFromRate(targetFeeRate)
+	if fee := tx.FeeFromRate(targetFeeRate); fee > 0 {
+		return fee
+	}
+	return 1
 }
 
 // Given private keys, make a mapping from their public key hashes to each private key.
-- 
2.43.0


From a2fd729eb66d510feb00c42f7ece0b5556a93bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 23/26] fix: replace the wallet file in one step when saving it

---
 cmd/bcwallet/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index b80f79b..66de73c 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -202,7 +202,12 @@ func (c *Config) Save() error {
 		return fmt.Errorf("config file is a directory: %s", getConfigPath(c.Dev))
 	}
 
-	return os.WriteFile(getConfigPath(c.Dev), rawConfig, 0600)
+	// Write to a temporary file first, so a crash or full disk can't lose the keys already saved
+	tmpPath := getConfigPath(c.Dev) + ".tmp"
+	if err := os.WriteFile(tmpPath, rawConfig, 0600); err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, getConfigPath(c.Dev))
 }
 
 func EnsureConfig(dev bool) {
-- 
2.43.0


From 3681fb2abef750fe392ee1b8ed94624d68086a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 24/26] fix: report a generated address only once its key is
 saved

---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 8d4cc35..9748e0b 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -98,8 +98,11 @@ var commands = []Command{
 				kc = NewKeyConfig(priv)
 			}
 			ctx.Config.AddKeys(kc)
+			if err := ctx.Config.Save(); err != nil {
+				return err
+			}
 			fmt.Println(kc.PublicKeyHash)
-			return ctx.Config.Save()
+			return nil
 		},
 	},
 	{
-- 
2.43.0


From 4e234fcf6af8fbe9073724c6db0bba8c43035a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 25/26] fix: pay every amount given for a destination, not only
 the last

---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 9748e0b..2fd2266 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -203,7 +203,10 @@ var commands = []Command{
 				if err != nil {
 					return err
 				}
-				dests[pkh] = val
+				if dests[pkh]+val < val {
+					return fmt.Errorf("total to %s too large", pkh)
+				}
+				dests[pkh] += val
 			}
 
 			// Get current head height / min block
-- 
2.43.0


From 7a04fdfa6bbd10a66b7e436737d4f76371b4d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 26/26] fix: fee rates of txs with large inputs and outputs
 lost their fee to float rounding

---
 pkg/core/transaction.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index 49d20bd..08b2b29 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -117,8 +117,13 @@ func (tx Tx) VSize() uint64 {
 }
 
 func (tx Tx) Rate() float64 {
-	// Float inputs and outputs separately so we don't uint underflow
-	return (float64(tx.InputsValue()) - float64(tx.OutputsValue())) / float64(tx.VSize())
+	// Subtract before converting, as floats can't tell large inputs and outputs apart
+	// Take care that we don't uint underflow
+	inputs, outputs := tx.InputsValue(), tx.OutputsValue()
+	if inputs < outputs {
+		return -float64(outputs-inputs) / float64(tx.VSize())
+	}
+	return float64(inputs-outputs) / float64(tx.VSize())
 }
 
 // What fees would be paid at the given fee rate.
-- 
2.43.0

