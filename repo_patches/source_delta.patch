From 0147dacdeb02912cc7cd157f6fb1c2dfd030c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:04 +0000
Subject: [PATCH 01/85] fix: link releases its lock after handling a relay
 result

result() took the lock twice (defer l.rmsMtx.Lock()), so the first
RelayResult blocked the link for good.
---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..09a3a37 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -454,7 +454,7 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
-- 
2.43.0


From 9fa7d73880e4a7a83c38ea19258f5b4553540529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:56 +0000
Subject: [PATCH 02/85] fix: link keeps an open item group after sending a
 relay message

Sending reset the list of item groups to empty, so the next block update
of the same batch, or the rest of a block that was split by the size limit,
indexed group -1 and panicked.  Empty groups (and items that build to no
bytes) were relayed as empty relay messages.
---
 common/link/link.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 09a3a37..4529170 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -305,7 +305,7 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		}
 		if l.isOverLimit(l.rmi.size) {
 			l.sendRelayMessage(bls)
-			if bu != nil || bu.ProofHeight() != 0 {
+			if bu == nil || bu.ProofHeight() != 0 {
 				h := l.r.GetHeightForSeq(bls.RxSeq)
 				mh = h
 				if err := l.buildBlockProof(bls, mh); err != nil {
@@ -377,10 +377,16 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
 		}
+		if len(m) == 0 {
+			continue
+		}
 
 		rm := &relayMessage{
 			id:       rand.Int(),
@@ -392,7 +398,7 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		rms = append(rms, rm)
 	}
 	l.rmi.rmis = l.rmi.rmis[:0]
-	l.rmi.size = 0
+	l.createRelayMessageItem()
 
 	return rms, nil
 }
-- 
2.43.0


From 556df8c66fccaae5e755398ea9ac2521b6089b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:44 +0000
Subject: [PATCH 03/85] fix: link reports failures instead of dropping them

Errors of Receiver.Start, BuildRelayMessage and Sender.Relay were ignored:
the link either hung forever or advanced its view of the destination past
messages that were never relayed.  They now end Link.Start, as the error
channel intends; a closed receiver or sender channel no longer spins, and
a proof loop that makes no progress is an error instead of a busy loop.
---
 cmd/relay/linkfatory.go |  5 +--
 common/link/link.go     | 70 +++++++++++++++++++++++++++--------------
 2 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index f5d80fd..6a3e0b9 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -89,10 +89,7 @@ func newLink(s string, cfg chain.Config, l log.Logger, w wallet.Wallet, linkErrC
 
 	go func() {
 		err := lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))
-		select {
-		case linkErrCh <- err:
-		default:
-		}
+		linkErrCh <- err
 	}()
 
 	return lk, nil
diff --git a/common/link/link.go b/common/link/link.go
index 4529170..39ddd4c 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -128,21 +128,30 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	once := new(sync.Once)
 	go func() {
 		rsc, err := l.r.Start(bls)
+		if err != nil {
+			errCh <- err
+			return
+		}
 		for {
 			select {
-			case rs := <-rsc:
+			case rs, ok := <-rsc:
+				if !ok {
+					errCh <- errors.New("receiver is stopped")
+					return
+				}
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
-				l.rss = append(l.rss, rs)
-				l.BuildRelayMessage(bls)
+				if err == nil {
+					l.rss = append(l.rss, rs)
+					err = l.BuildRelayMessage(bls)
+				}
+				if err != nil {
+					errCh <- err
+					return
+				}
 			}
 		}
-
-		select {
-		case errCh <- err:
-		default:
-		}
 	}()
 }
 
@@ -150,10 +159,18 @@ func (l *Link) senderChannel(errCh chan error) {
 	go func() {
 		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
+		if err != nil {
+			errCh <- err
+			return
+		}
 
 		for {
 			select {
-			case sc := <-scc:
+			case sc, ok := <-scc:
+				if !ok {
+					errCh <- errors.New("sender is stopped")
+					return
+				}
 				switch t := sc.(type) {
 				case *types.RelayResult:
 					err := l.result(t)
@@ -166,11 +183,6 @@ func (l *Link) senderChannel(errCh chan error) {
 				}
 			}
 		}
-
-		select {
-		case errCh <- err:
-		default:
-		}
 	}()
 
 }
@@ -224,7 +236,7 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 	}
 
 	if l.isOverLimit(l.rmi.size) {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 
 	return nil
@@ -238,7 +250,9 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 
 	for _, rm := range rms {
 		l.rms = append(l.rms, rm)
-		l.s.Relay(rm)
+		if _, err = l.s.Relay(rm); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -287,7 +301,7 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 		}
 	}
 	if l.rmi.size > 0 {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 	return nil
 }
@@ -303,8 +317,11 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		if rs.Seq() <= bls.RxSeq {
 			break
 		}
+		rxSeq := bls.RxSeq
 		if l.isOverLimit(l.rmi.size) {
-			l.sendRelayMessage(bls)
+			if err := l.sendRelayMessage(bls); err != nil {
+				return err
+			}
 			if bu == nil || bu.ProofHeight() != 0 {
 				h := l.r.GetHeightForSeq(bls.RxSeq)
 				mh = h
@@ -329,6 +346,9 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 				return err
 			}
 		}
+		if bls.RxSeq == rxSeq {
+			return errors.Errorf("no message proof for seq:%d height:%d", rxSeq+1, bls.Verifier.Height)
+		}
 	}
 	return nil
 }
@@ -422,9 +442,13 @@ func (l *Link) removeRelayMessage(id int) {
 
 func (l *Link) updateBlockProof(id int) error {
 	rm := l.searchRelayMessage(id)
-	l.buildProof(rm.bls, nil)
-	l.sendRelayMessage(rm.bls)
-	return nil
+	if rm == nil {
+		return nil
+	}
+	if err := l.buildProof(rm.bls, nil); err != nil {
+		return err
+	}
+	return l.sendRelayMessage(rm.bls)
 }
 
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
@@ -470,11 +494,11 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
-		l.BuildRelayMessage(bls)
+		return l.BuildRelayMessage(bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
 	case BMVRevertInvalidBlockWitnessOld:
-		l.updateBlockProof(rr.Id)
+		return l.updateBlockProof(rr.Id)
 	default:
 		l.l.Panicf("fail to GetResult RelayMessage ID:%v ErrorCoder:%+v",
 			rr.Id, rr.Err)
-- 
2.43.0


From fddbf1869e708e60b15d00d97fff19e865614d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 04/85] fix: link serializes its sender and receiver sides

The sender and receiver goroutines shared the size limit, the receive
statuses, the pending relay messages and the item groups without a lock.
Every pending relay message also pointed at the one live link status
instead of the status it leads to, removing a confirmed or already
verified message dropped the wrong entry (or indexed an empty list), and
getHeader spun while the receiver had no block update to give.
---
 common/link/link.go | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 39ddd4c..4da8f01 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -98,6 +98,7 @@ func NewLink(cfg *chain.Config, r Receiver, l log.Logger) types.Link {
 
 func (l *Link) Start(sender types.Sender) error {
 	l.s = sender
+	l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 	errCh := make(chan error)
 	l.senderChannel(errCh)
 
@@ -139,6 +140,7 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 					errCh <- errors.New("receiver is stopped")
 					return
 				}
+				l.rmsMtx.Lock()
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
@@ -146,6 +148,7 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 					l.rss = append(l.rss, rs)
 					err = l.BuildRelayMessage(bls)
 				}
+				l.rmsMtx.Unlock()
 				if err != nil {
 					errCh <- err
 					return
@@ -157,7 +160,6 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 
 func (l *Link) senderChannel(errCh chan error) {
 	go func() {
-		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
 		if err != nil {
 			errCh <- err
@@ -176,8 +178,10 @@ func (l *Link) senderChannel(errCh chan error) {
 					err := l.result(t)
 					errCh <- err
 				case *types.BMCLinkStatus:
+					l.rmsMtx.Lock()
 					l.clearRelayMessage(t)
 					l.clearReceiveStatus(t)
+					l.rmsMtx.Unlock()
 				default:
 					//TODO exception
 				}
@@ -188,20 +192,14 @@ func (l *Link) senderChannel(errCh chan error) {
 }
 
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
-	for i, rm := range l.rms {
-		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {
-			l.rms = l.rms[i+1:]
-			break
-		}
+	for len(l.rms) > 0 && l.rms[0].bls.Verifier.Height <= bls.Verifier.Height && l.rms[0].bls.RxSeq <= bls.RxSeq {
+		l.rms = l.rms[1:]
 	}
 }
 
 func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
-	for i, rs := range l.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			l.rss = l.rss[i+1:]
-			break
-		}
+	for len(l.rss) > 0 && l.rss[0].Height() <= bls.Verifier.Height && l.rss[0].Seq() <= bls.RxSeq {
+		l.rss = l.rss[1:]
 	}
 }
 
@@ -258,15 +256,7 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 }
 
 func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
-	for {
-		bus, err := l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
-		if err != nil {
-			return nil, err
-		}
-		if len(bus) != 0 {
-			return bus, nil
-		}
-	}
+	return l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
 }
 
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
@@ -408,9 +398,10 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 			continue
 		}
 
+		status := *bls
 		rm := &relayMessage{
 			id:       rand.Int(),
-			bls:      bls,
+			bls:      &status,
 			bpHeight: l.r.GetHeightForSeq(bls.RxSeq),
 			message:  m,
 			rmis:     rmi,
@@ -427,17 +418,14 @@ func (l *Link) removeRelayMessage(id int) {
 	l.mtx.Lock()
 	defer l.mtx.Unlock()
 
-	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
-			index = i
+			l.l.Debugf("remove relay message h:%d seq:%d", rm.BMCLinkStatus().Verifier.Height,
+				rm.BMCLinkStatus().RxSeq)
+			l.rms = l.rms[i+1:]
+			return
 		}
 	}
-
-	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
-		l.rms[index].BMCLinkStatus().RxSeq)
-	l.rms = l.rms[index:]
-
 }
 
 func (l *Link) updateBlockProof(id int) error {
-- 
2.43.0


From d089092b8dc1a9271edb9e46f214044c4f97898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:13 +0000
Subject: [PATCH 05/85] fix: link relays a block update only once its block was
 notified

A receiver records a block before the link takes its notification, so a
block update could be relayed without the messages of its block and then
relayed a second time.
---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 4da8f01..f65359a 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -216,6 +216,10 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 
 	if len(bus) != 0 {
 		for _, bu := range bus {
+			if l.searchReceiveStatusForHeight(bu.TargetHeight()) == nil {
+				//not notified yet, it will be built again with its messages
+				break
+			}
 			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
 			l.rmi.size += bu.Len()
 			err := bu.UpdateBMCLinkStatus(bls)
-- 
2.43.0


From 36a02ab035a890d520daf2705515ae604399dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:27 +0000
Subject: [PATCH 06/85] fix: relay several blocks and split blocks without
 losing messages

A block update also carried the message sequence that was current when it
was built, so the second block of a batch moved the link status back over
messages already relayed; receivers dropped only one finished block per
batch and offered the others again; and a message proof that ends before
its block does was followed by another one in the same relay message.
---
 chain/ethbr/message.go       | 5 +++++
 chain/ethbr/receiver.go      | 7 ++-----
 chain/icon/bridge/bridge.go  | 7 ++-----
 chain/icon/bridge/message.go | 5 +++++
 chain/icon/btp2/btp2.go      | 7 ++-----
 chain/icon/btp2/message.go   | 5 +++++
 common/link/link.go          | 6 ++++++
 7 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..27bd14b 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -48,6 +48,11 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.targetHeight
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..aa26d8f 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -179,11 +179,8 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 }
 
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
-	for i, rs := range e.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			e.rss = e.rss[i+1:]
-			return
-		}
+	for len(e.rss) > 0 && e.rss[0].Height() <= bls.Verifier.Height && e.rss[0].Seq() <= bls.RxSeq {
+		e.rss = e.rss[1:]
 	}
 }
 
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..633dc36 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -262,11 +262,8 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 }
 
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
diff --git a/chain/icon/bridge/message.go b/chain/icon/bridge/message.go
index b277918..7fd78bb 100644
--- a/chain/icon/bridge/message.go
+++ b/chain/icon/bridge/message.go
@@ -67,6 +67,11 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.targetHeight
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..1472faf 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -243,11 +243,8 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 }
 
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
diff --git a/chain/icon/btp2/message.go b/chain/icon/btp2/message.go
index fbda82f..518676d 100644
--- a/chain/icon/btp2/message.go
+++ b/chain/icon/btp2/message.go
@@ -60,6 +60,11 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.targetHeight
+	return nil
+}
+
 func NewBlockUpdate(bs *types.BMCLinkStatus, targetHeight int64, v interface{}) *blockUpdate {
 	nextBls := &types.BMCLinkStatus{}
 	nextBls.Verifier.Height = targetHeight
diff --git a/common/link/link.go b/common/link/link.go
index f65359a..c85dcfb 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -343,6 +343,12 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		if bls.RxSeq == rxSeq {
 			return errors.Errorf("no message proof for seq:%d height:%d", rxSeq+1, bls.Verifier.Height)
 		}
+		if bls.RxSeq < rs.Seq() {
+			//rest of the block does not fit in this relay message
+			if err := l.sendRelayMessage(bls); err != nil {
+				return err
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 2ba1d37d259ac8505edffe794148e4e8d85bccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:01 +0000
Subject: [PATCH 07/85] fix: btp2 message proofs cover the messages they
 account for

When a block is split by the size limit, the sequence after the second and
later parts was computed from the current sequence plus the index in the
whole block, skipping messages of the following blocks; and each part took
the first message that no longer fits.
---
 chain/icon/btp2/btp2.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 1472faf..a9b6d0c 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -199,26 +199,24 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	if (bls.RxSeq - rs.seq) == 0 {
 		return nil, nil
 	}
-	if messageCnt > 0 {
-		for i := offset + 1; i < messageCnt; i++ {
-			p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(i))
-			if err != nil {
-				return nil, err
-			}
 
-			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
-				return mp, nil
-			}
+	//the most messages within the limit, at least one
+	var last *mbt.MerkleBinaryTreeProof
+	end := offset + 1
+	for ; end <= messageCnt; end++ {
+		p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(end))
+		if err != nil {
+			return nil, err
 		}
+		if last != nil && limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
+			break
+		}
+		last = p
 	}
-
-	p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(messageCnt))
-	if err != nil {
-		return nil, err
+	if last == nil {
+		return nil, nil
 	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
-	return mp, nil
+	return NewMessageProof(bls, rs.Seq()-messageCnt+end-1, *last), nil
 }
 
 func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
-- 
2.43.0


From 32e8cb904e42848764677c50976baa8d63f76d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:19 +0000
Subject: [PATCH 08/85] fix: bridge receiver handles blocks with several
 messages

A block was recorded under the sequence of its first message and looked up
by exact sequence, so a block with n messages lost n-1 of them.  Event size
was the size of a pointer, and an event over the limit made an empty proof.
---
 chain/icon/bridge/bridge.go | 14 ++++++--------
 chain/icon/btp2/btp2.go     |  2 +-
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 633dc36..8df1d37 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,7 +3,6 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
-	"unsafe"
 
 	"github.com/gorilla/websocket"
 
@@ -46,7 +45,6 @@ type bridge struct {
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -66,7 +64,7 @@ func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.B
 
 	return &receiveStatus{
 		height: height,
-		seq:    seq,
+		seq:    sn - 1,
 		rp:     rp,
 	}, nil
 }
@@ -159,15 +157,15 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 
 	for i := offset; i < int64(messageCnt); i++ {
 		size := sizeOfEvent(rs.ReceiptProof().Events[i])
-		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+		if limit < int64(rmSize+size) && rmSize > 0 {
+			return NewMessageProof(bls, bls.RxSeq+i-offset, trp)
 		}
 		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
 		rmSize += size
 	}
 
 	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
+	return NewMessageProof(bls, rs.Seq(), trp)
 
 }
 
@@ -269,7 +267,7 @@ func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
 	}
@@ -288,7 +286,7 @@ func (b *bridge) setStartHeight() error {
 }
 
 func sizeOfEvent(rp *Event) int {
-	return int(unsafe.Sizeof(rp))
+	return len(codec.RLP.MustMarshalToBytes(rp))
 }
 
 func messageToEvent(next types.BtpAddress, msg string, seq int64) (*Event, error) {
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index a9b6d0c..71739e6 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -310,7 +310,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(rs.MerkleBinaryTree().Len()) {
 			return rs
 		}
 	}
-- 
2.43.0


From d5b2ed0a09d2570ac16c80d51ce591e92fc60f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:41 +0000
Subject: [PATCH 09/85] fix: ethbr receiver handles blocks with several events

A block was looked up by the exact sequence of its last event (and the
missing entry dereferenced), its receipts were indexed with event counts,
and event size was the size of a pointer.
---
 chain/ethbr/receiver.go | 65 +++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index aa26d8f..d7193c5 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"math/big"
 	"sort"
-	"unsafe"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -109,50 +108,36 @@ func (e *ethbr) BuildBlockProof(bls *btpTypes.BMCLinkStatus, height int64) (link
 
 func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (link.MessageProof, error) {
 	var rmSize int
-	var seq int
+	seq := bls.RxSeq
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
-	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
-	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
-			trp := &client.ReceiptProof{
-				Index:  rs.rps[i].Index,
-				Events: make([]*client.Event, 0),
-				Height: rs.rps[i].Height,
-			}
-			rps = append(rps, trp)
-
-			for _, e := range rs.rps[i].Events {
-				size := sizeOfEvent(e)
-
-				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
-				}
-				trp.Events = append(trp.Events, e)
-				seq += 1
-				rmSize += size
-			}
+	for _, rp := range rs.rps {
+		trp := &client.ReceiptProof{
+			Index:  rp.Index,
+			Events: make([]*client.Event, 0),
+			Height: rp.Height,
+		}
+		rps = append(rps, trp)
 
-			//last event
-			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
+		for _, evt := range rp.Events {
+			if evt.Sequence.Int64() <= bls.RxSeq {
+				continue
 			}
-
-			//remove last receipt if empty
-			if len(trp.Events) == 0 {
-				rps = rps[:len(rps)-1]
+			size := sizeOfEvent(evt)
+			if (int(limit) < rmSize+size) && rmSize > 0 {
+				return NewMessageProof(bls, seq, rps)
 			}
+			trp.Events = append(trp.Events, evt)
+			seq = evt.Sequence.Int64()
+			rmSize += size
 		}
-
-		return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
 	}
-	return nil, nil
+	return NewMessageProof(bls, seq, rps)
 }
 
 func (e *ethbr) GetHeightForSeq(seq int64) int64 {
@@ -211,11 +196,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
@@ -298,7 +283,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range e.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq >= rs.rps[0].Events[0].Sequence.Int64() {
 			return rs
 		}
 	}
@@ -352,5 +337,9 @@ func logToEvent(el *types.Log) (*client.Event, error) {
 }
 
 func sizeOfEvent(rp *client.Event) int {
-	return int(unsafe.Sizeof(rp))
+	b, err := rlp.EncodeToBytes(rp)
+	if err != nil {
+		return 0
+	}
+	return len(b)
 }
-- 
2.43.0


From 8c2154de74e818dfbd4638756be6d4f2314843c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:13 +0000
Subject: [PATCH 10/85] fix: receivers guard the receive statuses shared with
 the link

The monitoring goroutine appended to the list while the link goroutine
read and trimmed it, and kept reading the link status that the link
updates.
---
 chain/ethbr/receiver.go     | 34 ++++++++++++++++++++++++++++------
 chain/icon/bridge/bridge.go | 32 +++++++++++++++++++++++++++-----
 chain/icon/btp2/btp2.go     | 34 ++++++++++++++++++++++++++++------
 3 files changed, 83 insertions(+), 17 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index d7193c5..62e79b9 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math/big"
 	"sort"
+	"sync"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -60,6 +61,7 @@ type ethbr struct {
 	nid         int64
 	rsc         chan link.ReceiveStatus
 	rss         []*receiveStatus
+	rssMtx      sync.RWMutex
 	seq         int64
 	startHeight int64
 }
@@ -77,8 +79,10 @@ func NewEthBridge(src, dst btpTypes.BtpAddress, endpoint string, l log.Logger) *
 }
 
 func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
+	//link updates its status while monitoring
+	status := *bs
 	go func() {
-		e.Monitoring(bs)
+		e.Monitoring(&status)
 	}()
 
 	return e.rsc, nil
@@ -89,13 +93,17 @@ func (e *ethbr) Stop() {
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
-	return e.rss[len(e.rss)-1], nil
+	rss := e.receiveStatuses()
+	if len(rss) == 0 {
+		return nil, fmt.Errorf("no receive status")
+	}
+	return rss[len(rss)-1], nil
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	e.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -163,7 +171,21 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 	return nil, nil
 }
 
+func (e *ethbr) receiveStatuses() []*receiveStatus {
+	e.rssMtx.RLock()
+	defer e.rssMtx.RUnlock()
+	return e.rss
+}
+
+func (e *ethbr) addReceiveStatus(rs *receiveStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+	e.rss = append(e.rss, rs)
+}
+
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
 	for len(e.rss) > 0 && e.rss[0].Height() <= bls.Verifier.Height && e.rss[0].Seq() <= bls.RxSeq {
 		e.rss = e.rss[1:]
 	}
@@ -233,7 +255,7 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 						return err
 					}
 
-					e.rss = append(e.rss, rs)
+					e.addReceiveStatus(rs)
 					e.l.Debugf("monitor info : Height:%d  EventCnt:%d LastSeq:%d ",
 						v.Height.Int64(), len(rps[len(rps)-1].Events), e.seq)
 
@@ -282,7 +304,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 }
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if seq <= rs.Seq() && seq >= rs.rps[0].Events[0].Sequence.Int64() {
 			return rs
 		}
@@ -291,7 +313,7 @@ func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (e *ethbr) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 8df1d37..7209e89 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,6 +3,7 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -40,6 +41,7 @@ type bridge struct {
 	nid         int64
 	rsc         chan link.ReceiveStatus
 	rss         []*receiveStatus
+	rssMtx      sync.RWMutex
 	startHeight int64
 }
 
@@ -102,8 +104,10 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 		return nil, err
 	}
 
+	//link updates its status while monitoring
+	status := *bs
 	go func() {
-		b.Monitoring(bs)
+		b.Monitoring(&status)
 	}()
 
 	return b.rsc, nil
@@ -114,7 +118,11 @@ func (b *bridge) Stop() {
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
-	return b.rss[len(b.rss)-1], nil
+	rss := b.receiveStatuses()
+	if len(rss) == 0 {
+		return nil, fmt.Errorf("no receive status")
+	}
+	return rss[len(rss)-1], nil
 }
 
 func (b *bridge) GetHeightForSeq(seq int64) int64 {
@@ -129,7 +137,7 @@ func (b *bridge) GetHeightForSeq(seq int64) int64 {
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -250,7 +258,7 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			if err != nil {
 				return err
 			}
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 
 			b.rsc <- rs
@@ -259,14 +267,28 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 	}, scb, errCb)
 }
 
+func (b *bridge) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+	return b.rss
+}
+
+func (b *bridge) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	b.rss = append(b.rss, rs)
+}
+
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
 	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
 		b.rss = b.rss[1:]
 	}
 }
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 71739e6..bde7807 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -3,6 +3,7 @@ package btp2
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -64,6 +65,7 @@ type btp2 struct {
 	nid         int64
 	rsc         chan link.ReceiveStatus
 	rss         []*receiveStatus
+	rssMtx      sync.RWMutex
 	seq         int64
 	startHeight int64
 }
@@ -134,8 +136,10 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 		return nil, err
 	}
 
+	//link updates its status while monitoring
+	status := *bs
 	go func() {
-		b.Monitoring(bs)
+		b.Monitoring(&status)
 	}()
 
 	return b.rsc, nil
@@ -146,7 +150,11 @@ func (b *btp2) Stop() {
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
-	return b.rss[len(b.rss)-1], nil
+	rss := b.receiveStatuses()
+	if len(rss) == 0 {
+		return nil, fmt.Errorf("no receive status")
+	}
+	return rss[len(rss)-1], nil
 }
 
 func (b *btp2) GetHeightForSeq(seq int64) int64 {
@@ -161,7 +169,7 @@ func (b *btp2) GetHeightForSeq(seq int64) int64 {
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
@@ -240,7 +248,21 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 	return rb, nil
 }
 
+func (b *btp2) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+	return b.rss
+}
+
+func (b *btp2) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	b.rss = append(b.rss, rs)
+}
+
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
 	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
 		b.rss = b.rss[1:]
 	}
@@ -300,7 +322,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 			b.rsc <- rs
 		}
@@ -309,7 +331,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 }
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-int64(rs.MerkleBinaryTree().Len()) {
 			return rs
 		}
@@ -318,7 +340,7 @@ func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (b *btp2) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
-- 
2.43.0


From 0b75f6264f7b775d6b4a98931f27b116600fdebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:41 +0000
Subject: [PATCH 11/85] fix: relay stops when its source can no longer be
 followed

A block whose handling failed was skipped and the following ones were
numbered as if it had no messages; a monitor that ended (connection lost,
polling given up) left the relay running and silent.  Both now close the
receiver's channel, which ends the link with an error.
---
 chain/ethbr/receiver.go     |  7 +++++--
 chain/icon/bridge/bridge.go | 10 ++++++++--
 chain/icon/btp2/btp2.go     | 10 ++++++++--
 chain/icon/client/client.go |  1 +
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 62e79b9..d6a30bc 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -62,6 +62,7 @@ type ethbr struct {
 	rsc         chan link.ReceiveStatus
 	rss         []*receiveStatus
 	rssMtx      sync.RWMutex
+	stopOnce    sync.Once
 	seq         int64
 	startHeight int64
 }
@@ -82,14 +83,16 @@ func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, er
 	//link updates its status while monitoring
 	status := *bs
 	go func() {
-		e.Monitoring(&status)
+		err := e.Monitoring(&status)
+		e.l.Errorf("monitoring is stopped err:%+v", err)
+		e.Stop()
 	}()
 
 	return e.rsc, nil
 }
 
 func (e *ethbr) Stop() {
-	close(e.rsc)
+	e.stopOnce.Do(func() { close(e.rsc) })
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 7209e89..5339c68 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -42,6 +42,7 @@ type bridge struct {
 	rsc         chan link.ReceiveStatus
 	rss         []*receiveStatus
 	rssMtx      sync.RWMutex
+	stopOnce    sync.Once
 	startHeight int64
 }
 
@@ -107,14 +108,16 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 	//link updates its status while monitoring
 	status := *bs
 	go func() {
-		b.Monitoring(&status)
+		err := b.Monitoring(&status)
+		b.l.Errorf("monitoring is stopped err:%+v", err)
+		b.Stop()
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *bridge) Stop() {
-	close(b.rsc)
+	b.stopOnce.Do(func() { close(b.rsc) })
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
@@ -303,6 +306,9 @@ func (b *bridge) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index bde7807..44ee8ef 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -66,6 +66,7 @@ type btp2 struct {
 	rsc         chan link.ReceiveStatus
 	rss         []*receiveStatus
 	rssMtx      sync.RWMutex
+	stopOnce    sync.Once
 	seq         int64
 	startHeight int64
 }
@@ -139,14 +140,16 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 	//link updates its status while monitoring
 	status := *bs
 	go func() {
-		b.Monitoring(&status)
+		err := b.Monitoring(&status)
+		b.l.Errorf("monitoring is stopped err:%+v", err)
+		b.Stop()
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *btp2) Stop() {
-	close(b.rsc)
+	b.stopOnce.Do(func() { close(b.rsc) })
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
@@ -355,6 +358,9 @@ func (b *btp2) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..65f354f 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -320,6 +320,7 @@ func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPN
 		case *BTPNotification:
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorBTP callback return err:%+v", err)
+				c.CloseMonitor(conn)
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBTP WSEvent %s %+v", conn.LocalAddr().String(), t)
-- 
2.43.0


From 203b968a96f866f20cab6d151902bfe8b249cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:43 +0000
Subject: [PATCH 12/85] fix: icon client reads its websocket connections under
 its lock

---
 chain/icon/client/client.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 65f354f..ec41018 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -403,7 +403,13 @@ func (c *Client) CloseMonitor(conn *websocket.Conn) {
 }
 
 func (c *Client) CloseAllMonitor() {
+	c.mtx.Lock()
+	conns := make([]*websocket.Conn, 0, len(c.conns))
 	for _, conn := range c.conns {
+		conns = append(conns, conn)
+	}
+	c.mtx.Unlock()
+	for _, conn := range conns {
 		c.l.Debugf("CloseAllMonitor %s", conn.LocalAddr().String())
 		c.wsClose(conn)
 	}
@@ -419,6 +425,14 @@ func (c *Client) _addWsConn(conn *websocket.Conn) {
 	c.conns[la] = conn
 }
 
+func (c *Client) _hasWsConn(conn *websocket.Conn) bool {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	_, ok := c.conns[conn.LocalAddr().String()]
+	return ok
+}
+
 func (c *Client) _removeWsConn(conn *websocket.Conn) {
 	c.mtx.Lock()
 	defer c.mtx.Unlock()
@@ -500,7 +514,7 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	for {
 		v := reflect.New(elem.Type())
 		ptr := v.Interface()
-		if _, ok := c.conns[conn.LocalAddr().String()]; !ok {
+		if !c._hasWsConn(conn) {
 			c.l.Debugf("wsReadJSONLoop c.conns[%s] is nil", conn.LocalAddr().String())
 			return nil
 		}
-- 
2.43.0


From fe4270444d013d6cec24034c1b4aa32105c4dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 13/85] fix: senders do not report a link status they could not
 read

A failed GetStatus sent a nil status, which the link dereferenced.
---
 chain/ethbr/sender.go | 6 +++++-
 chain/icon/sender.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..cb967b3 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Errorf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..1238a34 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -145,7 +145,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Errorf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
-- 
2.43.0


From c8eab7ae22f6f95bb7bffe6afacd6e1a3e0ca56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:16 +0000
Subject: [PATCH 14/85] fix: icon sender follows a transaction the node already
 has

On DuplicateTransactionError the node returns no hash, so the result was
looked up under an empty hash; the hash of the signed transaction is known.
A short system error message or a failure without details no longer
panics.
---
 chain/icon/client/client.go | 16 ++++++++++++----
 chain/icon/sender.go        |  9 ++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index ec41018..332cc68 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -146,12 +146,12 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, err := SystemErrorCode(re); err == nil {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
-								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								thp.Hash = p.TxHash
+								c.l.Debugf("DuplicateTransactionError txh:%v", thp.Hash)
 								break txLoop
 							}
 						}
@@ -529,6 +529,14 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	}
 }
 
+// SystemErrorCode returns the code in the message of a system error, "E2000:..."
+func SystemErrorCode(je *jsonrpc.Error) (int64, error) {
+	if len(je.Message) < 5 {
+		return 0, fmt.Errorf("no error code in message:%q", je.Message)
+	}
+	return strconv.ParseInt(je.Message[1:5], 0, 32)
+}
+
 func MapError(err error) error {
 	if err != nil {
 		switch re := err.(type) {
@@ -538,7 +546,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, err := SystemErrorCode(re); err == nil {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 1238a34..a871cea 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -236,10 +235,11 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, err := client.SystemErrorCode(je); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
-								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								thp.Hash = p.TxHash
+								s.l.Debugf("DuplicateTransactionError txh:%v", thp.Hash)
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
@@ -273,6 +273,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure without code, status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From 04baabf79e8aeacdaa41db7b8e60ccdad2a804b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:18 +0000
Subject: [PATCH 15/85] fix: ethbr client reports a failed send and survives a
 revert that cannot be replayed

---
 chain/ethbr/client/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..e750e07 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -119,7 +119,7 @@ func (c *Client) SendTransaction(tx *types.Transaction) error {
 
 	if err != nil {
 		c.log.Errorf("could not send tx: %v", err)
-		return nil
+		return err
 	}
 
 	return nil
@@ -349,7 +349,9 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 		Data:     tx.Data(),
 	}
 
-	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if _, err = c.ethClient.CallContract(context.Background(), msg, nil); err == nil {
+		return "", nil
+	}
 	return err.Error(), nil
 
 }
-- 
2.43.0


From 2d4955b5a4faab0f840e1b3a46d14bb4add57a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 16/85] fix: relay resumes a block whose messages are partly
 delivered

The btp2 receiver starts after the last verified block and numbered the
next messages from the current sequence, so a relay restarted between the
parts of a split block could never deliver the rest: the verifier refuses
the next block while messages remain.  The verifier status tells how many
messages its last block has; the rest is now relayed first.
---
 chain/icon/btp2/btp2.go | 35 +++++++++++++++++++++++++++++++++++
 common/link/link.go     | 37 ++++++++-----------------------------
 2 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 44ee8ef..1c1ed96 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -173,6 +173,9 @@ func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.B
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
 	for _, rs := range b.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
@@ -302,6 +305,9 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 	if bs.RxSeq != 0 {
 		b.seq = bs.RxSeq
 	}
+	if err := b.resumeLastBlock(bs); err != nil {
+		return err
+	}
 
 	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {
 		h, err := base64.StdEncoding.DecodeString(v.Header)
@@ -333,6 +339,35 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 	}, scb, errCb)
 }
 
+// resumeLastBlock provides messages of the last verified block which are not delivered yet
+func (b *btp2) resumeLastBlock(bs *types.BMCLinkStatus) error {
+	vs := &client.VerifierStatus{}
+	if _, err := codec.RLP.UnmarshalFromBytes(bs.Verifier.Extra, vs); err != nil {
+		b.l.Debugf("unknown verifier status extra:%x err:%+v", bs.Verifier.Extra, err)
+		return nil
+	}
+	last := vs.SequenceOffset + vs.FirstMessageSn + vs.MessageCount
+	if last <= bs.RxSeq {
+		return nil
+	}
+	msgs, err := b.getBtpMessage(bs.Verifier.Height)
+	if err != nil {
+		return err
+	}
+	if int64(len(msgs)) != vs.MessageCount {
+		return fmt.Errorf("mismatch message count of height:%d expected:%d actual:%d",
+			bs.Verifier.Height, vs.MessageCount, len(msgs))
+	}
+	rs, err := newReceiveStatus(bs.Verifier.Height, last, msgs)
+	if err != nil {
+		return err
+	}
+	b.seq = last
+	b.addReceiveStatus(rs)
+	b.rsc <- rs
+	return nil
+}
+
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-int64(rs.MerkleBinaryTree().Len()) {
diff --git a/common/link/link.go b/common/link/link.go
index c85dcfb..31b3faf 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -141,11 +141,11 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 					return
 				}
 				l.rmsMtx.Lock()
+				l.rss = append(l.rss, rs)
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
 				if err == nil {
-					l.rss = append(l.rss, rs)
 					err = l.BuildRelayMessage(bls)
 				}
 				l.rmsMtx.Unlock()
@@ -264,34 +264,10 @@ func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
 }
 
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
-	lastSeq := bls.RxSeq
-	for {
-		h := l.r.GetHeightForSeq(lastSeq)
-		if h == 0 {
-			break
-		}
-		if h == bls.Verifier.Height {
-			mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
-			if err != nil {
-				return err
-			}
-
-			if mp == nil {
-				break
-			}
-
-			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
-				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-				l.rmi.size += mp.Len()
-			}
-			break
-		} else if h < bls.Verifier.Height {
-			err := l.buildProof(bls, nil)
-			if err != nil {
-				return err
-			}
-		} else {
-			break
+	//rest of the last verified block
+	if h := l.r.GetHeightForSeq(bls.RxSeq + 1); h != 0 && h == bls.Verifier.Height {
+		if err := l.buildProof(bls, nil); err != nil {
+			return err
 		}
 	}
 	if l.rmi.size > 0 {
@@ -492,6 +468,9 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
+		if err = l.checkStatus(bls); err != nil {
+			return err
+		}
 		return l.BuildRelayMessage(bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
-- 
2.43.0


From 7f7765672dff6632c41256920b37105d5e43a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 17/85] fix: ethbr encodes event sequences as the verifier
 reads them

---
 chain/ethbr/message.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index 27bd14b..c26861b 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -1,8 +1,6 @@
 package ethbr
 
 import (
-	"github.com/ethereum/go-ethereum/rlp"
-
 	"github.com/icon-project/btp/chain/ethbr/client"
 	"github.com/icon-project/btp/common/codec"
 	"github.com/icon-project/btp/common/link"
@@ -94,6 +92,12 @@ func (m *MessageProof) LastSeqNum() int64 {
 	return m.lastSeq
 }
 
+type event struct {
+	Next     string
+	Sequence int64
+	Message  []byte
+}
+
 func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptProof) (*MessageProof, error) {
 	//update bls
 	nextBls := &types.BMCLinkStatus{}
@@ -115,11 +119,16 @@ func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptPro
 			continue
 		}
 		numOfEvents += len(rp.Events)
-		//if b, err = codec.RLP.MarshalToBytes(rp.Events); err != nil {
-		//	return nil, err
-		//}
-		//TODO refactoring
-		if b, err = rlp.EncodeToBytes(rp.Events); err != nil {
+		//verifier reads the sequence as two's complement
+		evts := make([]*event, 0)
+		for _, evt := range rp.Events {
+			evts = append(evts, &event{
+				Next:     evt.Next.String(),
+				Sequence: evt.Sequence.Int64(),
+				Message:  evt.Message,
+			})
+		}
+		if b, err = codec.RLP.MarshalToBytes(evts); err != nil {
 			return nil, err
 		}
 		r := &client.Receipt{
-- 
2.43.0


From ba16d5a3302f77f26dc655bfb6e8c9029c39f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:18 +0000
Subject: [PATCH 18/85] fix: senders report a relay message whose result is not
 known

---
 chain/ethbr/sender.go | 8 +++-----
 chain/icon/sender.go  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index cb967b3..cc3ac98 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -132,11 +132,9 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 	if err != nil {
 		s.l.Debugf("result fail rm id : %d ", id)
 
-		if ec, ok := errors.CoderOf(err); ok {
-			s.sc <- &btpTypes.RelayResult{
-				Id:  id,
-				Err: ec.ErrorCode(),
-			}
+		s.sc <- &btpTypes.RelayResult{
+			Id:  id,
+			Err: errors.CodeOf(err),
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index a871cea..44b654e 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -131,11 +131,9 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 	if err != nil {
 		s.l.Debugf("result fail rm id : %d ", id)
 
-		if ec, ok := errors.CoderOf(err); ok {
-			s.sc <- &types.RelayResult{
-				Id:  id,
-				Err: ec.ErrorCode(),
-			}
+		s.sc <- &types.RelayResult{
+			Id:  id,
+			Err: errors.CodeOf(err),
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
-- 
2.43.0


From 3a1ad7240f648bc08dadefa893dad9c20046f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:18 +0000
Subject: [PATCH 19/85] fix: link stops when a rejected message can not be
 relayed again

---
 common/link/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 31b3faf..b230093 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -468,6 +468,9 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
+		if n := len(l.rss); n > 0 && l.rss[n-1].Seq() > bls.RxSeq && l.r.GetHeightForSeq(bls.RxSeq+1) == 0 {
+			return errors.Errorf("no message of seq:%d to relay again", bls.RxSeq+1)
+		}
 		if err = l.checkStatus(bls); err != nil {
 			return err
 		}
-- 
2.43.0


From 5eb92dd412230ef122e4460140eedb9c80aa443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:31 +0000
Subject: [PATCH 20/85] fix: configuration decoding recognizes raw JSON by
 type, not by type name

The name of json.RawMessage differs between Go releases, and where it is
not RawMessage a key store of the configuration file was not decoded.
---
 common/cli/helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/cli/helper.go b/common/cli/helper.go
index dfc0b21..4681fb0 100644
--- a/common/cli/helper.go
+++ b/common/cli/helper.go
@@ -266,11 +266,13 @@ func StringToStringConv(val string) (map[string]interface{}, error) {
 	return out, nil
 }
 
+var rawMessageType = reflect.TypeOf(json.RawMessage(nil))
+
 func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 	c.TagName = "json"
 	c.DecodeHook = mapstructure.ComposeDecodeHookFunc(
 		func(inputValType reflect.Type, outValType reflect.Type, input interface{}) (interface{}, error) {
-			if outValType.Name() == "RawMessage" {
+			if outValType == rawMessageType {
 				if inputValType.Kind() == reflect.Map && inputValType.Key().Kind() == reflect.String {
 					return json.Marshal(input)
 				} else if inputValType.Kind() == reflect.String {
@@ -282,7 +284,7 @@ func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 				}
 			} else if inputValType.Kind() == reflect.String && outValType.Kind() == reflect.Map {
 				m, err := StringToStringConv(input.(string))
-				if outValType.Key().Kind() == reflect.String && outValType.Elem().Name() == "RawMessage" {
+				if outValType.Key().Kind() == reflect.String && outValType.Elem() == rawMessageType {
 					m2 := make(map[string]json.RawMessage)
 					for k, v := range m {
 						if s, ok := v.(string); ok {
-- 
2.43.0


From a24eb639bc99a3ba8173bf1df9c6641b0809bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:25 +0000
Subject: [PATCH 21/85] fix: link relays the rest of a block that another relay
 verified partly

---
 common/link/link.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index b230093..c61fc83 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -456,6 +456,21 @@ func (l *Link) createRelayMessageItem() {
 	l.rmi.size = 0
 }
 
+//relayAgain relays from the status of the destination
+func (l *Link) relayAgain() error {
+	bls, err := l.s.GetStatus()
+	if err != nil {
+		return err
+	}
+	if n := len(l.rss); n > 0 && l.rss[n-1].Seq() > bls.RxSeq && l.r.GetHeightForSeq(bls.RxSeq+1) == 0 {
+		return errors.Errorf("no message of seq:%d to relay again", bls.RxSeq+1)
+	}
+	if err = l.checkStatus(bls); err != nil {
+		return err
+	}
+	return l.BuildRelayMessage(bls)
+}
+
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
 	defer l.rmsMtx.Unlock()
@@ -464,19 +479,13 @@ func (l *Link) result(rr *types.RelayResult) error {
 	case BMVUnknown:
 		l.l.Panicf("BMVUnknown Revert : ErrorCoder:%+v", rr.Err)
 	case BMVNotVerifiable:
-		bls, err := l.s.GetStatus()
-		if err != nil {
-			return err
-		}
-		if n := len(l.rss); n > 0 && l.rss[n-1].Seq() > bls.RxSeq && l.r.GetHeightForSeq(bls.RxSeq+1) == 0 {
-			return errors.Errorf("no message of seq:%d to relay again", bls.RxSeq+1)
-		}
-		if err = l.checkStatus(bls); err != nil {
-			return err
-		}
-		return l.BuildRelayMessage(bls)
+		return l.relayAgain()
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
+		if len(l.rms) == 0 {
+			//the block may have been verified without all of its messages
+			return l.relayAgain()
+		}
 	case BMVRevertInvalidBlockWitnessOld:
 		return l.updateBlockProof(rr.Id)
 	default:
-- 
2.43.0


From 9a853fa88561b64cae42f24737fbbf8a1a658a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:09 +0000
Subject: [PATCH 22/85] fix: ethbr client limits the time to set up the head
 subscription

The request is never answered when the connection is replaced meanwhile,
and the relay waited for it for good.
---
 chain/ethbr/client/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index e750e07..9f646a9 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -292,7 +292,10 @@ func (c *Client) Monitor(cb func(bh *types.Header) error) error {
 		err error
 		ch  = make(chan *types.Header)
 	)
-	if s, err = c.ethClient.SubscribeNewHead(context.Background(), ch); err != nil {
+	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)
+	s, err = c.ethClient.SubscribeNewHead(ctx, ch)
+	cancel()
+	if err != nil {
 		if rpc.ErrNotificationsUnsupported == err {
 			c.log.Infoln("%v, try polling", err)
 			return c.Poll(cb)
-- 
2.43.0


From 90c1eb8c54393ad0b27dad0893e2f18b46560c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 23/85] fix: jsonrpc client survives responses without a result
 or an error

---
 common/jsonrpc/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..0cd87a7 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,6 +93,10 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("no response in response body, jsonrpcResp:%+v", resp)
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
-- 
2.43.0


From 928a9604b8a8da4ffc872c133889bb076c3b8d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:41 +0000
Subject: [PATCH 24/85] fix: clients report malformed hex values instead of
 crashing

---
 chain/ethbr/client/type.go | 6 ++++++
 chain/icon/client/type.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/chain/ethbr/client/type.go b/chain/ethbr/client/type.go
index b5dc8b9..c440009 100644
--- a/chain/ethbr/client/type.go
+++ b/chain/ethbr/client/type.go
@@ -302,6 +302,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if len(hs) < 2 {
+		return nil, fmt.Errorf("invalid hex bytes %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 
@@ -330,6 +333,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index d260e31..4053589 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -294,6 +294,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if len(hs) < 2 {
+		return nil, fmt.Errorf("invalid hex bytes %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 func NewHexBytes(b []byte) HexBytes {
@@ -327,6 +330,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
-- 
2.43.0


From 074cadf0ac738d69c8160b93a89c1f7dd72ac352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:47 +0000
Subject: [PATCH 25/85] fix: rlp decoder refuses data cut short and lengths
 beyond the data

---
 common/codec/rlp.go | 65 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 8392c46..cd654bf 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -20,6 +20,24 @@ type rlpReader struct {
 	reader io.Reader
 }
 
+// listReader reads the given number of bytes. It reports io.EOF only after
+// all of them were read, so a list cut short isn't taken as a shorter list.
+type listReader struct {
+	io.LimitedReader
+}
+
+func newListReader(r io.Reader, size int) *listReader {
+	return &listReader{io.LimitedReader{R: r, N: int64(size)}}
+}
+
+func (r *listReader) Read(p []byte) (int, error) {
+	n, err := r.LimitedReader.Read(p)
+	if err == io.EOF && r.N > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 func sizeToBytes(s int) []byte {
 	return intconv.SizeToBytes(uint64(s))
 }
@@ -42,7 +60,34 @@ func (r *rlpReader) readSize(buffer []byte) (int, error) {
 	if err := r.readAll(buffer); err != nil {
 		return 0, err
 	}
-	return bytesToSize(buffer), nil
+	size := bytesToSize(buffer)
+	if size < 0 {
+		return 0, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(size=%x)", buffer)
+	}
+	return size, nil
+}
+
+// readN appends given number of bytes to org. It doesn't allocate memory for
+// the bytes which are not available.
+func (r *rlpReader) readN(org []byte, size int) ([]byte, error) {
+	const chunk = 64 * 1024
+	if size <= chunk {
+		buffer := make([]byte, len(org)+size)
+		copy(buffer, org)
+		if err := r.readAll(buffer[len(org):]); err != nil {
+			return nil, err
+		}
+		return buffer, nil
+	}
+	buffer := bytes.NewBuffer(nil)
+	buffer.Write(org)
+	if _, err := io.CopyN(buffer, r.reader, int64(size)); err != nil {
+		if err == io.EOF {
+			return nil, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", size, err)
+		}
+		return nil, cerrors.WithStack(err)
+	}
+	return buffer.Bytes(), nil
 }
 
 func (r *rlpReader) readAll(buffer []byte) error {
@@ -108,7 +153,7 @@ func (r *rlpReader) readList() (Reader, error) {
 	case tag <= 0xF7:
 		size := tag - 0xC0
 		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(size)),
+			reader: newListReader(r.reader, size),
 		}, nil
 	default:
 		sz := tag - 0xF7
@@ -120,7 +165,7 @@ func (r *rlpReader) readList() (Reader, error) {
 			return nil, ErrNilValue
 		}
 		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(sz2)),
+			reader: newListReader(r.reader, sz2),
 		}, nil
 	}
 }
@@ -155,12 +200,7 @@ func (r *rlpReader) readBytes() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buffer := make([]byte, sz2)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readN(nil, sz2)
 	case tag == 0xF8:
 		if sz2, err := r.readSize(header[1:2]); err != nil {
 			return nil, err
@@ -219,12 +259,7 @@ func (r *rlpReader) ReadBytes() ([]byte, error) {
 }
 
 func (r *rlpReader) readMore(org []byte, size int) ([]byte, error) {
-	buffer := make([]byte, len(org)+size)
-	copy(buffer, org)
-	if err := r.readAll(buffer[len(org):]); err != nil {
-		return nil, err
-	}
-	return buffer, nil
+	return r.readN(org, size)
 }
 
 func (r *rlpReader) ReadRaw() ([]byte, error) {
-- 
2.43.0


From fa1338154d015fcef845102e5d5df086038320d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:47 +0000
Subject: [PATCH 26/85] fix: rlp decoder refuses numbers that do not fit

---
 common/codec/rlp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index cd654bf..99f1bb9 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"io"
 	"io/ioutil"
+	"math/big"
 	"reflect"
 
 	cerrors "github.com/icon-project/btp/common/errors"
@@ -229,14 +230,22 @@ func (r *rlpReader) ReadValue(v reflect.Value) error {
 		if err != nil {
 			return err
 		}
-		v.SetUint(intconv.BytesToUint64(bs))
+		var bi big.Int
+		if intconv.BigIntSetBytes(&bi, bs); !bi.IsUint64() || v.OverflowUint(bi.Uint64()) {
+			return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(overflow=%#x,type=%s)", bs, v.Type())
+		}
+		v.SetUint(bi.Uint64())
 		return nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		bs, err := r.readBytes()
 		if err != nil {
 			return err
 		}
-		v.SetInt(intconv.BytesToInt64(bs))
+		var bi big.Int
+		if intconv.BigIntSetBytes(&bi, bs); !bi.IsInt64() || v.OverflowInt(bi.Int64()) {
+			return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(overflow=%#x,type=%s)", bs, v.Type())
+		}
+		v.SetInt(bi.Int64())
 		return nil
 	case reflect.String:
 		bs, err := r.readBytes()
-- 
2.43.0


From 142407c48b09448d0333724c7c5e87b67d213bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:47 +0000
Subject: [PATCH 27/85] fix: address refuses empty bytes and keeps nothing of
 its former value

---
 common/address.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/address.go b/common/address.go
index 7ced1c8..6cd1f87 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) == 0 {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
@@ -98,7 +98,8 @@ func (a *Address) SetTypeAndID(ic bool, id []byte) error {
 	}
 	switch {
 	case len(id) < AddressIDBytes:
-		copy(a[AddressIDBytes-len(id)+1:], id)
+		n := copy(a[1:], make([]byte, AddressIDBytes-len(id)))
+		copy(a[1+n:], id)
 	default:
 		copy(a[1:], id)
 	}
-- 
2.43.0


From fbff9a693e73216cacd9469286686f34da9f63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:11 +0000
Subject: [PATCH 28/85] fix: merkle binary tree grown by Add has the same root
 as one built at once

---
 common/mbt/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mbt/tree.go b/common/mbt/tree.go
index 6cda2e1..d67512e 100644
--- a/common/mbt/tree.go
+++ b/common/mbt/tree.go
@@ -82,7 +82,7 @@ func (n *node) add(h []byte) *node {
 		n.h = h
 		n.numOfLeaf = 1
 	} else {
-		if n.l != nil && n.l.level != n.r.level {
+		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
 			n.r = n.r.add(h)
 			n.numOfLeaf++
 			n.h = n.hashFunc(n.l.h, n.r.h)
-- 
2.43.0


From c9a06ccb77e375e62870de27a2908cf79adf78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:11 +0000
Subject: [PATCH 29/85] fix: accumulator verifies newer witnesses over its own
 roots and refuses those of another shape

---
 common/mta/accumulator.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..c7420f9 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -347,7 +347,7 @@ func (a *Accumulator) AddData(d []byte) []Witness {
 }
 
 func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
@@ -414,12 +414,18 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	if height >= a.length {
 		return errors.IllegalArgumentError.New("InvalidWitness newer node")
 	}
+	if height < 0 {
+		return errors.IllegalArgumentError.New("InvalidWitness longer than the accumulator")
+	}
 	if a.length > accLength {
 		// acc: new, wit: old
 		nws, err := a.WitnessFor(height)
 		if err != nil {
 			return err
 		}
+		if len(ws) > len(nws) {
+			return errors.IllegalArgumentError.New("InvalidWitness longer than the accumulator")
+		}
 		for i, w := range ws {
 			nws[i] = w
 		}
@@ -427,7 +433,10 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	} else {
 		// acc: old, wit: new
 		depth := 0
-		for i := len(a.roots) - 1; i > 0; i-- {
+		for i := len(a.roots) - 1; i >= 0; i-- {
+			if a.roots[i] == nil {
+				continue
+			}
 			bitFlag := int64(1) << uint(i)
 			if height < bitFlag {
 				depth = i
@@ -435,12 +444,15 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 			}
 			height -= bitFlag
 		}
+		if depth > len(ws) {
+			return errors.IllegalArgumentError.New("InvalidWitness shorter than required")
+		}
 		return a.Verify(ws[:depth], h)
 	}
 }
 
 func (a *Accumulator) GetNode(idx int64) (Node, error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
-- 
2.43.0


From c06983a3aa01f775de8870b07733bf844bd129a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:11 +0000
Subject: [PATCH 30/85] fix: trie proof refuses empty headers and proofs that
 end before a leaf

---
 common/mpt/mpt.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 635d91f..f1604f0 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -39,6 +39,9 @@ func (n *MptNode) RLPDecodeSelf(d codec.Decoder) error {
 	}
 	switch len(bl) {
 	case 2:
+		if len(bl[0]) == 0 {
+			return fmt.Errorf("invalid header")
+		}
 		n.Header = &MptHeader{bl[0][0], bl[0][1:]}
 		if n.Header.IsLeaf() {
 			n.Data = bl[1]
@@ -68,6 +71,9 @@ func (mp *MptProof) Leaf() *MptNode {
 }
 
 func NewMptProof(bl [][]byte) (*MptProof, error) {
+	if len(bl) == 0 {
+		return nil, fmt.Errorf("empty proof")
+	}
 	mp := &MptProof{
 		Nodes:  make([]MptNode, len(bl)),
 		Hashes: make([][]byte, len(bl)),
@@ -84,6 +90,9 @@ Loop:
 		mn := mp.Nodes[i]
 		if mn.Header != nil {
 			if !mn.Header.IsLeaf() {
+				if i+1 == len(bl) {
+					return nil, fmt.Errorf("invalid link[%d], no more node", i)
+				}
 				ml := mn.Link[0]
 				if !bytes.Equal(ml.Hash, mp.Hashes[i+1]) {
 					return nil, fmt.Errorf("invalid link[%d] hash[%d]", i, i+1)
@@ -91,6 +100,9 @@ Loop:
 				ml.ptr = &mp.Nodes[i+1]
 			}
 		} else {
+			if i+1 == len(bl) {
+				return nil, fmt.Errorf("invalid branch[%d], no more node", i)
+			}
 			for _, ml := range mn.Link {
 				if len(ml.Hash) > 0 && bytes.Equal(ml.Hash, mp.Hashes[i+1]) {
 					ml.ptr = &mp.Nodes[i+1]
-- 
2.43.0


From 9052bfdb6c45a260afd81a333d13ce2371aaff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:53 +0000
Subject: [PATCH 31/85] fix: icon client closes a monitor from several
 goroutines without a crash

---
 chain/icon/client/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 332cc68..0c7d936 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -41,6 +41,7 @@ import (
 const (
 	DefaultSendTransactionRetryInterval        = 3 * time.Second         //3sec
 	DefaultGetTransactionResultPollingInterval = 1500 * time.Millisecond //1.5sec
+	DefaultWSCloseTimeout                      = time.Second
 )
 
 type Wallet interface {
@@ -490,8 +491,10 @@ func (c *Client) wsRequest(conn *websocket.Conn, reqPtr interface{}) error {
 
 func (c *Client) wsClose(conn *websocket.Conn) {
 	c._removeWsConn(conn)
-	if err := conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "")); err != nil {
-		c.l.Debugf("fail to WriteMessage CloseNormalClosure err:%+v", err)
+	//a connection can be closed by several goroutines, only control messages can be written concurrently
+	if err := conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""),
+		time.Now().Add(DefaultWSCloseTimeout)); err != nil {
+		c.l.Debugf("fail to WriteControl CloseNormalClosure err:%+v", err)
 	}
 	if err := conn.Close(); err != nil {
 		c.l.Debugf("fail to Close err:%+v", err)
-- 
2.43.0


From 02eb5d3633a3f47fb33341b9bd18ce17ae9f0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:53 +0000
Subject: [PATCH 32/85] fix: icon client does not report the start of event
 monitoring as an error

---
 chain/icon/client/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 0c7d936..ffbd0ce 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -371,6 +371,8 @@ func (c *Client) MonitorEvent(p *EventRequest, cb func(conn *websocket.Conn, v *
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorEvent callback return err:%+v", err)
 			}
+		case WSEvent:
+			c.l.Debugf("MonitorEvent WSEvent %s %+v", conn.LocalAddr().String(), t)
 		case error:
 			errCb(conn, t)
 		default:
-- 
2.43.0


From 0435e10cc53ebe3617d8549a443f6e152aae096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:56 +0000
Subject: [PATCH 33/85] fix: badger bucket tells an empty value from a missing
 one and reports read errors

---
 common/db/badger_db.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..b99c8d1 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,8 +74,9 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
 		}
-		value, err = item.ValueCopy(nil)
+		value, err = item.ValueCopy([]byte{})
 		return err
 	})
 	return value, err
-- 
2.43.0


From 7f5fd179c86f0fe91e2ba25b471c9029ac61b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:38 +0000
Subject: [PATCH 34/85] fix: signature in the [V|R|S] form is parsed instead of
 crashing

---
 common/crypto/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 09e91ed..67ac376 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -71,7 +71,8 @@ func ParseSignatureVRS(sig []byte) (*Signature, error) {
 	var s Signature
 	s.bytes = append(s.bytes, sig[1:33]...)
 	s.bytes = append(s.bytes, sig[33:]...)
-	s.bytes[64] = sig[0]
+	s.bytes = append(s.bytes, sig[0])
+	s.hasV = true
 	return &s, nil
 }
 
-- 
2.43.0


From 72f7a3bbddf5074a45d56b255e63a4660c671ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:38 +0000
Subject: [PATCH 35/85] fix: private key outside the group is refused instead
 of crashing at its first use

---
 common/crypto/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 3a447f3..5fb9a1a 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -133,6 +133,9 @@ func ParsePrivateKey(b []byte) (*PrivateKey, error) {
 	if len(b) != PrivateKeyLen {
 		return nil, errors.New("InvalidKeyLength")
 	}
+	if secp256k1.VerifySeckey(b) != 1 {
+		return nil, errors.New("InvalidKey")
+	}
 	b2 := make([]byte, len(b))
 	copy(b2, b)
 	return &PrivateKey{b2}, nil
-- 
2.43.0


From 530a20109dd71709789fd0ffc91c14f24056f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:56 +0000
Subject: [PATCH 36/85] fix: ethbr sender gives up on requests whose answer was
 lost with the connection

---
 chain/ethbr/client/client.go | 10 +++++++---
 chain/ethbr/sender.go        | 10 +++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index 9f646a9..6607b13 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -96,7 +96,9 @@ func (c *Client) NewTransactOpts(k *ecdsa.PrivateKey) (*bind.TransactOpts, error
 	if err != nil {
 		return nil, err
 	}
-	txo.GasPrice, _ = c.ethClient.SuggestGasPrice(context.Background())
+	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)
+	defer cancel()
+	txo.GasPrice, _ = c.ethClient.SuggestGasPrice(ctx)
 	txo.GasLimit = uint64(DefaultGasLimit)
 	return txo, nil
 }
@@ -333,7 +335,9 @@ func (c *Client) GetBackend() bind.ContractBackend {
 }
 
 func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
-	tx, _, err := c.ethClient.TransactionByHash(context.Background(), hash)
+	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)
+	defer cancel()
+	tx, _, err := c.ethClient.TransactionByHash(ctx, hash)
 	if err != nil {
 		return "", err
 	}
@@ -352,7 +356,7 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 		Data:     tx.Data(),
 	}
 
-	if _, err = c.ethClient.CallContract(context.Background(), msg, nil); err == nil {
+	if _, err = c.ethClient.CallContract(ctx, msg, nil); err == nil {
 		return "", nil
 	}
 	return err.Error(), nil
diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index cc3ac98..5bd2794 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -17,12 +17,14 @@
 package ethbr
 
 import (
+	"context"
 	"encoding/json"
 	"math"
 	"strconv"
 	"strings"
 	"time"
 
+	"github.com/ethereum/go-ethereum/accounts/abi/bind"
 	"github.com/ethereum/go-ethereum/core/types"
 
 	btpTypes "github.com/icon-project/btp/common/types"
@@ -89,8 +91,10 @@ func (s *sender) Stop() {
 	close(s.sc)
 }
 func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
+	ctx, cancel := context.WithTimeout(context.Background(), client.DefaultTimeout)
+	defer cancel()
 	var status binding.TypesLinkStats
-	status, err := s.bmc.GetStatus(nil, s.src.String())
+	status, err := s.bmc.GetStatus(&bind.CallOpts{Context: ctx}, s.src.String())
 	if err != nil {
 		s.l.Errorf("Error retrieving relay status from BMC")
 		return nil, err
@@ -190,6 +194,10 @@ func (s *sender) _relay(rm btpTypes.RelayMessage) (*client.TransactionHashParam,
 		return nil, err
 	}
 
+	ctx, cancel := context.WithTimeout(context.Background(), client.DefaultTimeout)
+	defer cancel()
+	t.Context = ctx
+
 	var tx *types.Transaction
 
 	tx, err = s.bmc.HandleRelayMessage(t, s.src.String(), rm.Bytes()[:])
-- 
2.43.0


From 303a9abc3c8b4bb3dda99e2c7f9af73cce6ecbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:23 +0000
Subject: [PATCH 37/85] fix: public key that is no point of the curve is
 refused instead of crashing at its use

---
 common/crypto/key.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 5fb9a1a..7e0fcb6 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -73,14 +73,27 @@ func ParsePublicKey(pubKey []byte) (*PublicKey, error) {
 	case 0:
 		return nil, errors.New("public key bytes are empty")
 	case PublicKeyLenCompressed:
+		if !isValidPublicKey(pubKey) {
+			return nil, errors.New("invalid public key")
+		}
 		return &PublicKey{pubKey}, nil
 	case PublicKeyLenUncompressed:
-		return &PublicKey{uncompToCompPublicKey(pubKey)}, nil
+		pk := &PublicKey{uncompToCompPublicKey(pubKey)}
+		if !isValidPublicKey(pk.bytes) || !bytes.Equal(pk.SerializeUncompressed(), pubKey) {
+			return nil, errors.New("invalid public key")
+		}
+		return pk, nil
 	default:
 		return nil, errors.New("wrong format")
 	}
 }
 
+// isValidPublicKey returns whether the compressed formatted public key is
+// a point of the curve.
+func isValidPublicKey(comp []byte) bool {
+	return comp[0]&^0x1 == publicKeyCompressed && secp256k1.VerifyPubkey(comp) == 1
+}
+
 // uncompToCompPublicKey changes the uncompressed formatted public key to
 // the compressed formatted. It assumes the uncompressed key is valid.
 func uncompToCompPublicKey(uncomp []byte) (comp []byte) {
-- 
2.43.0


From 7813e1df5d19570019f0a9bf29439187e55601db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:47 +0000
Subject: [PATCH 38/85] fix: wallet message is readable for any form of the
 recipient's key and never encrypted without a secret

---
 common/wallet/encrypted.go  | 2 +-
 common/wallet/wallet_evm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/wallet/encrypted.go b/common/wallet/encrypted.go
index 1a87ed4..ec12df4 100644
--- a/common/wallet/encrypted.go
+++ b/common/wallet/encrypted.go
@@ -76,7 +76,7 @@ func NewEncrypted(w Wallet, pubKey, b []byte) (*Encrypted, error) {
 		return nil, err
 	}
 	s.XORKeyStream(e.CipherText, b)
-	copy(e.Param[EncryptSaltSize:], w.PublicKey())
+	e.Param = append(e.Param[:EncryptSaltSize], w.PublicKey()...)
 	return e, nil
 }
 
diff --git a/common/wallet/wallet_evm.go b/common/wallet/wallet_evm.go
index 6f7a8ed..b5022c8 100644
--- a/common/wallet/wallet_evm.go
+++ b/common/wallet/wallet_evm.go
@@ -29,7 +29,7 @@ func (w *EvmWallet) PublicKey() []byte {
 
 func (w *EvmWallet) ECDH(pubKey []byte) ([]byte, error) {
 	//TODO: Not implemented yet
-	return nil, nil
+	return nil, errors.New("Not implemented yet")
 }
 
 func NewEvmWalletFromPrivateKey(sk *ecdsa.PrivateKey) (*EvmWallet, error) {
-- 
2.43.0


From 0c290526f9296f647eb68e587b4977bb66c93855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:58 +0000
Subject: [PATCH 39/85] fix: key store with unusable parameters is refused
 instead of crashing

---
 common/wallet/keystore.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..5977b99 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -23,6 +23,7 @@ const (
 	coinTypeEVM     = "evm"
 	cipherAES128CTR = "aes-128-ctr"
 	kdfScrypt       = "scrypt"
+	scryptMinKeyLen = 32
 )
 
 type AES128CTRParams struct {
@@ -51,6 +52,9 @@ func (p *ScryptParams) Init() error {
 }
 
 func (p *ScryptParams) Key(pw []byte) ([]byte, error) {
+	if p.DKLen < scryptMinKeyLen || p.R <= 0 || p.P <= 0 {
+		return nil, errors.Errorf("InvalidKDFParams(dklen=%d,r=%d,p=%d)", p.DKLen, p.R, p.P)
+	}
 	return scrypt.Key(pw, p.Salt.Bytes(), p.N, p.R, p.P, p.DKLen)
 }
 
@@ -214,6 +218,9 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if len(cipherParams.IV) != block.BlockSize() {
+		return nil, errors.Errorf("InvalidIV(len=%d)", len(cipherParams.IV))
+	}
 	secretBytes := make([]byte, len(cipheredBytes))
 
 	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())
-- 
2.43.0


From 958720d0bab38d7275467a2459bcf66b440d37ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:59 +0000
Subject: [PATCH 40/85] fix: code of an error that wraps nothing is unknown
 instead of a crash

---
 common/errors/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/errors/errors.go b/common/errors/errors.go
index a0a8369..9c77319 100644
--- a/common/errors/errors.go
+++ b/common/errors/errors.go
@@ -314,7 +314,7 @@ func AsValue(ptr interface{}, err error) bool {
 	}
 	valueType := value.Type()
 
-	for {
+	for err != nil {
 		errValue := reflect.ValueOf(err)
 		if errValue.Type().AssignableTo(valueType) {
 			value.Set(errValue)
@@ -328,4 +328,5 @@ func AsValue(ptr interface{}, err error) bool {
 			return false
 		}
 	}
+	return false
 }
-- 
2.43.0


From 9b0e31ec0f670f26c3fc98cb6f870763d8e70ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:02 +0000
Subject: [PATCH 41/85] fix: public key with a coordinate beyond the field is
 refused instead of crashing

---
 common/crypto/key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 7e0fcb6..0c99df1 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -88,10 +88,15 @@ func ParsePublicKey(pubKey []byte) (*PublicKey, error) {
 	}
 }
 
+// fieldPrime is the order of the field of the curve
+var fieldPrime, _ = hex.DecodeString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
+
 // isValidPublicKey returns whether the compressed formatted public key is
 // a point of the curve.
 func isValidPublicKey(comp []byte) bool {
-	return comp[0]&^0x1 == publicKeyCompressed && secp256k1.VerifyPubkey(comp) == 1
+	return comp[0]&^0x1 == publicKeyCompressed &&
+		bytes.Compare(comp[1:], fieldPrime) < 0 &&
+		secp256k1.VerifyPubkey(comp) == 1
 }
 
 // uncompToCompPublicKey changes the uncompressed formatted public key to
-- 
2.43.0


From a3f98d3b4a84fdebd3bbf4075b16c609825b97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 42/85] fix: saved configuration keeps the meaning of its paths
 and an unset log file stays unset

---
 cmd/relay/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 6ec705e..bffdf2a 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -227,11 +227,14 @@ func main() {
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
 			saveFilePath := args[0]
+			from := cfg.FileConfig
 			cfg.FilePath, _ = filepath.Abs(saveFilePath)
-			cfg.BaseDir = cfg.ResolveRelative(cfg.BaseDir)
+			if cfg.BaseDir != "" {
+				cfg.BaseDir = cfg.ResolveRelative(from.ResolveAbsolute(cfg.BaseDir))
+			}
 
-			if cfg.LogWriter != nil {
-				cfg.LogWriter.Filename = cfg.ResolveRelative(cfg.LogWriter.Filename)
+			if cfg.LogWriter != nil && cfg.LogWriter.Filename != "" {
+				cfg.LogWriter.Filename = cfg.ResolveRelative(from.ResolveAbsolute(cfg.LogWriter.Filename))
 			}
 
 			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, cfg); err != nil {
-- 
2.43.0


From 6af40db6102a57e14c893775c5a73ba0c2744be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 43/85] fix: save reports an unreadable source secret instead
 of using an empty password

---
 cmd/relay/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index bffdf2a..ef6be39 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -82,6 +82,9 @@ func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error)
 
 func (c *Config) EnsureWallet() error {
 	srcPw, err := c.resolvePassword(c.Src.KeySecret, c.Src.KeyStorePass)
+	if err != nil {
+		return err
+	}
 	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
 	if err != nil {
 		return err
-- 
2.43.0


From 1f059272ced389ce6b1c3350005b917d10c2d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 44/85] fix: save writes the key stores it was asked to write

---
 cmd/relay/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index ef6be39..3f1a367 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -259,7 +259,8 @@ func main() {
 		},
 	}
 	rootCmd.AddCommand(saveCmd)
-	saveCmd.Flags().String("save_key_store", "", "KeyStore File path to save")
+	saveCmd.Flags().String("save_src_key_store", "", "KeyStore File path to save for the source")
+	saveCmd.Flags().String("save_dst_key_store", "", "KeyStore File path to save for the destination")
 
 	startCmd := &cobra.Command{
 		Use:   "start",
-- 
2.43.0


From 916639cfd28fbee8df2267cf6fc9489795d230d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:05 +0000
Subject: [PATCH 45/85] fix: relaying in both directions sets up logging once,
 before its links start

---
 cmd/relay/linkfatory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index 6a3e0b9..feca3ec 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -46,6 +46,7 @@ func NewLink(cfg *Config, srcWallet wallet.Wallet, dstWallet wallet.Wallet, modL
 		}
 	case BothDirection:
 		srcLog := setLogger(cfg, srcWallet, modLevels)
+		dstLog := srcLog.WithFields(log.Fields{log.FieldKeyWallet: dstWallet.Address()[2:]})
 		srcLog.Debugln(cfg.FilePath, cfg.BaseDir)
 		if cfg.BaseDir == "" {
 			cfg.BaseDir = path.Join(".", ".btp2", cfg.Src.Address.NetworkAddress())
@@ -59,7 +60,6 @@ func NewLink(cfg *Config, srcWallet wallet.Wallet, dstWallet wallet.Wallet, modL
 			Dst: cfg.Src,
 		}
 
-		dstLog := setLogger(cfg, dstWallet, modLevels)
 		dstLog.Debugln(cfg.FilePath, cfg.BaseDir)
 		if cfg.BaseDir == "" {
 			cfg.BaseDir = path.Join(".", ".btp2", cfg.Dst.Address.NetworkAddress())
-- 
2.43.0


From 1751ee9e3f69daeeb0286bacf25c5009414dfb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:06 +0000
Subject: [PATCH 46/85] fix: module field of any type is logged instead of
 crashing

---
 common/log/filter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/log/filter.go b/common/log/filter.go
index 58aaa54..c86b2e0 100644
--- a/common/log/filter.go
+++ b/common/log/filter.go
@@ -1,6 +1,7 @@
 package log
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/sirupsen/logrus"
@@ -33,7 +34,7 @@ func (f *logFilter) Format(e *logrus.Entry) ([]byte, error) {
 			module = getPackageName(e.Caller.Function)
 		}
 	} else {
-		module = value.(string)
+		module = fmt.Sprint(value)
 	}
 
 	if len(module) > 0 {
-- 
2.43.0


From 2800668acb7dd82a93e6d8123b0cfd83c8868cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:52 +0000
Subject: [PATCH 47/85] fix: numeric options given by flags reach the sender as
 numbers instead of crashing it

---
 cmd/relay/main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 3f1a367..f7ed66d 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -161,6 +161,19 @@ func main() {
 		if err := rootVc.Unmarshal(&cfg, cli.ViperDecodeOptJson); err != nil {
 			return fmt.Errorf("fail to unmarshall config from env err=%+v", err)
 		}
+		for name, options := range map[string]*map[string]interface{}{
+			"src.options":           &cfg.Src.Options,
+			"dst.options":           &cfg.Dst.Options,
+			"log_forwarder.options": &cfg.LogForwarder.Options,
+		} {
+			if f := cmd.Flags().Lookup(name); f != nil && f.Changed {
+				m, err := cli.GetStringMap(f)
+				if err != nil {
+					return fmt.Errorf("invalid %s err=%+v", name, err)
+				}
+				*options = m
+			}
+		}
 		if baseDir != "" {
 			cfg.BaseDir = cfg.ResolveRelative(baseDir)
 		}
-- 
2.43.0


From f68928f55338302bb286b7594098bd533b6f33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 48/85] fix: msgpack decoder skips what was left unread of
 nested lists

---
 common/codec/codec.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/common/codec/codec.go b/common/codec/codec.go
index 5424cf6..01b7a55 100644
--- a/common/codec/codec.go
+++ b/common/codec/codec.go
@@ -356,7 +356,7 @@ func (e *encoderImpl) EncodeListOf(objs ...interface{}) error {
 
 type decoderImpl struct {
 	real  Reader
-	child Reader
+	child *decoderImpl
 }
 
 func (d *decoderImpl) decodeList() (*decoderImpl, error) {
@@ -364,8 +364,8 @@ func (d *decoderImpl) decodeList() (*decoderImpl, error) {
 	if err != nil {
 		return nil, err
 	}
-	d.child = reader
-	return &decoderImpl{real: reader}, nil
+	d.child = &decoderImpl{real: reader}
+	return d.child, nil
 }
 
 func (d *decoderImpl) decodeMap() (*decoderImpl, error) {
@@ -373,14 +373,17 @@ func (d *decoderImpl) decodeMap() (*decoderImpl, error) {
 	if err != nil {
 		return nil, err
 	}
-	d.child = reader
-	return &decoderImpl{real: reader}, nil
+	d.child = &decoderImpl{real: reader}
+	return d.child, nil
 }
 
 func (d *decoderImpl) flush() error {
 	if child := d.child; child != nil {
 		d.child = nil
-		return child.Close()
+		if err := child.flush(); err != nil {
+			return err
+		}
+		return child.real.Close()
 	}
 	return nil
 }
-- 
2.43.0


From 7b293377b6310d646c5a2a1b915d64791b4a7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 49/85] fix: removing a link removes all of its relays

---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f97ceac..6a32a0c 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -251,7 +251,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             throw BMCException.unknown("could not remove, referred by route");
         }
         ArrayDB<Address> arrayDB = relays.at(_link);
-        for(int i = 0; i < arrayDB.size(); i++ ) {
+        while (arrayDB.size() > 0) {
             arrayDB.removeLast();
         }
         BigInteger networkId = btpLinkNetworkIds.get(_link);
-- 
2.43.0


From 7e6ef03043f2a58ef28429b67f4d8c6aac5fae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 50/85] fix: the remaining fee of a message that is dropped is
 collected once, not twice

---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 6a32a0c..beacffa 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -599,8 +599,6 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                         collectRemainFee(oldInfo.getFeeInfo());
                     }
                     responseInfoDictDb.set(sn, new ResponseInfo(msg.getNsn(), msg.getFeeInfo()));
-                } else {
-                    collectRemainFee(feeInfo);
                 }
             }
 
@@ -617,9 +615,11 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 }
                 throw BTPException.of(e, BTPException.Type.BSH);
             }
+            if (snCompare == 0) {
+                collectRemainFee(feeInfo);
+            }
         } else {
             sn = sn.negate();
-            collectRemainFee(feeInfo);
             try {
                 ResponseMessage responseMessage = ResponseMessage.fromBytes(payload);
                 long eCode = responseMessage.getCode();
@@ -633,6 +633,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             } catch (Exception e) {
                 throw BTPException.of(e, BTPException.Type.BSH);
             }
+            collectRemainFee(feeInfo);
         }
     }
 
-- 
2.43.0


From d70782af8e97af68ed0264b3f82213dd5f7f163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 51/85] fix: a claim that cannot be answered is not credited

---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java     | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index beacffa..f0583f9 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -646,13 +646,8 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 ClaimMessage claimMsg = ClaimMessage.fromBytes(payload);
                 BigInteger reward = claimMsg.getAmount();
                 Address receiver = toAddress(claimMsg.getReceiver());
+                sendInternalResponse(src, nsn);
                 addReward(receiver, btpAddr.net(), reward);
-                try {
-                    sendInternalResponse(src, nsn);
-                } catch (Exception e) {
-                    addReward(receiver, btpAddr.net(), reward.negate());
-                    throw e;
-                }
                 break;
             case Response:
                 ResponseMessage responseMsg = ResponseMessage.fromBytes(payload);
-- 
2.43.0


From 3836c715b5b0e96be2cc3c31871a1e35fab547c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 52/85] fix: an error of a service with code 6 or 11 is
 reported as such

---
 .../main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f0583f9..f1b409e 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -792,12 +792,12 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             return new ResponseMessage(ResponseMessage.CODE_SUCCESS, "");
         }
         long code = ResponseMessage.CODE_UNKNOWN;
-        if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
+        if (BTPException.Type.BSH.equals(exception.getType())) {
+            code = ResponseMessage.CODE_BSH_REVERT;
+        } else if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_ROUTE;
         } else if (BMCException.Code.NotExistsBSH.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_BSH;
-        } else if (BTPException.Type.BSH.equals(exception.getType())) {
-            code = ResponseMessage.CODE_BSH_REVERT;
         }
         return new ResponseMessage(code, exception.getMessage());
     }
-- 
2.43.0


From decb3bc57c5bcefaac2e7cc9d7faccd8ff63e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 53/85] fix: dropMessage collects the remaining fee of a
 message that gets no answer

---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f1b409e..a628544 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -999,6 +999,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
         if (snCompare > 0) {
             sendError(prev, assumeMsg, e);
         } else {
+            collectRemainFee(assumeMsg.getFeeInfo());
             emitMessageDropped(prev, _seq, assumeMsg, e);
         }
     }
-- 
2.43.0


From e8f29c958afe5514db764c8685ec26e0e12628c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 54/85] fix: the type of an error code is the one whose range
 holds it

---
 .../src/main/java/foundation/icon/btp/lib/BTPException.java   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascore/lib/src/main/java/foundation/icon/btp/lib/BTPException.java b/javascore/lib/src/main/java/foundation/icon/btp/lib/BTPException.java
index be2dac6..602db61 100644
--- a/javascore/lib/src/main/java/foundation/icon/btp/lib/BTPException.java
+++ b/javascore/lib/src/main/java/foundation/icon/btp/lib/BTPException.java
@@ -59,8 +59,8 @@ public class BTPException extends UserRevertException {
             }
             Type prev = null;
             for(Type v : values()) {
-                if (prev != null && code < prev.offset) {
-                    return v;
+                if (code < v.offset) {
+                    return prev;
                 }
                 prev = v;
             }
-- 
2.43.0


From 2e8f2fe8ecad6993b4af065d245f3e7c27c3605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:35 +0000
Subject: [PATCH 55/85] fix: the bridge verifier returns all messages of a
 relay message

---
 .../java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
index 5f1f99d..de7da21 100644
--- a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
+++ b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
@@ -78,7 +78,7 @@ public class BTPMessageVerifier implements BMV {
         byte[][] ret = new byte[msgs.size()][];
         int i = 0;
         for (byte[] msg : msgs) {
-            ret[i] = msg;
+            ret[i++] = msg;
         }
         return ret;
     }
-- 
2.43.0


From ca0fe7afc60321d77957954b67f15d727fc49827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:35 +0000
Subject: [PATCH 56/85] fix: the root of network sections is computed along the
 whole path

---
 .../java/foundation/icon/btp/bmv/btpblock/BlockHeader.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
index 9870a9d..eda81c1 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
@@ -159,9 +159,9 @@ public class BlockHeader {
         byte[] h = leaf;
         for (NetworkSectionToRoot nsRoot : networkSectionToRoot) {
             if (nsRoot.dir == NetworkSectionToRoot.LEFT) {
-                h = concatAndHash(nsRoot.value, leaf);
+                h = concatAndHash(nsRoot.value, h);
             } else if (nsRoot.dir == NetworkSectionToRoot.RIGHT) {
-                h = concatAndHash(leaf, nsRoot.value);
+                h = concatAndHash(h, nsRoot.value);
             }
         }
         return h;
-- 
2.43.0


From 34acb702fc95f798ac05ae025e26e768c58e5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:35 +0000
Subject: [PATCH 57/85] fix: block updates are accepted by a verifier with a
 sequence offset

---
 .../foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
index a54d5f4..e54b2ba 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
@@ -137,8 +137,7 @@ public class BTPMessageVerifier implements BMV {
         var prev = blockHeader.getPrev();
         var firstMessageSn = bmvProperties.getLastFirstMessageSN();
         var messageCount = bmvProperties.getLastMessageCount();
-        var seqOffset = bmvProperties.getSequenceOffset();
-        var messageSn = firstMessageSn.add(messageCount).subtract(seqOffset);
+        var messageSn = firstMessageSn.add(messageCount);
         if (messageSn.compareTo(blockHeader.getFirstMessageSn()) > 0) {
             throw BMVException.alreadyVerified("already verified");
         } else if (messageSn.compareTo(blockHeader.getFirstMessageSn()) < 0) {
-- 
2.43.0


From c17fb4382fbc5ce7cf3ed4317633224fce1f5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:46 +0000
Subject: [PATCH 58/85] fix: message proofs with nodes of no leaves are refused

A node with a leaf count below one let other messages than those of the
block be added to a proof: [-1, 1] on the left and [-1] on the right hide
one more message, and a node of 0 leaves next to a message gives the
hash of a message made of two hashes.
---
 .../java/foundation/icon/btp/bmv/btpblock/MessageProof.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
index 9a340f7..4407a41 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
@@ -97,6 +97,7 @@ public class MessageProof {
         int left = 0, total = 0;
         for (ProofNode pn : leftProofNodes) {
             var num = pn.getNumOfLeaf();
+            ensureNumOfLeaf(num);
             node = node.add(num, pn.getValue());
             left += num;
         }
@@ -108,6 +109,7 @@ public class MessageProof {
 
         for (ProofNode pn : rightProofNodes) {
             var num = pn.getNumOfLeaf();
+            ensureNumOfLeaf(num);
             node = node.add(num, pn.getValue());
             total += num;
         }
@@ -121,6 +123,10 @@ public class MessageProof {
         return new ProveResult(node.getValue(), left, total);
     }
 
+    private static void ensureNumOfLeaf(int num) {
+        if (num < 1) throw BMVException.unknown("invalid numOfLeaf : " + num);
+    }
+
     public static class ProveResult {
         byte[] hash;
         int offset, total;
-- 
2.43.0


From 47a9b18af4a6b080d2a856f3c838de6c4a4e2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:25 +0000
Subject: [PATCH 59/85] fix: proof nodes of no leaves or no hash are refused

A node of 0 leaves next to a content gave the root of a tree whose only
message is made of two hashes, and a node without a hash ended in a nil
dereference.
---
 common/mbt/proof.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/mbt/proof.go b/common/mbt/proof.go
index 4616107..5b3ef98 100644
--- a/common/mbt/proof.go
+++ b/common/mbt/proof.go
@@ -137,6 +137,9 @@ func (m *MerkleBinaryTree) Proof(begin, end int) (*MerkleBinaryTreeProof, error)
 func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error) {
 	r := &node{hashFunc: p.hashFunc}
 	for _, n := range p.ProofInLeft {
+		if err = n.verify(); err != nil {
+			return
+		}
 		r = r.lazyAdd(n.NumOfLeaf, n.Value)
 		left += n.NumOfLeaf
 	}
@@ -145,6 +148,9 @@ func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error
 		total++
 	}
 	for _, n := range p.ProofInRight {
+		if err = n.verify(); err != nil {
+			return
+		}
 		r = r.lazyAdd(n.NumOfLeaf, n.Value)
 		total += n.NumOfLeaf
 	}
@@ -161,6 +167,13 @@ func (p *MerkleBinaryTreeProof) Root() (h []byte, left int, total int, err error
 	return
 }
 
+func (pn ProofNode) verify() error {
+	if pn.NumOfLeaf < 1 || len(pn.Value) == 0 {
+		return fmt.Errorf("invalid proof node, numOfLeaf: %d, value: %x", pn.NumOfLeaf, pn.Value)
+	}
+	return nil
+}
+
 func (p *MerkleBinaryTreeProof) SetHashFunc(hashFunc HashFunc) {
 	p.hashFunc = hashFunc
 }
-- 
2.43.0


From e817081e51c0caec152a4a1e362eee9ff85392d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:59 +0000
Subject: [PATCH 60/85] fix: every asset of a request is paid, also when it
 names the native coin twice

---
 .../java/foundation/icon/btp/nativecoin/NativeCoinService.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
index c39b659..bef465f 100644
--- a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
+++ b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
@@ -471,7 +471,8 @@ public class NativeCoinService implements NCS, IRC31Receiver, BSH, OwnerManager
                 coinNames.add(coinName);
                 amounts.add(amount);
             } else if (name.equals(coinName)) {
-                nativeCoinTransferAmount = amount;
+                nativeCoinTransferAmount = nativeCoinTransferAmount == null ?
+                        amount : nativeCoinTransferAmount.add(amount);
             } else {
                 throw NCSException.unknown("Invalid Token");
             }
-- 
2.43.0


From 794ddb0807c1781f8ad9c235cb7a8deedae3dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 61/85] fix: return every message of a relay message from the
 ICON block verifier

---
 .../java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
index 42fd666..8d0eba0 100644
--- a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
+++ b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
@@ -133,7 +133,7 @@ public class BTPMessageVerifier implements BMV {
                 ret = new byte[msgs.size()][];
                 int i = 0;
                 for (byte[] msg : msgs) {
-                    ret[i] = msg;
+                    ret[i++] = msg;
                 }
             }
         }
-- 
2.43.0


From fcacbd79e6a19823f6a83d310ec63e7b1acca34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:09 +0000
Subject: [PATCH 62/85] fix: accept events with null values in the ICON block
 verifier

---
 .../src/main/java/foundation/icon/btp/bmv/icon/EventLog.java  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/EventLog.java b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/EventLog.java
index 8fc7911..f2d7f19 100644
--- a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/EventLog.java
+++ b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/EventLog.java
@@ -91,7 +91,7 @@ public class EventLog {
         byte[][] indexed = null;
         List<byte[]> indexedList = new ArrayList<>();
         while(reader.hasNext()) {
-            indexedList.add(reader.readByteArray());
+            indexedList.add(reader.readNullable(byte[].class));
         }
         indexed = new byte[indexedList.size()][];
         for(int i=0; i<indexedList.size(); i++) {
@@ -103,7 +103,7 @@ public class EventLog {
         byte[][] data = null;
         List<byte[]> dataList = new ArrayList<>();
         while(reader.hasNext()) {
-            dataList.add(reader.readByteArray());
+            dataList.add(reader.readNullable(byte[].class));
         }
         data = new byte[dataList.size()][];
         for(int i=0; i<dataList.size(); i++) {
-- 
2.43.0


From 7c86faac9e3490393264c305030a54e013925b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 63/85] fix: list a depositor of a syndication once, also after
 a deposit of zero

---
 .../src/main/java/foundation/icon/btp/Syndication.java       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
index c5616d8..67defe5 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
@@ -79,8 +79,9 @@ public class Syndication {
     }
 
     public void deposit(Address depositor, BigInteger amount) {
-        BigInteger totalUserDeposit = FeeAggregationSCORE.syndicationDepositorAmount.at(this.id).getOrDefault(depositor, BigInteger.ZERO);
-        if (totalUserDeposit.compareTo(BigInteger.ZERO) == 0) {
+        BigInteger totalUserDeposit = FeeAggregationSCORE.syndicationDepositorAmount.at(this.id).get(depositor);
+        if (totalUserDeposit == null) {
+            totalUserDeposit = BigInteger.ZERO;
             FeeAggregationSCORE.syndicationDepositorList.at(this.id).add(depositor);
         }
         totalUserDeposit = totalUserDeposit.add(amount);
-- 
2.43.0


From cc65fec1a51218dc3ebdf0c567b194d3e7973214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 64/85] fix: keep the ICX to refund when a syndication ends

---
 .../icon/btp/FeeAggregationSCORE.java         | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index 7e10a14..fbae579 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -444,18 +444,22 @@ public class FeeAggregationSCORE extends IRC31Receiver {
             Context.revert(ErrorCode.INVALID_TOKEN_BALANCE, "not enough token");
         }
 
-        // Send ICX to CPS
-        if (!_syndication.totalDeposited().equals(BigInteger.ZERO)) {
-            Context.call(_syndication.totalDeposited(), this.addressCPS.get(), "add_fund");
-        }
+        BigInteger refunded = this.distributeTokenShare(_token, _syndication);
 
-        this.distributeTokenShare(_token, _syndication);
+        // Send ICX to CPS, except for what depositors get back
+        BigInteger proceeds = _syndication.totalDeposited().subtract(refunded);
+        if (!proceeds.equals(BigInteger.ZERO)) {
+            Context.call(proceeds, this.addressCPS.get(), "add_fund");
+        }
 
         // Event log
         SyndicationEnded(_syndication.id(), _token.name(), _syndication.tokenAmount(), Context.getBlockTimestamp());
     }
 
-    public void distributeTokenShare(Token _token, Syndication _syndication) {
+    /**
+     * @return amount of ICX that depositors get back
+     */
+    public BigInteger distributeTokenShare(Token _token, Syndication _syndication) {
         BigInteger syndicationId = _syndication.id();
         BigInteger tokenAmount = _syndication.tokenAmount();
         BigInteger tokenUnit = _token.getUnit();
@@ -465,6 +469,7 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         int numberDepositor = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).size();
         BigInteger totalDeposited = _syndication.totalDeposited();
         BigInteger totalDistributedToken = BigInteger.ZERO;
+        BigInteger totalRefunded = BigInteger.ZERO;
         for (int i = 0; i < numberDepositor; i++) {
             Address currentDepositorAddress = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).get(i);
             BigInteger currentDepositorAmount = FeeAggregationSCORE.syndicationDepositorAmount.at(syndicationId).get(currentDepositorAddress);
@@ -481,9 +486,11 @@ public class FeeAggregationSCORE extends IRC31Receiver {
 
             if (icxRemain.compareTo(BigInteger.ZERO) > 0) {
                 this.refundableBalances.set(currentDepositorAddress, getSafeRefundableBalance(currentDepositorAddress).add(icxRemain));
+                totalRefunded = totalRefunded.add(icxRemain);
             }
         }
         this.lockedBalances.set(_token.name(), getSafeLockBalance(_token.name()).add(totalDistributedToken));
+        return totalRefunded;
     }
 
     boolean isSyndicationExpired(String _tokenName) {
-- 
2.43.0


From 5bda2fc43886265dae624180726ef5c640ce6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 65/85] fix: end a syndication without deposits

---
 .../src/main/java/foundation/icon/btp/FeeAggregationSCORE.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index fbae579..7dc410d 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -468,6 +468,9 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         BigInteger tokenAmountInIcx = tokenAmount.multiply(tokenPriceWithDiscount).divide(tokenUnit);
         int numberDepositor = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).size();
         BigInteger totalDeposited = _syndication.totalDeposited();
+        if (totalDeposited.equals(BigInteger.ZERO)) {
+            return BigInteger.ZERO;
+        }
         BigInteger totalDistributedToken = BigInteger.ZERO;
         BigInteger totalRefunded = BigInteger.ZERO;
         for (int i = 0; i < numberDepositor; i++) {
-- 
2.43.0


From 3f9c45b410f110fe8e42392801d9da00d61a45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:34 +0000
Subject: [PATCH 66/85] fix: accept events without parameters in the Python
 ICON block verifier

---
 pyscore/bmv/icon/message.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyscore/bmv/icon/message.py b/pyscore/bmv/icon/message.py
index 9df20e8..8b34adb 100644
--- a/pyscore/bmv/icon/message.py
+++ b/pyscore/bmv/icon/message.py
@@ -373,9 +373,10 @@ class EventLog(object):
         sidx = s.index("(")
         eidx = s.index(")")
         signature.append(s[0:sidx])
-        sl = s[sidx+1:eidx].split(",")
-        for ts in sl:
-            signature.append(ts.strip())
+        params = s[sidx+1:eidx].strip()
+        if len(params) > 0:
+            for ts in params.split(","):
+                signature.append(ts.strip())
         return signature
 
     @staticmethod
-- 
2.43.0


From efdd148f7d4bf6e527be38ef7d735464c23f524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:34 +0000
Subject: [PATCH 67/85] fix: pass over messages for others in the Python ICON
 block verifier

---
 pyscore/bmv/icon/icon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyscore/bmv/icon/icon.py b/pyscore/bmv/icon/icon.py
index 8d61187..c9ffd50 100644
--- a/pyscore/bmv/icon/icon.py
+++ b/pyscore/bmv/icon/icon.py
@@ -191,14 +191,14 @@ class BTPMessageVerifier(IconScoreBase):
                 if str(Address.from_bytes(event_log.addr)) != prev_addr.contract:
                     continue
                 msg_evt = event_log.to_message_event()
-                if msg_evt is not None:
+                if msg_evt is not None and msg_evt.next_bmc == _bmc:
                     if msg_evt.seq > next_seq:
                         raise BMVException(f'invalid sequence {msg_evt.seq} expected:{next_seq}',
                                            BMVExceptionCode.INVALID_SEQUENCE_HIGHER)
                     elif msg_evt.seq < next_seq:
                         raise BMVException(f'invalid sequence {msg_evt.seq} expected:{next_seq}',
                                            BMVExceptionCode.INVALID_SEQUENCE)
-                    elif msg_evt.next_bmc == _bmc:
+                    else:
                         msgs.append(msg_evt.msg)
                         next_seq += 1
 
-- 
2.43.0


From 623e861287087eca26451ec283ec0f2b591d5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:58 +0000
Subject: [PATCH 68/85] fix: order the length bytes of long values in the
 Python RLP encoder

---
 pyscore/lib/icon/rlp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyscore/lib/icon/rlp.py b/pyscore/lib/icon/rlp.py
index 406f7e5..68e5b35 100644
--- a/pyscore/lib/icon/rlp.py
+++ b/pyscore/lib/icon/rlp.py
@@ -48,8 +48,7 @@ def rlp_encode_bytes(bs: bytes) -> bytes:
     # buf[0] = 0x80+55+slen & 0xFF
     buf.insert(0, 0xB7+slen & 0xFF)
     while slen > 0:
-        # buf[slen] = blen & 0xFF
-        buf.insert(slen, blen & 0xFF)
+        buf.insert(1, blen & 0xFF)
         blen >>= 8
         slen -= 1
     return bytes(buf) + bs
@@ -72,7 +71,7 @@ def rlp_encode_list_with_encoded(l: list) -> bytes:
     # buf[0] = 0xC0+55+slen & 0xFF
     buf.insert(0, 0xF7+slen & 0xFF)
     while slen > 0:
-        buf.insert(slen, blen & 0xFF)
+        buf.insert(1, blen & 0xFF)
         blen >>= 8
         slen -= 1
 
-- 
2.43.0


From 2e3a6791a7dbc08bad9e60934c28881c39fa3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:58 +0000
Subject: [PATCH 69/85] fix: verify newer witnesses at the index of the node in
 the Python accumulator

---
 pyscore/lib/icon/mta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/mta.py b/pyscore/lib/icon/mta.py
index 6f84f9a..c709538 100644
--- a/pyscore/lib/icon/mta.py
+++ b/pyscore/lib/icon/mta.py
@@ -199,7 +199,7 @@ class MerkleTreeAccumulator(Serializable):
 
             root_idx = self.get_root_idx_by_height(height)
             root = self.get_root(root_idx)
-            MerkleTreeAccumulator._verify(witness[:root_idx], root, _hash, height)
+            MerkleTreeAccumulator._verify(witness[:root_idx], root, _hash, height - 1 - self.__offset)
         else:
             # acc: new, wit: old
             # rebuild witness is not supported, but able to verify by cache if enabled
-- 
2.43.0


From 4fdd6e77d81721dfa148f821a13fd3e977035c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:32 +0000
Subject: [PATCH 70/85] fix: follow extensions to embedded nodes in the Python
 trie

---
 pyscore/lib/icon/mpt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyscore/lib/icon/mpt.py b/pyscore/lib/icon/mpt.py
index 9682e2f..80bf446 100644
--- a/pyscore/lib/icon/mpt.py
+++ b/pyscore/lib/icon/mpt.py
@@ -48,8 +48,11 @@ class MerklePatriciaTree(object):
                     if (self.__prefix & 0x20) != 0:
                         self.__data = rlp_decode(unpacked[1])
                     else:
-                        _hash = rlp_decode(unpacked[1])
-                        node = MerklePatriciaTree.Node(_hash)
+                        if unpacked[1][0] >= 0xC0:
+                            node = MerklePatriciaTree.Node(bytes(0), unpacked[1])
+                        else:
+                            _hash = rlp_decode(unpacked[1])
+                            node = MerklePatriciaTree.Node(_hash)
                         self.__children.append(node)
                 elif len(unpacked) == 17:
                     for i in range(16):
-- 
2.43.0


From 3f0064032a9cdffe48b0bc0f0baf297780c4c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:45 +0000
Subject: [PATCH 71/85] fix: hand over each item of a stream before the next is
 decoded

---
 common/http.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/common/http.go b/common/http.go
index 5fc4397..cdea36c 100644
--- a/common/http.go
+++ b/common/http.go
@@ -241,30 +241,23 @@ func (c *HttpClient) Stream(reqUrl string, reqPtr, respPtr interface{},
 		return
 	}
 	if respFunc != nil {
-		ch := make(chan interface{})
+		ch := make(chan error, 1)
 		dec := json.NewDecoder(resp.Body)
 		defer resp.Body.Close()
 
-		go func() {
-			for {
-				if err := dec.Decode(respPtr); err != nil {
-					ch <- err
-					return
-				}
-				ch <- respPtr
-			}
-		}()
-
 		for {
+			//decode the next one after the last one is handled
+			go func() {
+				ch <- dec.Decode(respPtr)
+			}()
 			select {
 			case <-cancelCh:
 				return
-			case v := <-ch:
-				if de, ok := v.(error); ok {
-					err = de
+			case err = <-ch:
+				if err != nil {
 					return
 				}
-				if err = respFunc(v); err != nil {
+				if err = respFunc(respPtr); err != nil {
 					return
 				}
 			}
-- 
2.43.0


From d47b479dbeb4d73743823d9a9046295b405bf2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 72/85] fix: load the list of keys when it has only one
 character

---
 pyscore/lib/icon/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index ca323bc..635eb65 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -94,7 +94,7 @@ class IterableDictDB(ABC):
     def _load_keys(self) -> list:
         if not self.__is_loaded_keys:
             serialized = self.__db_keys.get()
-            if len(serialized) > 1:
+            if len(serialized) > 0:
                 self.__keys = serialized.split(",")
             self.__is_loaded_keys = True
         return self.__keys
-- 
2.43.0


From d09386c443f17532a3f3893b08ac0645f1fba980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 73/85] fix: check the key before a value is added

---
 pyscore/lib/icon/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index 635eb65..a0df5f0 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -162,8 +162,8 @@ class IterableDictDB(ABC):
         else:
             raw = self._cache(key)
             if raw is None:
-                self.__add[key] = value
                 self._add_key(key)
+                self.__add[key] = value
             else:
                 self.__update[key] = value
         if not self.__with_flush:
-- 
2.43.0


From 28e01e09d37ead1b02ec4271a213d4e99a0f3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 74/85] fix: remove what was added in the same transaction

---
 pyscore/lib/icon/db.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index a0df5f0..a0059a6 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -190,20 +190,21 @@ class IterableDictDB(ABC):
     def remove(self, key) -> None:
         key = str(key)
         if key in self.__add:
-            self.__add.pop(key)
-            return
+            v = self.__add.pop(key)
+            self._remove_key(key)
         elif key in self.__remove:
             return
-        elif key in self.__update:
-            self.__update.pop(key)
+        else:
+            if key in self.__update:
+                self.__update.pop(key)
 
-        v = self._cache(key)
-        if v is None:
-            return
+            v = self._cache(key)
+            if v is None:
+                return
 
-        self._remove_key(key)
-        self.__remove[key] = v
-        self.__cache.pop(key)
+            self._remove_key(key)
+            self.__remove[key] = v
+            self.__cache.pop(key)
 
         if isinstance(v, IterableDictDB) or isinstance(v, PropertiesDB):
             v.remove_all()
-- 
2.43.0


From ef259201224c02f99658d449c266ce2f4a4a5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 75/85] fix: remove all entries of a dictionary

---
 pyscore/lib/icon/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/lib/icon/db.py b/pyscore/lib/icon/db.py
index a0059a6..c8abe2a 100644
--- a/pyscore/lib/icon/db.py
+++ b/pyscore/lib/icon/db.py
@@ -213,7 +213,7 @@ class IterableDictDB(ABC):
                 self.__db.remove(key)
 
     def remove_all(self):
-        for k in self.keys():
+        for k in list(self.keys()):
             self.remove(k)
 
     def _contains(self, key: str) -> bool:
-- 
2.43.0


From 4fa0e31d7cc5c1a11f479f2c5328118777df13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 76/85] fix: pass the relay that is removed

---
 pyscore/bmc/bmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 27e7ef4..c8809f4 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -759,7 +759,7 @@ class BTPMessageCenter(IconScoreBase):
             raise UnauthorizedException("not registered relayer")
         target = BTPAddress.from_string_with_validation(_link)
         relayer = self._relayers[self.tx.origin]
-        relayer.remove_relay(target)
+        relayer.remove_relay(target, _addr)
         link = self._get_link(target)
         link.remove_relay(_addr, self.block_height)
 
-- 
2.43.0


From 809c54a0fd2903df53f4041e5e049d652dfab3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 77/85] fix: do not answer an error with a message

---
 pyscore/bmc/bmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index c8809f4..bb88add 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -563,7 +563,7 @@ class BTPMessageCenter(IconScoreBase):
         self.Message(str(to), link.tx_seq, serialized_msg)
 
     def _send_error(self, prev: BTPAddress, msg: BTPMessage, e: BTPException):
-        if msg.sn != 0:
+        if msg.sn > 0:
             err_msg = ErrorMessage(e.code, e.message)
             msg = BTPMessage(self._props.btp_addr, msg.src, msg.svc, msg.sn * -1,
                              err_msg.to_bytes())
-- 
2.43.0


From 6bba6ab505a4fbb95fc53a4010cafd436ddfa254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 78/85] fix: read back an empty permission

---
 pyscore/bmc/permission.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyscore/bmc/permission.py b/pyscore/bmc/permission.py
index 65af29a..604232c 100644
--- a/pyscore/bmc/permission.py
+++ b/pyscore/bmc/permission.py
@@ -87,4 +87,5 @@ class Permissions(StringDictDB):
         return super().__getitem__(key)
 
     def str_to_object(self, s: str):
-        return Permission.from_string(s)
\ No newline at end of file
+        permission = Permission.from_string(s)
+        return Permission() if permission is None else permission
\ No newline at end of file
-- 
2.43.0


From 12bbcdd531a4158c5aabdf95780991edc2d83610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 79/85] fix: allow to grant setLink and nextRelays

---
 pyscore/bmc/permission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyscore/bmc/permission.py b/pyscore/bmc/permission.py
index 604232c..66310f9 100644
--- a/pyscore/bmc/permission.py
+++ b/pyscore/bmc/permission.py
@@ -21,11 +21,11 @@ class Permission(object):
         "addPermission", "removePermission",
         "addService", "removeService",
         "addVerifier", "removeVerifier",
-        "addLink", "removeLink",
+        "addLink", "removeLink", "setLink",
         "addRoute", "removeRoute",
         "addRelayer", "removeRelayer",
         "addRelay", "removeRelay",
-        "renewRelay",
+        "renewRelay", "nextRelays",
         "sendMessage"
     ]
 
-- 
2.43.0


From 5767410f3549e939911bcd6c2713f2fbf64ae287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 80/85] fix: code of a service that exists already

---
 pyscore/bmc/bmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index bb88add..3917f7a 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -148,7 +148,7 @@ class BTPMessageCenter(IconScoreBase):
             raise BMCException("invalid service name")
 
         if _svc in self._services:
-            raise BMCException("already exists service", BMCExceptionCode.NOT_EXISTS_BSH)
+            raise BMCException("already exists service", BMCExceptionCode.ALREADY_EXISTS_BSH)
         self._services[_svc] = _addr
         self.addPermission(_addr, "sendMessage")
 
-- 
2.43.0


From b04a9da08f15f61fd443aca21758b0364080fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 81/85] fix: report a route over a link that does not exist

---
 pyscore/bmc/bmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 3917f7a..863adb7 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -518,7 +518,7 @@ class BTPMessageCenter(IconScoreBase):
                         return link, link.addr
             raise BMCException(f"unreachable {dst_net}", BMCExceptionCode.UNREACHABLE)
         else:
-            return self._links[route], route
+            return self._get_link(route), route
 
     # ================================================
     #  BTP Relay
-- 
2.43.0


From 943ca1f90033ebf8984959146339ba58889a8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:49 +0000
Subject: [PATCH 82/85] fix: address messages to the destination, not to the
 next hop

---
 pyscore/bmc/bmc.py   |  5 +++--
 pyscore/bmc/route.py | 14 +++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index 863adb7..b6f0dd7 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -515,10 +515,11 @@ class BTPMessageCenter(IconScoreBase):
                 for reachable in link.reachable:
                     addr = BTPAddress.from_string(reachable)
                     if addr.net == dst_net:
-                        return link, link.addr
+                        return link, addr
             raise BMCException(f"unreachable {dst_net}", BMCExceptionCode.UNREACHABLE)
         else:
-            return self._get_link(route), route
+            dst = route if dst_net in self._routes else self._routes.destination(dst_net)
+            return self._get_link(route), dst
 
     # ================================================
     #  BTP Relay
diff --git a/pyscore/bmc/route.py b/pyscore/bmc/route.py
index bcccc18..4d488b7 100644
--- a/pyscore/bmc/route.py
+++ b/pyscore/bmc/route.py
@@ -26,8 +26,12 @@ class BTPRoutes(StringDictDB):
         if self.__contains__(dst_net):
             return self.__getitem__(dst_net)
         else:
-            for key in self.keys():
-                dst = BTPAddress.from_string(key)
-                if dst is not None and dst.net == dst_net:
-                    return self.__getitem__(key)
-            return None
+            dst = self.destination(dst_net)
+            return None if dst is None else self.__getitem__(dst)
+
+    def destination(self, dst_net: str) -> BTPAddress:
+        for key in self.keys():
+            dst = BTPAddress.from_string(key)
+            if dst is not None and dst.net == dst_net:
+                return dst
+        return None
-- 
2.43.0


From a110a88d4d6d5b01b70a56e16b5d5bcf70643730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:49 +0000
Subject: [PATCH 83/85] fix: forget the relays of a removed link

---
 pyscore/bmc/bmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyscore/bmc/bmc.py b/pyscore/bmc/bmc.py
index b6f0dd7..3491292 100644
--- a/pyscore/bmc/bmc.py
+++ b/pyscore/bmc/bmc.py
@@ -272,6 +272,8 @@ class BTPMessageCenter(IconScoreBase):
         evt_msg = EventMessage("Unlink", [str(self._props.btp_addr), str(target)])
         self._propagate_event(evt_msg)
         self._links.remove(target)
+        for addr in self._relayers:
+            self._relayers[addr].relays.remove(target)
 
     def _get_link(self, target: BTPAddress) -> BTPLink:
         if target in self._links:
-- 
2.43.0


From bd95f663f8419aa64b7097493f2bec1b7d736147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:49 +0000
Subject: [PATCH 84/85] fix: refuse transfers of negative amounts

---
 pyscore/token/token_bsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyscore/token/token_bsh.py b/pyscore/token/token_bsh.py
index 7db1caa..8f561ba 100644
--- a/pyscore/token/token_bsh.py
+++ b/pyscore/token/token_bsh.py
@@ -247,6 +247,8 @@ class TokenBSH(IconScoreBase):
             user = Address.from_string(req['to'])
             value = int(req['args']['value'], 16)
             token_name = req['args']['name']
+            if value < 0:
+                raise InvalidValueAmountException("Not allowed value amount")
             Logger.info(f'user:{user}:{isinstance(user,Address)}, value:{value}, name:{token_name}', TAG)
 
             if self._token_addr_db[token_name] is not None:
-- 
2.43.0


From bcdea6c4c959896de468c58c77308f3c7f30675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:49 +0000
Subject: [PATCH 85/85] fix: refund a transfer that the other side does not
 know

---
 pyscore/token/token_bsh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyscore/token/token_bsh.py b/pyscore/token/token_bsh.py
index 8f561ba..b78a255 100644
--- a/pyscore/token/token_bsh.py
+++ b/pyscore/token/token_bsh.py
@@ -77,6 +77,7 @@ class TokenBSH(IconScoreBase):
     # For result code of handled service
     RC_OK = 0
     RC_ERR_UNREGISTERED_TOKEN = -1
+    RC_ERR_UNKNOWN_TYPE = -2
 
     # For indexes of `_balance_db`
     BD_USABLE_IDX = 0
@@ -261,7 +262,7 @@ class TokenBSH(IconScoreBase):
             res = TokenBSH._create_message(self.RES_TOKEN_TRANSFER, code)
             self._send_message(_sn, _from, res)
 
-        elif req['type'] == self.RES_TOKEN_TRANSFER:
+        elif req['type'] == self.RES_TOKEN_TRANSFER or req['type'] == self.RES_UNKNOWN_TYPE:
             if self._has_pending(_sn) is False:
                 raise NoSuchItemException("No pending message")
 
@@ -270,12 +271,13 @@ class TokenBSH(IconScoreBase):
             value = pmsg['args']['value']
             token_name = pmsg['args']['name']
 
-            if req['code'] is self.RC_OK:
+            code = req['code'] if req['type'] == self.RES_TOKEN_TRANSFER else self.RC_ERR_UNKNOWN_TYPE
+            if code == self.RC_OK:
                 self._update_balance_by(user, token_name, 0, -value)
             else:
                 self._update_balance_by(user, token_name, value, -value)
             self._del_pending(_sn)
-            self.TransferEnd(_sn, req['code'], _msg)
+            self.TransferEnd(_sn, code, _msg)
 
         else:
             res = TokenBSH._create_message(self.RES_UNKNOWN_TYPE)
-- 
2.43.0

