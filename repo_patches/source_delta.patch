From 752c5c44e705683cbea099eba398da6662ea4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 01/32] fix: draw AEAD nonces from crypto/rand

math/rand is predictable, and repeats itself when a program seeds it: two records of a connection could carry
the same nonce under the same key.
---
 aead.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aead.go b/aead.go
index a9699c4..45f9ac4 100644
--- a/aead.go
+++ b/aead.go
@@ -2,8 +2,8 @@ package noise
 
 import (
 	"crypto/cipher"
+	"crypto/rand"
 	"io"
-	"math/rand"
 )
 
 func extendFront(buf []byte, n int) []byte {
-- 
2.43.0


From 3a1cb48808d92d4f37aacec753a8a0b7f68a0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 02/32] fix: marshal IPv4 hosts in their 16-byte form

A net.IP may represent an IPv4 address with 4 bytes, which were copied to the front of the 16 byte field and were
decoded into an unrelated IPv6 address.
---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index b3c0afa..82f36ee 100644
--- a/id.go
+++ b/id.go
@@ -53,7 +53,7 @@ func (e ID) Marshal() []byte {
 	buf := make([]byte, e.Size())
 
 	copy(buf[:len(e.ID)], e.ID[:])
-	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host)
+	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host.To16())
 	binary.BigEndian.PutUint16(buf[len(e.ID)+net.IPv6len:len(e.ID)+net.IPv6len+2], e.Port)
 
 	return buf
-- 
2.43.0


From 3635acd9633f49c41c996c785c19bd18977418bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 03/32] fix: encode types registered under a pointer, and
 report nil messages

Registering *T succeeds, but encoding one looked only for T. Encoding nil panicked.
---
 codec.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index 3d627f2..5ccfb0d 100644
--- a/codec.go
+++ b/codec.go
@@ -2,6 +2,7 @@ package noise
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -61,11 +62,16 @@ func (c *codec) encode(msg Serializable) ([]byte, error) {
 
 	t := reflect.TypeOf(msg)
 
-	if t.Kind() == reflect.Ptr {
-		t = t.Elem()
+	if t == nil {
+		return nil, errors.New("cannot encode a nil message")
 	}
 
 	opcode, registered := c.ser[t]
+	if !registered && t.Kind() == reflect.Ptr {
+		t = t.Elem()
+		opcode, registered = c.ser[t]
+	}
+
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
-- 
2.43.0


From eac4adbfd92e9b5d9bf51c68f63d29a09339491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 04/32] fix: let only one of all handlers respond to a request

Each handler gets its own copy of the HandlerContext, and with it its own flag, so every handler could send a
response to the same request.
---
 client.go | 3 ++-
 msg.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 85f9b9c..3f6f1c3 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"go.uber.org/atomic"
 	"go.uber.org/zap"
 	"io"
 	"net"
@@ -545,7 +546,7 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg}
+		c.node.work <- HandlerContext{client: c, msg: msg, sent: new(atomic.Bool)}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/msg.go b/msg.go
index 7d25d28..23a478c 100644
--- a/msg.go
+++ b/msg.go
@@ -37,7 +37,7 @@ func unmarshalMessage(data []byte) (message, error) {
 type HandlerContext struct {
 	client *Client
 	msg    message
-	sent   atomic.Bool
+	sent   *atomic.Bool // shared by the copies of this context that are handed to each handler
 }
 
 // ID returns the ID of the inbound/outbound peer that sent you the data that is currently being handled.
-- 
2.43.0


From 5aa14e7f72a87530636e0810e9d5c9f506527b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 05/32] fix: return the closest peers in FindClosest

Buckets around that of the target were searched alternately on both sides, so peers in a shallower bucket could be
returned in place of closer ones in a deeper bucket.
---
 kademlia/table.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index 1ea256f..4e07f7a 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -176,16 +176,19 @@ func (t *Table) FindClosest(target noise.PublicKey, k int) []noise.ID {
 
 	f(t.entries[idx])
 
-	for i := 1; len(closest) < k && (idx-i >= 0 || idx+i < len(t.entries)); i++ {
-		if idx-i >= 0 {
-			f(t.entries[idx-i])
-		}
+	// Peers in deeper buckets all differ from target in the same first bit, and may be in any order with respect to
+	// target. All of them are closer to target than any peer in a shallower bucket.
 
-		if idx+i < len(t.entries) {
-			f(t.entries[idx+i])
+	if len(closest) < k {
+		for i := idx + 1; i < len(t.entries); i++ {
+			f(t.entries[i])
 		}
 	}
 
+	for i := idx - 1; len(closest) < k && i >= 0; i-- {
+		f(t.entries[i])
+	}
+
 	closest = SortByDistance(target, closest)
 
 	if len(closest) > k {
-- 
2.43.0


From 531e5d0f5ccdcd74a2862c8f86a71db7abb61eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 06/32] fix: do not panic in Last when a bucket is empty

A bucket that Ack found to be full may be emptied by the time its last entry is asked for.
---
 kademlia/protocol.go | 3 +++
 kademlia/table.go    | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index c0eb3ad..924c14f 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -104,6 +104,9 @@ func (p *Protocol) Ack(id noise.ID) {
 		}
 
 		last := p.table.Last(id.ID)
+		if last.ID == noise.ZeroPublicKey { // The bucket was emptied in the meantime.
+			continue
+		}
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
 		pong, err := p.node.RequestMessage(ctx, last.Address, Ping{})
diff --git a/kademlia/table.go b/kademlia/table.go
index 4e07f7a..55f5099 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -37,12 +37,17 @@ func (t *Table) Self() noise.ID {
 	return t.self
 }
 
-// Last returns the last id of the bucket where target resides within.
+// Last returns the last id of the bucket where target resides within, or a zero-value ID if the bucket is empty.
 func (t *Table) Last(target noise.PublicKey) noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	return t.entries[t.getBucketIndex(target)].Back().Value.(noise.ID)
+	last := t.entries[t.getBucketIndex(target)].Back()
+	if last == nil {
+		return noise.ID{}
+	}
+
+	return last.Value.(noise.ID)
 }
 
 // Bucket returns all entries of a bucket where target reside within.
-- 
2.43.0


From a7129e0a7a97ba9633585fff3b5d5d0bd4419343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 07/32] fix: do not report a peer that was never admitted as
 evicted

When a bucket is full and its last peer is alive, the newcomer is not inserted. It was reported as evicted
nevertheless, though eviction is documented to be of a peer that was previously admitted.
---
 kademlia/protocol.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index 924c14f..bb67e45 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -147,10 +147,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			zap.String("peer_addr", id.Address),
 		)
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
-
 		return
 	}
 }
-- 
2.43.0


From 9d0bee64a585e4ce15977d74253620a5192b1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 08/32] fix: look up the target of a search instead of each
 contacted peer

Every peer was asked for the peers closest to itself, so a search for a target did not converge to the target.
---
 kademlia/iterator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 9b0f3ca..fc76b4a 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -17,6 +17,7 @@ type Iterator struct {
 	table  *Table
 	logger *zap.Logger
 
+	target  noise.PublicKey
 	visited map[noise.PublicKey]struct{}
 	results chan noise.ID
 	buckets [][]noise.ID
@@ -74,6 +75,7 @@ func (it *Iterator) Find(target noise.PublicKey) []noise.ID {
 func (it *Iterator) init(target noise.PublicKey) {
 	it.results = make(chan noise.ID, 1)
 
+	it.target = target
 	it.visited = map[noise.PublicKey]struct{}{
 		it.node.ID().ID: {},
 		target:          {},
@@ -162,7 +164,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: id.ID})
+	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
 		return
-- 
2.43.0


From b2adf43b496b4205234e70035148120e1d602f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 09/32] fix: check who answers the overlay's pings and lookups

A peer at the tail of a full bucket was kept, and a peer was returned by a lookup, if anyone at all answered at the
address it was known under. A single peer could make up any number of identities at its address, each of which
was looked up and returned, so that lookups would not end.
---
 kademlia/iterator.go |  2 +-
 kademlia/protocol.go | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index fc76b4a..75137fe 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -164,7 +164,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
+	obj, err := requestMessage(ctx, it.node, id, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
 		return
diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index bb67e45..feb45ab 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -71,6 +71,21 @@ func (p *Protocol) Ping(ctx context.Context, addr string) error {
 	return nil
 }
 
+// requestMessage sends req to the address of id and returns the response to it. It throws an error if it is not the
+// bearer of id that is reachable at the address.
+func requestMessage(ctx context.Context, node *noise.Node, id noise.ID, req noise.Serializable) (noise.Serializable, error) {
+	client, err := node.Ping(ctx, id.Address)
+	if err != nil {
+		return nil, err
+	}
+
+	if client.ID().ID != id.ID {
+		return nil, fmt.Errorf("expected peer %s at %s, but got %s", id.ID, id.Address, client.ID().ID)
+	}
+
+	return node.RequestMessage(ctx, id.Address, req)
+}
+
 // Table returns this Kademlia overlay's routing table from your nodes perspective.
 func (p *Protocol) Table() *Table {
 	return p.table
@@ -109,7 +124,7 @@ func (p *Protocol) Ack(id noise.ID) {
 		}
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
-		pong, err := p.node.RequestMessage(ctx, last.Address, Ping{})
+		pong, err := requestMessage(ctx, p.node, last, Ping{})
 		cancel()
 
 		if err != nil {
-- 
2.43.0


From 5b5ab7d3fb6b2f5e0455c564a657cf95f84d985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 10/32] fix: remember gossip of any size

The cache of seen gossip ignores keys of 64KB and above, and the data was part of the key: larger data was never
remembered, and was passed on forever.
---
 gossip/protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index c5ae995..85c2bc7 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -4,6 +4,7 @@ package gossip
 
 import (
 	"context"
+	"crypto/sha256"
 	"github.com/VictoriaMetrics/fastcache"
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
@@ -125,5 +126,7 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 }
 
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
-	return append(id.ID[:], data...)
+	sum := sha256.Sum256(append(id.ID[:], data...))
+
+	return sum[:]
 }
-- 
2.43.0


From cd89edf8bf9d1d507a9ff8a7fee9715f7aaff3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 11/32] fix: handle and pass on gossip at most once when it
 arrives concurrently

Checking for and marking data as seen were two steps, so data that was received from or pushed to several peers
at once could be reported and sent to a peer several times.
---
 gossip/protocol.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index 85c2bc7..e7b0799 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -18,7 +18,8 @@ type Protocol struct {
 	overlay *kademlia.Protocol
 	events  Events
 
-	seen *fastcache.Cache
+	seenLock sync.Mutex
+	seen     *fastcache.Cache
 }
 
 // New returns a new instance of a gossip protocol with 32MB of in-memory cache instantiated.
@@ -73,15 +74,13 @@ func (p *Protocol) Push(ctx context.Context, data []byte) {
 		go func() {
 			defer wg.Done()
 
-			if p.seen.Has(key) {
+			if !p.mark(key) {
 				return
 			}
 
 			if err := p.node.SendMessage(ctx, id.Address, Message(data)); err != nil {
-				return
+				p.seen.Del(key)
 			}
-
-			p.seen.Set(key, nil)
 		}()
 	}
 
@@ -106,14 +105,10 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 
 	p.seen.Set(p.hash(ctx.ID(), msg), nil) // Mark that the sender already has this data.
 
-	self := p.hash(p.node.ID(), msg)
-
-	if p.seen.Has(self) {
+	if !p.mark(p.hash(p.node.ID(), msg)) { // Mark that we already have this data.
 		return nil
 	}
 
-	p.seen.Set(self, nil) // Mark that we already have this data.
-
 	if p.events.OnGossipReceived != nil {
 		if err := p.events.OnGossipReceived(ctx.ID(), msg); err != nil {
 			return err
@@ -125,6 +120,20 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 	return nil
 }
 
+// mark marks key as seen, and returns true if it was not yet. Only one of all concurrent callers is returned true.
+func (p *Protocol) mark(key []byte) bool {
+	p.seenLock.Lock()
+	defer p.seenLock.Unlock()
+
+	if p.seen.Has(key) {
+		return false
+	}
+
+	p.seen.Set(key, nil)
+
+	return true
+}
+
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
 	sum := sha256.Sum256(append(id.ID[:], data...))
 
-- 
2.43.0


From 97aecc67e014fefa597f8e63b592d1d9b81a1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 12/32] fix: keep a worker alive when a handler returns an
 error

Each handler error ended one worker for good: after as many errors as there are workers, the node handled no
messages any more.
---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 634410e..64f6d65 100644
--- a/node.go
+++ b/node.go
@@ -189,7 +189,7 @@ func (n *Node) Listen() error {
 						ctx.client.reportError(err)
 						ctx.client.close()
 
-						return
+						break
 					}
 				}
 			}
-- 
2.43.0


From fbe7e89da5c1368a04e477796ace2ba8a545e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 13/32] fix: read messages into a buffer that grows as data
 arrives

The buffer was allocated with the configured limit on message sizes when a client was created: it was empty when
the limit was disabled, and too small when 4 + limit overflowed 32 bits, both of which crashed the node on the
first message, and took up the whole limit for every connection before a byte had arrived.
---
 client.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 3f6f1c3..cbfec76 100644
--- a/client.go
+++ b/client.go
@@ -65,7 +65,7 @@ type Client struct {
 	reader *bufio.Reader
 	writer *bufio.Writer
 
-	readerBuf []byte
+	readerBuf []byte // grown as data arrives
 	writerBuf []message
 
 	writerCond   sync.Cond
@@ -92,8 +92,6 @@ func newClient(node *Node) *Client {
 
 		requests: newRequestMap(),
 
-		readerBuf: make([]byte, 4+node.maxRecvMessageSize),
-
 		ready:      make(chan struct{}),
 		readerDone: make(chan struct{}),
 		writerDone: make(chan struct{}),
@@ -287,29 +285,54 @@ func (c *Client) read() ([]byte, error) {
 		}
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[:4]); err != nil {
+	header, err := c.readFull(4)
+	if err != nil {
 		return nil, err
 	}
 
-	size := binary.BigEndian.Uint32(c.readerBuf[:4])
+	size := binary.BigEndian.Uint32(header)
 
 	if c.node.maxRecvMessageSize > 0 && size > c.node.maxRecvMessageSize {
 		return nil, fmt.Errorf("got %d bytes, but limit is set to %d: %w", size, c.node.maxRecvMessageSize, ErrMessageTooLarge)
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[4:size+4]); err != nil {
+	buf, err := c.readFull(int(size))
+	if err != nil {
 		return nil, err
 	}
 
 	if c.suite == nil {
-		return c.readerBuf[4 : size+4], nil
+		return buf, nil
 	}
 
-	buf, err := decryptAEAD(c.suite, c.readerBuf[4:size+4])
-	if err != nil {
-		return nil, err
+	return decryptAEAD(c.suite, buf)
+}
+
+// readFull reads exactly n bytes, which are only valid until the next call of it. No more memory is taken up than is
+// in proportion to what the peer has actually sent.
+func (c *Client) readFull(n int) ([]byte, error) {
+	buf := c.readerBuf[:0]
+
+	for len(buf) < n {
+		if len(buf) == cap(buf) {
+			buf = extendBack(buf, len(buf)+512)[:len(buf)]
+		}
+
+		next := cap(buf)
+		if next > n {
+			next = n
+		}
+
+		m, err := io.ReadFull(c.reader, buf[len(buf):next])
+		if err != nil {
+			return nil, err
+		}
+
+		buf = buf[:len(buf)+m]
 	}
 
+	c.readerBuf = buf
+
 	return buf, nil
 }
 
-- 
2.43.0


From 32d84b8ef49c6eb10ddf1ac2226afd8f5a161a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 14/32] fix: drop outbound connections whose handshake failed

An outbound connection went on to exchange messages after a failed handshake, so that messages of a peer that
proved no identity, and even plaintext ones, reached handlers and callbacks.
---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index cbfec76..7fbffc3 100644
--- a/client.go
+++ b/client.go
@@ -230,6 +230,13 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.handshake()
 
+	if c.Error() != nil {
+		c.close()
+		close(c.writerDone)
+		close(c.readerDone)
+		return
+	}
+
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
-- 
2.43.0


From 804a01046a2d0ba7c17e2ff8d782802b638298e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 15/32] fix: fail pending requests when their connection ends

Requests that were still waiting for a response when their connection was dropped waited until their context
ended, if ever.
---
 client.go |  2 ++
 map.go    | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 7fbffc3..a51517f 100644
--- a/client.go
+++ b/client.go
@@ -193,6 +193,8 @@ func (c *Client) close() {
 		if c.conn != nil {
 			c.conn.Close()
 		}
+
+		c.requests.close()
 	})
 }
 
diff --git a/map.go b/map.go
index 58c9c12..a7609ff 100644
--- a/map.go
+++ b/map.go
@@ -3,6 +3,7 @@ package noise
 import (
 	"container/list"
 	"errors"
+	"io"
 	"math"
 	"sync"
 )
@@ -100,6 +101,7 @@ type requestMap struct {
 	sync.Mutex
 	entries map[uint64]chan message
 	nonce   uint64
+	closed  bool
 }
 
 func newRequestMap() *requestMap {
@@ -110,6 +112,10 @@ func (r *requestMap) nextNonce() (<-chan message, uint64, error) {
 	r.Lock()
 	defer r.Unlock()
 
+	if r.closed {
+		return nil, 0, io.EOF
+	}
+
 	if r.nonce == math.MaxUint64 {
 		r.nonce = 0
 	}
@@ -131,7 +137,12 @@ func (r *requestMap) markRequestFailed(nonce uint64) {
 	r.Lock()
 	defer r.Unlock()
 
-	close(r.entries[nonce])
+	ch, exists := r.entries[nonce]
+	if !exists {
+		return
+	}
+
+	close(ch)
 	delete(r.entries, nonce)
 }
 
@@ -151,6 +162,8 @@ func (r *requestMap) close() {
 	r.Lock()
 	defer r.Unlock()
 
+	r.closed = true
+
 	for nonce := range r.entries {
 		close(r.entries[nonce])
 		delete(r.entries, nonce)
-- 
2.43.0


From 5887045a7ea45c31a6eaed6804b6c34a5ca233fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 16/32] fix: report an error when sending through a closed
 connection

The message was queued, never written, and reported as sent.
---
 client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index a51517f..2c9fd63 100644
--- a/client.go
+++ b/client.go
@@ -372,9 +372,14 @@ func (c *Client) write(data []byte) error {
 
 func (c *Client) send(nonce uint64, data []byte) error {
 	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		return errors.New("connection is closed")
+	}
+
 	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
 	c.writerCond.Signal()
-	c.writerCond.L.Unlock()
 
 	return nil
 }
-- 
2.43.0


From e578aa2be59cd536613e564a1415a49693ef24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 17/32] fix: close a connection that can no longer be written
 to

When writing failed, the connection stayed open and in its pool until reading from it failed as well, which it need
not ever do, and everything sent through it was silently dropped.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 2c9fd63..1e763b5 100644
--- a/client.go
+++ b/client.go
@@ -597,6 +597,7 @@ func (c *Client) recvLoop() {
 
 func (c *Client) writeLoop() {
 	defer close(c.writerDone)
+	defer c.close()
 
 	header := make([]byte, 4)
 	buf := make([]byte, 0, 1024)
-- 
2.43.0


From 2b25b84bb40a38b88da28b45bd14b6c6223da15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 18/32] fix: wait for the writer of a connection before it is
 reported as closed

WaitUntilClosed returned, and OnPeerDisconnected was called, while the goroutine for writing messages might still
be running, and calling OnMessageSent.
---
 client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client.go b/client.go
index 1e763b5..ed324dd 100644
--- a/client.go
+++ b/client.go
@@ -242,6 +242,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	c.Logger().Debug("Peer connection closed.")
 
@@ -277,6 +278,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	for _, protocol := range c.node.protocols {
 		if protocol.OnPeerDisconnected == nil {
-- 
2.43.0


From 675d708fa50ea5e94196a5dddc4756123598fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 19/32] fix: guard the ID of a client that is still handshaking

ID may be called concurrently, and clients are listed by their node before they have an ID, but the handshake set
it without synchronization.
---
 client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index ed324dd..e4886d7 100644
--- a/client.go
+++ b/client.go
@@ -48,7 +48,8 @@ func (c clientSide) String() string {
 type Client struct {
 	node *Node
 
-	id ID
+	idLock sync.RWMutex
+	id     ID
 
 	addr string
 	side clientSide
@@ -111,6 +112,9 @@ func newClient(node *Node) *Client {
 //
 // ID may be called concurrently.
 func (c *Client) ID() ID {
+	c.idLock.RLock()
+	defer c.idLock.RUnlock()
+
 	return c.id
 }
 
@@ -534,7 +538,9 @@ func (c *Client) handshake() {
 		return
 	}
 
+	c.idLock.Lock()
 	c.id = id
+	c.idLock.Unlock()
 
 	c.SetLogger(c.Logger().With(
 		zap.String("peer_id", id.ID.String()),
-- 
2.43.0


From fb624a9bcf64635368c2d6626d03135b5d68310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 20/32] fix: evict connections without waiting for them

The pool stayed locked until an evicted connection had ended, which takes the lock itself to be removed from the
pool, and which does not happen before its callbacks and everything else its goroutines wait for is done: the
whole node could block. As an evicted connection may outlive its entry, it must not remove the entry of a newer
connection to the same address either.
---
 client.go | 4 ++--
 map.go    | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index e4886d7..590cf9d 100644
--- a/client.go
+++ b/client.go
@@ -215,7 +215,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
-		c.node.outbound.remove(addr)
+		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
@@ -264,7 +264,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
-		c.node.inbound.remove(addr)
+		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
diff --git a/map.go b/map.go
index a7609ff..9901b1f 100644
--- a/map.go
+++ b/map.go
@@ -43,7 +43,6 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 			delete(c.entries, evicted)
 
 			e.client.close()
-			e.client.waitUntilClosed()
 		}
 
 		entry.el = c.order.PushFront(addr)
@@ -57,12 +56,12 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	return entry.client, exists
 }
 
-func (c *clientMap) remove(addr string) {
+func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
-	if !exists {
+	if !exists || entry.client != client { // It may have been evicted, and addr may have been connected to again.
 		return
 	}
 
-- 
2.43.0


From d9a79afef2abfc7f5123282b6ffa8aabcdddf20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 21/32] fix: let a client be closed while it is connecting

Closing a client before it had a connection had no effect: it went on to connect, and was then left in a state in
which it could be neither used nor closed. The connection was also read and set without synchronization.
---
 client.go | 64 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/client.go b/client.go
index 590cf9d..d6ad44d 100644
--- a/client.go
+++ b/client.go
@@ -61,7 +61,8 @@ type Client struct {
 		*zap.Logger
 	}
 
-	conn net.Conn
+	conn   net.Conn
+	closed chan struct{} // closed along with writerClosed
 
 	reader *bufio.Reader
 	writer *bufio.Writer
@@ -93,6 +94,8 @@ func newClient(node *Node) *Client {
 
 		requests: newRequestMap(),
 
+		closed: make(chan struct{}),
+
 		ready:      make(chan struct{}),
 		readerDone: make(chan struct{}),
 		writerDone: make(chan struct{}),
@@ -191,6 +194,7 @@ func (c *Client) close() {
 	c.closeOnce.Do(func() {
 		c.writerCond.L.Lock()
 		c.writerClosed = true
+		close(c.closed)
 		c.writerCond.Signal()
 		c.writerCond.L.Unlock()
 
@@ -202,6 +206,46 @@ func (c *Client) close() {
 	})
 }
 
+// attach associates conn to this client. It closes conn instead and throws an error if the client was closed already.
+func (c *Client) attach(conn net.Conn) error {
+	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		conn.Close()
+		return errors.New("connection is closed")
+	}
+
+	c.reader = bufio.NewReader(conn)
+	c.writer = bufio.NewWriter(conn)
+	c.conn = conn
+
+	return nil
+}
+
+// dial connects to addr. It is given up on once ctx is done, or the client is closed.
+func (c *Client) dial(ctx context.Context, addr string) error {
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	go func() {
+		select {
+		case <-c.closed:
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+
+	var dialer net.Dialer
+
+	conn, err := dialer.DialContext(ctx, "tcp", addr)
+	if err != nil {
+		return err
+	}
+
+	return c.attach(conn)
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -219,21 +263,15 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		close(c.clientDone)
 	}()
 
-	var dialer net.Dialer
-
-	conn, err := dialer.DialContext(ctx, "tcp", addr)
-	if err != nil {
+	if err := c.dial(ctx, addr); err != nil {
 		c.reportError(err)
+		c.close()
 		close(c.ready)
 		close(c.writerDone)
 		close(c.readerDone)
 		return
 	}
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
-
 	c.handshake()
 
 	if c.Error() != nil {
@@ -268,9 +306,11 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		close(c.clientDone)
 	}()
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
+	if err := c.attach(conn); err != nil {
+		c.reportError(err)
+		close(c.ready)
+		return
+	}
 
 	c.handshake()
 
-- 
2.43.0


From 9937397557295c7260bdb7721468f3b287b5dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 22/32] fix: keep callers that share a connection independent
 of each other

When the context of one caller ended while it waited for a connection, the connection was closed under everyone
else using or waiting for it, even if it had been live for long, its peer was reported as failed to dial, and the
others took the first caller's context error for their own. The first caller's context also bounded the dial for
everyone. Dials now end when nobody waits for them any longer. An entry of a connection that has ended
but is not yet removed from the pool is replaced instead of counted as a failed attempt to dial.
---
 client.go | 22 +++++++++++++++++-----
 map.go    | 36 ++++++++++++++++++++++++++++++++++++
 node.go   | 21 +++++++++++++++------
 3 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index d6ad44d..2110134 100644
--- a/client.go
+++ b/client.go
@@ -75,6 +75,8 @@ type Client struct {
 
 	requests *requestMap
 
+	waiting int // number of callers waiting for the client to be ready, guarded by the pool it is in
+
 	ready      chan struct{}
 	readerDone chan struct{}
 	writerDone chan struct{}
@@ -223,9 +225,9 @@ func (c *Client) attach(conn net.Conn) error {
 	return nil
 }
 
-// dial connects to addr. It is given up on once ctx is done, or the client is closed.
-func (c *Client) dial(ctx context.Context, addr string) error {
-	ctx, cancel := context.WithCancel(ctx)
+// dial connects to addr. It is given up on once the client is closed.
+func (c *Client) dial(addr string) error {
+	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
 	go func() {
@@ -246,6 +248,16 @@ func (c *Client) dial(ctx context.Context, addr string) error {
 	return c.attach(conn)
 }
 
+// alive returns true if the client has neither failed nor been closed so far.
+func (c *Client) alive() bool {
+	select {
+	case <-c.closed:
+		return false
+	default:
+		return c.Error() == nil
+	}
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -254,7 +266,7 @@ func (c *Client) waitUntilClosed() {
 	<-c.clientDone
 }
 
-func (c *Client) outbound(ctx context.Context, addr string) {
+func (c *Client) outbound(addr string) {
 	c.addr = addr
 	c.side = clientSideInbound
 
@@ -263,7 +275,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		close(c.clientDone)
 	}()
 
-	if err := c.dial(ctx, addr); err != nil {
+	if err := c.dial(addr); err != nil {
 		c.reportError(err)
 		c.close()
 		close(c.ready)
diff --git a/map.go b/map.go
index 9901b1f..b65a9fc 100644
--- a/map.go
+++ b/map.go
@@ -34,6 +34,11 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
+	if exists && !entry.client.alive() { // It is about to be removed.
+		c.delete(addr, entry.client)
+		entry, exists = clientMapEntry{}, false
+	}
+
 	if !exists {
 		if uint(len(c.entries)) == n.maxInboundConnections {
 			el := c.order.Back()
@@ -53,13 +58,44 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 		c.order.MoveToFront(entry.el)
 	}
 
+	entry.client.waiting++
+
 	return entry.client, exists
 }
 
+// leave marks that a caller of get has stopped to wait until client is ready, and returns true if client is a live
+// connection. A client that has failed, or which is not yet ready and which nobody waits for any longer, is closed.
+func (c *clientMap) leave(addr string, client *Client) bool {
+	c.Lock()
+	defer c.Unlock()
+
+	client.waiting--
+
+	select {
+	case <-client.ready:
+		if client.alive() {
+			return true
+		}
+	default:
+		if client.waiting > 0 {
+			return false
+		}
+	}
+
+	client.close()
+	c.delete(addr, client)
+
+	return false
+}
+
 func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
+	c.delete(addr, client)
+}
+
+func (c *clientMap) delete(addr string, client *Client) {
 	entry, exists := c.entries[addr]
 	if !exists || entry.client != client { // It may have been evicted, and addr may have been connected to again.
 		return
diff --git a/node.go b/node.go
index 64f6d65..4071c10 100644
--- a/node.go
+++ b/node.go
@@ -393,12 +393,12 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 	for i := uint(0); i < n.maxDialAttempts; i++ {
 		client, exists := n.outbound.get(n, addr)
 		if !exists {
-			go client.outbound(ctx, addr)
+			go client.outbound(addr)
 		}
 
 		select {
 		case <-ctx.Done():
-			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
+			err = ctx.Err()
 		case <-client.ready:
 			err = client.Error()
 		case <-client.readerDone:
@@ -407,14 +407,23 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 			err = client.Error()
 		}
 
+		live := n.outbound.leave(addr, client)
+
 		if err == nil {
-			return client, nil
+			if live {
+				return client, nil
+			}
+
+			err = errors.New("connection is closed")
 		}
 
-		client.close()
-		client.waitUntilClosed()
+		if ctx.Err() != nil {
+			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
+
+			if live {
+				return nil, err
+			}
 
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
 			for _, protocol := range n.protocols {
 				if protocol.OnPingFailed == nil {
 					continue
-- 
2.43.0


From 0a5f24663ce5aca0c5b8d37ea50730c9f7ae9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 23/32] fix: set the write deadline when there is something to
 write

It was set before waiting for a message, and had long passed when the first message came after a while: the
message was lost and the connection closed, although it was not idle in the other direction.
---
 client.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 2110134..fa78cd4 100644
--- a/client.go
+++ b/client.go
@@ -672,17 +672,6 @@ Write:
 		default:
 		}
 
-		if c.node.idleTimeout > 0 {
-			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-				if !isEOF(err) {
-					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
-				}
-				c.reportError(err)
-
-				break Write
-			}
-		}
-
 		c.writerCond.L.Lock()
 		for len(c.writerBuf) == 0 && !c.writerClosed {
 			c.writerCond.Wait()
@@ -695,6 +684,17 @@ Write:
 			break Write
 		}
 
+		if c.node.idleTimeout > 0 {
+			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
+				if !isEOF(err) {
+					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
+				}
+				c.reportError(err)
+
+				break Write
+			}
+		}
+
 		for _, msg := range writerBuf {
 			buf = buf[:0]
 			buf = msg.marshal(buf)
-- 
2.43.0


From 978e8bdc221ce6ca7392618d2f40ee75277a3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 24/32] fix: do not time out a connection that is only written
 to

The idle timeout is documented to be a duration without any subsequent reads or writes, but a connection was closed
if nothing had been read for that long, whatever was being written to it.
---
 client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/client.go b/client.go
index fa78cd4..81756fe 100644
--- a/client.go
+++ b/client.go
@@ -739,6 +739,17 @@ Write:
 			break Write
 		}
 
+		if c.node.idleTimeout > 0 { // A connection is not idle as long as there are writes to it.
+			if err := c.conn.SetReadDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
+				if !isEOF(err) {
+					c.Logger().Warn("Got an error setting read deadline.", zap.Error(err))
+				}
+				c.reportError(err)
+
+				break Write
+			}
+		}
+
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageSent == nil {
 				continue
-- 
2.43.0


From 01093c83675ea0595bebb306111979f9d75be57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 25/32] fix: call OnMessageRecv for responses

It is documented to be called for messages and responses, but was not called for responses. The overlay relies on
it to keep track of the peers that are alive.
---
 client.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 81756fe..1bdd2cc 100644
--- a/client.go
+++ b/client.go
@@ -639,12 +639,10 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-
-			continue
+		} else {
+			c.node.work <- HandlerContext{client: c, msg: msg, sent: new(atomic.Bool)}
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg, sent: new(atomic.Bool)}
-
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
 				continue
-- 
2.43.0


From 88147ced20d6d9c9bd7869a3206e4a173b034645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 26/32] fix: make Bind and Handle safe to be called
 concurrently

Both are documented to be, but lost registrations when they were, and took effect on a node that Listen had
returned for until its goroutine was scheduled. A protocol that was bound while Listen ran could be left without
its Bind being called.
---
 node.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 4071c10..3d6a9a5 100644
--- a/node.go
+++ b/node.go
@@ -43,6 +43,7 @@ type Node struct {
 
 	listener  net.Listener
 	listening atomic.Bool
+	setup     sync.Mutex // guards protocols, handlers, and the start of listening
 
 	outbound *clientMap
 	inbound  *clientMap
@@ -164,7 +165,20 @@ func (n *Node) Listen() error {
 		n.id = NewID(n.publicKey, host, uint16(port))
 	}
 
-	for _, protocol := range n.protocols {
+	for i := 0; ; i++ {
+		n.setup.Lock()
+
+		if i == len(n.protocols) {
+			n.listening.Store(true)
+			n.setup.Unlock()
+
+			break
+		}
+
+		protocol := n.protocols[i]
+
+		n.setup.Unlock()
+
 		if protocol.Bind == nil {
 			continue
 		}
@@ -197,8 +211,6 @@ func (n *Node) Listen() error {
 	}
 
 	go func() {
-		n.listening.Store(true)
-
 		defer func() {
 			n.inbound.release()
 
@@ -456,6 +468,9 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 //
 // Bind may be called concurrently.
 func (n *Node) Bind(protocols ...Protocol) {
+	n.setup.Lock()
+	defer n.setup.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
@@ -470,6 +485,9 @@ func (n *Node) Bind(protocols ...Protocol) {
 //
 // Handle may be called concurrently.
 func (n *Node) Handle(handlers ...Handler) {
+	n.setup.Lock()
+	defer n.setup.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
-- 
2.43.0


From af8bfccbc02ea1dcb3784ab5e9a99bdc6e1f4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 27/32] fix: make Close end every connection, and return from
 any state

Close hung on a node that was not listening, whose Listen had failed or had just returned, or when it was called
from a handler. It left all outbound connections open, let new ones be dialed, and made the node panic when one of
them received a message afterwards, as workers were fed through a channel that was closed. It does not wait for
handlers any more, which may wait for it.
---
 client.go |   6 +++-
 map.go    |  15 +++++---
 node.go   | 104 +++++++++++++++++++++++++++++++++++++-----------------
 3 files changed, 87 insertions(+), 38 deletions(-)

diff --git a/client.go b/client.go
index 1bdd2cc..e447fbe 100644
--- a/client.go
+++ b/client.go
@@ -640,7 +640,11 @@ func (c *Client) recvLoop() {
 			ch <- msg
 			close(ch)
 		} else {
-			c.node.work <- HandlerContext{client: c, msg: msg, sent: new(atomic.Bool)}
+			select {
+			case c.node.work <- HandlerContext{client: c, msg: msg, sent: new(atomic.Bool)}:
+			case <-c.closed:
+				return
+			}
 		}
 
 		for _, protocol := range c.node.protocols {
diff --git a/map.go b/map.go
index b65a9fc..232a760 100644
--- a/map.go
+++ b/map.go
@@ -16,9 +16,10 @@ type clientMapEntry struct {
 type clientMap struct {
 	sync.Mutex
 
-	cap     uint
-	order   *list.List
-	entries map[string]clientMapEntry
+	cap      uint
+	order    *list.List
+	entries  map[string]clientMapEntry
+	released bool
 }
 
 func newClientMap(cap uint) *clientMap {
@@ -29,10 +30,16 @@ func newClientMap(cap uint) *clientMap {
 	}
 }
 
+// get returns the client for addr, which is created if there is none yet. No client is returned if the pool has been
+// released.
 func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	c.Lock()
 	defer c.Unlock()
 
+	if c.released {
+		return nil, false
+	}
+
 	entry, exists := c.entries[addr]
 	if exists && !entry.client.alive() { // It is about to be removed.
 		c.delete(addr, entry.client)
@@ -108,6 +115,7 @@ func (c *clientMap) delete(addr string, client *Client) {
 func (c *clientMap) release() {
 	c.Lock()
 
+	c.released = true
 	entries := c.entries
 	c.entries = make(map[string]clientMapEntry, c.cap)
 	c.order.Init()
@@ -116,7 +124,6 @@ func (c *clientMap) release() {
 
 	for _, e := range entries {
 		e.client.close()
-		e.client.waitUntilClosed()
 	}
 }
 
diff --git a/node.go b/node.go
index 3d6a9a5..c937f56 100644
--- a/node.go
+++ b/node.go
@@ -52,17 +52,20 @@ type Node struct {
 	protocols []Protocol
 	handlers  []Handler
 
-	workers sync.WaitGroup
-	work    chan HandlerContext
+	work chan HandlerContext
 
-	listenerDone chan error
+	listenerDone chan struct{}
+
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 // NewNode instantiates a new node instance, and pre-configures the node with provided options.
 // Default values for some non-specified options are instantiated as well, which may yield an error.
 func NewNode(opts ...NodeOption) (*Node, error) {
 	n := &Node{
-		listenerDone: make(chan error, 1),
+		listenerDone: make(chan struct{}),
+		closed:       make(chan struct{}),
 
 		maxDialAttempts:        3,
 		maxInboundConnections:  128,
@@ -168,6 +171,13 @@ func (n *Node) Listen() error {
 	for i := 0; ; i++ {
 		n.setup.Lock()
 
+		if n.isClosed() {
+			n.setup.Unlock()
+			n.listener.Close()
+
+			return errors.New("node is closed")
+		}
+
 		if i == len(n.protocols) {
 			n.listening.Store(true)
 			n.setup.Unlock()
@@ -190,20 +200,22 @@ func (n *Node) Listen() error {
 	}
 
 	n.work = make(chan HandlerContext, int(n.numWorkers))
-	n.workers.Add(int(n.numWorkers))
 
 	for i := uint(0); i < n.numWorkers; i++ {
 		go func() {
-			defer n.workers.Done()
-
-			for ctx := range n.work {
-				for _, handler := range n.handlers {
-					if err := handler(ctx); err != nil {
-						ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
-						ctx.client.reportError(err)
-						ctx.client.close()
-
-						break
+			for {
+				select {
+				case <-n.closed:
+					return
+				case ctx := <-n.work:
+					for _, handler := range n.handlers {
+						if err := handler(ctx); err != nil {
+							ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
+							ctx.client.reportError(err)
+							ctx.client.close()
+
+							break
+						}
 					}
 				}
 			}
@@ -211,15 +223,7 @@ func (n *Node) Listen() error {
 	}
 
 	go func() {
-		defer func() {
-			n.inbound.release()
-
-			close(n.work)
-			n.workers.Wait()
-
-			n.listening.Store(false)
-			close(n.listenerDone)
-		}()
+		defer close(n.listenerDone)
 
 		n.logger.Info("Listening for incoming peers.",
 			zap.String("bind_addr", addr.String()),
@@ -231,13 +235,17 @@ func (n *Node) Listen() error {
 		for {
 			conn, err := n.listener.Accept()
 			if err != nil {
-				n.listenerDone <- err
 				break
 			}
 
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
+			if client == nil {
+				conn.Close()
+				continue
+			}
+
 			if !exists {
 				go client.inbound(conn, addr)
 			}
@@ -386,17 +394,42 @@ func (n *Node) Ping(ctx context.Context, addr string) (*Client, error) {
 // from handling/accepting new incoming peer connections. It returns an error if an error occurs closing the nodes
 // listener. Nodes that are closed should not ever be re-used.
 //
+// Close does not wait for handlers and callbacks that are still running, and so may be called by them.
+//
 // Close may be called concurrently.
 func (n *Node) Close() error {
-	if n.listening.CAS(true, false) {
-		if err := n.listener.Close(); err != nil {
-			return err
+	var err error
+
+	n.closeOnce.Do(func() {
+		n.setup.Lock()
+		listening := n.listening.Load()
+		close(n.closed)
+		n.setup.Unlock()
+
+		if listening {
+			err = n.listener.Close()
 		}
-	}
 
-	<-n.listenerDone
+		n.inbound.release()
+		n.outbound.release()
 
-	return nil
+		if listening {
+			<-n.listenerDone
+		}
+
+		n.listening.Store(false)
+	})
+
+	return err
+}
+
+func (n *Node) isClosed() bool {
+	select {
+	case <-n.closed:
+		return true
+	default:
+		return false
+	}
 }
 
 func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error) {
@@ -404,6 +437,11 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 	for i := uint(0); i < n.maxDialAttempts; i++ {
 		client, exists := n.outbound.get(n, addr)
+		if client == nil {
+			err = errors.New("node is closed")
+			break
+		}
+
 		if !exists {
 			go client.outbound(addr)
 		}
@@ -471,7 +509,7 @@ func (n *Node) Bind(protocols ...Protocol) {
 	n.setup.Lock()
 	defer n.setup.Unlock()
 
-	if n.listening.Load() {
+	if n.listening.Load() || n.isClosed() {
 		return
 	}
 
@@ -488,7 +526,7 @@ func (n *Node) Handle(handlers ...Handler) {
 	n.setup.Lock()
 	defer n.setup.Unlock()
 
-	if n.listening.Load() {
+	if n.listening.Load() || n.isClosed() {
 		return
 	}
 
-- 
2.43.0


From a407115d1e9fd8c214580e91dd9c8e38441f77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 28/32] fix: keep accepting connections after a failure to
 accept one

A failure that passes, such as having run out of file descriptors, ended the listener's goroutine and closed all
inbound connections while the node remained bound to its port, to which nobody could connect any longer.
---
 node.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index c937f56..be5e39f 100644
--- a/node.go
+++ b/node.go
@@ -232,12 +232,28 @@ func (n *Node) Listen() error {
 			zap.String("private_key", n.privateKey.String()),
 		)
 
+		var delay time.Duration
+
 		for {
 			conn, err := n.listener.Accept()
 			if err != nil {
-				break
+				// Accepting connections may fail for a while, i.e. for lack of file descriptors.
+
+				if delay = 2*delay + 5*time.Millisecond; delay > time.Second {
+					delay = time.Second
+				}
+
+				select {
+				case <-n.closed:
+					return
+				case <-time.After(delay):
+				}
+
+				continue
 			}
 
+			delay = 0
+
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-- 
2.43.0


From 16a184211e781610df509e13dedb8037ea2def5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 29/32] fix: serve a connection from a remote address that is
 still in the pool

The connection was neither served nor closed when an earlier connection from the same address and port had not yet
been removed from the pool, i.e. as a callback of it was still running.
---
 node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index be5e39f..db8111c 100644
--- a/node.go
+++ b/node.go
@@ -257,14 +257,17 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
+			if exists { // The remote end of an earlier connection is gone if its address is used again.
+				client.close()
+				client, _ = n.inbound.get(n, addr)
+			}
+
 			if client == nil {
 				conn.Close()
 				continue
 			}
 
-			if !exists {
-				go client.inbound(conn, addr)
-			}
+			go client.inbound(conn, addr)
 		}
 	}()
 
-- 
2.43.0


From e750d13ab46e4cb0760912bd697420b893e4efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 30/32] fix: record why a connection ended that is closed while
 its messages wait for a worker

Since waiting for a worker ends once the connection is closed, the connection
could end without an error being recorded.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index e447fbe..98d9778 100644
--- a/client.go
+++ b/client.go
@@ -643,6 +643,7 @@ func (c *Client) recvLoop() {
 			select {
 			case c.node.work <- HandlerContext{client: c, msg: msg, sent: new(atomic.Bool)}:
 			case <-c.closed:
+				c.reportError(errors.New("connection is closed"))
 				return
 			}
 		}
-- 
2.43.0


From 5731f0827435d4a6698c4bd754e51b4d41592b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 31/32] fix: do not hold the codec's lock while marshaling and
 decoding

A message whose Marshal encodes, or whose decoder decodes, another message took the lock recursively for reading,
which deadlocks as soon as a type is being registered.
---
 codec.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index 5ccfb0d..0996726 100644
--- a/codec.go
+++ b/codec.go
@@ -57,21 +57,24 @@ func (c *codec) register(ser Serializable, de interface{}) uint16 {
 }
 
 func (c *codec) encode(msg Serializable) ([]byte, error) {
-	c.RLock()
-	defer c.RUnlock()
-
 	t := reflect.TypeOf(msg)
 
 	if t == nil {
 		return nil, errors.New("cannot encode a nil message")
 	}
 
+	// The lock is not held while marshaling, which may encode other messages.
+
+	c.RLock()
+
 	opcode, registered := c.ser[t]
 	if !registered && t.Kind() == reflect.Ptr {
 		t = t.Elem()
 		opcode, registered = c.ser[t]
 	}
 
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
@@ -90,10 +93,12 @@ func (c *codec) decode(data []byte) (Serializable, error) {
 	opcode := binary.BigEndian.Uint16(data[:2])
 	data = data[2:]
 
-	c.RLock()
-	defer c.RUnlock()
+	// The lock is not held while decoding, which may decode other messages.
 
+	c.RLock()
 	decoder, registered := c.de[opcode]
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode %d is not registered", opcode)
 	}
-- 
2.43.0


From a9aaf03b286ffdd3209cdc2e3e47e613142f6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:41 +0000
Subject: [PATCH 32/32] fix: report admitted and evicted peers in the order in
 which the routing table changed

---
 kademlia/protocol.go | 80 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 16 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index feb45ab..4f3c3f6 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"github.com/perlin-network/noise"
 	"go.uber.org/zap"
+	"sync"
 	"time"
 )
 
@@ -27,6 +28,10 @@ type Protocol struct {
 
 	events Events
 
+	dueLock   sync.Mutex
+	due       []func() // callbacks of events that are yet to be called
+	reporting bool
+
 	pingTimeout time.Duration
 }
 
@@ -96,7 +101,7 @@ func (p *Protocol) Table() *Table {
 // peer ID at the tail of the bucket is evicted and your peer ID is inserted to the head of the bucket.
 func (p *Protocol) Ack(id noise.ID) {
 	for {
-		inserted, err := p.table.Update(id)
+		inserted, err := p.admit(id)
 		if err == nil {
 			if inserted {
 				p.logger.Debug("Peer was inserted into routing table.",
@@ -106,9 +111,7 @@ func (p *Protocol) Ack(id noise.ID) {
 			}
 
 			if inserted {
-				if p.events.OnPeerAdmitted != nil {
-					p.events.OnPeerAdmitted(id)
-				}
+				p.report()
 			} else {
 				if p.events.OnPeerActivity != nil {
 					p.events.OnPeerActivity(id)
@@ -128,31 +131,27 @@ func (p *Protocol) Ack(id noise.ID) {
 		cancel()
 
 		if err != nil {
-			if id, deleted := p.table.Delete(last.ID); deleted {
+			if id, deleted := p.evict(func() (noise.ID, bool) { return p.table.Delete(last.ID) }); deleted {
 				p.logger.Debug("Peer was evicted from routing table by failing to be pinged.",
 					zap.String("peer_id", id.String()),
 					zap.String("peer_addr", id.Address),
 					zap.Error(err),
 				)
 
-				if p.events.OnPeerEvicted != nil {
-					p.events.OnPeerEvicted(id)
-				}
+				p.report()
 			}
 			continue
 		}
 
 		if _, ok := pong.(Pong); !ok {
-			if id, deleted := p.table.Delete(last.ID); deleted {
+			if id, deleted := p.evict(func() (noise.ID, bool) { return p.table.Delete(last.ID) }); deleted {
 				p.logger.Debug("Peer was evicted from routing table by failing to be pinged.",
 					zap.String("peer_id", id.String()),
 					zap.String("peer_addr", id.Address),
 					zap.Error(err),
 				)
 
-				if p.events.OnPeerEvicted != nil {
-					p.events.OnPeerEvicted(id)
-				}
+				p.report()
 			}
 			continue
 		}
@@ -166,6 +165,57 @@ func (p *Protocol) Ack(id noise.ID) {
 	}
 }
 
+// admit attempts to insert id into the routing table. OnPeerAdmitted is due to be called by report if id was inserted.
+func (p *Protocol) admit(id noise.ID) (bool, error) {
+	p.dueLock.Lock()
+	defer p.dueLock.Unlock()
+
+	inserted, err := p.table.Update(id)
+	if inserted && p.events.OnPeerAdmitted != nil {
+		p.due = append(p.due, func() { p.events.OnPeerAdmitted(id) })
+	}
+
+	return inserted, err
+}
+
+// evict executes remove, which removes an id from the routing table. OnPeerEvicted is due to be called by report if an
+// id was removed.
+func (p *Protocol) evict(remove func() (noise.ID, bool)) (noise.ID, bool) {
+	p.dueLock.Lock()
+	defer p.dueLock.Unlock()
+
+	id, deleted := remove()
+	if deleted && p.events.OnPeerEvicted != nil {
+		p.due = append(p.due, func() { p.events.OnPeerEvicted(id) })
+	}
+
+	return id, deleted
+}
+
+// report calls the callbacks that are due, one after another, in the order in which the routing table was changed. It
+// leaves that to the goroutine that is doing so already, if any.
+func (p *Protocol) report() {
+	p.dueLock.Lock()
+	defer p.dueLock.Unlock()
+
+	if p.reporting {
+		return
+	}
+
+	p.reporting = true
+
+	for len(p.due) > 0 {
+		next := p.due[0]
+		p.due = p.due[1:]
+
+		p.dueLock.Unlock()
+		next()
+		p.dueLock.Lock()
+	}
+
+	p.reporting = false
+}
+
 // Protocol returns a noise.Protocol that may registered to a node via (*noise.Node).Bind.
 func (p *Protocol) Protocol() noise.Protocol {
 	return noise.Protocol{
@@ -205,12 +255,10 @@ func (p *Protocol) OnPeerConnected(client *noise.Client) {
 
 // OnPingFailed evicts peers that your node has failed to dial.
 func (p *Protocol) OnPingFailed(addr string, err error) {
-	if id, deleted := p.table.DeleteByAddress(addr); deleted {
+	if _, deleted := p.evict(func() (noise.ID, bool) { return p.table.DeleteByAddress(addr) }); deleted {
 		p.logger.Debug("Peer was evicted from routing table by failing to be dialed.", zap.Error(err))
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
+		p.report()
 	}
 }
 
-- 
2.43.0

