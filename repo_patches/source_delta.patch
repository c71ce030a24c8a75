From ad8ed5849ce90e48376a3b4601a0c8cc340ea39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 01/16] fix: reject negative bulk string lengths instead of
 panicking

---
 pkg/protocol/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 92c4a96..7529c35 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -94,6 +94,8 @@ func (r *respReader) readString() (RedisString, error) {
 		// real string section
 		if sLen == -1 {
 			return NewNullBulkRedisString(), nil
+		} else if sLen < 0 {
+			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
-- 
2.43.0


From 1570850b641c424c1c07b84e925741a902c33aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 02/16] fix: never match the sentinel nodes of a linked list

---
 pkg/container/list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 4b80379..231a950 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -107,7 +107,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 		count = l.size
 	}
 
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail && removed < count {
 		if cur.data.Equals(key) {
@@ -126,7 +126,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 func (l *linkedList) deleteFromTail(count int, key *StringContainer) int {
 	removed := 0
 
-	cur := l.tail
+	cur := l.tail.prev
 
 	for cur != l.head && removed < count {
 		if cur.data.Equals(key) {
@@ -276,7 +276,7 @@ func (l *linkedList) PopTail() (*StringContainer, error) {
 }
 
 func (l *linkedList) Insert(pivot, data *StringContainer, after bool) (int, error) {
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail {
 		if cur.data.Equals(pivot) {
-- 
2.43.0


From d092ce227aaf2b353146bbd88976673c2e2b4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 03/16] fix: resolve the right bound of a list range only once

---
 pkg/container/list.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 231a950..9d8bd8b 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -159,12 +159,6 @@ func (l *linkedList) extract(index int) *listNode {
 
 // Avoid traverse twice
 func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
-	right = util.NewIndex(right).ResolveRaw(l.size)
-
-	if right >= l.size {
-		right = l.size - 1
-	}
-
 	normLeft, normRight := util.NewSlice(left, right).Resolve(l.size)
 
 	if normLeft != -1 && normRight != -1 {
-- 
2.43.0


From 2ab73294d356f928c1f7c6d270a84727918ddcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 04/16] fix: order the empty string before every other string

---
 pkg/util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 3bc988b..d6a1eeb 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -69,6 +69,10 @@ func LexicalCompare(lhs, rhs string) int {
 
 	if lhsLen == rhsLen {
 		return 0
+	} else if lhsLen == 0 {
+		return -1
+	} else if rhsLen == 0 {
+		return 1
 	} else if lhsLen < rhsLen {
 		return -lhsLen
 	}
-- 
2.43.0


From acced6c87d44cf172755dc67d1f4fadf3bb21152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 05/16] fix: reply null when picking from an empty set

---
 pkg/command/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 44d8a10..9c78801 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -591,7 +591,7 @@ func (s *spopCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
@@ -713,7 +713,7 @@ func (s *srandmemberCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).RandomMember(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
-- 
2.43.0


From 2fabc77f9964c449c54f49450902daf394171596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 06/16] fix: do not panic when a set or hash is addressed by an
 empty key

---
 pkg/command/hash.go |  5 +++++
 pkg/command/set.go  | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index f143b49..50ebed8 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -121,6 +121,11 @@ func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (h *hsetCommand) Execute() {
+	if h.accessObject == nil {
+		h.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if h.accessObject.Type() != h.TargetContainerType() {
 		h.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", h.TargetContainerType(), h.accessObject.Type())
 		return
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 9c78801..a953594 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -192,6 +192,11 @@ func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *saddCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
@@ -467,6 +472,11 @@ func (s *sremCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *sremCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
-- 
2.43.0


From ae4f920a57504f30ca98a038dd13623fe9663e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 07/16] fix: reject hset without any field before it creates
 the hash

---
 pkg/command/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index 50ebed8..0ff9144 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -90,7 +90,7 @@ func (h *hsetCommand) Name() string {
 func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 	length := len(objects)
 
-	if length%2 != 1 {
+	if length <= 1 || length%2 != 1 {
 		return ErrArgumentInvalid
 	}
 
-- 
2.43.0


From 34b2c0327049f2cd96697b7be91c42f79a1ed968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 08/16] fix: classify ltrim as a modifying command

---
 pkg/command/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/list.go b/pkg/command/list.go
index 8ceac19..2003e08 100644
--- a/pkg/command/list.go
+++ b/pkg/command/list.go
@@ -1010,7 +1010,7 @@ func (l *ltrimCommand) ToLog() string {
 }
 
 func (l *ltrimCommand) Type() CommandType {
-	return AccessCommandType
+	return ModifyCommandType
 }
 
 func (l *ltrimCommand) Keys() []string {
-- 
2.43.0


From 86941137016e687dd613a4104f5092c7a9b068cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 09/16] fix: log modifying requests in execution order

---
 pkg/db/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5d40462..1638ec8 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -122,7 +122,7 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	}
 
 	if c.Type() == command.ModifyCommandType {
-		go e.writeLog(name, 1, objects)
+		e.writeLog(name, 1, objects)
 	}
 
 	db := e.getOrCreateDB(1)
-- 
2.43.0


From 55b7ed8c4861e0f47ff50209c54972c41789a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 10/16] fix: do not panic when stopping an engine without
 master or log file

---
 pkg/db/engine.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 1638ec8..b2e7b2e 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -197,8 +197,14 @@ Outer:
 }
 
 func (e *engine) Stop() {
-	e.master.Stop()
-	_ = e.file.Flush()
+	if e.master != nil {
+		e.master.Stop()
+	}
+
+	if e.file != nil {
+		_ = e.file.Flush()
+	}
+
 	close(e.shutChan)
 }
 
-- 
2.43.0


From ce3391f8684a7fd1a1f95fb69d244628fca2230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 11/16] fix: report a log truncated inside a record header

---
 pkg/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index d6a1eeb..deaf2ab 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -103,14 +103,14 @@ func QuoteJoin(s []string, sep string) string {
 }
 
 // ReadExactBytes will takes an ByteReader then read exact count bytes to a byte slice.
-// Any error raised by the ByteReader will be directly returned.
+// Any error raised by the ByteReader will be directly returned, along with the bytes read before it.
 func ReadExactBytes(reader io.ByteReader, count int) ([]byte, error) {
 	var ret []byte
 
 	for idx := 0; idx < count; idx++ {
 		b, err := reader.ReadByte()
 		if err != nil {
-			return nil, err
+			return ret, err
 		}
 
 		ret = append(ret, b)
-- 
2.43.0


From 9f48e6d81d8f015021d579939ea571eb98992d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 12/16] fix: close the client connections when the server stops

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index ee3f5c7..489d329 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -291,7 +291,7 @@ func (s *server) stop() {
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-			c, ok := value.(conn)
+			c, ok := value.(Conn)
 			if ok {
 				_ = c.Close()
 			}
-- 
2.43.0


From 55d85a996524a1452e839caa136d95a25e90aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 13/16] fix: hold the master lock while closing its connections

---
 pkg/replication/master.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3067cae..2b34968 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -83,7 +83,7 @@ func (m *master) start() {
 func (m *master) stop() {
 	if atomic.CompareAndSwapInt32(&m.shutdown, 0, 1) {
 		m.mutex.Lock()
-		m.mutex.Unlock()
+		defer m.mutex.Unlock()
 
 		for _, conn := range m.conn {
 			_ = conn.Close()
-- 
2.43.0


From dc1f02277aa440532c36da6703a6e66d657c75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 14/16] fix: reject increments that overflow a 64-bit integer

---
 pkg/container/string.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/container/string.go b/pkg/container/string.go
index a946b89..a7a3e2d 100644
--- a/pkg/container/string.go
+++ b/pkg/container/string.go
@@ -3,6 +3,7 @@ package container
 import (
 	"errors"
 	"hash/fnv"
+	"math"
 
 	"github.com/lxdlam/vertex/pkg/util"
 
@@ -126,9 +127,14 @@ func (s *StringContainer) AsIntObject() (protocol.RedisInteger, error) {
 }
 
 // Increase will test if the string can be represent as int, then increase the number by the increment.
-// The string will be updated too.
+// The string will be updated too. An increment that leaves the range of int64 is rejected.
 func (s *StringContainer) Increase(increment int64) (int64, error) {
 	if s.IsInt() {
+		cur := s.intVar.Get()
+		if (increment > 0 && cur > math.MaxInt64-increment) || (increment < 0 && cur < math.MinInt64-increment) {
+			return 0, ErrNotAInt
+		}
+
 		s.intVar.Increase(increment)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
@@ -138,9 +144,14 @@ func (s *StringContainer) Increase(increment int64) (int64, error) {
 }
 
 // Decrease will test if the string can be represent as int, then decrease the number by the decrement.
-// The string will be updated too.
+// The string will be updated too. A decrement that leaves the range of int64 is rejected.
 func (s *StringContainer) Decrease(decrement int64) (int64, error) {
 	if s.IsInt() {
+		cur := s.intVar.Get()
+		if (decrement < 0 && cur > math.MaxInt64+decrement) || (decrement > 0 && cur < math.MinInt64+decrement) {
+			return 0, ErrNotAInt
+		}
+
 		s.intVar.Decrease(decrement)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
-- 
2.43.0


From 6d352641890dbe022c61376990dbf34e7fc669e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 15/16] fix: remove every match for the smallest negative count

---
 pkg/container/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 9d8bd8b..8cf5dba 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -308,6 +308,12 @@ func (l *linkedList) Set(index int, data *StringContainer) error {
 
 func (l *linkedList) Remove(count int, key *StringContainer) int {
 	var removed int
+
+	// The negation of the smallest integer overflows, and no more than size elements can be removed.
+	if count < -l.size {
+		count = -l.size
+	}
+
 	if count >= 0 {
 		removed = l.deleteFromHead(count, key)
 	} else {
-- 
2.43.0


From e797c983224a21659b82532110ce7d5252ad0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 16/16] fix: do not panic when an event carries something else
 than a data map

---
 pkg/db/engine.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index b2e7b2e..f198e2f 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"net"
 	"os"
-	"reflect"
 	"strings"
 	"sync"
 
@@ -169,7 +168,7 @@ Outer:
 
 			data, ok := event.Data().(types.DataMap)
 			if !ok {
-				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%s", event.ID(), reflect.TypeOf(data).String())
+				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%T", event.ID(), event.Data())
 				break
 			}
 
-- 
2.43.0

