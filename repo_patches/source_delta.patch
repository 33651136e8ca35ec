From ab85aa765180a639f8cb0bc8d8767ec3c1dd326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 01/22] fix: fetch never answered when a record exceeds the
 remaining partition byte limit

---
 fetch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fetch.go b/fetch.go
index aabbc16..5de688d 100644
--- a/fetch.go
+++ b/fetch.go
@@ -90,6 +90,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 					hasOne = true
 					if fd.ms.appendMessage(rec, fd.maxSize) {
 						fd.offset++
+					} else {
+						// the partition's byte limit is reached
+						fd.kp = nil
 					}
 				}
 			}
-- 
2.43.0


From ba3d22eb8e8ba7dd775f37922e8695739808851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 02/22] fix: fetch answered every partition of a topic with the
 first partition's data

---
 fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index 5de688d..fc72e6b 100644
--- a/fetch.go
+++ b/fetch.go
@@ -128,15 +128,15 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	n := 0
 	for _, topic := range request.Topics {
-		fd := fds[n]
-		n++
-
 		fr := &fetchResponse{
 			Topic:      topic.Topic,
 			Partitions: []fetchResponsePartition{},
 		}
 
 		for _, par := range topic.Partitions {
+			fd := fds[n]
+			n++
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				HighWatermark:  int64(fd.offset),
-- 
2.43.0


From f4d9c39b91dac858fe8e51a86642d0fd398010b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 03/22] fix: fetch with a negative offset crashed the mock

---
 fetch.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index fc72e6b..23c17aa 100644
--- a/fetch.go
+++ b/fetch.go
@@ -44,6 +44,7 @@ type (
 	fetchData struct {
 		kp      *kafkaPartition
 		offset  int
+		code    kafkaErrorCode
 		maxSize int
 		ms      *messageSetV1
 	}
@@ -58,6 +59,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 	// establish which topics/partitions to fetch
 	// the client assumes they pre-exist
 	fds := []*fetchData{}
+	hasOne := false
 	for _, topic := range request.Topics {
 		kt := kc.ds.getTopic((topic.Topic))
 
@@ -68,12 +70,17 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			}
 
 			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
+			if fd.kp != nil && fd.offset < 0 {
+				// there is nothing to wait for
+				fd.kp = nil
+				fd.code = OffsetOutOfRange
+				hasOne = true
+			}
 			fds = append(fds, fd)
 		}
 	}
 
 	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)
-	hasOne := false
 	for {
 		more := false
 		for _, fd := range fds {
@@ -139,6 +146,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
+				ErrorCode:      int16(fd.code),
 				HighWatermark:  int64(fd.offset),
 				Records:        fd.ms,
 			}
-- 
2.43.0


From 004b843046d604238ce1b1b2be4d800544a8fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 04/22] fix: fetch reported the next fetch position as the high
 watermark

---
 fetch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index 23c17aa..5dfa1ab 100644
--- a/fetch.go
+++ b/fetch.go
@@ -45,6 +45,7 @@ type (
 		kp      *kafkaPartition
 		offset  int
 		code    kafkaErrorCode
+		hwm     int64
 		maxSize int
 		ms      *messageSetV1
 	}
@@ -72,6 +73,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
 			if fd.kp != nil && fd.offset < 0 {
 				// there is nothing to wait for
+				kp.lock()
+				fd.hwm = int64(len(kp.Records))
+				kp.unlock()
 				fd.kp = nil
 				fd.code = OffsetOutOfRange
 				hasOne = true
@@ -87,6 +91,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			if fd.kp != nil {
 				var rec *kafkaRecord
 				fd.kp.lock()
+				fd.hwm = int64(len(fd.kp.Records))
 				if fd.offset < len(fd.kp.Records) {
 					rec = fd.kp.Records[fd.offset]
 				}
@@ -147,7 +152,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				ErrorCode:      int16(fd.code),
-				HighWatermark:  int64(fd.offset),
+				HighWatermark:  fd.hwm,
 				Records:        fd.ms,
 			}
 
-- 
2.43.0


From 1f08075d13d5225fecaea5cbbcfb7f54f3b1d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 05/22] fix: list offsets read a partition's records without
 its lock

---
 list_offsets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/list_offsets.go b/list_offsets.go
index c1ef01a..a5bb954 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -59,6 +59,7 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 			if kp == nil {
 				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
 			} else {
+				kp.lock()
 				if p.Timestamp == -1 {
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
 				} else if p.Timestamp == -2 {
@@ -82,6 +83,7 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					}
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
 				}
+				kp.unlock()
 			}
 		}
 
-- 
2.43.0


From cbc1b70d652fdb1acb4fa4100008d2b34d217633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 06/22] fix: list offsets by timestamp returned the timestamp
 of the record before the answer

---
 list_offsets.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/list_offsets.go b/list_offsets.go
index a5bb954..8e7e03e 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -71,15 +71,15 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					}
 				} else {
 					// slow but this is just a mock
-					offset := int64(0)
+					offset := int64(len(kp.Records))
 					ts := int64(0)
 					for i := len(kp.Records) - 1; i >= 0; i-- {
 						msg := kp.Records[i]
-						ts = msg.Timestamp
 						if msg.Timestamp < p.Timestamp {
-							offset = int64(i + 1)
 							break
 						}
+						offset = int64(i)
+						ts = msg.Timestamp
 					}
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
 				}
-- 
2.43.0


From d45472f43f927d43c3e369eab7048bd0c6ddaca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 07/22] fix: group assignment read the topic and partition maps
 without their locks

---
 sync_group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync_group.go b/sync_group.go
index 201ea57..c034baf 100644
--- a/sync_group.go
+++ b/sync_group.go
@@ -55,12 +55,17 @@ func syncGroupV0(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 func makeMemberAssignment(ds *kafkaDataStore) []byte {
 	// assign all topics & partitions to this client
+	ds.mu.Lock()
+	defer ds.mu.Unlock()
+
 	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
 	for name, topic := range ds.Topics {
+		topic.mu.Lock()
 		pars := make([]int32, 0, len(topic.Partitions))
 		for _, par := range topic.Partitions {
 			pars = append(pars, par.Index)
 		}
+		topic.mu.Unlock()
 
 		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
 	}
-- 
2.43.0


From ec9aba4d8eafdaabbcb205824c55b2b5efd17d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 08/22] fix: a null array in a request crashed the mock

---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index b7b436d..ee83740 100644
--- a/decoder.go
+++ b/decoder.go
@@ -566,8 +566,10 @@ func peekObjectStruct(reader *bufio.Reader, offset int, tt reflect.Type) (next i
 		if next < 0 {
 			return
 		}
-		f := o.Elem().Field(i)
-		f.Set(reflect.ValueOf(v))
+		if v != nil {
+			f := o.Elem().Field(i)
+			f.Set(reflect.ValueOf(v))
+		}
 	}
 	obj = o.Elem().Interface()
 	return
-- 
2.43.0


From f3d073b1a43c9bb8dae302b65972a12f2b8eeab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 09/22] fix: requests larger than 4096 bytes crashed the mock

---
 kafka-client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index 5e3546b..dc3b398 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -129,7 +129,7 @@ func (kc *kafkaClient) handle() {
 		kc.inbound = kc.inbound[4+msg.Len():]
 
 		kc.requestWg.Add(1)
-		reader := bufio.NewReader(msg)
+		reader := bufio.NewReaderSize(msg, msg.Len()) // decoding peeks at the whole message
 		func() {
 			defer kc.requestWg.Done()
 			if err := kc.dispatcher(reader, msg.Len()); err != nil {
-- 
2.43.0


From 825a1b0b8e6c4185797067bb71dd3b414fa36f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 10/22] fix: posted records changed when the caller reused its
 buffers

---
 datastore.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datastore.go b/datastore.go
index 5eb4df8..d7e2f87 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"bytes"
 	"sync"
 	"time"
 )
@@ -105,14 +106,14 @@ func (kp *kafkaPartition) postRecord(attribs int8, ts time.Time, key, value []by
 
 	flatHeaders := make([]kafkaRecordHeader, 0, len(headers))
 	for k, v := range headers {
-		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: v})
+		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: bytes.Clone(v)})
 	}
 
 	record := &kafkaRecord{
 		Attributes: attribs,
 		Timestamp:  ts.UnixMilli(),
-		Key:        key,
-		Value:      value,
+		Key:        bytes.Clone(key),
+		Value:      bytes.Clone(value),
 		Headers:    flatHeaders,
 	}
 	kp.Records = append(kp.Records, record)
-- 
2.43.0


From 8b785ce963aa63d3390256cdcc1cd88146684e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 11/22] fix: fetched messages carried a wrong size field and
 checksum

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index d50ac98..befed64 100644
--- a/encoder.go
+++ b/encoder.go
@@ -481,7 +481,7 @@ func encodeMessageSetV1(writer *bufio.Writer, ms *messageSetV1) {
 	}
 }
 
-var crcTable *crc32.Table = crc32.MakeTable(crc32.Castagnoli)
+var crcTable *crc32.Table = crc32.IEEETable
 
 func newMessageSetV1(offset int64) *messageSetV1 {
 	return &messageSetV1{
@@ -510,6 +510,7 @@ func (msv1 *messageSetV1) appendMessage(record *kafkaRecord, maxSize int) bool {
 	msv1.totalSize += int(mv1.MessageSize)
 	msv1.offset++
 
+	mv1.MessageSize -= 12 // the wire field doesn't count the offset and itself
 	msv1.msgs = append(msv1.msgs, mv1)
 	return true
 }
-- 
2.43.0


From c6c87cb8ceea60ca99eff2b96db99d0e27cbd411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 12/22] fix: a closing client removed the newest client from
 the client table instead of itself

---
 kafka-mock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 449225a..d7b38d2 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -147,10 +147,11 @@ func (km *KafkaMock) run() {
 
 		km.mu.Lock()
 		cxnNumber++
+		number := cxnNumber
 		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
 			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
 			km.mu.Lock()
-			delete(km.clients, cxnNumber)
+			delete(km.clients, number)
 			km.active.Done()
 			km.wg.Done()
 			km.mu.Unlock()
-- 
2.43.0


From 1979bbc33ac542194dfd69b7454d7533302b1768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 13/22] fix: the connection of a client that disconnected was
 never closed

---
 kafka-client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kafka-client.go b/kafka-client.go
index dc3b398..4af51a2 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -77,6 +77,7 @@ func newKafkaClient(l lane.Lane, ds *kafkaDataStore, conn net.Conn, serverPort u
 
 func (kc *kafkaClient) handle() {
 	defer func() {
+		kc.conn.Close()
 		kc.wg.Done()
 		kc.oc()
 		kc.l.Tracef("client %d task done", kc.clientPort)
-- 
2.43.0


From 3e01bed25b5eee0db8cc35e9a99a077b9af52e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 14/22] fix: a failed response leaked a duplicate of the
 connection

---
 kafka-client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kafka-client.go b/kafka-client.go
index 4af51a2..78d8254 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -252,6 +252,7 @@ func (kc *kafkaClient) isConnected() bool {
 	if err != nil {
 		return false
 	}
+	defer f.Close()
 
 	b := []byte{0}
 	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
-- 
2.43.0


From c2c687dd65a348c1ba672d93f8816fd000464690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 15/22] fix: a stop request could overtake the start it was
 meant to wait for

---
 kafka-mock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kafka-mock.go b/kafka-mock.go
index d7b38d2..03d309a 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -67,6 +67,10 @@ func (km *KafkaMock) RequestStop() {
 	alreadyStopped := km.stopped.Swap(true)
 	if !alreadyStopped {
 		if km.started.Load() {
+			// let Start return before using what it sets up
+			km.mu.Lock()
+			km.mu.Unlock()
+
 			// wait for startup to complete
 			km.l.Trace("request stop is ensuring startup completed first")
 			km.initializing.Wait()
-- 
2.43.0


From 9da0dd304fb7488e6abcf96e95118f1f51b185cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 16/22] fix: finishing requests before the first start crashed
 and raced with start

---
 kafka-mock.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 03d309a..72ed6e7 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -170,7 +170,13 @@ func (km *KafkaMock) run() {
 // Tells the mock to stop accepting new requests and
 // to complete any blocked requests.
 func (km *KafkaMock) FinishRequests() {
-	km.cancelFn()
+	km.mu.Lock()
+	cancelFn := km.cancelFn
+	km.mu.Unlock()
+
+	if cancelFn != nil {
+		cancelFn()
+	}
 }
 
 // Stops the server and gracefully closes clients, then starts
-- 
2.43.0


From 719edb52d156ebd38e821c933e24f235918719c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 17/22] fix: metadata described a hard-wired partition instead
 of the existing ones

---
 datastore.go | 25 +++++++++++++++++++++++++
 metadata.go  | 25 +++++++++++++++++++++----
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/datastore.go b/datastore.go
index d7e2f87..3fa6b7c 100644
--- a/datastore.go
+++ b/datastore.go
@@ -2,6 +2,7 @@ package kafkamock
 
 import (
 	"bytes"
+	"sort"
 	"sync"
 	"time"
 )
@@ -69,6 +70,18 @@ func (ds *kafkaDataStore) getTopic(name string) *kafkaTopic {
 	return ds.Topics[name]
 }
 
+func (ds *kafkaDataStore) topicNames() []string {
+	ds.mu.Lock()
+	defer ds.mu.Unlock()
+
+	names := make([]string, 0, len(ds.Topics))
+	for name := range ds.Topics {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (kp *kafkaTopic) createPartition(number int32) *kafkaPartition {
 	kp.mu.Lock()
 	defer kp.mu.Unlock()
@@ -92,6 +105,18 @@ func (kp *kafkaTopic) getPartition(number int32) *kafkaPartition {
 	return kp.Partitions[number]
 }
 
+func (kp *kafkaTopic) partitionIndexes() []int32 {
+	kp.mu.Lock()
+	defer kp.mu.Unlock()
+
+	indexes := make([]int32, 0, len(kp.Partitions))
+	for index := range kp.Partitions {
+		indexes = append(indexes, index)
+	}
+	sort.Slice(indexes, func(i, j int) bool { return indexes[i] < indexes[j] })
+	return indexes
+}
+
 func (kp *kafkaPartition) lock() {
 	kp.mu.Lock()
 }
diff --git a/metadata.go b/metadata.go
index 898c6f5..062e37a 100644
--- a/metadata.go
+++ b/metadata.go
@@ -46,16 +46,33 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 		return
 	}
 
-	topics := make([]topicsV1, 0, len(request.Topics))
-	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
+	names := request.Topics
+	if names == nil {
+		// a null list asks for all topics
+		names = kc.ds.topicNames()
+	}
+
+	topics := make([]topicsV1, 0, len(names))
+	for _, t := range names {
+		topic := topicsV1{Name: t, Partitions: []partitionV1{}}
+
+		kt := kc.ds.getTopic(t)
+		if kt == nil {
+			topic.ErrorCode = int16(UnknownTopicOrPartition)
+		} else {
+			for _, index := range kt.partitionIndexes() {
+				topic.Partitions = append(topic.Partitions, partitionV1{PartitionIndex: index, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}})
+			}
+		}
+
+		topics = append(topics, topic)
 	}
 
 	response = &metadataResponseV1{
 		Brokers: []brokersV1{
 			{NodeId: kLeaderNode, Host: "localhost", Port: int32(kc.serverPort)},
 		},
-		ControllerId: 500,
+		ControllerId: kLeaderNode,
 		Topics:       topics,
 	}
 	return
-- 
2.43.0


From 62c25ed5b24baaa2ef95d929e84d551b48ea70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 18/22] fix: stopping hung for ever when a client did not read
 its response

---
 kafka-client.go  |  5 +++--
 kafka-message.go | 32 +++++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/kafka-client.go b/kafka-client.go
index 78d8254..dab36eb 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -237,8 +237,9 @@ func (kc *kafkaClient) dispatcher(reader *bufio.Reader, msgLength int) (err erro
 
 	km := newKafkaMessage(kc.l, kc.conn, &kmh)
 	if err = km.send(buf.Bytes()); err != nil {
-		if !kc.isConnected() {
-			// the client dropped - ignore the error
+		if errors.Is(err, os.ErrDeadlineExceeded) || !kc.isConnected() {
+			// the client dropped, or it doesn't read and the mock is stopping - ignore the error
+			kc.conn.Close()
 			err = nil
 		}
 		return
diff --git a/kafka-message.go b/kafka-message.go
index 3e2a77f..11fd1af 100644
--- a/kafka-message.go
+++ b/kafka-message.go
@@ -1,8 +1,11 @@
 package kafkamock
 
 import (
+	"errors"
 	"fmt"
 	"net"
+	"os"
+	"time"
 
 	"github.com/jimsnab/go-lane"
 )
@@ -25,23 +28,46 @@ func newKafkaMessage(l lane.Lane, conn net.Conn, hdr *kafkaMessageHeader) *kafka
 	}
 }
 
+// Writes all of the data. A client that doesn't read it is waited for until
+// the mock is stopped.
+func (km *kafkaMessage) write(data []byte) (err error) {
+	for {
+		var n int
+		km.conn.SetWriteDeadline(time.Now().Add(time.Second))
+		n, err = km.conn.Write(data)
+		if !errors.Is(err, os.ErrDeadlineExceeded) {
+			return
+		}
+
+		data = data[n:]
+		if n == 0 {
+			select {
+			case <-km.l.Done():
+				return
+			default:
+				// keep going
+			}
+		}
+	}
+}
+
 func (km *kafkaMessage) send(payload []byte) (err error) {
 	payloadSize := 4 + len(payload)
 
 	number := []byte{0, 0, 0, 0}
 	convertInt32(number, int32(payloadSize))
-	if _, err = km.conn.Write(number); err != nil {
+	if err = km.write(number); err != nil {
 		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
 		return
 	}
 
 	convertInt32(number, int32(km.hdr.CorrelationId))
-	if _, err = km.conn.Write(number); err != nil {
+	if err = km.write(number); err != nil {
 		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
 		return
 	}
 
-	if _, err = km.conn.Write(payload); err != nil {
+	if err = km.write(payload); err != nil {
 		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
 		return
 	}
-- 
2.43.0


From 9d68d845a003f942c752a43b5e8826205c4c5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 19/22] fix: decoding an array that contains a null array
 crashed

---
 decoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index ee83740..d5b9194 100644
--- a/decoder.go
+++ b/decoder.go
@@ -523,7 +523,12 @@ func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect
 			if next < 0 {
 				return
 			}
-			a = reflect.Append(a, reflect.ValueOf(item))
+			if item == nil {
+				// a null array
+				a = reflect.Append(a, reflect.Zero(elem))
+			} else {
+				a = reflect.Append(a, reflect.ValueOf(item))
+			}
 		}
 		obj = a.Interface()
 	}
-- 
2.43.0


From 6267041cd1b6b097aae5ccd02adbe58f1e610efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 20/22] fix: compact fields and compact byte strings were
 decoded as their standard forms

---
 decoder.go | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index d5b9194..727e8d3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -360,11 +360,22 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Int32:
 		if tt.Name() == "VarInt" {
 			return peekVarInt(reader, offset)
+		} else if compact {
+			var v VarInt
+			next, v = peekVarInt(reader, offset)
+			obj = int32(v)
+			return
 		} else {
 			return peekInt32(reader, offset)
 		}
 
 	case reflect.Int:
+		if compact {
+			var v VarInt
+			next, v = peekVarInt(reader, offset)
+			obj = int(v)
+			return
+		}
 		var v int32
 		next, v = peekInt32(reader, offset)
 		obj = int(v)
@@ -373,11 +384,22 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Int64:
 		if tt.Name() == "VarInt64" {
 			return peekVarInt64(reader, offset)
+		} else if compact {
+			var v VarInt64
+			next, v = peekVarInt64(reader, offset)
+			obj = int64(v)
+			return
 		} else {
 			return peekInt64(reader, offset)
 		}
 
 	case reflect.Uint:
+		if compact {
+			var v VarUint
+			next, v = peekVarUint(reader, offset)
+			obj = uint(v)
+			return
+		}
 		var v uint32
 		next, v = peekUint32(reader, offset)
 		obj = uint(v)
@@ -392,6 +414,11 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Uint32:
 		if tt.Name() == "VarUint" {
 			return peekVarUint(reader, offset)
+		} else if compact {
+			var v VarUint
+			next, v = peekVarUint(reader, offset)
+			obj = uint32(v)
+			return
 		} else {
 			return peekUint32(reader, offset)
 		}
@@ -399,6 +426,11 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Uint64:
 		if tt.Name() == "VarUint64" {
 			return peekVarUint64(reader, offset)
+		} else if compact {
+			var v VarUint64
+			next, v = peekVarUint64(reader, offset)
+			obj = uint64(v)
+			return
 		} else {
 			return peekUint64(reader, offset)
 		}
@@ -430,6 +462,11 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 			return peekNullableBytes(reader, offset)
 		} else if tt.Name() == "CompactNullableBytes" {
 			return peekCompactNullableBytes(reader, offset)
+		} else if tt.Name() == "CompactBytes" {
+			var b CompactNullableBytes
+			next, b = peekCompactNullableBytes(reader, offset)
+			obj = CompactBytes(b)
+			return
 		} else {
 			if compact {
 				return peekObjectCompactVarArray(reader, offset, tt.Elem())
@@ -439,16 +476,20 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 		}
 
 	case reflect.String:
-		if tt.Name() == "CompactString" {
+		if tt.Name() == "CompactString" || compact {
 			var s CompactNullableString
 			next, s = peekCompactNullableString(reader, offset)
 			if next < 0 {
 				return
 			}
-			if s == nil {
-				obj = CompactString("")
+			cs := CompactString("")
+			if s != nil {
+				cs = *s
+			}
+			if tt.Name() == "CompactString" {
+				obj = cs
 			} else {
-				obj = *s
+				obj = string(cs)
 			}
 		} else {
 			var s NullableString
-- 
2.43.0


From 435c94034a891e07907a70901889a11b23452667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:41 +0000
Subject: [PATCH 21/22] fix: encoding a string field marked compact and
 nullable crashed

---
 encoder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index befed64..e5453f3 100644
--- a/encoder.go
+++ b/encoder.go
@@ -114,8 +114,7 @@ func encodeObjectWorker(writer *bufio.Writer, tt reflect.Type, obj any, nullable
 				if obj == nil {
 					encodeCompactNullableString(writer, nil)
 				} else {
-					s := obj.(*string)
-					s2 := CompactString(*s)
+					s2 := CompactString(obj.(string))
 					encodeCompactNullableString(writer, &s2)
 				}
 			} else {
-- 
2.43.0


From 282eae707e1fcb0f9a8c430aa60a370188b13b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:10 +0000
Subject: [PATCH 22/22] fix: a client that vanished crashed the mock

---
 kafka-client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index dab36eb..19a13c1 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -112,7 +112,8 @@ func (kc *kafkaClient) handle() {
 					continue
 				}
 				if !wasSocketClosed(err) {
-					panic(fmt.Sprintf("read error: %v", err))
+					// such as the time-out of a client that vanished: the connection is lost
+					kc.l.Warnf("client %d read error: %v", kc.clientPort, err)
 				}
 				return
 			}
-- 
2.43.0

