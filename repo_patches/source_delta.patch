From 8429da7f1b3bd012fa230787820617e93e4bfe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 01/50] fix: undo every event of a failed in-memory save under
 its own stream

---
 provider/inmemorystore/inmemory_store.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5f7f5fe..bc5542a 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -237,11 +237,13 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	s.mux.Lock()
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
@@ -251,6 +253,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 		select {
 		case <-ctx.Done():
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, context.Canceled
 
@@ -268,7 +271,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			s.removeRecentEvents(createdGlobalSequenceNumbers, eventRecord.Event.AggregateType(), eventRecord.Event.AggregateID())
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, err
 		}
@@ -312,8 +315,7 @@ func (s *inMemoryStore) saveEvent(
 		}
 	}
 
-	s.globalSequenceNumber++
-	globalSequenceNumber := s.globalSequenceNumber
+	globalSequenceNumber := s.globalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -333,6 +335,7 @@ func (s *inMemoryStore) saveEvent(
 		return nil, nil, err
 	}
 
+	s.globalSequenceNumber = globalSequenceNumber
 	s.records = append(s.records, globalSequenceNumber)
 	s.recordData[globalSequenceNumber] = data
 	s.streams[streamName] = append(s.streams[streamName], globalSequenceNumber)
@@ -341,8 +344,11 @@ func (s *inMemoryStore) saveEvent(
 	return data, record, nil
 }
 
-func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggregateType, aggregateID string) {
-	stream := rangedb.GetStream(aggregateType, aggregateID)
+// removeRecentEvents undoes the events saved so far by a failing batch, without locking the mutex.
+func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, streamName, aggregateType string) {
+	if len(globalSequenceNumbers) == 0 {
+		return
+	}
 
 	for _, globalSequenceNumber := range globalSequenceNumbers {
 		delete(s.recordData, globalSequenceNumber)
@@ -352,8 +358,12 @@ func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggre
 
 	s.globalSequenceNumber -= uint64(total)
 	s.records = rTrimFromUint64Slice(s.records, total)
-	s.streams[stream] = rTrimFromUint64Slice(s.streams[stream], total)
+	s.streams[streamName] = rTrimFromUint64Slice(s.streams[streamName], total)
 	s.aggregateTypes[aggregateType] = rTrimFromUint64Slice(s.aggregateTypes[aggregateType], total)
+
+	if len(s.streams[streamName]) == 0 {
+		delete(s.streams, streamName)
+	}
 }
 
 func rTrimFromUint64Slice(slice []uint64, total int) []uint64 {
-- 
2.43.0


From 6cb4d88e34a3a803828e120518c194a9eabe8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 02/50] fix: hand over iterator errors without blocking after
 the reader's context is canceled

---
 provider/eventstore/eventstore.go        | 140 +++++------------------
 provider/inmemorystore/inmemory_store.go |   4 +-
 provider/leveldbstore/leveldb_store.go   |   6 +-
 provider/postgresstore/postgres_store.go |  16 +--
 provider/remotestore/remote_store.go     |   8 +-
 publish_record.go                        |  13 +++
 6 files changed, 59 insertions(+), 128 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 8796f09..0988dca 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -202,17 +202,11 @@ func (s *eventStore) Events(ctx context.Context, globalSequenceNumber uint64) ra
 			}
 
 			if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 				return
 			}
 
-			resultRecords <- rangedb.ResultRecord{
-				Record: nil,
-				Err:    fmt.Errorf("unexpected failure ReadStreamEvents: %w", err),
-			}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unexpected failure ReadStreamEvents: %w", err), time.Second)
 			return
 		}
 
@@ -224,10 +218,7 @@ func (s *eventStore) Events(ctx context.Context, globalSequenceNumber uint64) ra
 				}
 
 				if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{
-						Record: nil,
-						Err:    context.Canceled,
-					}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 					return
 				}
 
@@ -235,10 +226,7 @@ func (s *eventStore) Events(ctx context.Context, globalSequenceNumber uint64) ra
 					return
 				}
 
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to receive event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to receive event: %w", err), time.Second)
 				return
 			}
 
@@ -260,26 +248,12 @@ func (s *eventStore) Events(ctx context.Context, globalSequenceNumber uint64) ra
 
 			record, err := s.recordFromLinkedEvent(resolvedEvent)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to deserialize resolved event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to deserialize resolved event: %w", err), time.Second)
 				return
 			}
 
-			select {
-			case <-ctx.Done():
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
+			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, time.Second) {
 				return
-
-			default:
-				resultRecords <- rangedb.ResultRecord{
-					Record: record,
-					Err:    nil,
-				}
 			}
 		}
 	}()
@@ -304,17 +278,11 @@ func (s *eventStore) EventsByAggregateTypes(ctx context.Context, globalSequenceN
 		readStream, err := s.client.ReadAll(ctx, readAllOptions, ^uint64(0))
 		if err != nil {
 			if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 				return
 			}
 
-			resultRecords <- rangedb.ResultRecord{
-				Record: nil,
-				Err:    fmt.Errorf("unexpected failure ReadStreamEvents: %w", err),
-			}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unexpected failure ReadStreamEvents: %w", err), time.Second)
 			return
 		}
 		for {
@@ -328,10 +296,7 @@ func (s *eventStore) EventsByAggregateTypes(ctx context.Context, globalSequenceN
 					return
 				}
 
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to receive event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to receive event: %w", err), time.Second)
 				return
 			}
 
@@ -349,34 +314,20 @@ func (s *eventStore) EventsByAggregateTypes(ctx context.Context, globalSequenceN
 
 			record, err := s.recordFromLinkedEvent(resolvedEvent)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to deserialize resolved event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to deserialize resolved event: %w", err), time.Second)
 				return
 			}
 
-			select {
-			case <-ctx.Done():
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
-				return
-
-			default:
-				if _, ok := aggregateTypesMap[record.AggregateType]; !ok {
-					continue
-				}
+			if _, ok := aggregateTypesMap[record.AggregateType]; !ok {
+				continue
+			}
 
-				if record.GlobalSequenceNumber < globalSequenceNumber {
-					continue
-				}
+			if record.GlobalSequenceNumber < globalSequenceNumber {
+				continue
+			}
 
-				resultRecords <- rangedb.ResultRecord{
-					Record: record,
-					Err:    nil,
-				}
+			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, time.Second) {
+				return
 			}
 		}
 	}()
@@ -397,26 +348,17 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 		readStream, err := s.client.ReadStream(ctx, s.streamName(streamName), readStreamOptions, ^uint64(0))
 		if err != nil {
 			if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 				return
 			}
 
 			var streamDeletedError *esdb.StreamDeletedError
 			if errors.Is(err, esdb.ErrStreamNotFound) || errors.As(err, &streamDeletedError) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    rangedb.ErrStreamNotFound,
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 				return
 			}
 
-			resultRecords <- rangedb.ResultRecord{
-				Record: nil,
-				Err:    fmt.Errorf("unexpected failure ReadStream: %w", err),
-			}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unexpected failure ReadStream: %w", err), time.Second)
 			return
 		}
 
@@ -426,10 +368,7 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 			if err != nil {
 				if errors.Is(err, io.EOF) {
 					if totalRecords == 0 {
-						resultRecords <- rangedb.ResultRecord{
-							Record: nil,
-							Err:    rangedb.ErrStreamNotFound,
-						}
+						rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 						return
 					}
 
@@ -437,25 +376,16 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 				}
 
 				if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{
-						Record: nil,
-						Err:    context.Canceled,
-					}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 					return
 				}
 
 				if errors.Is(err, esdb.ErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{
-						Record: nil,
-						Err:    rangedb.ErrStreamNotFound,
-					}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 					return
 				}
 
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to receive event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to receive event: %w", err), time.Second)
 				return
 			}
 
@@ -469,10 +399,7 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 
 			record, err := s.recordFromLinkedEvent(resolvedEvent)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to deserialize resolved event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to deserialize resolved event: %w", err), time.Second)
 				return
 			}
 
@@ -484,20 +411,11 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 				continue
 			}
 
-			select {
-			case <-ctx.Done():
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
+			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, time.Second) {
 				return
-
-			case resultRecords <- rangedb.ResultRecord{
-				Record: record,
-				Err:    nil,
-			}:
-				totalRecords++
 			}
+
+			totalRecords++
 		}
 	}()
 
diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index bc5542a..bb198ff 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -142,7 +142,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 		for _, id := range ids {
 			recordData, exists := s.recordData[id]
 			if !exists {
-				resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("record missing"), time.Second)
 				return
 			}
 
@@ -150,7 +150,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
 				s.logger.Printf(deserializeErr.Error())
-				resultRecords <- rangedb.ResultRecord{Err: deserializeErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, deserializeErr, time.Second)
 				return
 			}
 
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 031a4bf..2701ee3 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -381,7 +381,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
@@ -395,7 +395,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		}
 
 		if cnt == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 			return
 		}
 
@@ -429,7 +429,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			record, err := s.getRecordByLookup(targetKey, iter)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index d3139f9..b4f57e8 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -140,7 +140,7 @@ func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64)
 		rows, err := s.db.QueryContext(ctx, query,
 			globalSequenceNumber)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -176,7 +176,7 @@ func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 		rows, err := s.db.QueryContext(ctx, query,
 			pq.Array(aggregateTypes), globalSequenceNumber)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
@@ -208,14 +208,14 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		rows, err := s.db.QueryContext(ctx, query,
 			streamName, streamSequenceNumber)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 		defer ignoreClose(rows)
 
 		recordsRead, err := s.readResultRecords(ctx, rows, resultRecords)
 		if err == nil && recordsRead == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 		}
 	}()
 
@@ -627,7 +627,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			&serializedMetadata,
 		)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return 0, err
 		}
 
@@ -638,7 +638,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 		)
 		if err != nil {
 			decodeErr := fmt.Errorf("unable to decode data: %v", err)
-			resultRecords <- rangedb.ResultRecord{Err: decodeErr}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, decodeErr, time.Second)
 			return 0, decodeErr
 		}
 
@@ -647,7 +647,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			err = json.Unmarshal([]byte(serializedMetadata), metadata)
 			if err != nil {
 				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, unmarshalErr, time.Second)
 				return 0, unmarshalErr
 			}
 		}
@@ -674,7 +674,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 	err := rows.Err()
 	if err != nil {
-		resultRecords <- rangedb.ResultRecord{Err: err}
+		rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 		return 0, err
 	}
 
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 4292b69..11d1397 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -316,24 +316,24 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 				}
 
 				if strings.Contains(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{Err: context.Canceled}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 					return
 				}
 
 				if strings.Contains(err.Error(), rpcErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 					return
 				}
 
 				log.Printf("failed to get record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
 			record, err := rangedbpb.ToRecord(pbRecord, s.serializer)
 			if err != nil {
 				log.Printf("failed converting to record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
diff --git a/publish_record.go b/publish_record.go
index 140811d..9a050c2 100644
--- a/publish_record.go
+++ b/publish_record.go
@@ -31,3 +31,16 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 
 	return true
 }
+
+// PublishErrorOrCancel publishes an error to a ResultRecord channel, or times out once the context is canceled.
+func PublishErrorOrCancel(ctx context.Context, resultRecords chan ResultRecord, err error, timeout time.Duration) {
+	select {
+	case resultRecords <- ResultRecord{Err: err}:
+
+	case <-ctx.Done():
+		select {
+		case <-time.After(timeout):
+		case resultRecords <- ResultRecord{Err: err}:
+		}
+	}
+}
-- 
2.43.0


From 12cf0b96d980a936d34000a5251fefeef7fc1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 03/50] fix: discard the LevelDB transaction on every failing
 path of a delete or save

---
 provider/leveldbstore/leveldb_store.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 2701ee3..6e8a9cd 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -145,6 +145,7 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	if err != nil {
 		return err
 	}
+	defer transaction.Discard()
 
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
@@ -166,6 +167,11 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		batch.Delete(allEventsKey)
 	}
 
+	err = iter.Error()
+	if err != nil {
+		return err
+	}
+
 	if cnt == 0 {
 		return rangedb.ErrStreamNotFound
 	}
@@ -177,8 +183,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	_ = iter.Error()
-
 	err = transaction.Write(batch, nil)
 	if err != nil {
 		return err
@@ -257,6 +261,7 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	}
 	err = transaction.Commit()
 	if err != nil {
+		transaction.Discard()
 		return 0, err
 	}
 
-- 
2.43.0


From 9bba223dabdbab7cde1dcd2df8ef283b5bba6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 04/50] fix: report LevelDB read errors instead of treating
 them as an end or a zero

---
 provider/leveldbstore/leveldb_store.go | 53 +++++++++++++++++---------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 6e8a9cd..41433cf 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -287,7 +287,10 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	default:
 	}
 
-	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
+	streamSequenceNumber, err := s.getStreamSequenceNumber(transaction, streamName)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber != streamSequenceNumber {
 		return nil, 0, &rangedberror.UnexpectedSequenceNumber{
@@ -296,7 +299,12 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		}
 	}
 
-	globalSequenceNumber := s.getGlobalSequenceNumber(transaction) + 1
+	lastGlobalSequenceNumber, err := s.getGlobalSequenceNumber(transaction)
+	if err != nil {
+		return nil, 0, err
+	}
+
+	globalSequenceNumber := lastGlobalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -365,7 +373,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	default:
 	}
 
-	return s.getStreamSequenceNumber(s.db, streamName), nil
+	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
@@ -399,12 +407,16 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 			}
 		}
 
+		err := iter.Error()
+		if err != nil {
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
+			return
+		}
+
 		if cnt == 0 {
 			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 			return
 		}
-
-		_ = iter.Error()
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -446,6 +458,11 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 				return
 			}
 		}
+
+		err := iter.Error()
+		if err != nil {
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -499,29 +516,31 @@ type dbNewIterable interface {
 	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
 }
 
-func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) uint64 {
-	var globalSequenceNumber uint64
+func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) (uint64, error) {
 	globalSequenceNumberBytes, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
-	if err == nil {
-		globalSequenceNumber = bytesToUint64(globalSequenceNumberBytes)
+	if err != nil {
+		if err == leveldb.ErrNotFound {
+			return 0, nil
+		}
+
+		return 0, err
 	}
 
-	return globalSequenceNumber
+	return bytesToUint64(globalSequenceNumberBytes), nil
 }
 
-func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) uint64 {
+func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) (uint64, error) {
 	return s.getSequenceNumber(iterable, getStreamKeyPrefix(stream))
 }
 
-func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
+func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) (uint64, error) {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
-	iter.Last()
+	defer iter.Release()
 
 	keySize := len(key)
-	if len(iter.Key()) > keySize {
-		lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-		return lastSequenceNumber
+	if iter.Last() && len(iter.Key()) > keySize {
+		return bytesToUint64(iter.Key()[keySize:]), nil
 	}
 
-	return 0
+	return 0, iter.Error()
 }
-- 
2.43.0


From 7d21be093ac2bead488df21a5dcb1eacae564923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 05/50] fix: keep LevelDB keys of names that extend another
 name out of its reads, counts and deletes

---
 provider/leveldbstore/leveldb_store.go | 28 ++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 41433cf..5815f40 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -32,6 +32,7 @@ const (
 	streamPrefix            = "$s$"
 	aggregateTypePrefix     = "$at$"
 	globalSequenceNumberKey = "$gsn$"
+	numberSize              = 8
 )
 
 type levelDbStore struct {
@@ -147,12 +148,17 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	}
 	defer transaction.Discard()
 
-	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
+	streamKeyPrefix := getStreamKeyPrefix(streamName)
+	iter := s.db.NewIterator(util.BytesPrefix([]byte(streamKeyPrefix)), nil)
 	defer iter.Release()
 
 	cnt := uint64(0)
 	batch := new(leveldb.Batch)
 	for iter.Next() {
+		if !isKeyWithNumber(iter.Key(), streamKeyPrefix) {
+			continue
+		}
+
 		cnt++
 		record, err := s.getRecordByValue(iter.Value())
 		if err != nil {
@@ -390,6 +396,10 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		cnt := 0
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), prefix) {
+				continue
+			}
+
 			cnt++
 
 			record, err := s.getRecordByValue(iter.Value())
@@ -442,6 +452,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), key) {
+				continue
+			}
+
 			targetKey := iter.Value()
 
 			record, err := s.getRecordByLookup(targetKey, iter)
@@ -500,6 +514,11 @@ func getKeyWithNumber(inputKey string, number uint64) []byte {
 	return append([]byte(inputKey), uint64ToBytes(number)...)
 }
 
+// isKeyWithNumber reports whether key is inputKey followed by a number, and not a longer key sharing that prefix.
+func isKeyWithNumber(key []byte, inputKey string) bool {
+	return len(key) == len(inputKey)+numberSize
+}
+
 func uint64ToBytes(number uint64) []byte {
 	var buf bytes.Buffer
 	_ = binary.Write(&buf, binary.BigEndian, number)
@@ -537,9 +556,10 @@ func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) (ui
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
 	defer iter.Release()
 
-	keySize := len(key)
-	if iter.Last() && len(iter.Key()) > keySize {
-		return bytesToUint64(iter.Key()[keySize:]), nil
+	for found := iter.Last(); found; found = iter.Prev() {
+		if isKeyWithNumber(iter.Key(), key) {
+			return bytesToUint64(iter.Key()[len(key):]), nil
+		}
 	}
 
 	return 0, iter.Error()
-- 
2.43.0


From f534c47732e9fbcc6b5e360729b8b727e4bc60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 06/50] fix: read several aggregate types under a single read
 lock

---
 provider/inmemorystore/inmemory_store.go | 15 ++++---
 provider/leveldbstore/leveldb_store.go   | 56 ++++++++++++++----------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index bb198ff..0ceb121 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
+	"sort"
 	"sync"
 	"time"
 
@@ -99,18 +100,22 @@ func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64)
 }
 
 func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+
 	if len(aggregateTypes) == 1 {
-		s.mux.RLock()
 		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
 	}
 
-	var recordIterators []rangedb.RecordIterator
+	var ids []uint64
 	for _, aggregateType := range aggregateTypes {
-		s.mux.RLock()
-		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
+		ids = append(ids, s.aggregateTypes[aggregateType]...)
 	}
 
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	sort.Slice(ids, func(i, j int) bool {
+		return ids[i] < ids[j]
+	})
+
+	return s.recordsByIDs(ctx, ids, compareByGlobalSequenceNumber(globalSequenceNumber))
 }
 
 func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *rangedb.Record) bool {
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 5815f40..ae69765 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -11,6 +11,7 @@ import (
 	"time"
 
 	"github.com/syndtr/goleveldb/leveldb"
+	"github.com/syndtr/goleveldb/leveldb/comparer"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
 	"github.com/syndtr/goleveldb/leveldb/opt"
 	"github.com/syndtr/goleveldb/leveldb/util"
@@ -111,20 +112,16 @@ func (s *levelDbStore) Bind(events ...rangedb.Event) {
 }
 
 func (s *levelDbStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
-	return s.getEventsByLookup(ctx, allEventsPrefix, globalSequenceNumber)
+	return s.getEventsByLookup(ctx, globalSequenceNumber, allEventsPrefix)
 }
 
 func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
-	if len(aggregateTypes) == 1 {
-		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
-	}
-
-	var recordIterators []rangedb.RecordIterator
+	keys := make([]string, 0, len(aggregateTypes))
 	for _, aggregateType := range aggregateTypes {
-		recordIterators = append(recordIterators, s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber))
+		keys = append(keys, getAggregateTypeKeyPrefix(aggregateType))
 	}
 
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	return s.getEventsByLookup(ctx, globalSequenceNumber, keys...)
 }
 
 func (s *levelDbStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, stream string) rangedb.RecordIterator {
@@ -432,7 +429,8 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
-func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
+// getEventsByLookup reads the records found in one or more lookups merged in global order, all under a single read lock.
+func (s *levelDbStore) getEventsByLookup(ctx context.Context, globalSequenceNumber uint64, keys ...string) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
 	s.mux.RLock()
 
@@ -440,19 +438,18 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		defer s.mux.RUnlock()
 		defer close(resultRecords)
 
-		iter := s.db.NewIterator(util.BytesPrefix([]byte(key)), nil)
-		defer iter.Release()
-
-		if globalSequenceNumber > 0 {
-			seekKey := getKeyWithNumber(key, globalSequenceNumber)
-			found := iter.Seek(seekKey)
-			if found {
-				iter.Prev()
-			}
+		var iters []iterator.Iterator
+		for _, key := range keys {
+			keyRange := util.BytesPrefix([]byte(key))
+			keyRange.Start = getKeyWithNumber(key, globalSequenceNumber)
+			iters = append(iters, s.db.NewIterator(keyRange, nil))
 		}
 
+		iter := iterator.NewMergedIterator(iters, numberComparer{comparer.DefaultComparer}, true)
+		defer iter.Release()
+
 		for iter.Next() {
-			if !isKeyWithNumber(iter.Key(), key) {
+			if !isKeyWithNumber(iter.Key(), keys...) {
 				continue
 			}
 
@@ -514,9 +511,24 @@ func getKeyWithNumber(inputKey string, number uint64) []byte {
 	return append([]byte(inputKey), uint64ToBytes(number)...)
 }
 
-// isKeyWithNumber reports whether key is inputKey followed by a number, and not a longer key sharing that prefix.
-func isKeyWithNumber(key []byte, inputKey string) bool {
-	return len(key) == len(inputKey)+numberSize
+// isKeyWithNumber reports whether key is one of inputKeys followed by a number, and not a longer key sharing a prefix.
+func isKeyWithNumber(key []byte, inputKeys ...string) bool {
+	for _, inputKey := range inputKeys {
+		if len(key) == len(inputKey)+numberSize && bytes.HasPrefix(key, []byte(inputKey)) {
+			return true
+		}
+	}
+
+	return false
+}
+
+// numberComparer orders keys by the number at their end.
+type numberComparer struct {
+	comparer.Comparer
+}
+
+func (numberComparer) Compare(a, b []byte) int {
+	return bytes.Compare(a[len(a)-numberSize:], b[len(b)-numberSize:])
 }
 
 func uint64ToBytes(number uint64) []byte {
-- 
2.43.0


From 45416a275e6ce225540e3dcab0ba73ae5fa89bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 07/50] fix: announce in-memory saves in global order

---
 provider/inmemorystore/inmemory_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 0ceb121..6c4e60a 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -291,7 +291,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			*expectedStreamSequenceNumber++
 		}
 	}
-	s.mux.Unlock()
 
 	for _, data := range pendingEventsData {
 		deSerializedRecord, err := s.serializer.Deserialize(data)
@@ -301,6 +300,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			s.logger.Print(err)
 		}
 	}
+	s.mux.Unlock()
 
 	return lastStreamSequenceNumber, nil
 }
-- 
2.43.0


From 063820b134126bd3d063bd5731d8b578dfdba747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 08/50] fix: keep the error of a merged record iterator

---
 merge_record_iterators.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 3113ebb..0dfe21b 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -34,6 +34,9 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			pipe := newPipe(recordIterator)
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
+			} else if pipe.currentResultRecord.Err != nil {
+				resultRecords <- pipe.currentResultRecord
+				return
 			}
 		}
 
@@ -47,6 +50,11 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
+				if pipes[i].currentResultRecord.Err != nil {
+					resultRecords <- pipes[i].currentResultRecord
+					return
+				}
+
 				pipes = remove(pipes, i)
 				continue
 			}
@@ -57,6 +65,11 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
+					if pipes[i].currentResultRecord.Err != nil {
+						resultRecords <- pipes[i].currentResultRecord
+						return
+					}
+
 					pipes = remove(pipes, i)
 					break
 				}
-- 
2.43.0


From af6bcea461741c8bf0b8570cc6a710810878f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 09/50] fix: report the error of a drained record iterator

---
 pkg/grpc/rangedbserver/server.go                     |  4 ++--
 pkg/rangedbapi/api.go                                | 12 +++++++++---
 pkg/recordsubscriber/record_subscriber.go            |  2 +-
 provider/eventstore/eventstore.go                    |  5 +++++
 provider/jsonrecordiostream/json_record_io_stream.go |  4 ++++
 .../msgpack_record_io_stream.go                      |  4 ++++
 .../ndjsonrecordiostream/ndjson_record_io_stream.go  |  4 ++++
 provider/remotestore/remote_store.go                 |  4 ++++
 8 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index d5269bd..2b799d8 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -97,7 +97,7 @@ func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.Ra
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, stream rangedbpb.RangeDB_EventsByStreamServer) error {
@@ -144,7 +144,7 @@ func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTy
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) OptimisticDeleteStream(ctx context.Context, req *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index d23b6e4..5a7502c 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -320,23 +320,29 @@ func (a *api) writeEvents(w http.ResponseWriter, recordIterator rangedb.RecordIt
 	case "json":
 		w.Header().Set(`Content-Type`, `application/json`)
 		errors := a.jsonRecordIoStream.Write(w, recordIterator)
-		<-errors
+		a.logReadError(<-errors)
 
 	case "ndjson":
 		w.Header().Set(`Content-Type`, `application/json; boundary=LF`)
 		errors := a.ndJSONRecordIoStream.Write(w, recordIterator)
-		<-errors
+		a.logReadError(<-errors)
 
 	case "msgpack":
 		w.Header().Set(`Content-Type`, `application/msgpack`)
 		base64Writer := base64.NewEncoder(base64.RawStdEncoding, w)
 		errors := a.msgpackRecordIoStream.Write(base64Writer, recordIterator)
-		<-errors
+		a.logReadError(<-errors)
 		_ = base64Writer.Close()
 
 	}
 }
 
+func (a *api) logReadError(err error) {
+	if err != nil {
+		a.logger.Printf("unable to read all events: %v", err)
+	}
+}
+
 type invalidInput struct {
 	err error
 }
diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index cb43a02..d219cb1 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -135,7 +135,7 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 		}
 	}
 
-	return nil
+	return iter.Err()
 }
 
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 0988dca..e868c3f 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -526,6 +526,11 @@ func (s *eventStore) TotalEventsInStream(ctx context.Context, streamName string)
 		}
 		total++
 	}
+
+	if iter.Err() != nil && iter.Err() != rangedb.ErrStreamNotFound {
+		return 0, iter.Err()
+	}
+
 	return total, nil
 }
 
diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 16c0e4b..0ae5b8a 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -51,6 +51,10 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 			totalSaved++
 		}
 		_, _ = fmt.Fprint(writer, "]")
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index a6ccd27..f1f0d52 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -45,6 +45,10 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 
 			_, _ = writer.Write(serializedRecord)
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 383a6b2..aec3856 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -48,6 +48,10 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 
 			totalSaved++
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 11d1397..7af5651 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -365,6 +365,10 @@ func (s *remoteStore) listenForEvents() error {
 
 			s.broadcaster.Accept(recordIterator.Record())
 		}
+
+		if recordIterator.Err() != nil {
+			log.Printf("live event feed ended: %v", recordIterator.Err())
+		}
 	}()
 
 	return nil
-- 
2.43.0


From 376b2586412887cd2bb01e765eb29fcef78ab23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 10/50] fix: keep the record saved at a subscription's start
 position and finish on a write error

---
 pkg/recordsubscriber/record_subscriber.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index d219cb1..88899eb 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -55,7 +55,10 @@ func (s *recordSubscriber) Receiver() broadcast.SendRecordChan {
 }
 
 func (s *recordSubscriber) StartFrom(globalSequenceNumber uint64) error {
-	s.lastGlobalSequenceNumber = globalSequenceNumber
+	if globalSequenceNumber > 0 {
+		s.lastGlobalSequenceNumber = globalSequenceNumber - 1
+	}
+
 	err := s.writeRecords(globalSequenceNumber)
 	if err != nil {
 		return err
@@ -108,6 +111,7 @@ func (s *recordSubscriber) work() {
 			err := s.writeRecord(record)
 			if err != nil {
 				s.unsubscribe(s)
+				close(s.finishChan)
 				return
 			}
 		}
-- 
2.43.0


From 82e99fc7d9eb94ba46bdb86fdb6baa102054db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 11/50] fix: end a gRPC subscription whose subscriber was
 dropped

---
 pkg/grpc/rangedbserver/server.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 2b799d8..00e5a43 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -282,7 +282,10 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
-	<-stream.Context().Done()
+	select {
+	case <-stream.Context().Done():
+	case <-subscriber.Done():
+	}
 
 	return nil
 }
@@ -303,7 +306,10 @@ func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsReques
 		return err
 	}
 
-	<-stream.Context().Done()
+	select {
+	case <-stream.Context().Done():
+	case <-subscriber.Done():
+	}
 
 	return nil
 }
@@ -325,7 +331,10 @@ func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.Subscrib
 		return err
 	}
 
-	<-stream.Context().Done()
+	select {
+	case <-stream.Context().Done():
+	case <-subscriber.Done():
+	}
 
 	return nil
 }
-- 
2.43.0


From 2bf94a16903bacd32636d92160bc6b022f7e774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 12/50] fix: calls on a closed broadcaster return instead of
 blocking forever

---
 pkg/broadcast/broadcaster.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 462a41f..a378c97 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -66,34 +66,51 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 }
 
 func (b *broadcaster) Accept(record *rangedb.Record) {
-	b.bufferedRecords <- record
+	select {
+	case b.bufferedRecords <- record:
+	case <-b.stopChan:
+	}
 }
 
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.subscribeAllEvents <- subscriber
+		select {
+		case b.subscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.unsubscribeAllEvents <- subscriber
+		select {
+		case b.unsubscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+		}
 	}
 }
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.subscribeAggregateTypes <- AggregateTypeSubscription{
+		select {
+		case b.subscribeAggregateTypes <- AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
+		}:
+		case <-b.stopChan:
+			subscriber.Stop()
 		}
 	}
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
+		select {
+		case b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
+		}:
+		case <-b.stopChan:
 		}
 	}
 }
-- 
2.43.0


From 88f0d3176b3cf63b34b2e58c40991968c8030b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 13/50] fix: delete a PostgreSQL stream under its lock and roll
 back a refused delete

---
 provider/postgresstore/postgres_store.go | 32 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index b4f57e8..6fb4aaf 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -228,6 +228,26 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 		return err
 	}
 
+	err = s.deleteStream(ctx, transaction, expectedStreamSequenceNumber, streamName)
+	if err != nil {
+		_ = transaction.Rollback()
+		return err
+	}
+
+	err = transaction.Commit()
+	if err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func (s *postgresStore) deleteStream(ctx context.Context, transaction *sql.Tx, expectedStreamSequenceNumber uint64, streamName string) error {
+	err := s.lockStream(ctx, transaction, streamName)
+	if err != nil {
+		return err
+	}
+
 	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, transaction, streamName)
 	if err != nil {
 		return err
@@ -245,17 +265,7 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 	}
 
 	_, err = transaction.ExecContext(ctx, `DELETE FROM record WHERE StreamName = $1`, streamName)
-	if err != nil {
-		_ = transaction.Rollback()
-		return err
-	}
-
-	err = transaction.Commit()
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 func (s *postgresStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-- 
2.43.0


From 64e5814c8e9198dfbfb5c8e8c9c250b7718d0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 14/50] fix: decode PostgreSQL event metadata into the record

---
 provider/postgresstore/postgres_store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 6fb4aaf..7305eb6 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -414,7 +414,7 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 
 		var metadata interface{}
 		if batchRecord.Metadata != "null" {
-			err = json.Unmarshal([]byte(batchRecord.Metadata), metadata)
+			err = json.Unmarshal([]byte(batchRecord.Metadata), &metadata)
 			if err != nil {
 				return fmt.Errorf("unable to unmarshal metadata: %v", err)
 			}
@@ -654,7 +654,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 		var metadata interface{}
 		if serializedMetadata != "null" {
-			err = json.Unmarshal([]byte(serializedMetadata), metadata)
+			err = json.Unmarshal([]byte(serializedMetadata), &metadata)
 			if err != nil {
 				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
 				rangedb.PublishErrorOrCancel(ctx, resultRecords, unmarshalErr, time.Second)
@@ -762,7 +762,7 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 
 			var metadata interface{}
 			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), metadata)
+				err = json.Unmarshal([]byte(jsonRecord.Metadata), &metadata)
 				if err != nil {
 					log.Printf("unable to unmarshal metadata: %v", err)
 					return
-- 
2.43.0


From 2d44139f8614b5345367f130097d1346ed3513e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 15/50] fix: a record that cannot be announced does not fail a
 committed PostgreSQL save

---
 provider/postgresstore/postgres_store.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 7305eb6..2ff7e98 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -300,10 +300,7 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 	}
 
 	if !s.pgNotifyIsEnabled {
-		err = s.batchNotifySubscribers(saveResult)
-		if err != nil {
-			return 0, err
-		}
+		s.batchNotifySubscribers(saveResult)
 	}
 
 	return saveResult.LastStreamSequenceNumber, nil
@@ -388,7 +385,7 @@ func (s *postgresStore) validateStreamSequenceNumber(ctx context.Context, querya
 	return streamSequenceNumber, nil
 }
 
-func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
+func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) {
 	for i, batchRecord := range saveResult.BatchRecords {
 		record := &rangedb.Record{
 			StreamName:           batchRecord.StreamName,
@@ -409,14 +406,16 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 			s.serializer,
 		)
 		if err != nil {
-			return fmt.Errorf("unable to decode data: %v", err)
+			log.Printf("unable to decode data: %v", err)
+			continue
 		}
 
 		var metadata interface{}
 		if batchRecord.Metadata != "null" {
 			err = json.Unmarshal([]byte(batchRecord.Metadata), &metadata)
 			if err != nil {
-				return fmt.Errorf("unable to unmarshal metadata: %v", err)
+				log.Printf("unable to unmarshal metadata: %v", err)
+				continue
 			}
 		}
 
@@ -424,8 +423,6 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 		record.Metadata = metadata
 		s.broadcaster.Accept(record)
 	}
-
-	return nil
 }
 
 func (s *postgresStore) eventRecordsToBatchRecords(eventRecords []*rangedb.EventRecord, streamName string, streamSequenceNumber uint64) ([]*batchSQLRecord, error) {
-- 
2.43.0


From 22038cd604f5ab3c827dfdc8f32cbad933b3a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 16/50] fix: keep the PostgreSQL listener running after a
 reconnect or an undecodable notification

---
 provider/postgresstore/postgres_store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 2ff7e98..4544ce1 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -740,11 +740,15 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	for {
 		select {
 		case n := <-listener.Notify:
+			if n == nil {
+				continue
+			}
+
 			var jsonRecord PostgresJsonRecord
 			err := json.Unmarshal([]byte(n.Extra), &jsonRecord)
 			if err != nil {
 				log.Printf("invalid json request body: %v", err)
-				return
+				continue
 			}
 
 			data, err := jsonrecordserializer.DecodeJsonData(
@@ -754,7 +758,7 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 			)
 			if err != nil {
 				log.Printf("unable to decode data: %v", err)
-				return
+				continue
 			}
 
 			var metadata interface{}
@@ -762,7 +766,7 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 				err = json.Unmarshal([]byte(jsonRecord.Metadata), &metadata)
 				if err != nil {
 					log.Printf("unable to unmarshal metadata: %v", err)
-					return
+					continue
 				}
 			}
 
-- 
2.43.0


From d55c7d857af901ab4429811599e0a787e7ee4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 17/50] fix: report a PostgreSQL insert that failed while its
 rows were read

---
 provider/postgresstore/postgres_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 4544ce1..ec14283 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -520,6 +520,11 @@ func (s *postgresStore) batchInsert(ctx context.Context, transaction dbQueryable
 		}
 	}
 
+	err = rows.Err()
+	if err != nil {
+		return nil, 0, fmt.Errorf("unable to insert: %v", err)
+	}
+
 	return globalSequenceNumbers, lastStreamSequenceNumber, nil
 }
 
-- 
2.43.0


From 5961c3457bfbf2597f01d50ed9e022c3040d7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 18/50] fix: give the PostgreSQL store a default event id
 generator

---
 provider/postgresstore/postgres_store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index ec14283..300df00 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -83,10 +83,11 @@ func WithPgNotify() Option {
 // New constructs an postgresStore.
 func New(config *Config, options ...Option) (*postgresStore, error) {
 	s := &postgresStore{
-		config:      config,
-		clock:       systemclock.New(),
-		serializer:  jsonrecordserializer.New(),
-		broadcaster: broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
+		config:        config,
+		clock:         systemclock.New(),
+		uuidGenerator: shortuuid.NewUUIDGenerator(),
+		serializer:    jsonrecordserializer.New(),
+		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
 	}
 
 	for _, option := range options {
-- 
2.43.0


From 6c8ede3edf45594a3df0e6c704f10f594e1564ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 19/50] fix: report a decryption error before the record is
 read

---
 .../decrypting_record_iterator.go             | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 0f75894..e045e08 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -26,7 +26,12 @@ func (i *decryptingRecordIterator) Next() bool {
 		return false
 	}
 
-	return i.parent.Next()
+	hasNext := i.parent.Next()
+	if hasNext {
+		i.decryptRecord()
+	}
+
+	return hasNext
 }
 
 func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
@@ -34,25 +39,32 @@ func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
 		return false
 	}
 
-	return i.parent.NextContext(ctx)
+	hasNext := i.parent.NextContext(ctx)
+	if hasNext {
+		i.decryptRecord()
+	}
+
+	return hasNext
 }
 
 func (i *decryptingRecordIterator) Record() *rangedb.Record {
+	if i.currentErr != nil {
+		return nil
+	}
+
+	return i.parent.Record()
+}
+
+func (i *decryptingRecordIterator) decryptRecord() {
 	record := i.parent.Record()
 
 	if record == nil {
-		return nil
+		return
 	}
 
 	if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
-		err := i.eventEncryptor.Decrypt(rangedbEvent)
-		if err != nil {
-			i.currentErr = err
-			return nil
-		}
+		i.currentErr = i.eventEncryptor.Decrypt(rangedbEvent)
 	}
-
-	return record
 }
 
 func (i *decryptingRecordIterator) Err() error {
-- 
2.43.0


From 349b8ccd25b0d604cf49f6d0f55b621cc936a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 20/50] fix: XChaCha20-Poly1305 rejects a cipher text shorter
 than its nonce instead of panicking

---
 pkg/crypto/xchacha20poly1305/xchacha20poly1305.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
index 9dfa3aa..f86e635 100644
--- a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
+++ b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
@@ -75,6 +75,10 @@ func (x *xChaCha20Poly1305) decrypt(key, sealedCipherText []byte) ([]byte, error
 	}
 
 	nonceSize := aead.NonceSize()
+	if len(sealedCipherText) < nonceSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	nonce, cipherText := sealedCipherText[:nonceSize], sealedCipherText[nonceSize:]
 
 	plaintext, err := aead.Open(nil, nonce, cipherText, nil)
-- 
2.43.0


From 4c56c34463837cec3e5a395771823154652ef0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 21/50] fix: AES-CBC rejects malformed cipher text and padding
 instead of panicking

---
 pkg/crypto/aes/cbc_pkcs5_padding.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index d382268..d9b0e10 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -85,6 +85,10 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(cipherText) == aes.BlockSize || len(cipherText)%aes.BlockSize != 0 {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	buf := bytes.NewReader(cipherText)
 	initializationVector := make([]byte, aes.BlockSize)
 	if _, err := io.ReadFull(buf, initializationVector); err != nil {
@@ -95,7 +99,7 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 	decrypted := make([]byte, len(cipherText)-aes.BlockSize)
 	ecb.CryptBlocks(decrypted, cipherText[aes.BlockSize:])
 
-	return pkcs5Trimming(decrypted), nil
+	return pkcs5Trimming(decrypted)
 }
 
 func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
@@ -104,7 +108,11 @@ func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
 	return append(ciphertext, padText...)
 }
 
-func pkcs5Trimming(value []byte) []byte {
-	padding := value[len(value)-1]
-	return value[:len(value)-int(padding)]
+func pkcs5Trimming(value []byte) ([]byte, error) {
+	padding := int(value[len(value)-1])
+	if padding == 0 || padding > aes.BlockSize || padding > len(value) {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
+	return value[:len(value)-padding], nil
 }
-- 
2.43.0


From b20b459502c4c94b9ea5fe9f3d3065163e89169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 22/50] fix: Vault only writes an encryption key for a subject
 that never had one

---
 .../vaultkeystore/hashicorp_vault_keystore.go      | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 8fb9bb6..889fc46 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -79,9 +79,14 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		return crypto.ErrKeyExistsForSubjectID
 	}
 
-	payload := dataPayload{Data: map[string]string{
-		"key": key,
-	}}
+	payload := dataPayload{
+		Options: map[string]int{
+			"cas": 0,
+		},
+		Data: map[string]string{
+			"key": key,
+		},
+	}
 	jsonString, err := json.Marshal(payload)
 	if err != nil {
 		return err
@@ -131,7 +136,8 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 }
 
 type dataPayload struct {
-	Data map[string]string `json:"data"`
+	Options map[string]int    `json:"options"`
+	Data    map[string]string `json:"data"`
 }
 
 type secretResponse struct {
-- 
2.43.0


From 72ad9f3806f5b74380df8d838bad8c4593ab3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 23/50] fix: close the response bodies of Vault requests

---
 .../provider/vaultkeystore/hashicorp_vault_keystore.go    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 889fc46..49e1a02 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
@@ -45,6 +46,7 @@ func (h *hashicorpVaultKeyStore) Get(subjectID string) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer ignoreClose(response.Body)
 
 	var resp secretResponse
 	err = json.NewDecoder(response.Body).Decode(&resp)
@@ -102,6 +104,7 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 	if err != nil {
 		return err
 	}
+	defer ignoreClose(response.Body)
 
 	if response.StatusCode != http.StatusOK {
 		body, _ := ioutil.ReadAll(response.Body)
@@ -124,6 +127,7 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 	if err != nil {
 		return err
 	}
+	defer ignoreClose(response.Body)
 
 	if response.StatusCode != http.StatusNoContent {
 		body, _ := ioutil.ReadAll(response.Body)
@@ -135,6 +139,10 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 	return nil
 }
 
+func ignoreClose(closer io.Closer) {
+	_ = closer.Close()
+}
+
 type dataPayload struct {
 	Options map[string]int    `json:"options"`
 	Data    map[string]string `json:"data"`
-- 
2.43.0


From 3614611125558bd00dceba2c23f80e95d82f3586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 24/50] fix: more than one PostgreSQL encryption key can be
 deleted

---
 pkg/crypto/provider/postgreskeystore/postgres_keystore.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
index 41b5521..a8f0a57 100644
--- a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
+++ b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
@@ -43,7 +43,7 @@ func (p *postgresKeyStore) Get(subjectID string) (string, error) {
 	row := p.db.QueryRow("SELECT EncryptionKey, DeletedAtTimestamp FROM vault WHERE SubjectID = $1",
 		subjectID)
 
-	var encryptionKey string
+	var encryptionKey sql.NullString
 	var deletedAtTimestamp *uint64
 	err := row.Scan(&encryptionKey, &deletedAtTimestamp)
 	if err != nil {
@@ -58,7 +58,7 @@ func (p *postgresKeyStore) Get(subjectID string) (string, error) {
 		return "", crypto.ErrKeyWasDeleted
 	}
 
-	return encryptionKey, nil
+	return encryptionKey.String, nil
 }
 
 func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
@@ -87,7 +87,7 @@ func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
 }
 
 func (p *postgresKeyStore) Delete(subjectID string) error {
-	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = '' WHERE SubjectID = $2",
+	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = NULL WHERE SubjectID = $2",
 		time.Now().Unix(),
 		subjectID)
 	if err != nil {
-- 
2.43.0


From 677980b14d85e024ac6c136ff107a0f538501871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 25/50] fix: keep integers of event data and metadata exact in
 saves and metadata reads

---
 pkg/grpc/rangedbpb/translate.go          |  3 ++-
 pkg/grpc/rangedbserver/server.go         | 10 +++++-----
 pkg/jsontools/json_tools.go              | 20 ++++++++++++++++++++
 pkg/rangedbapi/api.go                    |  5 ++++-
 provider/eventstore/eventstore.go        |  3 ++-
 provider/postgresstore/postgres_store.go |  7 ++++---
 6 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/pkg/grpc/rangedbpb/translate.go b/pkg/grpc/rangedbpb/translate.go
index 03043ad..ef3a2ff 100644
--- a/pkg/grpc/rangedbpb/translate.go
+++ b/pkg/grpc/rangedbpb/translate.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/inklabs/rangedb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
 )
 
@@ -48,7 +49,7 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 
 	var metadata interface{}
 	if pbRecord.Metadata != "null" {
-		err = json.Unmarshal([]byte(pbRecord.Metadata), &metadata)
+		err = jsontools.UnmarshalUseNumber([]byte(pbRecord.Metadata), &metadata)
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 00e5a43..12c7b3e 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -2,7 +2,6 @@ package rangedbserver
 
 import (
 	"context"
-	"encoding/json"
 	"fmt"
 	"log"
 
@@ -12,6 +11,7 @@ import (
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/broadcast"
 	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/recordsubscriber"
 	"github.com/inklabs/rangedb/provider/inmemorystore"
 )
@@ -163,7 +163,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 	for _, event := range req.Events {
 		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		err := jsontools.UnmarshalUseNumber([]byte(event.Data), &data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -175,7 +175,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			err = jsontools.UnmarshalUseNumber([]byte(event.Metadata), &metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -218,7 +218,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 	for _, event := range req.Events {
 		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		err := jsontools.UnmarshalUseNumber([]byte(event.Data), &data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -230,7 +230,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			err = jsontools.UnmarshalUseNumber([]byte(event.Metadata), &metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
diff --git a/pkg/jsontools/json_tools.go b/pkg/jsontools/json_tools.go
index d5d3035..c65d3e5 100644
--- a/pkg/jsontools/json_tools.go
+++ b/pkg/jsontools/json_tools.go
@@ -3,9 +3,29 @@ package jsontools
 import (
 	"bytes"
 	"encoding/json"
+	"fmt"
+	"io"
 	"strings"
 )
 
+// UnmarshalUseNumber parses exactly one JSON value like json.Unmarshal, except that numbers
+// of unknown type are kept as a json.Number instead of being rounded to a float64.
+func UnmarshalUseNumber(data []byte, v interface{}) error {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+
+	err := decoder.Decode(v)
+	if err != nil {
+		return err
+	}
+
+	if _, err = decoder.Token(); err != io.EOF {
+		return fmt.Errorf("unexpected data after JSON value")
+	}
+
+	return nil
+}
+
 // PrettyJSONString returns a human readable JSON formatted string.
 func PrettyJSONString(input string) string {
 	return PrettyJSON([]byte(input))
diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 5a7502c..f417134 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -265,7 +265,10 @@ func getEventRecords(r *http.Request) ([]*rangedb.EventRecord, error) {
 		Data          interface{} `json:"data"`
 		Metadata      interface{} `json:"metadata"`
 	}
-	err := json.NewDecoder(r.Body).Decode(&events)
+	decoder := json.NewDecoder(r.Body)
+	decoder.UseNumber()
+
+	err := decoder.Decode(&events)
 	if err != nil {
 		return nil, fmt.Errorf("invalid json request body: %v", err)
 	}
diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index e868c3f..2704465 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -21,6 +21,7 @@ import (
 	"github.com/inklabs/rangedb/pkg/broadcast"
 	"github.com/inklabs/rangedb/pkg/clock"
 	"github.com/inklabs/rangedb/pkg/clock/provider/systemclock"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/rangedberror"
 	"github.com/inklabs/rangedb/pkg/recordsubscriber"
 	"github.com/inklabs/rangedb/pkg/shortuuid"
@@ -684,7 +685,7 @@ func (s *eventStore) recordFromLinkedEvent(resolvedEvent *esdb.ResolvedEvent) (*
 	}
 
 	var eventStoreDBMetadata ESDBMetadata
-	err := json.Unmarshal(resolvedEvent.Event.UserMetadata, &eventStoreDBMetadata)
+	err := jsontools.UnmarshalUseNumber(resolvedEvent.Event.UserMetadata, &eventStoreDBMetadata)
 	if err != nil {
 		return nil, fmt.Errorf("unable to unmarshal ESDBMetadata err: %w", err)
 	}
diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 300df00..504d876 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -17,6 +17,7 @@ import (
 	"github.com/inklabs/rangedb/pkg/broadcast"
 	"github.com/inklabs/rangedb/pkg/clock"
 	"github.com/inklabs/rangedb/pkg/clock/provider/systemclock"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/rangedberror"
 	"github.com/inklabs/rangedb/pkg/recordsubscriber"
 	"github.com/inklabs/rangedb/pkg/shortuuid"
@@ -413,7 +414,7 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) {
 
 		var metadata interface{}
 		if batchRecord.Metadata != "null" {
-			err = json.Unmarshal([]byte(batchRecord.Metadata), &metadata)
+			err = jsontools.UnmarshalUseNumber([]byte(batchRecord.Metadata), &metadata)
 			if err != nil {
 				log.Printf("unable to unmarshal metadata: %v", err)
 				continue
@@ -657,7 +658,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 		var metadata interface{}
 		if serializedMetadata != "null" {
-			err = json.Unmarshal([]byte(serializedMetadata), &metadata)
+			err = jsontools.UnmarshalUseNumber([]byte(serializedMetadata), &metadata)
 			if err != nil {
 				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
 				rangedb.PublishErrorOrCancel(ctx, resultRecords, unmarshalErr, time.Second)
@@ -769,7 +770,7 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 
 			var metadata interface{}
 			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), &metadata)
+				err = jsontools.UnmarshalUseNumber([]byte(jsonRecord.Metadata), &metadata)
 				if err != nil {
 					log.Printf("unable to unmarshal metadata: %v", err)
 					continue
-- 
2.43.0


From 13f4c6ef372a7dc60c065f080e83edcda0beba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:02 +0000
Subject: [PATCH 26/50] fix: read the total event count under its lock and load
 a snapshot without types

---
 pkg/projection/aggregate_type_stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index 3712e7e..f8b3506 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -60,6 +60,8 @@ func (a *AggregateTypeStats) TotalEventsByAggregateType(aggregateType string) ui
 
 // TotalEvents returns the total number of received events.
 func (a *AggregateTypeStats) TotalEvents() uint64 {
+	a.mux.RLock()
+	defer a.mux.RUnlock()
 	return a.data.TotalEvents
 }
 
@@ -91,6 +93,10 @@ func (a *AggregateTypeStats) LoadFromSnapshot(r io.Reader) error {
 		return err
 	}
 
+	if data.TotalEventsByAggregateType == nil {
+		data.TotalEventsByAggregateType = make(map[string]uint64)
+	}
+
 	a.mux.Lock()
 	a.data.TotalEventsByAggregateType = data.TotalEventsByAggregateType
 	a.data.LatestGlobalSequenceNumber = data.LatestGlobalSequenceNumber
-- 
2.43.0


From e9c6a4e0216a28b9d75cc1353613f4273a704ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:02 +0000
Subject: [PATCH 27/50] fix: report a snapshot file that could not be written
 completely

---
 pkg/projection/disk_snapshot_store.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/projection/disk_snapshot_store.go b/pkg/projection/disk_snapshot_store.go
index c0fb327..c78911a 100644
--- a/pkg/projection/disk_snapshot_store.go
+++ b/pkg/projection/disk_snapshot_store.go
@@ -38,14 +38,23 @@ func (d *diskSnapshotStore) Save(projection SnapshotProjection) error {
 	if err != nil {
 		return fmt.Errorf("unable to create/open snapshot file: %v", err)
 	}
-	defer file.Close()
 
 	err = projection.SaveSnapshot(file)
 	if err != nil {
+		_ = file.Close()
 		return fmt.Errorf("unable to save snapshot: %v", err)
 	}
 
-	_ = file.Sync()
+	err = file.Sync()
+	if err != nil {
+		_ = file.Close()
+		return fmt.Errorf("unable to sync snapshot: %v", err)
+	}
+
+	err = file.Close()
+	if err != nil {
+		return fmt.Errorf("unable to close snapshot file: %v", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 334bdb13bde8c609d91c8b6738f6f8afede14cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 28/50] fix: guard the bound event types with a mutex

---
 event_identifier.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/event_identifier.go b/event_identifier.go
index ed94f6c..a7e8431 100644
--- a/event_identifier.go
+++ b/event_identifier.go
@@ -2,9 +2,11 @@ package rangedb
 
 import (
 	"reflect"
+	"sync"
 )
 
 type eventIdentifier struct {
+	mux        sync.RWMutex
 	eventTypes map[string]reflect.Type
 }
 
@@ -16,12 +18,18 @@ func NewEventIdentifier() *eventIdentifier {
 }
 
 func (s *eventIdentifier) Bind(events ...Event) {
+	s.mux.Lock()
+	defer s.mux.Unlock()
+
 	for _, e := range events {
 		s.eventTypes[e.EventType()] = getType(e)
 	}
 }
 
 func (s *eventIdentifier) EventTypeLookup(eventTypeName string) (r reflect.Type, b bool) {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	eventType, ok := s.eventTypes[eventTypeName]
 	return eventType, ok
 }
-- 
2.43.0


From 9a9a5dfb77349992315bf75712e98c2222f8a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 29/50] fix: shutting down the HTTP server does not end the
 process before the store is closed

---
 cmd/rangedb/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 43d2a07..b0c14fd 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -206,7 +206,7 @@ func nilFunc() error {
 func serveHTTP(srv *http.Server, listener net.Listener) {
 	fmt.Printf("Listening: http://%s\n", listener.Addr().String())
 	err := srv.Serve(listener)
-	if err != nil {
+	if err != nil && err != http.ErrServerClosed {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From 344492efdbdaa0d4017a20f414ae446a6a85967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:08 +0000
Subject: [PATCH 30/50] fix: close the PostgreSQL store on shutdown

---
 cmd/rangedb/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index b0c14fd..8d5303c 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -170,7 +170,7 @@ func getStore(levelDBPath string, logger *log.Logger) (rangedb.Store, string, fu
 		}
 
 		fmt.Println("Using PostgreSQL Store")
-		return postgresStore, postgreSQLConfig.DataSourceName(), nilFunc, nil
+		return postgresStore, postgreSQLConfig.DataSourceName(), postgresStore.CloseDB, nil
 	}
 
 	esdbConfig, err := eventstore.NewConfigFromEnvironment()
-- 
2.43.0


From f6b6c606425e6f0f4cd1fc79ec3393a9bc725482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:08 +0000
Subject: [PATCH 31/50] fix: keep database passwords out of the snapshot path

---
 cmd/rangedb/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 8d5303c..5cfe961 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -170,7 +170,13 @@ func getStore(levelDBPath string, logger *log.Logger) (rangedb.Store, string, fu
 		}
 
 		fmt.Println("Using PostgreSQL Store")
-		return postgresStore, postgreSQLConfig.DataSourceName(), postgresStore.CloseDB, nil
+		snapshotName := fmt.Sprintf("postgres-%s-%d-%s-%s",
+			url.PathEscape(postgreSQLConfig.Host),
+			postgreSQLConfig.Port,
+			url.PathEscape(postgreSQLConfig.DBName),
+			url.PathEscape(postgreSQLConfig.SearchPath),
+		)
+		return postgresStore, snapshotName, postgresStore.CloseDB, nil
 	}
 
 	esdbConfig, err := eventstore.NewConfigFromEnvironment()
@@ -181,7 +187,7 @@ func getStore(levelDBPath string, logger *log.Logger) (rangedb.Store, string, fu
 		}
 
 		fmt.Println("Using EventStoreDB Store")
-		return esdbStore, esdbConfig.ConnectionString(), esdbStore.Close, nil
+		return esdbStore, fmt.Sprintf("esdb-%s", url.PathEscape(esdbConfig.IPAddr)), esdbStore.Close, nil
 	}
 
 	if levelDBPath != "" {
-- 
2.43.0


From 45eaf709ebfee86b54ccb39131466f9dda0e20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 32/50] fix: refuse a self encrypting event passed by value
 instead of storing it as plain text

---
 pkg/crypto/eventencryptor/event_encryptor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/crypto/eventencryptor/event_encryptor.go b/pkg/crypto/eventencryptor/event_encryptor.go
index 5ab1705..ca38556 100644
--- a/pkg/crypto/eventencryptor/event_encryptor.go
+++ b/pkg/crypto/eventencryptor/event_encryptor.go
@@ -3,12 +3,16 @@ package eventencryptor
 import (
 	cryptoRand "crypto/rand"
 	"encoding/base64"
+	"fmt"
 	"io"
+	"reflect"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/crypto"
 )
 
+var selfEncryptorType = reflect.TypeOf((*crypto.SelfEncryptor)(nil)).Elem()
+
 type eventEncryptor struct {
 	engine *engine
 }
@@ -24,6 +28,10 @@ func (e *eventEncryptor) Encrypt(event rangedb.Event) error {
 		return event.Encrypt(e.engine)
 	}
 
+	if reflect.PtrTo(reflect.TypeOf(event)).Implements(selfEncryptorType) {
+		return fmt.Errorf("unable to encrypt event (%T): event must be a pointer", event)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From a453d4b8d3b65c932702422ec639b0652ceb45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:12 +0000
Subject: [PATCH 33/50] fix: JSON record streams report a truncated or
 unreadable input

---
 provider/jsonrecordiostream/json_record_io_stream.go  | 11 +++++++++++
 .../ndjsonrecordiostream/ndjson_record_io_stream.go   |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 0ae5b8a..c84cd79 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -97,6 +97,17 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err = decoder.Token()
+		if err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    err,
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index aec3856..b03d522 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -82,6 +82,14 @@ func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err := decoder.Token()
+		if err != nil && err != io.EOF {
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    err,
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
-- 
2.43.0


From b47a303dab96da066b33dbb4fa3bbb438f67e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 34/50] fix: an optimistic save to EventStoreDB reports a
 failure to read the current position

---
 provider/eventstore/eventstore.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 2704465..00dc0f2 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -544,7 +544,11 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 	aggregateID := eventRecords[0].Event.AggregateID()
 
 	if expectedStreamSequenceNumber != nil {
-		streamSequenceNumber, _ := s.getStreamSequenceNumber(ctx, streamName)
+		streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, streamName)
+		if err != nil && err != rangedb.ErrStreamNotFound {
+			return 0, err
+		}
+
 		if *expectedStreamSequenceNumber != streamSequenceNumber {
 			return 0, &rangedberror.UnexpectedSequenceNumber{
 				Expected:             *expectedStreamSequenceNumber,
-- 
2.43.0


From fc0b64410f11068d3e8c6d1eb258b1b0a517009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 35/50] fix: quote the values of a PostgreSQL DSN so that parts
 of a password are not read as keys and reported

---
 provider/postgresstore/config.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/provider/postgresstore/config.go b/provider/postgresstore/config.go
index 288e26e..2f79804 100644
--- a/provider/postgresstore/config.go
+++ b/provider/postgresstore/config.go
@@ -3,6 +3,8 @@ package postgresstore
 import (
 	"fmt"
 	"os"
+	"strings"
+	"unicode"
 )
 
 // Config holds the state for a PostgreSQL DB config.
@@ -19,11 +21,23 @@ type Config struct {
 func (c Config) DataSourceName() string {
 	searchPath := ""
 	if c.SearchPath != "" {
-		searchPath = fmt.Sprintf(" search_path=%s", c.SearchPath)
+		searchPath = fmt.Sprintf(" search_path=%s", dsnValue(c.SearchPath))
 	}
 
 	return fmt.Sprintf("host=%s port=%d user=%s password=%s dbname=%s sslmode=disable%s",
-		c.Host, c.Port, c.User, c.Password, c.DBName, searchPath)
+		dsnValue(c.Host), c.Port, dsnValue(c.User), dsnValue(c.Password), dsnValue(c.DBName), searchPath)
+}
+
+// dsnValue quotes a value that would otherwise be read as the end of the value, or as another key.
+func dsnValue(value string) string {
+	needsQuotes := func(r rune) bool {
+		return unicode.IsSpace(r) || r == '\'' || r == '\\'
+	}
+	if value != "" && strings.IndexFunc(value, needsQuotes) < 0 {
+		return value
+	}
+
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
 }
 
 // NewConfigFromEnvironment loads a Postgres config from environment variables.
-- 
2.43.0


From dcbd7703e7174fe5c1282052f56d8f7bf3d511d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 36/50] fix: keep the EventStoreDB password out of the
 connection string, whose errors quote it

---
 provider/eventstore/eventstore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 00dc0f2..a759924 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -154,11 +154,13 @@ func (s *eventStore) Close() error {
 }
 
 func (s *eventStore) setupClient() error {
-	config, err := esdb.ParseConnectionString(s.config.ConnectionString())
+	config, err := esdb.ParseConnectionString(fmt.Sprintf("esdb://%s", s.config.IPAddr))
 	if err != nil {
 		return fmt.Errorf("unexpected configuration error: %s", err.Error())
 	}
 
+	config.Username = s.config.Username
+	config.Password = s.config.Password
 	config.DisableTLS = true
 	config.SkipCertificateVerification = true
 	client, err := esdb.NewClient(config)
-- 
2.43.0


From 7445237c4364d9a156e236e31bf8fe5c92770aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 37/50] fix: the web UI shows sequence numbers above the signed
 range as they are

---
 pkg/rangedbui/functions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/rangedbui/functions.go b/pkg/rangedbui/functions.go
index 8ff1359..8e5d3b7 100644
--- a/pkg/rangedbui/functions.go
+++ b/pkg/rangedbui/functions.go
@@ -3,6 +3,7 @@ package rangedbui
 import (
 	"encoding/json"
 	"html/template"
+	"math/big"
 	"time"
 
 	"github.com/dustin/go-humanize"
@@ -30,5 +31,5 @@ func formatJson(v interface{}) string {
 }
 
 func formatUint64(v uint64) string {
-	return humanize.Comma(int64(v))
+	return humanize.BigComma(new(big.Int).SetUint64(v))
 }
-- 
2.43.0


From 1d16f759a5541ece255f22967cf001054c8193ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 38/50] fix: new PostgreSQL tables number events beyond 2^31

---
 provider/postgresstore/postgres_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 504d876..8c89018 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -551,7 +551,7 @@ func (s *postgresStore) InitDB() error {
 			StreamName TEXT,
 			AggregateType TEXT,
 			AggregateID TEXT,
-			GlobalSequenceNumber SERIAL PRIMARY KEY,
+			GlobalSequenceNumber BIGSERIAL PRIMARY KEY,
 			StreamSequenceNumber BIGINT,
 			InsertTimestamp BIGINT,
 			EventID TEXT,
-- 
2.43.0


From 101109137299852d6347aeff8c2aadd2bea7afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:57 +0000
Subject: [PATCH 39/50] fix: an interrupt before the gRPC server starts serving
 does not end the process with the store open

---
 cmd/rangedb/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 5cfe961..cb396d7 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -220,7 +220,7 @@ func serveHTTP(srv *http.Server, listener net.Listener) {
 func serveGRPC(srv *grpc.Server, listener net.Listener) {
 	fmt.Printf("gRPC listening: grpc://%s\n", listener.Addr().String())
 	err := srv.Serve(listener)
-	if err != nil {
+	if err != nil && err != grpc.ErrServerStopped {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From ebb74405fb6acab3299f27248d931c262f6a0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 40/50] fix: refuse batches that mix an empty aggregate type or
 id with another one

---
 provider/inmemorystore/inmemory_store.go | 6 +++---
 provider/leveldbstore/leveldb_store.go   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 6c4e60a..5db302c 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -240,14 +240,14 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	var createdGlobalSequenceNumbers []uint64
 
 	s.mux.Lock()
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index ae69765..138cc71 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -223,13 +223,13 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 		return 0, err
 	}
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
-- 
2.43.0


From 30ca361d23cc0f2ee386b326fc982ca7877fda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:41 +0000
Subject: [PATCH 41/50] fix: keep global order in LevelDB when another
 aggregate type's keys share a prefix

---
 provider/leveldbstore/leveldb_store.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 138cc71..98d1b8f 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -445,7 +445,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, globalSequenceNumb
 			iters = append(iters, s.db.NewIterator(keyRange, nil))
 		}
 
-		iter := iterator.NewMergedIterator(iters, numberComparer{comparer.DefaultComparer}, true)
+		iter := iterator.NewMergedIterator(iters, numberComparer{comparer.DefaultComparer, keys}, true)
 		defer iter.Release()
 
 		for iter.Next() {
@@ -522,13 +522,26 @@ func isKeyWithNumber(key []byte, inputKeys ...string) bool {
 	return false
 }
 
-// numberComparer orders keys by the number at their end.
+// numberComparer orders keys by the number at their end, after longer keys that only share a prefix with one of the keys.
 type numberComparer struct {
 	comparer.Comparer
+	keys []string
 }
 
-func (numberComparer) Compare(a, b []byte) int {
-	return bytes.Compare(a[len(a)-numberSize:], b[len(b)-numberSize:])
+func (c numberComparer) Compare(a, b []byte) int {
+	aHasNumber, bHasNumber := isKeyWithNumber(a, c.keys...), isKeyWithNumber(b, c.keys...)
+	switch {
+	case aHasNumber && bHasNumber:
+		return bytes.Compare(a[len(a)-numberSize:], b[len(b)-numberSize:])
+
+	case aHasNumber:
+		return 1
+
+	case bHasNumber:
+		return -1
+	}
+
+	return 0
 }
 
 func uint64ToBytes(number uint64) []byte {
-- 
2.43.0


From d8f0e5efa346b13cf9f01906839e768c0765b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:25 +0000
Subject: [PATCH 42/50] fix: close the response body of the scavenge request

---
 provider/eventstore/eventstore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index a759924..46722f5 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -808,6 +808,7 @@ func (s *eventStore) waitForScavenge(ctx context.Context) {
 		log.Print(err)
 		return
 	}
+	defer func() { _ = response.Body.Close() }()
 
 	if response.StatusCode != 200 {
 		log.Print(response)
-- 
2.43.0


From 4a735f0d17f422228cea67c87524e7ebffcf17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:40 +0000
Subject: [PATCH 43/50] fix: close the postgres notification listener and
 connection when they are no longer used

---
 provider/postgresstore/postgres_store.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 8c89018..c7dcdc9 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -55,6 +55,7 @@ type postgresStore struct {
 	serializer        JsonSerializer
 	broadcaster       broadcast.Broadcaster
 	pgNotifyIsEnabled bool
+	listener          *pq.Listener
 }
 
 // Option defines functional option parameters for postgresStore.
@@ -103,6 +104,7 @@ func New(config *Config, options ...Option) (*postgresStore, error) {
 	if s.pgNotifyIsEnabled {
 		err = s.startPQListener()
 		if err != nil {
+			ignoreClose(s.db)
 			return nil, err
 		}
 	}
@@ -110,8 +112,12 @@ func New(config *Config, options ...Option) (*postgresStore, error) {
 	return s, nil
 }
 
-// CloseDB closes the postgres DB connection.
+// CloseDB closes the postgres DB connection, and stops listening for notifications.
 func (s *postgresStore) CloseDB() error {
+	if s.listener != nil {
+		ignoreClose(s.listener)
+	}
+
 	return s.db.Close()
 }
 
@@ -703,6 +709,7 @@ func (s *postgresStore) connectToDB() error {
 
 	err = db.Ping()
 	if err != nil {
+		ignoreClose(db)
 		return fmt.Errorf("unable to connect to DB: %v", err)
 	}
 
@@ -721,9 +728,11 @@ func (s *postgresStore) startPQListener() error {
 	listener := pq.NewListener(s.config.DataSourceName(), 10*time.Second, time.Minute, reportProblem)
 	err := listener.Listen("records")
 	if err != nil {
+		ignoreClose(listener)
 		return err
 	}
 
+	s.listener = listener
 	go s.listen(listener)
 
 	return nil
@@ -746,7 +755,11 @@ type PostgresJsonRecord struct {
 func (s *postgresStore) listen(listener *pq.Listener) {
 	for {
 		select {
-		case n := <-listener.Notify:
+		case n, ok := <-listener.Notify:
+			if !ok {
+				return
+			}
+
 			if n == nil {
 				continue
 			}
-- 
2.43.0


From dc9d55e2c70046008b930f064bea885ade36cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:06 +0000
Subject: [PATCH 44/50] fix: close the postgres key store's connection when it
 cannot be set up

---
 pkg/crypto/provider/postgreskeystore/postgres_keystore.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
index a8f0a57..b961e9b 100644
--- a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
+++ b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
@@ -33,6 +33,7 @@ func New(config *postgresstore.Config) (*postgresKeyStore, error) {
 	}
 	err = p.initDB()
 	if err != nil {
+		_ = p.db.Close()
 		return nil, err
 	}
 
@@ -105,6 +106,7 @@ func (p *postgresKeyStore) connectToDB() error {
 
 	err = db.Ping()
 	if err != nil {
+		_ = db.Close()
 		return fmt.Errorf("unable to connect to DB: %v", err)
 	}
 
-- 
2.43.0


From 6b6934a5336ca447440315241fc49edf14efb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:49 +0000
Subject: [PATCH 45/50] fix: cancel the context of a realtime page when its
 handler returns

---
 pkg/rangedbui/ui.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 071a175..7d038aa 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -305,6 +305,7 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 	latestGlobalSequenceNumber := a.aggregateTypeStats.LatestGlobalSequenceNumber()
 	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
 	ctx, cancel := context.WithCancel(r.Context())
+	defer cancel()
 
 	recordSubscriber := rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
 		totalRecords++
-- 
2.43.0


From 52d9e537daf3b7a5fe8472909c73aec02b52bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:23 +0000
Subject: [PATCH 46/50] fix: a cancellation reported by the store behind a gRPC
 server reaches the remote caller as a cancelled context

---
 provider/remotestore/remote_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 7af5651..fe5a795 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -21,7 +21,7 @@ import (
 
 const (
 	broadcastRecordBuffSize        = 100
-	rpcErrContextCanceled          = "Canceled desc = context canceled"
+	rpcErrContextCanceled          = "context canceled"
 	rpcErrUnexpectedSequenceNumber = "unexpected sequence number"
 	rpcErrStreamNotFound           = "Unknown desc = stream not found"
 )
-- 
2.43.0


From d1adfc3468c44dd85f6ec99aa313a1c1526c6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:40 +0000
Subject: [PATCH 47/50] fix: subscribers of an encrypted store decrypt a copy
 of the record, which other subscribers share

---
 provider/encryptedstore/encrypted_store.go | 27 ++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 73fc69d..603ca13 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -2,6 +2,7 @@ package encryptedstore
 
 import (
 	"context"
+	"reflect"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/crypto"
@@ -63,13 +64,35 @@ func (e *encryptedStore) Save(ctx context.Context, streamName string, eventRecor
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-	return e.parent.AllEventsSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor))
+	return e.parent.AllEventsSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber))
 }
 
 func (e *encryptedStore) AggregateTypesSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber, aggregateTypes ...string) rangedb.RecordSubscription {
-	return e.parent.AggregateTypesSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor), aggregateTypes...)
+	return e.parent.AggregateTypesSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber), aggregateTypes...)
 }
 
 func (e *encryptedStore) TotalEventsInStream(ctx context.Context, streamName string) (uint64, error) {
 	return e.parent.TotalEventsInStream(ctx, streamName)
 }
+
+// decryptingSubscriber decrypts a copy of each record, because the parent store shares a record among its subscribers.
+func (e *encryptedStore) decryptingSubscriber(subscriber rangedb.RecordSubscriber) rangedb.RecordSubscriber {
+	decryptingSubscriber := NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor)
+
+	return rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		decryptingSubscriber.Accept(copyRecord(record))
+	})
+}
+
+func copyRecord(record *rangedb.Record) *rangedb.Record {
+	recordCopy := *record
+
+	event := reflect.ValueOf(record.Data)
+	if event.Kind() == reflect.Ptr && !event.IsNil() {
+		eventCopy := reflect.New(event.Type().Elem())
+		eventCopy.Elem().Set(event.Elem())
+		recordCopy.Data = eventCopy.Interface()
+	}
+
+	return &recordCopy
+}
-- 
2.43.0


From 284e95dc62a34a71d7b296bcbab5ac755f93bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:48 +0000
Subject: [PATCH 48/50] fix: links between the pages of a stream escape its
 name

---
 pkg/rangedbui/ui.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 7d038aa..0f55602 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -10,6 +10,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/gorilla/handlers"
@@ -229,7 +230,7 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/s/%s", streamName)
+	baseURI := fmt.Sprintf("/s/%s", url.PathEscape(streamName))
 	totalRecords, err := a.store.TotalEventsInStream(r.Context(), streamName)
 	if err != nil {
 		if errors.Is(err, context.Canceled) {
-- 
2.43.0


From f2a0358369732c74d45a6b43cfe25daf42920e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:29 +0000
Subject: [PATCH 49/50] fix: record streams report that they could not be
 written

---
 .../json_record_io_stream.go                  | 30 ++++++++++++++++---
 .../msgpack_record_io_stream.go               | 14 ++++++++-
 .../ndjson_record_io_stream.go                | 22 ++++++++++----
 3 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index c84cd79..f782814 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -27,7 +27,12 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 	go func() {
 		defer close(errors)
 
-		_, _ = fmt.Fprint(writer, "[")
+		_, err := fmt.Fprint(writer, "[")
+		if err != nil {
+			errors <- fmt.Errorf("failed writing events: %v", err)
+			drain(recordIterator)
+			return
+		}
 
 		totalSaved := 0
 		for recordIterator.Next() {
@@ -42,24 +47,41 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 				return
 			}
 
+			separator := ""
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, ",")
+				separator = ","
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			_, err = fmt.Fprintf(writer, "%s%s", separator, data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing event: %v", err)
+				drain(recordIterator)
+				return
+			}
 
 			totalSaved++
 		}
-		_, _ = fmt.Fprint(writer, "]")
+		_, err = fmt.Fprint(writer, "]")
 
 		if recordIterator.Err() != nil {
 			errors <- recordIterator.Err()
+			return
+		}
+
+		if err != nil {
+			errors <- fmt.Errorf("failed writing events: %v", err)
 		}
 	}()
 
 	return errors
 }
 
+// drain lets go of what a read still holds when its records can no longer be written.
+func drain(recordIterator rangedb.RecordIterator) {
+	for recordIterator.Next() {
+	}
+}
+
 func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
 
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index f1f0d52..ee6ac85 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -1,6 +1,7 @@
 package msgpackrecordiostream
 
 import (
+	"fmt"
 	"io"
 	"reflect"
 
@@ -43,7 +44,12 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 				return
 			}
 
-			_, _ = writer.Write(serializedRecord)
+			_, err = writer.Write(serializedRecord)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing event: %v", err)
+				drain(recordIterator)
+				return
+			}
 		}
 
 		if recordIterator.Err() != nil {
@@ -54,6 +60,12 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 	return errors
 }
 
+// drain lets go of what a read still holds when its records can no longer be written.
+func drain(recordIterator rangedb.RecordIterator) {
+	for recordIterator.Next() {
+	}
+}
+
 func (s *msgpackRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
 
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index b03d522..488b402 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -34,17 +34,23 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				return
 			}
 
-			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, "\n")
-			}
-
 			data, err := json.Marshal(recordIterator.Record())
 			if err != nil {
 				errors <- fmt.Errorf("failed marshalling event: %v", err)
 				return
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			separator := ""
+			if totalSaved > 0 {
+				separator = "\n"
+			}
+
+			_, err = fmt.Fprintf(writer, "%s%s", separator, data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing event: %v", err)
+				drain(recordIterator)
+				return
+			}
 
 			totalSaved++
 		}
@@ -57,6 +63,12 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 	return errors
 }
 
+// drain lets go of what a read still holds when its records can no longer be written.
+func drain(recordIterator rangedb.RecordIterator) {
+	for recordIterator.Next() {
+	}
+}
+
 func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
 
-- 
2.43.0


From bee537dedaa1557d3d371fb970d05d7d16c2234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:29 +0000
Subject: [PATCH 50/50] fix: EventStoreDB compares the expected sequence number
 for empty streams too

---
 provider/eventstore/eventstore.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 46722f5..73d9934 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -438,6 +438,19 @@ func oneBasedSequenceNumber(sequenceNumber uint64) uint64 {
 }
 
 func (s *eventStore) OptimisticDeleteStream(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string) error {
+	if expectedStreamSequenceNumber == 0 {
+		// there is no revision that stands for a stream without events
+		actualSequenceNumber, err := s.getStreamSequenceNumber(ctx, streamName)
+		if err != nil {
+			return err
+		}
+
+		return &rangedberror.UnexpectedSequenceNumber{
+			Expected:             expectedStreamSequenceNumber,
+			ActualSequenceNumber: actualSequenceNumber,
+		}
+	}
+
 	versionedStreamName := s.streamName(streamName)
 	tombstoneStreamOptions := esdb.TombstoneStreamOptions{
 		ExpectedRevision: esdb.Revision(zeroBasedSequenceNumber(expectedStreamSequenceNumber)),
@@ -610,8 +623,12 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 	}
 
 	var streamRevision esdb.ExpectedRevision
-	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber > 0 {
-		streamRevision = esdb.Revision(zeroBasedSequenceNumber(*expectedStreamSequenceNumber))
+	if expectedStreamSequenceNumber != nil {
+		if *expectedStreamSequenceNumber > 0 {
+			streamRevision = esdb.Revision(zeroBasedSequenceNumber(*expectedStreamSequenceNumber))
+		} else {
+			streamRevision = esdb.NoStream{}
+		}
 	}
 
 	appendToStreamRevisionOptions := esdb.AppendToStreamOptions{
@@ -619,10 +636,15 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 	}
 	result, err := s.client.AppendToStream(ctx, s.streamName(streamName), appendToStreamRevisionOptions, proposedEvents...)
 	if err != nil {
-		if errors.Is(err, esdb.ErrWrongExpectedStreamRevision) {
+		if expectedStreamSequenceNumber != nil && errors.Is(err, esdb.ErrWrongExpectedStreamRevision) {
+			actualSequenceNumber, err := s.getStreamSequenceNumber(ctx, streamName)
+			if err != nil && err != rangedb.ErrStreamNotFound {
+				return 0, err
+			}
+
 			return 0, &rangedberror.UnexpectedSequenceNumber{
 				Expected:             *expectedStreamSequenceNumber,
-				ActualSequenceNumber: 0,
+				ActualSequenceNumber: actualSequenceNumber,
 			}
 		}
 
-- 
2.43.0

