From 533d55bf7c02cda6979229c5f62dbe61e1cb1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 01/25] fix: filter.In must not crash on tickets without
 attributes

A ticket stored without attributes made every invocation whose pool has a
double or string filter panic; read the argument maps through the nil-safe
getters, so that such a ticket simply does not match.
---
 core/internal/filter/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/filter/filter.go b/core/internal/filter/filter.go
index c30ebb0..83496d6 100644
--- a/core/internal/filter/filter.go
+++ b/core/internal/filter/filter.go
@@ -86,7 +86,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, filter := range pool.DoubleRangeFilters {
-		v, ok := filterableFields.DoubleArgs[filter.GetDoubleArg()]
+		v, ok := filterableFields.GetDoubleArgs()[filter.GetDoubleArg()]
 		if !ok {
 			return false
 		}
@@ -113,7 +113,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, f := range pool.StringEqualsFilters {
-		v, ok := filterableFields.StringArgs[f.GetStringArg()]
+		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
 		if !ok {
 			return false
 		}
-- 
2.43.0


From cc9487895dd0612f22b5e90df0780cb4f97d01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 02/25] fix: return Redis connections to their pool after use

---
 core/internal/statestore/redis/redis.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index eacd97d..baa840d 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -106,6 +106,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	var err error
 	rConn := rr.wConnPool.Get()
+	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
 
@@ -252,6 +253,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	logger.Debugf("Executing redis command: %v %v", redisCmd, redisArgs)
 
 	rConn := rr.rConnPool.Get()
+	defer rConn.Close()
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
-- 
2.43.0


From 56c4d73de59839139b594cec591c019fc02e6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 03/25] fix: match Redis replies to the updates that were sent,
 and report updates without one as failed

---
 core/internal/statestore/redis/redis.go | 44 ++++++++++++++++---------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index baa840d..76d7e87 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -193,27 +193,41 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	// Last command we sent was the XTRIM above, so read all results but that final one into
 	// the array of strings to return from this function
-	if r != nil { // Make sure we have results before we parse them
-		for index := 0; index < len(r.([]interface{}))-1; index++ {
-			// First, make sure this was a valid update
-			if out[index].Err == nil {
-				t, err := redis.String(r.([]interface{})[index], err)
-				if err != nil {
-					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
-					t = ""
+	replies, _ := r.([]interface{})
+	replyIndex := 0 // Only valid updates were sent to redis, so only those have a reply.
+	for index := range out {
+		// First, make sure this was a valid update
+		if out[index].Err == nil {
+			if replyIndex >= len(replies) {
+				// No reply from redis (for example, the connection failed), so
+				// there's no confirmation this update was written.
+				if err == nil {
+					err = errors.New("No reply from Redis")
 				}
-				out[index].Result = t
-				fmt.Printf(" %v - found string: %v\n", index, t)
-			} else {
-				// Error, the update didn't have all the required fields so it was never sent to redis.
-				// Return the error code, and the result is the key that generated the error.
-				fmt.Printf(" %v - had error\n", index)
+				out[index].Err = fmt.Errorf("Redis error: %w", err)
 				out[index].Result = updates[index].Key
+				continue
 			}
+			t, err := redis.String(replies[replyIndex], nil)
+			replyIndex++
+			if err != nil {
+				// The result is the key that generated the error.
+				out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
+				t = updates[index].Key
+			}
+			out[index].Result = t
+			fmt.Printf(" %v - found string: %v\n", index, t)
+		} else {
+			// Error, the update didn't have all the required fields so it was never sent to redis.
+			// Return the error code, and the result is the key that generated the error.
+			fmt.Printf(" %v - had error\n", index)
+			out[index].Result = updates[index].Key
 		}
+	}
 
+	if replyIndex < len(replies) {
 		// Last result from redis is a count of number of entries we removed with the XTRIM command.
-		expiredCount, err := redis.Int64(r.([]interface{})[len(r.([]interface{}))-1], err)
+		expiredCount, err := redis.Int64(replies[len(replies)-1], nil)
 		if err != nil {
 			logger.Errorf("Redis output int64 conversion error: %v", err)
 		}
-- 
2.43.0


From 66850e9f7d94df0ec1d97c3ab990a27ad24a0b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 04/25] fix: trim the Redis stream using a millisecond
 threshold, the unit of its entry ids

---
 core/internal/statestore/redis/redis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 76d7e87..147a88a 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -178,7 +178,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	}
 
 	// Append command to remove expired entries
-	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
+	expirationThresh := strconv.FormatInt(time.Now().UnixMilli()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS")*1000, 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
 	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
-- 
2.43.0


From 3f3a181200fe68532e1cb2e2d6240fd352485bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 05/25] fix: treat the leading part of a ticket id as
 milliseconds everywhere

---
 .../statestore/cache/replicatedticketcache.go       | 13 +++++++------
 core/internal/statestore/memory/main.go             |  4 ++--
 core/main.go                                        |  2 +-
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index be18da2..680cd54 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -256,9 +256,10 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		// revisit / possibly do it asynchronously
 		//
 		// Ticket IDs are assigned by Redis in the format of
-		// <unix_timestamp>-<index> where the index increments every time a
-		// ticket is created during the same second. We are only
-		// interested in the ticket creation time (the unix timestamp) here.
+		// <unix_timestamp>-<index> where the timestamp is in milliseconds and
+		// the index increments every time a ticket is created during the same
+		// millisecond. We are only interested in the ticket creation time (the
+		// unix timestamp) here.
 		//
 		// The in-memory replication module just follows the redis entry ID
 		// convention so this works fine, but retrieving the creation time
@@ -296,7 +297,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) > 1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
@@ -329,8 +330,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) >
-					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) >
+					1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
 				}
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 4909021..ca0a5fc 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,12 +96,12 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().Unix() == rc.replTS.Unix() {
+	if time.Now().UnixMilli() == rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
 		rc.replCount = 0
 	}
-	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.Unix(), 10), rc.replCount)
+	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
 	return id
 }
diff --git a/core/main.go b/core/main.go
index f603ef2..09daf7f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -842,7 +842,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		if err != nil {
 			logger.Error(err)
 		}
-		ticketCtime := time.Unix(x, 0)
+		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
 		if ticketCtime.After(newestTicketCtime) {
-- 
2.43.0


From 748f86f6b34dfc83b752de65b5e46d062dc7fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 06/25] fix: do not treat tickets created or expired while the
 cache is copied as active

---
 core/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index 09daf7f..868e8d8 100644
--- a/core/main.go
+++ b/core/main.go
@@ -945,13 +945,16 @@ func syncMapDump(sm *sync.Map) map[string]interface{} {
 // two sets, as they are still being updated asynchronously in a number of
 // other goroutines. The rest of the design of OM takes this into account.
 func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
-	inactiveTicketIds := syncMapDump(inactiveSet)
 	// Copy the ticket cache, leaving out inactive tickets.
 	tix.Range(func(id, ticket any) bool {
 		// not ok means an error was encountered, indicating this
 		// ticket is NOT inactive (meaning it IS active)
-		if _, ok := inactiveTicketIds[id.(string)]; !ok {
-			activeTickets = append(activeTickets, ticket)
+		if _, ok := inactiveSet.Load(id); !ok {
+			// Expired tickets are removed before their inactive set entry, so
+			// make sure the ticket is still there.
+			if _, ok := tix.Load(id); ok {
+				activeTickets = append(activeTickets, ticket)
+			}
 		}
 		return true
 	})
-- 
2.43.0


From 010538bba792ee4b7775f9cd6a2bd12857af5e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 07/25] fix: send every valid pool to the MMFs, with its name,
 filters and extensions

---
 core/main.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/main.go b/core/main.go
index 868e8d8..cc9918d 100644
--- a/core/main.go
+++ b/core/main.go
@@ -457,13 +457,13 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 			Pools:      pools,
 			Extensions: req.GetProfile().GetExtensions(),
 		}
-		for name, participantRoster := range chunk {
-			profile.GetPools()[name] = &pb.Pool{
-				Participants: &pb.Roster{
-					Name:    name + "_roster",
-					Tickets: participantRoster,
-				},
+		for name := range validPools {
+			pool := proto.Clone(req.GetProfile().GetPools()[name]).(*pb.Pool)
+			pool.Participants = &pb.Roster{
+				Name:    name + "_roster",
+				Tickets: chunk[name],
 			}
+			profile.GetPools()[name] = pool
 		}
 		chunkedRequest[chunkIndex] = &pb.ChunkedMmfRunRequest{
 			Profile:   profile,
-- 
2.43.0


From 1c0b65278854f5f05c05ec595d1786f67242473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 08/25] fix: do not crash on a match without tickets

---
 core/main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index cc9918d..6bc8e47 100644
--- a/core/main.go
+++ b/core/main.go
@@ -645,7 +645,12 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Function to check if deactivation of the last ticket
 						// in this match's rosters has been replicated to the
 						// local cache
-						deactivationCheck := func(ticketId string) {
+						deactivationCheck := func(ticketIds []string) {
+							if len(ticketIds) == 0 {
+								// No tickets in this match, nothing to wait for
+								return
+							}
+							ticketId := ticketIds[len(ticketIds)-1]
 							// We'd never expect the deactivation to take this
 							// long to replicate, but best practices require
 							// /some/ timeout.
@@ -669,7 +674,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 1: Wait for deactivation to complete BEFORE
 						// returning the match.
 						if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete, returning match")
 						}
 
@@ -683,7 +688,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 2: Match already returned; clean up
 						// goroutine when deactivation is complete.
 						if !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete for previously returned match")
 						}
 						return
-- 
2.43.0


From 6284371abdd90973c9cd920942d43477a42b1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 09/25] fix: wait for pending matches when an MMF stream ends
 with an error

---
 core/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/main.go b/core/main.go
index 6bc8e47..d60c389 100644
--- a/core/main.go
+++ b/core/main.go
@@ -582,6 +582,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// deactivations are complete. (All tickets in matches returned
 				// by the MMF are set to inactive by OM)
 				var tdwg sync.WaitGroup
+				// Also wait when this function returns early due to an error.
+				defer tdwg.Wait()
 
 				// i counts the number of loops for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
-- 
2.43.0


From 6f95e70d8ee81997ad3cbaa2082632fdd70e81c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 10/25] fix: finish streaming back the last match before the
 call returns

---
 core/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/main.go b/core/main.go
index d60c389..cc97862 100644
--- a/core/main.go
+++ b/core/main.go
@@ -481,8 +481,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	matchChan := make(chan *pb.Match)
 	// Channel that receives a bool flag when all MMFs have closed their streams.
 	waitChan := make(chan bool)
+	// Channel that is closed once all matches have been streamed back.
+	fanInDone := make(chan struct{})
 	var mmfwg sync.WaitGroup
 	go func() {
+		defer close(fanInDone)
 		logger.Debug("MMF results fan-in goroutine active")
 		for {
 			select {
@@ -727,6 +730,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	mmfwg.Wait()
 	logger.Debugf("MMF waitgroup done; closing waitchan")
 	close(waitChan)
+	<-fanInDone
 	return nil
 }
 
-- 
2.43.0


From 2263ea71288b9f945bb3b90bd5d6b98925bc0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 11/25] fix: keep checking until a deactivation is replicated
 to the local cache

---
 core/main.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/main.go b/core/main.go
index cc97862..e63d6dd 100644
--- a/core/main.go
+++ b/core/main.go
@@ -660,18 +660,20 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 							// long to replicate, but best practices require
 							// /some/ timeout.
 							timeout := time.After(time.Second * 60)
-							select {
-							case <-timeout:
-								// Log the timeout and continue.
-								logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
-								return
-							default:
-								// There is always /some/ replication delay,
-								// sleep first
-								time.Sleep(100 * time.Millisecond)
-								if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
-									logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+							for {
+								select {
+								case <-timeout:
+									// Log the timeout and continue.
+									logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
 									return
+								default:
+									// There is always /some/ replication delay,
+									// sleep first
+									time.Sleep(100 * time.Millisecond)
+									if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
+										logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+										return
+									}
 								}
 							}
 						}
-- 
2.43.0


From e7e1662f06b16ac71dc2162cb903fb93c166b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 12/25] fix: stop watching for assignments once the call has
 returned instead of crashing

---
 core/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index e63d6dd..a2d6dac 100644
--- a/core/main.go
+++ b/core/main.go
@@ -826,7 +826,9 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// var init
 	newestTicketCtime := time.Now()
 	updateChan := make(chan *pb.StreamedWatchAssignmentsResponse)
-	defer close(updateChan)
+	// Closed when this call returns, to stop the goroutines launched below.
+	done := make(chan struct{})
+	defer close(done)
 
 	for _, id := range req.GetTicketIds() {
 		// Launch an asynch goroutine for each ticket ID in the request that just loops,
@@ -838,15 +840,22 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 					assignment := value.(*pb.Assignment)
 					logger.Debugf(" watchassignments loop got assignment %v for ticketid: %v",
 						assignment.Connection, ticketId)
-					updateChan <- &pb.StreamedWatchAssignmentsResponse{
+					select {
+					case updateChan <- &pb.StreamedWatchAssignmentsResponse{
 						Assignment: assignment,
 						Id:         ticketId,
+					}:
+					case <-done:
 					}
 					return
 				}
 				// TODO exp bo + jitter. Not a priority since this API is
 				// marked as deprecated.
-				time.Sleep(1 * time.Second)
+				select {
+				case <-time.After(1 * time.Second):
+				case <-done:
+					return
+				}
 			}
 		}(id)
 
-- 
2.43.0


From 15171118dee579c5b18047284a09eef0205d75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 13/25] fix: report failed assignments to the CreateAssignments
 caller

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index a2d6dac..f11068d 100644
--- a/core/main.go
+++ b/core/main.go
@@ -804,7 +804,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, nil
+	return &pb.CreateAssignmentsResponse{}, err
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From 95817f3a2ab9d81b07586b02cf082aa70c5a95ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 14/25] fix: only accept ticket ids that have the replication
 id format

---
 core/internal/statestore/memory/main.go | 2 +-
 core/internal/statestore/redis/redis.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index ca0a5fc..a09ad38 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -40,7 +40,7 @@ func New(cfg *viper.Viper) *memoryReplicator {
 // GetReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 func (rc *memoryReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
 
 // GetUpdates mocks how the statestore/redis module processes a Redis Stream XRANGE command.
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 147a88a..8a82966 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -328,5 +328,5 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rr *redisReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
-- 
2.43.0


From 09093f663c15a1286a6deaceab099ff7f1c0c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 15/25] fix: reassemble pools that have no participants in
 their first chunk

---
 mmf/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..7244191 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -94,6 +94,10 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 				}
 			} else {
 				// concate pools split amoung multiple chunks
+				if pools[name].Participants == nil {
+					// No participants in the chunks received so far.
+					pools[name].Participants = &pb.Roster{Name: pool.GetParticipants().GetName()}
+				}
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
 			}
 		}
-- 
2.43.0


From c35764aa0d8faefd737a02e96db7d5a08a5a4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 16/25] fix: wait for every activation call that was started

---
 matchmaker-example/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 6f2fad3..d0e6d59 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -415,6 +415,7 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 
 			// Kick off activation in a goroutine in case we had to split on
 			// maxActivationsPerCall, this way the calls are made concurrently.
+			activationWg.Add(1)
 			go func(ticketsAwaitingActivation []string) {
 
 				// Quick in-line function to grab information
@@ -430,7 +431,6 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 				}
 
 				// Track this goroutine
-				activationWg.Add(1)
 				defer activationWg.Done()
 
 				// Activate tickets
-- 
2.43.0


From dc90da9f7e34e757990655ec94abfb4b211a42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 17/25] fix: read the configured logging level in
 IsDebugEnabled

---
 core/internal/logging/logging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/internal/logging/logging.go b/core/internal/logging/logging.go
index 5b7b1d3..9cbe9f0 100644
--- a/core/internal/logging/logging.go
+++ b/core/internal/logging/logging.go
@@ -67,7 +67,7 @@ func toLevel(level string) logrus.Level {
 
 // IsDebugEnabled returns true if the logging level is debug or more granular.
 func IsDebugEnabled(cfg *viper.Viper) bool {
-	return IsDebugLevel(cfg.GetString("logging.level"))
+	return IsDebugLevel(cfg.GetString("OM_LOGGING_LEVEL"))
 }
 
 // IsDebugLevel returns true if the logging level is debug or more granular.
-- 
2.43.0


From 01d04487f7f6142c5aae20ed1e8259e0abd33b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 18/25] fix: count the wire overhead of every ticket when
 chunking MMF requests

---
 core/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index f11068d..6d23fad 100644
--- a/core/main.go
+++ b/core/main.go
@@ -37,6 +37,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/credentials/insecure"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/encoding/protowire"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -415,6 +416,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	maxPbSize := 4 * 1000 * 1000
 	// Figure out how big the message is with the profile populated, but all pools empty
 	emptyChunkSize := proto.Size(&pb.ChunkedMmfRunRequest{Profile: req.GetProfile(), NumChunks: math.MaxInt32})
+	for name := range validPools {
+		// Every pool gets a named participant roster, plus the tags and
+		// lengths that wrap it (at most 5 bytes per length).
+		emptyChunkSize += len(name+"_roster") + 32
+	}
 	curChunkSize := emptyChunkSize
 
 	// Array of 'chunks', each consisting of a portion of the pools in this profile.
@@ -427,7 +433,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 		for name, _ := range validPools {
 			// All the implementation details of filtering are in internal/filter/filter.go
 			if filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {
-				ticketSize := proto.Size(ticket.(*pb.Ticket))
+				// Size of this ticket in the roster, including its tag and length
+				ticketSize := protowire.SizeTag(2) + protowire.SizeBytes(proto.Size(ticket.(*pb.Ticket)))
 				// Check if this ticket will put us over the max pb size for this chunk
 				if (curChunkSize + ticketSize) >= maxPbSize {
 					// Start a new chunk
-- 
2.43.0


From 4f796f39c514eb667155dd4e21ee29a5b937bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 19/25] fix: wait for the deactivation of every ticket of a
 match, not only the last one

With OM_MATCH_TICKET_DEACTIVATION_WAIT the match was returned as soon as its
last ticket was inactive in the local cache. If that ticket had been inactive
before (it is in another match too, or was deactivated by the matchmaker), the
match was returned while its other tickets still were in pools.
---
 core/main.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/main.go b/core/main.go
index 6d23fad..7f3fd01 100644
--- a/core/main.go
+++ b/core/main.go
@@ -654,15 +654,17 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						}
 						logger.Debugf("Done deactivating tickets in %v", res.GetId())
 
-						// Function to check if deactivation of the last ticket
+						// Function to check if deactivation of all tickets
 						// in this match's rosters has been replicated to the
-						// local cache
+						// local cache. It isn't enough to look at the last one: it
+						// may have been inactive long before (e.g. it is in
+						// another match too).
 						deactivationCheck := func(ticketIds []string) {
 							if len(ticketIds) == 0 {
 								// No tickets in this match, nothing to wait for
 								return
 							}
-							ticketId := ticketIds[len(ticketIds)-1]
+							remaining := ticketIds
 							// We'd never expect the deactivation to take this
 							// long to replicate, but best practices require
 							// /some/ timeout.
@@ -671,15 +673,20 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 								select {
 								case <-timeout:
 									// Log the timeout and continue.
-									logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
+									logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", remaining[0])
 									return
 								default:
 									// There is always /some/ replication delay,
 									// sleep first
 									time.Sleep(100 * time.Millisecond)
-									if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
-										logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
-										return
+									for {
+										if _, replComplete := tc.InactiveSet.Load(remaining[0]); replComplete != true {
+											break
+										}
+										logger.Debugf("deactivation of ticket %v replicated to local cache", remaining[0])
+										if remaining = remaining[1:]; len(remaining) == 0 {
+											return
+										}
 									}
 								}
 							}
-- 
2.43.0


From 98cc11ca109d0ee0cd7076c267495796c35da689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 20/25] fix: count exactly the matches received, also from MMFs
 that fail

---
 core/main.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/main.go b/core/main.go
index 7f3fd01..727559a 100644
--- a/core/main.go
+++ b/core/main.go
@@ -595,11 +595,23 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// Also wait when this function returns early due to an error.
 				defer tdwg.Wait()
 
-				// i counts the number of loops for metrics reporting; this
+				// i counts the matches received for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
 				// until a break statement is encountered.
 				var i int64
-				for i = 1; true; i++ {
+
+				// TODO decide if we want to track profile names as attributes
+				// as well as mmf names. Profile names are user input, so we'd
+				// have to limit cardinality somehow. Really we should address
+				// the possiblity of too many mmf names causing cardinality
+				// problems too, but it's a relatively low-risk assumption that
+				// the user will only deploy a few different mmfs.
+				//
+				// Deferred, so matches are also counted if the mmf fails later.
+				defer func() {
+					Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
+				}()
+				for i = 0; true; i++ {
 					// Get results from MMF
 					var result *pb.StreamedMmfResponse
 					result, err = mmfStream.Recv()
@@ -717,14 +729,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 				} // End of match stream receiving loop
 
-				// TODO decide if we want to track profile names as attributes
-				// as well as mmf names. Profile names are user input, so we'd
-				// have to limit cardinality somehow. Really we should address
-				// the possiblity of too many mmf names causing cardinality
-				// problems too, but it's a relatively low-risk assumption that
-				// the user will only deploy a few different mmfs.
-				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
-
 				// Wait for all match ticket deactivation goroutines to complete.
 				tdwg.Wait()
 			}
-- 
2.43.0


From 833f74b5e92afcc9c3f324856c7dc19873630e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 21/25] fix: lower the gauge of assignment watches when a watch
 times out

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 727559a..311f51f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -903,7 +903,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 			AssignmentWatches.Add(context.Background(), -1)
 			stream.Send(thisAssignment)
 		case <-timeout:
-			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return nil
 		}
 	}
-- 
2.43.0


From 5689d3f7316244a065c1b7b6f4a851fca6927ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 22/25] fix: report the numbers of tickets and assignments that
 remain after expiration

---
 core/internal/statestore/cache/replicatedticketcache.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 680cd54..11c0004 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -291,7 +291,6 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 
 			// cull expired tickets from the local cache inactive ticket set
 			tc.InactiveSet.Range(func(id, _ any) bool {
-				numInactive++
 				// Get creation timestamp from ID
 				ticketCreationTime, err := strconv.ParseInt(strings.Split(id.(string), "-")[0], 10, 64)
 				if err != nil {
@@ -318,6 +317,10 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if time.Now().After(ticket.(*pb.Ticket).GetExpirationTime().AsTime()) {
 					tc.Tickets.Delete(id)
 					numTicketDeletions++
+				} else if _, inactive := tc.InactiveSet.Load(id); inactive {
+					// Only count inactive tickets that still exist; dangling
+					// inactive list entries have no ticket.
+					numInactive++
 				}
 				return true
 			})
@@ -339,8 +342,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 			})
 
 			// Log results and record metrics
-			AssignmentCount = numAssignments
-			TicketCount = numTickets
+			AssignmentCount = numAssignments - numAssignmentDeletions
+			TicketCount = numTickets - numTicketDeletions
 			InactiveCount = numInactive
 
 			ExpirationCycleDuration.Record(ctx, float64(time.Since(startTime).Microseconds()/1000.0))
-- 
2.43.0


From 5bdf4737472ca039f73305a42080bd6491d78d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 23/25] fix: do not activate tickets that the example frontend
 could not create

---
 matchmaker-example/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index d0e6d59..cdb2859 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -604,7 +604,11 @@ func (mmfe *mockMatchmakerFrontend) Run(ctx context.Context) {
 				// tickets concurrently.
 				go func() {
 					defer ticketWg.Done()
-					ticketIdsToActivate <- mmfe.proxyCreateTicket(generateMockClientRequest(ctx))
+					// No ticket ID means the ticket couldn't be created, so
+					// there is nothing to activate.
+					if ticketId := mmfe.proxyCreateTicket(generateMockClientRequest(ctx)); ticketId != "" {
+						ticketIdsToActivate <- ticketId
+					}
 				}()
 			}
 
-- 
2.43.0


From 7de6d122f504e47470f5a1f5dda30d9a91ab654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:11 +0000
Subject: [PATCH 24/25] fix: example matchmaker died or counted a match when
 the HTTP stream had an error or a space

---
 matchmaker-example/main.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index cdb2859..fae8d19 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -53,6 +53,7 @@
 package main
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"errors"
@@ -66,6 +67,7 @@ import (
 	_ "net/http"
 	_ "net/http/pprof"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -287,16 +289,16 @@ func main() {
 			}
 
 			// Process the stream
+			body := bufio.NewReader(resp.Body)
 			for {
-				// Simulate message decoding (adjust based on your actual message format)
-				var msg string
-				_, err := fmt.Fscanf(resp.Body, "%s\n", &msg)
+				// Every message is on a line of its own, which may well contain spaces.
+				msg, err := body.ReadString('\n')
 
-				if err == io.EOF {
+				if err == io.EOF && msg == "" {
 					resp.Body.Close()
 					break // End of stream
 				}
-				if err != nil {
+				if err != nil && err != io.EOF {
 					resp.Body.Close()
 					logger.Fatalf("Error reading stream: %v", err)
 				}
@@ -308,7 +310,13 @@ func main() {
 				// JSON object. Rather than marshal the text to json (which is
 				// slow), we just slice off the first 10 letters
 				// '{"result":'
-				// and the last character '}' (which is fast, but brittle)
+				// and the last character '}' (which is fast, but brittle).
+				// If the MMFs failed, the container is an 'error' instead.
+				msg = strings.TrimSpace(msg)
+				if !strings.HasPrefix(msg, `{"result":`) {
+					logger.Errorf("MMF returned err: %v", msg)
+					continue
+				}
 				trimmedMsg := msg[10:(len(msg) - 1)]
 				// Unmarshal json back into protobuf
 				resPb = &pb.StreamedMmfResponse{}
@@ -317,6 +325,7 @@ func main() {
 					logger.WithFields(logrus.Fields{
 						"pb_message": "StreamedMmfResponse",
 					}).Errorf("cannot unmarshal http response body back into protobuf")
+					continue
 				}
 
 				// We got a match result
-- 
2.43.0


From b8a7d717cdc7503d90cd344a9424931dc29674a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:16 +0000
Subject: [PATCH 25/25] fix: example matchmaker hung when more tickets were
 rejected in a cycle than its queue holds

---
 matchmaker-example/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index fae8d19..6a65adc 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -367,19 +367,23 @@ func main() {
 			emptyCycles = 0
 
 			// re-activate tickets from rejected matches
+			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
+			ctx := context.WithValue(ctx, "type", "re-activate")
 			numRejectedTickets := 0
 			for _, match := range rejectedMatches {
 				for _, roster := range match.GetRosters() {
 					for _, ticket := range roster.GetTickets() {
 						// queue this ticket ID to be re-activated
+						if len(ticketIdsToActivate) == cap(ticketIdsToActivate) {
+							// The queue is full, make room.
+							activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
+						}
 						ticketIdsToActivate <- ticket.GetId()
 						numRejectedTickets++
 					}
 				}
 			}
 			logger.Infof("Queued %v tickets to be re-activated due to rejected matches", numRejectedTickets)
-			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
-			ctx := context.WithValue(ctx, "type", "re-activate")
 			activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
 		}
 	}
-- 
2.43.0

