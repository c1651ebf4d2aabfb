From 7ce3c82e5485520f7febeb3f6b9dbfd6b5094c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:55 +0000
Subject: [PATCH 01/46] fix: pass SQLite settings in the form the driver
 honours, on every pooled connection

---
 .gitignore             | 2 ++
 pkg/core/store_init.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/.gitignore b/.gitignore
index 86d9323..fcb742f 100644
--- a/.gitignore
+++ b/.gitignore
@@ -29,6 +29,8 @@ go.work
 *.sqlite3
 **/*.db-shm
 **/*.db-wal
+*-shm
+*-wal
 
 # OS generated files
 .DS_Store
diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 18f515d..4bffcdd 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -24,6 +24,11 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	// _busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
 	// _cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
 	dsn := fmt.Sprintf("%s?_journal_mode=WAL&_synchronous=NORMAL&_busy_timeout=5000&_cache_size=-2000", s.config.Path)
+	// The driver only honours settings given as _pragma, and applies those to
+	// every pooled connection (foreign_keys and busy_timeout are per connection).
+	// recursive_triggers makes REPLACE fire the delete triggers that keep FTS in sync.
+	dsn += "&_pragma=busy_timeout(5000)&_pragma=journal_mode(WAL)&_pragma=synchronous(NORMAL)" +
+		"&_pragma=cache_size(-2000)&_pragma=foreign_keys(1)&_pragma=recursive_triggers(1)"
 	db, err := sql.Open("sqlite", dsn)
 	if err != nil {
 		return wrapError("init", fmt.Errorf("failed to open database: %w", err))
-- 
2.43.0


From 1305304d6429ef27c59ab7673e89714c11bf4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:55 +0000
Subject: [PATCH 02/46] fix: store empty metadata as valid JSON so metadata
 filters do not fail

---
 pkg/core/store_crud.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a74fab6..955bfb2 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -112,6 +112,9 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	if err != nil {
 		return wrapError("upsert", err)
 	}
+	if metadataJSON == "" {
+		metadataJSON = "{}" // keep the column valid JSON for json_extract
+	}
 
 	// Encode ACL
 	var aclJSON []byte
@@ -252,6 +255,9 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		if err != nil {
 			return wrapError("upsert_batch", fmt.Errorf("failed to encode metadata at index %d: %w", i, err))
 		}
+		if metadataJSON == "" {
+			metadataJSON = "{}" // keep the column valid JSON for json_extract
+		}
 
 		// Encode ACL
 		var aclJSON []byte
-- 
2.43.0


From afd8b698974a3b44462d61ac0db70d3cb2d0924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:30 +0000
Subject: [PATCH 03/46] fix: apply doc_id filters to index candidates and
 complete short filtered result pages

A doc_id filter was assumed to be applied in SQL, which is not the case for HNSW
and IVF candidates, and a page whose candidates were all filtered out came back
short although matching rows existed.
---
 pkg/core/store_search.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 1c7d15d..9569cee 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -148,7 +148,11 @@ func (s *SQLiteStore) searchWithHNSW(ctx context.Context, query []float32, opts
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
-	return s.processCandidates(query, candidates, opts)
+	results, err := s.processCandidates(query, candidates, opts)
+	if err == nil && len(results) < opts.TopK && s.needsExactScan(opts, candidateIDs, candidates) {
+		return s.searchLinear(ctx, query, opts)
+	}
+	return results, err
 }
 
 // searchWithIVF performs vector search using IVF index
@@ -175,7 +179,17 @@ func (s *SQLiteStore) searchWithIVF(ctx context.Context, query []float32, opts S
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
-	return s.processCandidates(query, candidates, opts)
+	results, err := s.processCandidates(query, candidates, opts)
+	if err == nil && len(results) < opts.TopK && s.needsExactScan(opts, candidateIDs, candidates) {
+		return s.searchLinear(ctx, query, opts)
+	}
+	return results, err
+}
+
+// needsExactScan tells whether a short result page may be due to candidates that
+// were filtered out or no longer exist rather than to a lack of matching rows
+func (s *SQLiteStore) needsExactScan(opts SearchOptions, ids []string, found []ScoredEmbedding) bool {
+	return opts.Collection != "" || len(opts.Filter) > 0 || len(found) < len(ids)
 }
 
 // searchLinear performs linear vector search without HNSW index
@@ -418,7 +432,10 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 func (s *SQLiteStore) matchesFilter(emb Embedding, filter map[string]string) bool {
 	for key, value := range filter {
 		if key == "doc_id" {
-			continue // Already filtered in SQL
+			if emb.DocID != value {
+				return false // candidates from an index were not filtered in SQL
+			}
+			continue
 		}
 		if emb.Metadata == nil || emb.Metadata[key] != value {
 			return false
-- 
2.43.0


From 2a2053f38f33a1987b91641c31b866091cc26899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:30 +0000
Subject: [PATCH 04/46] fix: let HNSW and IVF re-insert IDs, keep IVF lists
 consistent on delete, load atomically

HNSW: a deleted ID could never be inserted again; parallel batches left their
sub-graphs unconnected; a truncated snapshot left a half-loaded index.
IVF: Delete stopped renumbering at the deleted position, Add kept a stale copy of
an existing ID, and Train/Delete/Size did not take the lock.
---
 pkg/index/hnsw.go | 208 +++++++++++++++++++---------------------------
 pkg/index/ivf.go  |  43 ++++++++--
 2 files changed, 120 insertions(+), 131 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 4c55f1f..5e7e296 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -131,28 +131,36 @@ func (h *HNSW) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
-	// Decode parameters
-	if err := dec.Decode(&h.M); err != nil { return err }
-	h.MaxM = h.M * 2
-	h.ML = 1.0 / math.Log(2.0)
+	// Decode into locals first so that a truncated or corrupt snapshot leaves the
+	// index as it was
+	var m, efConstruction, count int
+	var entryPoint string
 	
-	if err := dec.Decode(&h.EfConstruction); err != nil { return err }
-	if err := dec.Decode(&h.EntryPoint); err != nil { return err }
+	// Decode parameters
+	if err := dec.Decode(&m); err != nil { return err }
+	if err := dec.Decode(&efConstruction); err != nil { return err }
+	if err := dec.Decode(&entryPoint); err != nil { return err }
 
 	// Decode nodes count
-	var count int
 	if err := dec.Decode(&count); err != nil { return err }
 
 	// Decode nodes
-	h.Nodes = make(map[string]*HNSWNode, count)
+	nodes := make(map[string]*HNSWNode)
 	for i := 0; i < count; i++ {
 		var node HNSWNode
 		if err := dec.Decode(&node); err != nil {
 			return err
 		}
-		h.Nodes[node.ID] = &node
+		nodes[node.ID] = &node
 	}
 
+	h.M = m
+	h.MaxM = h.M * 2
+	h.ML = 1.0 / math.Log(2.0)
+	h.EfConstruction = efConstruction
+	h.EntryPoint = entryPoint
+	h.Nodes = nodes
+
 	return nil
 }
 
@@ -170,15 +178,25 @@ func (h *HNSW) selectLevel() int {
 	return level
 }
 
-// Insert adds a new vector to the index
+// Insert adds a new vector to the index. Inserting an ID that was deleted
+// brings it back with the new vector.
 func (h *HNSW) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
-	if _, exists := h.Nodes[id]; exists {
+	if node, exists := h.Nodes[id]; exists && !node.Deleted {
 		return fmt.Errorf("node %s already exists", id)
 	}
 	
+	h.insert(id, vector)
+	return nil
+}
+
+// insert adds or revives a node; the caller holds the write lock
+func (h *HNSW) insert(id string, vector []float32) {
+	// Keep a private copy: the caller may reuse its slice
+	vector = append([]float32(nil), vector...)
+	
 	// Prepare node data
 	var quantized []byte
 	var storedVector []float32 = vector
@@ -196,27 +214,44 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 		}
 	}
 	
-	// Create new node
-	level := h.selectLevel()
-	node := &HNSWNode{
-		ID:        id,
-		Vector:    storedVector,
-		Quantized: quantized,
-		Level:     level,
-		Neighbors: make([][]string, level+1),
-	}
-	
-	// Initialize neighbor lists
-	for i := 0; i <= level; i++ {
-		node.Neighbors[i] = make([]string, 0)
+	node, exists := h.Nodes[id]
+	if exists {
+		// Revive a soft-deleted node in place. Other nodes are reached through it,
+		// so its existing links stay.
+		node.Vector = storedVector
+		node.Quantized = quantized
+		node.Deleted = false
+	} else {
+		// Create new node
+		level := h.selectLevel()
+		node = &HNSWNode{
+			ID:        id,
+			Vector:    storedVector,
+			Quantized: quantized,
+			Level:     level,
+			Neighbors: make([][]string, level+1),
+		}
+		
+		// Initialize neighbor lists
+		for i := 0; i <= level; i++ {
+			node.Neighbors[i] = make([]string, 0)
+		}
+		
+		h.Nodes[id] = node
 	}
 	
-	h.Nodes[id] = node
+	h.link(node, vector)
+}
+
+// link connects a node of h.Nodes to the rest of the graph; the caller holds the
+// write lock
+func (h *HNSW) link(node *HNSWNode, vector []float32) {
+	id, level := node.ID, node.Level
 	
 	// If this is the first node, set as entry point
 	if h.EntryPoint == "" {
 		h.EntryPoint = id
-		return nil
+		return
 	}
 	
 	// Search for closest points at all levels
@@ -236,11 +271,17 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 		}
 		
 		candidates := h.searchLayer(vector, currNearest, h.EfConstruction, lc)
+		for i, candidate := range candidates {
+			if candidate == id {
+				candidates = append(candidates[:i], candidates[i+1:]...)
+				break
+			}
+		}
 		neighbors := h.selectNeighborsHeuristic(vector, candidates, m, lc)
 		
 		// Add bidirectional links
-		node.Neighbors[lc] = neighbors
 		for _, neighbor := range neighbors {
+			h.addConnection(id, neighbor, lc)
 			h.addConnection(neighbor, id, lc)
 			
 			// Prune connections of neighbors if needed
@@ -275,15 +316,15 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 			}
 		}
 		
-		currNearest = neighbors
+		if len(neighbors) > 0 {
+			currNearest = neighbors
+		}
 	}
 	
 	// Update entry point if necessary
 	if level > h.Nodes[h.EntryPoint].Level {
 		h.EntryPoint = id
 	}
-	
-	return nil
 }
 
 // searchLayer performs a greedy search in a specific layer
@@ -637,101 +678,10 @@ func (h *HNSW) InsertBatch(vectors []struct {
 	defer h.mu.Unlock()
 
 	for _, v := range vectors {
-		if _, exists := h.Nodes[v.ID]; exists {
+		if node, exists := h.Nodes[v.ID]; exists && !node.Deleted {
 			continue // Skip duplicates
 		}
-
-		// Prepare node data
-		var quantized []byte
-		var storedVector []float32 = v.Vector
-
-		if h.Quantizer != nil {
-			var err error
-			quantized, err = h.Quantizer.Encode(v.Vector)
-			if err == nil {
-				storedVector = nil
-			}
-		}
-
-		// Create new node
-		level := h.selectLevel()
-		node := &HNSWNode{
-			ID:        v.ID,
-			Vector:    storedVector,
-			Quantized: quantized,
-			Level:     level,
-			Neighbors: make([][]string, level+1),
-		}
-
-		// Initialize neighbor lists
-		for i := 0; i <= level; i++ {
-			node.Neighbors[i] = make([]string, 0)
-		}
-
-		h.Nodes[v.ID] = node
-
-		// If this is the first node, set as entry point
-		if h.EntryPoint == "" {
-			h.EntryPoint = v.ID
-			continue
-		}
-
-		// Search for closest points at all levels
-		currNearest := []string{h.EntryPoint}
-
-		// Search from top layer to target layer
-		entryNode := h.Nodes[h.EntryPoint]
-		for lc := entryNode.Level; lc > level; lc-- {
-			currNearest = h.searchLayerClosest(v.Vector, currNearest, 1, lc)
-		}
-
-		// Insert into all layers from level to 0
-		for lc := level; lc >= 0; lc-- {
-			m := h.M
-			if lc == 0 {
-				m = h.MaxM
-			}
-
-			candidates := h.searchLayer(v.Vector, currNearest, h.EfConstruction, lc)
-			neighbors := h.selectNeighborsHeuristic(v.Vector, candidates, m, lc)
-
-			// Add bidirectional links
-			node.Neighbors[lc] = neighbors
-			for _, neighbor := range neighbors {
-				h.addConnection(neighbor, v.ID, lc)
-
-				// Prune connections
-				neighborNode := h.Nodes[neighbor]
-				maxConn := h.M
-				if lc == 0 {
-					maxConn = h.MaxM
-				}
-
-				if lc < len(neighborNode.Neighbors) && len(neighborNode.Neighbors[lc]) > maxConn {
-					neighborVec := neighborNode.Vector
-					if neighborVec == nil && neighborNode.Quantized != nil && h.Quantizer != nil {
-						neighborVec, _ = h.Quantizer.Decode(neighborNode.Quantized)
-					}
-
-					if neighborVec != nil {
-						newNeighbors := h.selectNeighborsHeuristic(
-							neighborVec,
-							neighborNode.Neighbors[lc],
-							maxConn,
-							lc,
-						)
-						neighborNode.Neighbors[lc] = newNeighbors
-					}
-				}
-			}
-
-			currNearest = neighbors
-		}
-
-		// Update entry point if necessary
-		if level > h.Nodes[h.EntryPoint].Level {
-			h.EntryPoint = v.ID
-		}
+		h.insert(v.ID, v.Vector)
 	}
 
 	return nil
@@ -895,10 +845,12 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 
+	merged := make(map[string]bool, len(vectors))
 	for _, pg := range graphs {
 		for id, node := range pg.nodes {
 			if _, exists := h.Nodes[id]; !exists {
 				h.Nodes[id] = node
+				merged[id] = true
 			}
 		}
 	}
@@ -919,5 +871,15 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 		}
 	}
 
+	// Link the sub-graphs with each other and with the existing nodes
+	for _, v := range vectors {
+		if merged[v.ID] {
+			delete(merged, v.ID)
+			h.link(h.Nodes[v.ID], v.Vector)
+		} else if h.Nodes[v.ID].Deleted {
+			h.insert(v.ID, v.Vector)
+		}
+	}
+
 	return nil
 }
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 6b37078..3b4e753 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -85,6 +85,9 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 
 // Train learns cluster centroids from training data
 func (ivf *IVFIndex) Train(vectors [][]float32) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+	
 	if len(vectors) < ivf.NCentroids {
 		return fmt.Errorf("need at least %d vectors for training, got %d", ivf.NCentroids, len(vectors))
 	}
@@ -119,6 +122,17 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 		return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), ivf.Dimension)
 	}
 	
+	// An ID that is already present is replaced
+	for i, storedID := range ivf.IDs {
+		if storedID == id {
+			ivf.removeAt(i)
+			break
+		}
+	}
+	
+	// Keep a private copy: the caller may reuse its slice
+	vector = append([]float32(nil), vector...)
+	
 	// Find nearest centroid
 	centroidIdx := ivf.findNearestCentroid(vector)
 	
@@ -396,6 +410,9 @@ func min(a, b int) int {
 
 // Delete removes a vector from the index
 func (ivf *IVFIndex) Delete(id string) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+	
 	if !ivf.Trained {
 		return errors.New("index not trained")
 	}
@@ -413,6 +430,14 @@ func (ivf *IVFIndex) Delete(id string) error {
 		return errors.New("vector not found")
 	}
 	
+	ivf.removeAt(vectorIndex)
+	
+	return nil
+}
+
+// removeAt removes the vector stored at the given position; the caller holds the
+// write lock
+func (ivf *IVFIndex) removeAt(vectorIndex int) {
 	// Remove from IDs
 	ivf.IDs = append(ivf.IDs[:vectorIndex], ivf.IDs[vectorIndex+1:]...)
 	
@@ -423,21 +448,23 @@ func (ivf *IVFIndex) Delete(id string) error {
 	
 	// Remove from inverted lists
 	for i := range ivf.Invlists {
-		for j, idx := range ivf.Invlists[i] {
-			if idx == vectorIndex {
-				ivf.Invlists[i] = append(ivf.Invlists[i][:j], ivf.Invlists[i][j+1:]...)
-				break
-			} else if idx > vectorIndex {
+		kept := ivf.Invlists[i][:0]
+		for _, idx := range ivf.Invlists[i] {
+			if idx > vectorIndex {
 				// Update indices after deletion
-				ivf.Invlists[i][j] = idx - 1
+				kept = append(kept, idx-1)
+			} else if idx < vectorIndex {
+				kept = append(kept, idx)
 			}
 		}
+		ivf.Invlists[i] = kept
 	}
-	
-	return nil
 }
 
 // Size returns the number of vectors in the index
 func (ivf *IVFIndex) Size() int {
+	ivf.mu.RLock()
+	defer ivf.mu.RUnlock()
+	
 	return len(ivf.Vectors)
 }
\ No newline at end of file
-- 
2.43.0


From b823df317bbf5b65265791344296da3430f00ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:17 +0000
Subject: [PATCH 05/46] fix: keep HNSW/IVF indexes in step with every write and
 with the database on open

Re-upserting an ID kept its old vector in the HNSW index; Clear, ClearByDocID,
DeleteByDocID and DeleteCollection left deleted IDs in the indexes; DeleteDocument
dropped them even when the delete failed; a snapshot older than the database was
trusted as is.
---
 pkg/core/collections.go |   3 +-
 pkg/core/document.go    |  22 ++------
 pkg/core/store_crud.go  |  24 ++++----
 pkg/core/store_index.go | 121 +++++++++++++++++++++++++++++++++++++++-
 4 files changed, 136 insertions(+), 34 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 5af01a8..268ce78 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -244,7 +244,7 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 	}
 
 	// Delete all embeddings in the collection
-	_, err = tx.ExecContext(ctx, "DELETE FROM embeddings WHERE collection_id = ?", collectionID)
+	ids, err := queryIDs(ctx, tx, "DELETE FROM embeddings WHERE collection_id = ? RETURNING id", collectionID)
 	if err != nil {
 		return wrapError("delete_collection", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
@@ -259,6 +259,7 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 	if err := tx.Commit(); err != nil {
 		return wrapError("delete_collection", fmt.Errorf("failed to commit transaction: %w", err))
 	}
+	s.removeFromIndexes(ids)
 
 	return nil
 }
diff --git a/pkg/core/document.go b/pkg/core/document.go
index 990feb0..e31433d 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -104,29 +104,17 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 
 	// 1. Find all embedding IDs for this document to remove from HNSW index
 	// Note: SQLite FK CASCADE will handle the table rows, but we must manually update memory index
-	if s.hnswIndex != nil || s.ivfIndex != nil {
-		rows, err := s.db.QueryContext(ctx, "SELECT id FROM embeddings WHERE doc_id = ?", id)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var embID string
-				if err := rows.Scan(&embID); err == nil {
-					if s.hnswIndex != nil {
-						_ = s.hnswIndex.Delete(embID)
-					}
-					if s.ivfIndex != nil {
-						_ = s.ivfIndex.Delete(embID)
-					}
-				}
-			}
-		}
+	ids, err := queryIDs(ctx, s.db, "SELECT id FROM embeddings WHERE doc_id = ?", id)
+	if err != nil {
+		return wrapError("delete_document", fmt.Errorf("failed to find embeddings: %w", err))
 	}
 
 	// 2. Delete document (Cascade will delete embeddings from DB)
-	_, err := s.db.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id)
+	_, err = s.db.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id)
 	if err != nil {
 		return wrapError("delete_document", fmt.Errorf("failed to delete document: %w", err))
 	}
+	s.removeFromIndexes(ids)
 
 	return nil
 }
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 955bfb2..4d87552 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -145,6 +145,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 
 	// Update HNSW index if enabled
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
+		_ = s.hnswIndex.Delete(emb.ID) // replace an earlier vector of this ID
 		if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
 			s.logger.Warn("failed to insert vector into HNSW index", "id", emb.ID, "error", err)
 		}
@@ -292,6 +293,7 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
 		var errorCount int
 		for _, emb := range embs {
+			_ = s.hnswIndex.Delete(emb.ID) // replace an earlier vector of this ID
 			if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
 				s.logger.Warn("failed to insert vector into HNSW index during batch upsert", "id", emb.ID, "error", err)
 				errorCount++
@@ -376,10 +378,11 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
+	ids, err := queryIDs(ctx, s.db, "DELETE FROM embeddings WHERE doc_id = ? RETURNING id", docID)
 	if err != nil {
 		return wrapError("delete_by_doc_id", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
+	s.removeFromIndexes(ids)
 
 	return nil
 }
@@ -546,10 +549,11 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 		return wrapError("clear", ErrStoreClosed)
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings")
+	ids, err := queryIDs(ctx, s.db, "DELETE FROM embeddings RETURNING id")
 	if err != nil {
 		return wrapError("clear", fmt.Errorf("failed to clear embeddings: %w", err))
 	}
+	s.removeFromIndexes(ids)
 
 	s.logger.Info("cleared all embeddings")
 
@@ -580,32 +584,24 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		}
 	}()
 
-	// Prepare statement for deletion
-	stmt, err := tx.PrepareContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?")
-	if err != nil {
-		return wrapError("clear_by_doc_id", fmt.Errorf("failed to prepare statement: %w", err))
-	}
-	defer func() {
-		if closeErr := stmt.Close(); closeErr != nil {
-			s.logger.Warn("failed to close statement during clear by doc ID", "error", closeErr)
-		}
-	}()
-
 	// Execute deletion for each doc ID
+	var ids []string
 	for _, docID := range docIDs {
 		if docID == "" {
 			continue // Skip empty doc IDs
 		}
-		_, err = stmt.ExecContext(ctx, docID)
+		deleted, err := queryIDs(ctx, tx, "DELETE FROM embeddings WHERE doc_id = ? RETURNING id", docID)
 		if err != nil {
 			return wrapError("clear_by_doc_id", fmt.Errorf("failed to delete embeddings for doc_id %s: %w", docID, err))
 		}
+		ids = append(ids, deleted...)
 	}
 
 	// Commit transaction
 	if err := tx.Commit(); err != nil {
 		return wrapError("clear_by_doc_id", fmt.Errorf("failed to commit transaction: %w", err))
 	}
+	s.removeFromIndexes(ids)
 
 	s.logger.Debug("cleared embeddings by doc IDs", "count", len(docIDs))
 
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index cfcbb15..b8ee5de 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"slices"
 	"sync/atomic"
 	"time"
 
@@ -57,7 +58,7 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 
 	if loaded {
 		s.logger.Info("HNSW index loaded from snapshot")
-		return nil
+		return s.reconcileIndexes(ctx)
 	}
 
 	// If quantization enabled but not loaded from snapshot, we need to train it before rebuilding
@@ -71,6 +72,122 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 	return s.rebuildHNSWIndex(ctx)
 }
 
+// reconcileIndexes brings indexes loaded from a snapshot in line with the database:
+// the snapshot is only written from time to time, so rows may have been added,
+// replaced or removed since.
+func (s *SQLiteStore) reconcileIndexes(ctx context.Context) error {
+	rows, err := s.db.QueryContext(ctx, "SELECT id, vector FROM embeddings")
+	if err != nil {
+		return fmt.Errorf("failed to query existing vectors: %w", err)
+	}
+	defer func() {
+		if closeErr := rows.Close(); closeErr != nil {
+			s.logger.Warn("failed to close rows during index reconciliation", "error", closeErr)
+		}
+	}()
+
+	stale := make(map[string][]float32) // indexed IDs without a matching row so far
+	if s.hnswIndex != nil {
+		for id, node := range s.hnswIndex.Nodes {
+			if node.Deleted {
+				continue
+			}
+			vec := node.Vector
+			if vec == nil && s.quantizer != nil {
+				vec, _ = s.quantizer.Decode(node.Quantized)
+			}
+			stale[id] = vec
+		}
+	}
+	if s.ivfIndex != nil {
+		for i, id := range s.ivfIndex.IDs {
+			stale[id] = s.ivfIndex.Vectors[i]
+		}
+	}
+
+	for rows.Next() {
+		var id string
+		var vectorBytes []byte
+		if err := rows.Scan(&id, &vectorBytes); err != nil {
+			s.logger.Warn("failed to scan row during index reconciliation", "error", err)
+			continue
+		}
+		vec, err := encoding.DecodeVector(vectorBytes)
+		if err != nil {
+			s.logger.Warn("failed to decode vector during index reconciliation", "id", id, "error", err)
+			continue
+		}
+
+		indexed, ok := stale[id]
+		delete(stale, id)
+		want := vec
+		if s.quantizer != nil && s.hnswIndex != nil {
+			if encoded, err := s.quantizer.Encode(vec); err == nil {
+				want, _ = s.quantizer.Decode(encoded)
+			}
+		}
+		if !ok || !slices.Equal(indexed, want) {
+			s.updateIndexes(id, vec)
+		}
+	}
+	if err := rows.Err(); err != nil {
+		return fmt.Errorf("error iterating rows: %w", err)
+	}
+
+	for id := range stale {
+		s.removeFromIndexes([]string{id})
+	}
+	return nil
+}
+
+// updateIndexes makes the in-memory indexes hold the given vector for an ID
+func (s *SQLiteStore) updateIndexes(id string, vector []float32) {
+	if s.config.HNSW.Enabled && s.hnswIndex != nil {
+		_ = s.hnswIndex.Delete(id) // replace an earlier vector of this ID
+		if err := s.hnswIndex.Insert(id, vector); err != nil {
+			s.logger.Warn("failed to insert vector into HNSW index", "id", id, "error", err)
+		}
+	}
+	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
+		if err := s.ivfIndex.Add(id, vector); err != nil {
+			s.logger.Warn("failed to add vector to IVF index", "id", id, "error", err)
+		}
+	}
+}
+
+// removeFromIndexes drops IDs from the in-memory indexes
+func (s *SQLiteStore) removeFromIndexes(ids []string) {
+	for _, id := range ids {
+		if s.hnswIndex != nil {
+			_ = s.hnswIndex.Delete(id)
+		}
+		if s.ivfIndex != nil {
+			_ = s.ivfIndex.Delete(id)
+		}
+	}
+}
+
+// queryIDs runs a statement that returns embedding IDs
+func queryIDs(ctx context.Context, q interface {
+	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
+}, query string, args ...interface{}) ([]string, error) {
+	rows, err := q.QueryContext(ctx, query, args...)
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = rows.Close() }()
+
+	var ids []string
+	for rows.Next() {
+		var id string
+		if err := rows.Scan(&id); err != nil {
+			return nil, err
+		}
+		ids = append(ids, id)
+	}
+	return ids, rows.Err()
+}
+
 // rebuildHNSWIndex rebuilds the HNSW index from existing vectors in the database
 func (s *SQLiteStore) rebuildHNSWIndex(ctx context.Context) error {
 	if s.hnswIndex == nil {
@@ -200,7 +317,7 @@ func (s *SQLiteStore) initIVFIndex(ctx context.Context) error {
 
 	if loaded {
 		s.logger.Info("IVF index loaded from snapshot")
-		return nil
+		return s.reconcileIndexes(ctx)
 	}
 
 	s.logger.Info("IVF index initialized (not trained yet)", "nCentroids", nCentroids)
-- 
2.43.0


From 1593b7da1c53cb70ee36dafb38963da704244b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:40 +0000
Subject: [PATCH 06/46] fix: do not take the store's read lock twice on one
 call path

A second RLock blocks while a writer waits, and the writer waits for the first:
Upsert into a named collection, HybridSearch, SearchWithDiversity,
SearchMultiVector, SearchWithReranker, GetCollectionStats and Dump could deadlock
with a concurrent writer. The closed flag is also read under the lock now.
---
 pkg/core/advanced_search.go | 23 ++++++++---------------
 pkg/core/collections.go     |  8 +++++++-
 pkg/core/io.go              |  2 +-
 pkg/core/multi_vector.go    |  5 +++--
 pkg/core/reranker.go        |  5 +++--
 pkg/core/store.go           |  5 +++++
 pkg/core/store_crud.go      |  7 ++++---
 pkg/core/store_search.go    |  6 ++++--
 8 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 10bbc35..ddd1bd5 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -57,14 +57,7 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 
 // HybridSearch performs combined vector and keyword search using RRF fusion
 func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, textQuery string, opts HybridSearchOptions) ([]ScoredEmbedding, error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
-	if s.closed {
-		return nil, wrapError("hybrid_search", ErrStoreClosed)
-	}
-
-	// 1. Vector Search (HNSW or Linear)
+	// 1. Vector Search (HNSW or Linear); it takes the lock itself
 	var vectorResults []ScoredEmbedding
 	var err error
 	if len(vectorQuery) > 0 {
@@ -74,6 +67,13 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 		}
 	}
 
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	if s.closed {
+		return nil, wrapError("hybrid_search", ErrStoreClosed)
+	}
+
 	// 2. Keyword Search (FTS5)
 	ftsRanks := make(map[int64]int)
 	if textQuery != "" {
@@ -340,13 +340,6 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 
 // SearchWithDiversity performs search with result diversification
 func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32, opts DiversitySearchOptions) ([]ScoredEmbedding, error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-	
-	if s.closed {
-		return nil, wrapError("search_diversity", ErrStoreClosed)
-	}
-	
 	// Get initial candidates (more than needed for diversity)
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 268ce78..99147f0 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -113,6 +113,12 @@ func (s *SQLiteStore) GetCollection(ctx context.Context, name string) (*Collecti
 		return nil, wrapError("get_collection", ErrStoreClosed)
 	}
 
+	return s.getCollection(ctx, name)
+}
+
+// getCollection is GetCollection for callers that hold the lock: taking the read
+// lock twice deadlocks as soon as a writer waits in between
+func (s *SQLiteStore) getCollection(ctx context.Context, name string) (*Collection, error) {
 	collection := &Collection{}
 	var metadataJSON sql.NullString
 	var description sql.NullString
@@ -274,7 +280,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	}
 
 	// First get collection info
-	collection, err := s.GetCollection(ctx, name)
+	collection, err := s.getCollection(ctx, name)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 1ce0fae..bb2f0c2 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -106,7 +106,7 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	stats.TotalEmbeddings = len(embeddings)
 
 	// Get metadata
-	schemaStats, _ := s.Stats(ctx)
+	schemaStats, _ := s.stats(ctx)
 	stats.TotalDocuments = int(schemaStats.Count)
 
 	// Build export structure
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 825dbca..44d6290 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -118,9 +118,10 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 // SearchMultiVector performs multi-vector search
 func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[string][]float32, opts MultiVectorSearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-	defer s.mu.RUnlock()
+	closed := s.closed
+	s.mu.RUnlock() // the searches below take the lock themselves
 	
-	if s.closed {
+	if closed {
 		return nil, wrapError("search_multi_vector", ErrStoreClosed)
 	}
 	
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index c52f54b..6aba00b 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -47,9 +47,10 @@ func DefaultRerankOptions() RerankOptions {
 // SearchWithReranker performs vector search and then reranks the results
 func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32, queryText string, reranker Reranker, opts RerankOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-	defer s.mu.RUnlock()
+	closed := s.closed
+	s.mu.RUnlock() // the search below takes the lock itself
 
-	if s.closed {
+	if closed {
 		return nil, wrapError("search_rerank", ErrStoreClosed)
 	}
 
diff --git a/pkg/core/store.go b/pkg/core/store.go
index c589b7c..8655a8c 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -112,6 +112,11 @@ func (s *SQLiteStore) Stats(ctx context.Context) (StoreStats, error) {
 		return StoreStats{}, wrapError("stats", ErrStoreClosed)
 	}
 
+	return s.stats(ctx)
+}
+
+// stats is Stats for callers that hold the lock
+func (s *SQLiteStore) stats(ctx context.Context) (StoreStats, error) {
 	var count int64
 	err := s.db.QueryRowContext(ctx, "SELECT COUNT(*) FROM embeddings").Scan(&count)
 	if err != nil {
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 4d87552..a6270a6 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -15,9 +15,10 @@ import (
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	currentDim := s.config.VectorDim
+	closed := s.closed
 	s.mu.RUnlock()
 
-	if s.closed {
+	if closed {
 		return wrapError("upsert", ErrStoreClosed)
 	}
 
@@ -92,7 +93,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	if collectionID == 0 {
 		// If no collection specified, use default or get by name
 		if emb.Collection != "" {
-			collection, err := s.GetCollection(ctx, emb.Collection)
+			collection, err := s.getCollection(ctx, emb.Collection)
 			if err != nil {
 				return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", emb.Collection, err))
 			}
@@ -237,7 +238,7 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		if collectionID == 0 {
 			// If no collection specified, use default or get by name
 			if emb.Collection != "" {
-				collection, err := s.GetCollection(ctx, emb.Collection)
+				collection, err := s.getCollection(ctx, emb.Collection)
 				if err != nil {
 					return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
 				}
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 9569cee..9b53b0d 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -15,9 +15,10 @@ import (
 func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
 	storeDim := s.config.VectorDim
+	closed := s.closed
 	s.mu.RUnlock()
 
-	if s.closed {
+	if closed {
 		return nil, wrapError("search", ErrStoreClosed)
 	}
 
@@ -64,9 +65,10 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
 	storeDim := s.config.VectorDim
+	closed := s.closed
 	s.mu.RUnlock()
 
-	if s.closed {
+	if closed {
 		return nil, wrapError("searchWithFilter", ErrStoreClosed)
 	}
 
-- 
2.43.0


From fdc45153bcb625205c96333463238823a1061437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 07/46] fix: SearchWithFilter applies metadata conditions
 before the top-k cut

---
 pkg/core/store_search.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 9b53b0d..a9b0625 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -95,6 +95,19 @@ func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opt
 	var candidates []ScoredEmbedding
 	var err error
 
+	// Metadata conditions must select rows before the top-k cut, or matching rows
+	// ranked behind k others would be lost
+	if len(metadataFilters) > 0 {
+		candidates, err = s.fetchCandidates(ctx, opts)
+		if err == nil {
+			candidates, err = s.filterByMetadata(candidates, metadataFilters)
+		}
+		if err != nil {
+			return nil, wrapError("searchWithFilter", err)
+		}
+		return s.scoreCandidates(query, candidates, opts), nil
+	}
+
 	// Use HNSW index if available and enabled
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
 		candidates, err = s.searchWithHNSW(ctx, query, opts)
@@ -114,15 +127,6 @@ func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opt
 		return nil, wrapError("searchWithFilter", err)
 	}
 
-	// Apply advanced metadata filtering
-	if len(metadataFilters) > 0 {
-		filtered, err := s.filterByMetadata(candidates, metadataFilters)
-		if err != nil {
-			return nil, wrapError("searchWithFilter", err)
-		}
-		candidates = filtered
-	}
-
 	return candidates, nil
 }
 
-- 
2.43.0


From 96d68ddfe44f2c2936c103c03e6fa7cf61189f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:38 +0000
Subject: [PATCH 08/46] fix: metadata filters: NOT, missing fields, typed
 values, quoted keys, unambiguous SQL and operator precedence

---
 pkg/core/advanced_filter.go | 158 ++++++++++++++++++++++++++++++------
 pkg/core/io.go              |   6 +-
 2 files changed, 134 insertions(+), 30 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 61b701f..05b9908 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -52,38 +52,38 @@ func ParseFilterString(filterStr string) (*FilterExpression, error) {
 	filterStr = strings.TrimSpace(filterStr)
 	
 	// Handle parentheses for grouping
-	if strings.HasPrefix(filterStr, "(") && strings.HasSuffix(filterStr, ")") {
+	if enclosedInParens(filterStr) {
 		inner := filterStr[1 : len(filterStr)-1]
 		return ParseFilterString(inner)
 	}
 	
-	// Check for AND/OR at top level
-	if idx := strings.Index(filterStr, " AND "); idx > 0 {
+	// Check for AND/OR at top level; OR binds weaker than AND
+	if idx := topLevelIndex(filterStr, " OR "); idx > 0 {
 		left, err := ParseFilterString(filterStr[:idx])
 		if err != nil {
 			return nil, err
 		}
-		right, err := ParseFilterString(filterStr[idx+5:])
+		right, err := ParseFilterString(filterStr[idx+4:])
 		if err != nil {
 			return nil, err
 		}
 		return &FilterExpression{
-			Operator: FilterAND,
+			Operator: FilterOR,
 			Children: []*FilterExpression{left, right},
 		}, nil
 	}
 	
-	if idx := strings.Index(filterStr, " OR "); idx > 0 {
+	if idx := topLevelIndex(filterStr, " AND "); idx > 0 {
 		left, err := ParseFilterString(filterStr[:idx])
 		if err != nil {
 			return nil, err
 		}
-		right, err := ParseFilterString(filterStr[idx+4:])
+		right, err := ParseFilterString(filterStr[idx+5:])
 		if err != nil {
 			return nil, err
 		}
 		return &FilterExpression{
-			Operator: FilterOR,
+			Operator: FilterAND,
 			Children: []*FilterExpression{left, right},
 		}, nil
 	}
@@ -92,6 +92,63 @@ func ParseFilterString(filterStr string) (*FilterExpression, error) {
 	return parseComparison(filterStr)
 }
 
+// topLevelIndex finds sep outside parentheses and quotes, skipping the AND that
+// belongs to a BETWEEN range
+func topLevelIndex(s, sep string) int {
+	depth, quote, between := 0, byte(0), false
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+		case depth == 0 && c == ' ':
+			if strings.HasPrefix(s[i:], " BETWEEN ") {
+				between = true
+			} else if between && strings.HasPrefix(s[i:], " AND ") {
+				between = false
+			} else if strings.HasPrefix(s[i:], sep) {
+				return i
+			}
+		}
+	}
+	return -1
+}
+
+// enclosedInParens tells whether the first parenthesis closes at the very end
+func enclosedInParens(s string) bool {
+	if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")") {
+		return false
+	}
+	depth, quote := 0, byte(0)
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+			if depth == 0 {
+				return i == len(s)-1
+			}
+		}
+	}
+	return false
+}
+
 func parseComparison(expr string) (*FilterExpression, error) {
 	// Check for BETWEEN
 	if strings.Contains(expr, " BETWEEN ") {
@@ -166,12 +223,20 @@ func parseComparison(expr string) (*FilterExpression, error) {
 		{">", FilterGT},
 		{"<", FilterLT},
 		{"=", FilterEQ},
-		{":=", FilterEQ}, // Alternative syntax
+		{":=", FilterEQ}, // Alternative syntax (before its prefix ":")
 		{":", FilterEQ},  // Shorthand
 	}
 	
+	// The leftmost operator is the one that separates field and value
+	first := len(expr)
 	for _, op := range operators {
-		if idx := strings.Index(expr, op.op); idx > 0 {
+		if idx := strings.Index(expr, op.op); idx > 0 && idx < first {
+			first = idx
+		}
+	}
+	
+	for _, op := range operators {
+		if idx := strings.Index(expr, op.op); idx > 0 && idx == first {
 			field := strings.TrimSpace(expr[:idx])
 			valueStr := strings.TrimSpace(expr[idx+len(op.op):])
 			value, err := parseValue(valueStr)
@@ -249,41 +314,52 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 		}
 		return strings.Join(clauses, " OR "), params
 		
+	case FilterNOT:
+		if len(filter.Children) == 0 {
+			return "0", params
+		}
+		clause, childParams := BuildSQLFromFilter(filter.Children[0], paramIndex)
+		if clause == "" {
+			return "0", params
+		}
+		// A condition on a missing field is NULL and counts as not met
+		return "NOT COALESCE((" + clause + "), 0)", childParams
+		
 	case FilterEQ:
 		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", filter.Field), params
+		params = append(params, metadataText(filter.Value))
+		return fmt.Sprintf("json_extract(metadata, '%s') = ?", jsonPath(filter.Field)), params
 		
 	case FilterNE:
 		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') != ?", filter.Field), params
+		params = append(params, metadataText(filter.Value))
+		return fmt.Sprintf("json_extract(metadata, '%s') IS NOT ?", jsonPath(filter.Field)), params
 		
 	case FilterGT:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) > ?", filter.Field), params
+		return fmt.Sprintf("CAST(json_extract(metadata, '%s') AS REAL) > ?", jsonPath(filter.Field)), params
 		
 	case FilterGTE:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", filter.Field), params
+		return fmt.Sprintf("CAST(json_extract(metadata, '%s') AS REAL) >= ?", jsonPath(filter.Field)), params
 		
 	case FilterLT:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) < ?", filter.Field), params
+		return fmt.Sprintf("CAST(json_extract(metadata, '%s') AS REAL) < ?", jsonPath(filter.Field)), params
 		
 	case FilterLTE:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", filter.Field), params
+		return fmt.Sprintf("CAST(json_extract(metadata, '%s') AS REAL) <= ?", jsonPath(filter.Field)), params
 		
 	case FilterBETWEEN:
 		values := filter.Value.([]interface{})
 		*paramIndex += 2
 		params = append(params, values[0], values[1])
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) BETWEEN ? AND ?", filter.Field), params
+		return fmt.Sprintf("CAST(json_extract(metadata, '%s') AS REAL) BETWEEN ? AND ?", jsonPath(filter.Field)), params
 		
 	case FilterIN:
 		values := filter.Value.([]interface{})
@@ -291,21 +367,42 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 		for i, v := range values {
 			*paramIndex++
 			placeholders[i] = "?"
-			params = append(params, v)
+			params = append(params, metadataText(v))
 		}
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", 
-			filter.Field, strings.Join(placeholders, ",")), params
+		return fmt.Sprintf("json_extract(metadata, '%s') IN (%s)", 
+			jsonPath(filter.Field), strings.Join(placeholders, ",")), params
 		
 	case FilterLIKE:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", filter.Field), params
+		return fmt.Sprintf("json_extract(metadata, '%s') LIKE ?", jsonPath(filter.Field)), params
 		
 	default:
-		return "", nil
+		// An operator that cannot be expressed matches nothing, as in evaluateFilter
+		return "0", nil
 	}
 }
 
+// jsonPath quotes a metadata key for json_extract, so that keys with dots or
+// quotes address the key and nothing else
+func jsonPath(field string) string {
+	return strings.ReplaceAll(`$."`+field+`"`, "'", "''")
+}
+
+// metadataText renders a filter value the way metadata, a map of strings, holds it
+func metadataText(v interface{}) interface{} {
+	switch x := v.(type) {
+	case bool:
+		return strconv.FormatBool(x)
+	case string, nil:
+		return v
+	}
+	if f, ok := toFloat64(v); ok {
+		return strconv.FormatFloat(f, 'f', -1, 64)
+	}
+	return v
+}
+
 // MetadataFilter helper for building filter expressions
 type MetadataFilter struct {
 	expression *FilterExpression
@@ -549,6 +646,10 @@ func (s *SQLiteStore) SearchWithAdvancedFilter(ctx context.Context, query []floa
 		score := s.similarityFn(query, candidate.Vector)
 		candidate.Score = score
 		
+		if opts.Threshold > 0 && score < opts.Threshold {
+			continue
+		}
+		
 		// Apply post-filter if specified
 		if opts.PostFilter != nil {
 			// Convert metadata to interface{} map
@@ -588,7 +689,8 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 	conditions := []string{}
 	
 	if whereClause != "" {
-		conditions = append(conditions, whereClause)
+		// A subquery keeps column names unambiguous and the clause self-contained
+		conditions = append(conditions, "e.id IN (SELECT id FROM embeddings WHERE "+whereClause+")")
 	}
 	
 	if opts.Collection != "" {
@@ -612,6 +714,9 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 		if err != nil {
 			continue
 		}
+		if !s.matchesFilter(candidate.Embedding, opts.Filter) {
+			continue
+		}
 		candidates = append(candidates, candidate)
 	}
 	
@@ -697,9 +802,10 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		pattern := fmt.Sprintf("%v", filter.Value)
 		text := fmt.Sprintf("%v", val)
 		// Convert SQL LIKE pattern to regex
+		pattern = regexp.QuoteMeta(pattern)
 		pattern = strings.ReplaceAll(pattern, "%", ".*")
 		pattern = strings.ReplaceAll(pattern, "_", ".")
-		matched, _ := regexp.MatchString("^"+pattern+"$", text)
+		matched, _ := regexp.MatchString("(?is)^"+pattern+"$", text) // LIKE ignores case
 		return matched
 		
 	default:
diff --git a/pkg/core/io.go b/pkg/core/io.go
index bb2f0c2..d19d1ea 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -9,7 +9,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"strings"
 	"time"
 
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
@@ -209,9 +208,8 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 	if opts.Filter != nil && !opts.Filter.IsEmpty() {
 		whereClause, params := opts.Filter.ToSQL()
 		if whereClause != "" {
-			// Prefix metadata with 'e.' to avoid ambiguity with collections table
-			whereClause = strings.ReplaceAll(whereClause, "json_extract(metadata", "json_extract(e.metadata")
-			query += " WHERE " + whereClause
+			// A subquery avoids ambiguity with the collections table
+			query += " WHERE e.id IN (SELECT id FROM embeddings WHERE " + whereClause + ")"
 			args = params
 		}
 	}
-- 
2.43.0


From 2f66a68c8c041142978d462e3b7d974b257a9277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:30 +0000
Subject: [PATCH 09/46] fix: SearchWithACL inherits the document's ACL and
 honours filters and threshold

---
 pkg/core/advanced_search.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index ddd1bd5..b2f2820 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -32,7 +32,9 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 	// If ACL is empty, only return public documents (acl IS NULL)
 	// If ACL is provided, return public OR matching acl
 	
-	whereClause := "json_extract(acl, '$') IS NULL" // Public
+	// An embedding without an ACL of its own inherits its document's
+	const effectiveACL = "COALESCE(acl, (SELECT d.acl FROM documents d WHERE d.id = doc_id))"
+	whereClause := "COALESCE(json_array_length(" + effectiveACL + "), 0) = 0" // Public
 	params := []interface{}{}
 
 	if len(acl) > 0 {
@@ -42,7 +44,7 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 			params = append(params, id)
 		}
 		// Check if any provided ACL ID exists in the acl JSON array
-		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each(acl) WHERE value IN (%s))", strings.Join(placeholders, ","))
+		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each("+effectiveACL+") WHERE value IN (%s))", strings.Join(placeholders, ","))
 	}
 
 	// Fetch candidates with ACL filter
@@ -213,6 +215,9 @@ func (s *SQLiteStore) scoreAndSort(query []float32, candidates []ScoredEmbedding
 	results := make([]ScoredEmbedding, 0, len(candidates))
 	for _, candidate := range candidates {
 		score := s.similarityFn(query, candidate.Vector)
+		if opts.Threshold > 0 && score < opts.Threshold {
+			continue
+		}
 		candidate.Score = score
 		results = append(results, candidate)
 	}
-- 
2.43.0


From fa122b558cadef4f8766b28ec34b2e0c40cbad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:54 +0000
Subject: [PATCH 10/46] fix: HybridSearch keyword hits honour collection and
 filters

---
 pkg/core/advanced_search.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index b2f2820..aca18b6 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -79,10 +79,12 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	// 2. Keyword Search (FTS5)
 	ftsRanks := make(map[int64]int)
 	if textQuery != "" {
+		// Keyword hits are subject to the same restrictions as vector hits
+		scope, scopeArgs := searchScopeSQL(opts.SearchOptions)
 		ftsQuery := `
 			SELECT rowid, rank 
 			FROM chunks_fts 
-			WHERE chunks_fts MATCH ? 
+			WHERE chunks_fts MATCH ? ` + scope + `
 			ORDER BY rank 
 			LIMIT ?
 		`
@@ -92,7 +94,8 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 			limit = 30
 		}
 		
-		rows, err := s.db.QueryContext(ctx, ftsQuery, textQuery, limit)
+		args := append([]interface{}{textQuery}, scopeArgs...)
+		rows, err := s.db.QueryContext(ctx, ftsQuery, append(args, limit)...)
 		if err == nil {
 			defer rows.Close()
 			rank := 1
@@ -210,6 +213,28 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	return results, nil
 }
 
+// searchScopeSQL restricts rowids of chunks_fts to the collection and filters of opts
+func searchScopeSQL(opts SearchOptions) (string, []interface{}) {
+	if opts.Collection == "" && len(opts.Filter) == 0 {
+		return "", nil
+	}
+	clause := "AND rowid IN (SELECT rowid FROM embeddings WHERE 1"
+	args := []interface{}{}
+	if opts.Collection != "" {
+		clause += " AND collection_id = (SELECT id FROM collections WHERE name = ?)"
+		args = append(args, opts.Collection)
+	}
+	for key, value := range opts.Filter {
+		if key == "doc_id" {
+			clause += " AND doc_id = ?"
+		} else {
+			clause += fmt.Sprintf(" AND json_extract(metadata, '%s') = ?", jsonPath(key))
+		}
+		args = append(args, value)
+	}
+	return clause + ")", args
+}
+
 // scoreAndSort helper
 func (s *SQLiteStore) scoreAndSort(query []float32, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
 	results := make([]ScoredEmbedding, 0, len(candidates))
-- 
2.43.0


From 175a500f71695c54e0a982f0e98333c56341502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:51 +0000
Subject: [PATCH 11/46] fix: exports keep ACLs, JSONL import stops at a syntax
 error, backup path is bound

---
 pkg/core/io.go           | 22 ++++++++++++++++++----
 pkg/core/store_search.go |  6 ++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index d19d1ea..badb991 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -193,13 +193,14 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 		}
 	}
 
-	return stats, nil
+	writer.Flush()
+	return stats, writer.Error()
 }
 
 // getAllEmbeddings retrieves all embeddings with optional filtering
 func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([]*Embedding, error) {
 	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.acl
 		FROM embeddings e
 		LEFT JOIN collections c ON e.collection_id = c.id
 	`
@@ -222,7 +223,8 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 
 	var embeddings []*Embedding
 	for rows.Next() {
-		scoredEmb, err := s.scanEmbedding(rows)
+		var aclJSON []byte
+		scoredEmb, err := s.scanEmbedding(rows, &aclJSON)
 		if err != nil {
 			// Log error but continue with other rows
 			continue
@@ -238,6 +240,13 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 			Metadata:     scoredEmb.Metadata,
 		}
 
+		if len(aclJSON) > 0 {
+			// Without its ACL a private row would be public after an import
+			if err := json.Unmarshal(aclJSON, &emb.ACL); err != nil {
+				return nil, wrapError("get_all_embeddings", fmt.Errorf("failed to decode ACL of %s: %w", emb.ID, err))
+			}
+		}
+
 		if !opts.IncludeVectors {
 			emb.Vector = nil
 		}
@@ -327,6 +336,11 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 				break
 			}
 			stats.FailedCount++
+			var typeErr *json.UnmarshalTypeError
+			if !errors.As(err, &typeErr) {
+				// The decoder cannot get past a syntax error
+				return stats, wrapError("load_jsonl", fmt.Errorf("failed to decode JSON: %w", err))
+			}
 			continue
 		}
 
@@ -478,7 +492,7 @@ func (s *SQLiteStore) Backup(ctx context.Context, filepath string) error {
 	}
 
 	// Use SQLite backup API
-	_, err := s.db.ExecContext(ctx, fmt.Sprintf("VACUUM INTO '%s'", filepath))
+	_, err := s.db.ExecContext(ctx, "VACUUM INTO ?", filepath)
 	if err != nil {
 		return wrapError("backup", fmt.Errorf("failed to create backup: %w", err))
 	}
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index a9b0625..d6c8b9b 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -395,14 +395,16 @@ func (s *SQLiteStore) fetchCandidates(ctx context.Context, opts SearchOptions) (
 }
 
 // scanEmbedding scans a row into an embedding
-func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
+// (columns after the standard ones go into extra)
+func (s *SQLiteStore) scanEmbedding(rows *sql.Rows, extra ...interface{}) (ScoredEmbedding, error) {
 	var id, content, metadataJSON string
 	var docID sql.NullString
 	var collectionName sql.NullString
 	var collectionID int
 	var vectorBytes []byte
 
-	if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON); err != nil {
+	dest := append([]interface{}{&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON}, extra...)
+	if err := rows.Scan(dest...); err != nil {
 		return ScoredEmbedding{}, fmt.Errorf("failed to scan row: %w", err)
 	}
 
-- 
2.43.0


From 1ce6a0a106ef7b010e81f1f91838fb1a679bcb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:53 +0000
Subject: [PATCH 12/46] fix: GetByDocID and GetDocumentsByType return ACL and
 collection

---
 pkg/core/store_query.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index 64d2269..2821f43 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -10,6 +10,14 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
+// embeddingSelect reads the columns scanEmbeddingForGet expects for a complete row
+const embeddingSelect = `
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
+		FROM embeddings e
+		LEFT JOIN collections c ON e.collection_id = c.id`
+
 // GetByID gets an embedding by its ID
 func (s *SQLiteStore) GetByID(ctx context.Context, id string) (*Embedding, error) {
 	s.mu.RLock()
@@ -61,7 +69,7 @@ func (s *SQLiteStore) GetByDocID(ctx context.Context, docID string) ([]*Embeddin
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings WHERE doc_id = ? ORDER BY created_at"
+	query := embeddingSelect + " WHERE e.doc_id = ? ORDER BY e.created_at"
 	rows, err := s.db.QueryContext(ctx, query, docID)
 	if err != nil {
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("failed to query embeddings: %w", err))
@@ -195,7 +203,7 @@ func (s *SQLiteStore) GetDocumentsByType(ctx context.Context, docType string) ([
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("doc type cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings ORDER BY created_at"
+	query := embeddingSelect + " ORDER BY e.created_at"
 	rows, err := s.db.QueryContext(ctx, query)
 	if err != nil {
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("failed to query embeddings: %w", err))
-- 
2.43.0


From 4ba24d26748162fbb8bd145ebf5a6975d1479241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:33 +0000
Subject: [PATCH 13/46] fix: reads of a closed store report ErrStoreClosed;
 chat history order is stable

---
 pkg/core/chat.go     | 25 ++++++++++++++++++++++++-
 pkg/core/document.go |  4 ++++
 pkg/core/io.go       |  6 +++++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 6d75d17..8b2d24c 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -54,6 +54,10 @@ func (s *SQLiteStore) GetSession(ctx context.Context, id string) (*Session, erro
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session", ErrStoreClosed)
+	}
+
 	var sess Session
 	var metadataJSON []byte
 
@@ -114,11 +118,15 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session_history", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, session_id, role, content, vector, metadata, created_at
 		FROM messages 
 		WHERE session_id = ? 
-		ORDER BY created_at DESC 
+		ORDER BY created_at DESC, rowid DESC
 		LIMIT ?
 	`
 
@@ -161,6 +169,10 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_chat_history", ErrStoreClosed)
+	}
+
 	// This is a linear scan over the session's messages.
 	// For huge history, we should use HNSW, but session history is usually small (<1000 items).
 
@@ -210,6 +222,9 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 		}
 	}
 
+	if limit < 0 {
+		limit = len(scored) // no limit, as in GetSessionHistory
+	}
 	result := make([]*Message, 0, limit)
 	for i := 0; i < len(scored) && i < limit; i++ {
 		result = append(result, scored[i].msg)
@@ -225,6 +240,10 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("keyword_search_messages", ErrStoreClosed)
+	}
+
 	if query == "" || userID == "" {
 		return nil, nil
 	}
@@ -259,6 +278,10 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_messages_by_user", ErrStoreClosed)
+	}
+
 	if userID == "" || len(queryVec) == 0 {
 		return nil, nil
 	}
diff --git a/pkg/core/document.go b/pkg/core/document.go
index e31433d..89b11bd 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -166,6 +166,10 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("list_documents", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, title, source_url, content, version, author, metadata, acl, created_at, updated_at
 		FROM documents WHERE 1=1
diff --git a/pkg/core/io.go b/pkg/core/io.go
index badb991..9216c12 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -259,7 +259,11 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 
 // Load imports embeddings from a reader
 func (s *SQLiteStore) Load(ctx context.Context, r io.Reader, opts LoadOptions) (*ImportStats, error) {
-	if s.closed {
+	s.mu.RLock()
+	closed := s.closed
+	s.mu.RUnlock()
+
+	if closed {
 		return nil, wrapError("load", ErrStoreClosed)
 	}
 
-- 
2.43.0


From 0af4384ec3e61d784dc315d5049a3b51825e5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:17 +0000
Subject: [PATCH 14/46] fix: concurrent writes of one ID keep index and
 database in step; DeleteBatch is atomic

---
 pkg/core/store.go       |  1 +
 pkg/core/store_crud.go  | 50 +++++++++++++++++++++++++++++------------
 pkg/core/store_index.go |  5 +----
 pkg/index/hnsw.go       | 10 ++++++++-
 4 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/pkg/core/store.go b/pkg/core/store.go
index 8655a8c..0cefa0e 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -20,6 +20,7 @@ type SQLiteStore struct {
 	db             *sql.DB
 	config         Config
 	mu             sync.RWMutex
+	writeMu        sync.Mutex         // Keeps a row's database write and index update together; taken after mu
 	closed         bool
 	similarityFn   SimilarityFunc
 	hnswIndex      *index.HNSW            // HNSW index for fast search
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a6270a6..852f3b0 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -88,6 +88,13 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return wrapError("upsert", ErrStoreClosed)
+	}
+
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
 	// Determine collection ID
 	collectionID := emb.CollectionID
 	if collectionID == 0 {
@@ -146,10 +153,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 
 	// Update HNSW index if enabled
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		_ = s.hnswIndex.Delete(emb.ID) // replace an earlier vector of this ID
-		if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-			s.logger.Warn("failed to insert vector into HNSW index", "id", emb.ID, "error", err)
-		}
+		s.hnswIndex.Upsert(emb.ID, emb.Vector)
 	}
 
 	// Update IVF index if enabled and trained
@@ -202,6 +206,9 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		}
 	}
 
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
 	// Start transaction
 	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -292,16 +299,8 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 
 	// Update HNSW index if enabled
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		var errorCount int
 		for _, emb := range embs {
-			_ = s.hnswIndex.Delete(emb.ID) // replace an earlier vector of this ID
-			if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-				s.logger.Warn("failed to insert vector into HNSW index during batch upsert", "id", emb.ID, "error", err)
-				errorCount++
-			}
-		}
-		if errorCount > 0 {
-			s.logger.Warn("some vectors failed to insert into HNSW index during batch upsert", "count", errorCount)
+			s.hnswIndex.Upsert(emb.ID, emb.Vector)
 		}
 	}
 
@@ -335,6 +334,9 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 		return wrapError("delete", fmt.Errorf("ID cannot be empty"))
 	}
 
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
 	result, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE id = ?", id)
 	if err != nil {
 		return wrapError("delete", fmt.Errorf("failed to delete embedding: %w", err))
@@ -379,6 +381,9 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
 	ids, err := queryIDs(ctx, s.db, "DELETE FROM embeddings WHERE doc_id = ? RETURNING id", docID)
 	if err != nil {
 		return wrapError("delete_by_doc_id", fmt.Errorf("failed to delete embeddings: %w", err))
@@ -415,6 +420,13 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 
 	// 1. Delete from SQLite
 	// Use chunks to avoid SQLite parameter limit (default 999)
+	// in one transaction, so that a failure leaves no chunk half deleted
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to begin transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
 	totalRowsAffected := int64(0)
 	chunkSize := 500
 	for i := 0; i < len(validIDs); i += chunkSize {
@@ -432,7 +444,7 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		}
 
 		query := fmt.Sprintf("DELETE FROM embeddings WHERE id IN (%s)", strings.Join(placeholders, ","))
-		result, err := s.db.ExecContext(ctx, query, args...)
+		result, err := tx.ExecContext(ctx, query, args...)
 		if err != nil {
 			return wrapError("delete_batch", fmt.Errorf("failed to delete chunk: %w", err))
 		}
@@ -445,6 +457,10 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		}
 	}
 
+	if err := tx.Commit(); err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to commit transaction: %w", err))
+	}
+
 	if totalRowsAffected == 0 {
 		return wrapError("delete_batch", ErrNotFound)
 	}
@@ -550,6 +566,9 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 		return wrapError("clear", ErrStoreClosed)
 	}
 
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
 	ids, err := queryIDs(ctx, s.db, "DELETE FROM embeddings RETURNING id")
 	if err != nil {
 		return wrapError("clear", fmt.Errorf("failed to clear embeddings: %w", err))
@@ -574,6 +593,9 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		return nil // Nothing to clear
 	}
 
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
 	// Start transaction for batch deletion
 	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index b8ee5de..2b3a622 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -143,10 +143,7 @@ func (s *SQLiteStore) reconcileIndexes(ctx context.Context) error {
 // updateIndexes makes the in-memory indexes hold the given vector for an ID
 func (s *SQLiteStore) updateIndexes(id string, vector []float32) {
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		_ = s.hnswIndex.Delete(id) // replace an earlier vector of this ID
-		if err := s.hnswIndex.Insert(id, vector); err != nil {
-			s.logger.Warn("failed to insert vector into HNSW index", "id", id, "error", err)
-		}
+		s.hnswIndex.Upsert(id, vector)
 	}
 	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
 		if err := s.ivfIndex.Add(id, vector); err != nil {
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 5e7e296..ecdc138 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -192,7 +192,15 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	return nil
 }
 
-// insert adds or revives a node; the caller holds the write lock
+// Upsert adds a vector or replaces the one stored under the ID, in one step, so
+// that a concurrent search never finds the ID missing
+func (h *HNSW) Upsert(id string, vector []float32) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.insert(id, vector)
+}
+
+// insert adds, revives or replaces a node; the caller holds the write lock
 func (h *HNSW) insert(id string, vector []float32) {
 	// Keep a private copy: the caller may reuse its slice
 	vector = append([]float32(nil), vector...)
-- 
2.43.0


From 0795981d089b366ce399578112364f48d31ae8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:46 +0000
Subject: [PATCH 15/46] fix: one dimension policy for single and batch writes,
 kept across reopen; reject NaN and infinity

---
 pkg/core/store.go        |  1 +
 pkg/core/store_crud.go   | 96 +++++++++++++++++++++++++++++-----------
 pkg/core/store_init.go   | 14 ++++++
 pkg/core/store_search.go | 10 +++--
 4 files changed, 90 insertions(+), 31 deletions(-)

diff --git a/pkg/core/store.go b/pkg/core/store.go
index 0cefa0e..9721b04 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -85,6 +85,7 @@ func (s *SQLiteStore) SetAutoDimAdapt(policy AdaptPolicy) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	s.config.AutoDimAdapt = policy
+	s.adapter = NewDimensionAdapter(policy)
 }
 
 // GetDB returns the underlying database connection
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 852f3b0..c6f4205 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -15,6 +15,7 @@ import (
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	currentDim := s.config.VectorDim
+	adapter := s.adapter
 	closed := s.closed
 	s.mu.RUnlock()
 
@@ -24,33 +25,15 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 
 	incomingDim := len(emb.Vector)
 
+	if incomingDim > 0 {
+		if err := encoding.ValidateVector(emb.Vector); err != nil {
+			return wrapError("upsert", err) // NaN or infinite component
+		}
+	}
+
 	// Auto-detect dimension on first insert
 	if currentDim == 0 {
-		s.mu.Lock()
-		if s.config.VectorDim == 0 { // Double-check after acquiring write lock
-			s.config.VectorDim = incomingDim
-			currentDim = incomingDim
-
-			// Initialize quantizer now that we know the dimension
-			if s.config.Quantization.Enabled && s.quantizer == nil {
-				if s.config.Quantization.Type == "binary" {
-					s.quantizer = quantization.NewBinaryQuantizer(currentDim)
-				} else {
-					sq, err := quantization.NewScalarQuantizer(currentDim, s.config.Quantization.NBits)
-					if err != nil {
-						s.logger.Warn("failed to create scalar quantizer", "error", err)
-					} else {
-						s.quantizer = sq
-					}
-				}
-				if s.hnswIndex != nil {
-					s.hnswIndex.SetQuantizer(s.quantizer)
-				}
-			}
-		} else {
-			currentDim = s.config.VectorDim
-		}
-		s.mu.Unlock()
+		currentDim = s.detectDimension(incomingDim)
 	}
 
 	// Auto-train quantizer if not trained
@@ -71,11 +54,11 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 
 	// Handle dimension mismatch
 	if incomingDim != currentDim {
-		adaptedVector, err := s.adapter.AdaptVector(emb.Vector, incomingDim, currentDim)
+		adaptedVector, err := adapter.AdaptVector(emb.Vector, incomingDim, currentDim)
 		if err != nil {
 			return wrapError("upsert", err)
 		}
-		s.adapter.logDimensionEvent("adapt", incomingDim, currentDim, emb.ID)
+		adapter.logDimensionEvent("adapt", incomingDim, currentDim, emb.ID)
 		emb.Vector = adaptedVector
 	}
 
@@ -166,8 +149,49 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	return nil
 }
 
+// detectDimension fixes the store's dimension on the first insert
+func (s *SQLiteStore) detectDimension(incomingDim int) int {
+	var currentDim int
+	s.mu.Lock()
+	if s.config.VectorDim == 0 { // Double-check after acquiring write lock
+		s.config.VectorDim = incomingDim
+		currentDim = incomingDim
+
+		// Initialize quantizer now that we know the dimension
+		if s.config.Quantization.Enabled && s.quantizer == nil {
+			if s.config.Quantization.Type == "binary" {
+				s.quantizer = quantization.NewBinaryQuantizer(currentDim)
+			} else {
+				sq, err := quantization.NewScalarQuantizer(currentDim, s.config.Quantization.NBits)
+				if err != nil {
+					s.logger.Warn("failed to create scalar quantizer", "error", err)
+				} else {
+					s.quantizer = sq
+				}
+			}
+			if s.hnswIndex != nil {
+				s.hnswIndex.SetQuantizer(s.quantizer)
+			}
+		}
+	} else {
+		currentDim = s.config.VectorDim
+	}
+	s.mu.Unlock()
+	return currentDim
+}
+
 // UpsertBatch inserts or updates multiple embeddings in a transaction
 func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
+	// Auto-detect dimension on first insert
+	if len(embs) > 0 && len(embs[0].Vector) > 0 {
+		s.mu.RLock()
+		detect := s.config.VectorDim == 0 && !s.closed
+		s.mu.RUnlock()
+		if detect {
+			s.detectDimension(len(embs[0].Vector))
+		}
+	}
+
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
@@ -179,6 +203,24 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		return nil
 	}
 
+	// Same vector checks and dimension policy as Upsert
+	for i, emb := range embs {
+		dim := len(emb.Vector)
+		if dim > 0 {
+			if err := encoding.ValidateVector(emb.Vector); err != nil {
+				return wrapError("upsert_batch", fmt.Errorf("invalid embedding at index %d: %w", i, err))
+			}
+		}
+		if dim != s.config.VectorDim {
+			adaptedVector, err := s.adapter.AdaptVector(emb.Vector, dim, s.config.VectorDim)
+			if err != nil {
+				return wrapError("upsert_batch", fmt.Errorf("invalid embedding at index %d: %w", i, err))
+			}
+			s.adapter.logDimensionEvent("adapt", dim, s.config.VectorDim, emb.ID)
+			emb.Vector = adaptedVector
+		}
+	}
+
 	// Auto-train quantizer if not trained
 	if s.quantizer != nil {
 		trained := false
diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 4bffcdd..8767eff 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"time"
 
+	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	_ "modernc.org/sqlite" // SQLite driver
 )
 
@@ -53,6 +54,19 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		return wrapError("init", err)
 	}
 
+	// In auto-detect mode a reopened store keeps the dimension of its vectors
+	if s.config.VectorDim == 0 {
+		var vectorBytes []byte
+		err := s.db.QueryRowContext(ctx, "SELECT vector FROM embeddings LIMIT 1").Scan(&vectorBytes)
+		if err == nil {
+			if vec, decErr := encoding.DecodeVector(vectorBytes); decErr == nil {
+				s.config.VectorDim = len(vec)
+			}
+		} else if err != sql.ErrNoRows {
+			return wrapError("init", fmt.Errorf("failed to read vector dimension: %w", err))
+		}
+	}
+
 	// Initialize HNSW index if enabled
 	if err := s.initHNSWIndex(ctx); err != nil {
 		return wrapError("init", err)
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index d6c8b9b..2272638 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -15,6 +15,7 @@ import (
 func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
 	storeDim := s.config.VectorDim
+	adapter := s.adapter
 	closed := s.closed
 	s.mu.RUnlock()
 
@@ -26,11 +27,11 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 
 	// Auto-adapt query vector if dimensions don't match
 	if storeDim > 0 && queryDim != storeDim {
-		adaptedQuery, err := s.adapter.AdaptVector(query, queryDim, storeDim)
+		adaptedQuery, err := adapter.AdaptVector(query, queryDim, storeDim)
 		if err != nil {
 			return nil, wrapError("search", fmt.Errorf("query adaptation failed: %w", err))
 		}
-		s.adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
+		adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
 		query = adaptedQuery
 	}
 
@@ -65,6 +66,7 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
 	storeDim := s.config.VectorDim
+	adapter := s.adapter
 	closed := s.closed
 	s.mu.RUnlock()
 
@@ -76,11 +78,11 @@ func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opt
 
 	// Auto-adapt query vector if dimensions don't match
 	if storeDim > 0 && queryDim != storeDim {
-		adaptedQuery, err := s.adapter.AdaptVector(query, queryDim, storeDim)
+		adaptedQuery, err := adapter.AdaptVector(query, queryDim, storeDim)
 		if err != nil {
 			return nil, wrapError("searchWithFilter", fmt.Errorf("query adaptation failed: %w", err))
 		}
-		s.adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
+		adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
 		query = adaptedQuery
 	}
 
-- 
2.43.0


From 2b2bcd96349caf9c0832765e8c01016d7f5b9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:39 +0000
Subject: [PATCH 16/46] fix: faceted search ranks all matching rows and scopes
 its conditions; range search with cosine keeps opposite vectors out

---
 pkg/core/faceted_search.go | 53 ++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index cd402e2..ec7436f 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -119,7 +119,7 @@ func (s *SQLiteStore) buildFacetedWhereClause(facets map[string]FacetFilter) (st
 	for field, filter := range facets {
 		condition, filterArgs := s.buildFilterCondition(field, filter)
 		if condition != "" {
-			conditions = append(conditions, condition)
+			conditions = append(conditions, "("+condition+")")
 			args = append(args, filterArgs...)
 		}
 	}
@@ -136,16 +136,18 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 	switch filter.Type {
 	case FilterTypeEquals:
 		if len(filter.Values) > 0 {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", field), filter.Values[:1]
+			return fmt.Sprintf("json_extract(metadata, '%s') = ?", jsonPath(field)), []interface{}{metadataText(filter.Values[0])}
 		}
 		
 	case FilterTypeIn:
 		if len(filter.Values) > 0 {
 			placeholders := make([]string, len(filter.Values))
+			args := make([]interface{}, len(filter.Values))
 			for i := range placeholders {
 				placeholders[i] = "?"
+				args[i] = metadataText(filter.Values[i])
 			}
-			return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", field, strings.Join(placeholders, ",")), filter.Values
+			return fmt.Sprintf("json_extract(metadata, '%s') IN (%s)", jsonPath(field), strings.Join(placeholders, ",")), args
 		}
 		
 	case FilterTypeRange:
@@ -153,11 +155,11 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		args := []interface{}{}
 		
 		if filter.Min != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", field))
+			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '%s') AS REAL) >= ?", jsonPath(field)))
 			args = append(args, filter.Min)
 		}
 		if filter.Max != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", field))
+			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '%s') AS REAL) <= ?", jsonPath(field)))
 			args = append(args, filter.Max)
 		}
 		
@@ -167,16 +169,16 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		
 	case FilterTypeContains:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{"%" + filter.Pattern + "%"}
+			return fmt.Sprintf("json_extract(metadata, '%s') LIKE ?", jsonPath(field)), []interface{}{"%" + filter.Pattern + "%"}
 		}
 		
 	case FilterTypePrefix:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{filter.Pattern + "%"}
+			return fmt.Sprintf("json_extract(metadata, '%s') LIKE ?", jsonPath(field)), []interface{}{filter.Pattern + "%"}
 		}
 		
 	case FilterTypeExists:
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IS NOT NULL", field), nil
+		return fmt.Sprintf("json_extract(metadata, '%s') IS NOT NULL", jsonPath(field)), nil
 		
 	case FilterTypeNested:
 		return s.buildNestedCondition(field, filter)
@@ -211,7 +213,8 @@ func (s *SQLiteStore) buildNestedCondition(field string, filter FacetFilter) (st
 	case OperatorOR:
 		operator = " OR "
 	case OperatorNOT:
-		return "NOT (" + strings.Join(conditions, " AND ") + ")", args
+		// A condition on a missing field is NULL and counts as not met
+		return "NOT COALESCE((" + strings.Join(conditions, " AND ") + "), 0)", args
 	default:
 		operator = " AND "
 	}
@@ -231,7 +234,8 @@ func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause
 	
 	// Add facet conditions
 	if whereClause != "" {
-		conditions = append(conditions, whereClause)
+		// A subquery keeps column names unambiguous
+		conditions = append(conditions, "e.id IN (SELECT id FROM embeddings WHERE "+whereClause+")")
 	}
 	
 	// Add collection filter
@@ -243,7 +247,11 @@ func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause
 	// Add metadata filter
 	if opts.Filter != nil {
 		for key, value := range opts.Filter {
-			conditions = append(conditions, fmt.Sprintf("json_extract(metadata, '$.%s') = ?", key))
+			if key == "doc_id" {
+				conditions = append(conditions, "e.doc_id = ?")
+			} else {
+				conditions = append(conditions, fmt.Sprintf("json_extract(e.metadata, '%s') = ?", jsonPath(key)))
+			}
 			args = append(args, value)
 		}
 	}
@@ -252,10 +260,7 @@ func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause
 		query += " WHERE " + strings.Join(conditions, " AND ")
 	}
 	
-	// Add limit for performance
-	if opts.TopK > 0 {
-		query += fmt.Sprintf(" LIMIT %d", opts.TopK*10) // Get more candidates for scoring
-	}
+	// No LIMIT here: rows come in no particular order, so it would drop the best ones
 	
 	rows, err := s.db.QueryContext(ctx, query, args...)
 	if err != nil {
@@ -288,21 +293,22 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 	for field := range opts.Facets {
 		query := fmt.Sprintf(`
 			SELECT 
-				json_extract(metadata, '$.%s') as value,
+				json_extract(metadata, '%s') as value,
 				COUNT(*) as count
 			FROM embeddings
-			WHERE json_extract(metadata, '$.%s') IS NOT NULL
+			WHERE json_extract(metadata, '%s') IS NOT NULL
+			AND (? = '' OR collection_id = (SELECT id FROM collections WHERE name = ?))
 			GROUP BY value
 			ORDER BY count DESC
 			LIMIT ?
-		`, field, field)
+		`, jsonPath(field), jsonPath(field))
 		
 		limit := opts.MaxFacetValues
 		if limit <= 0 {
 			limit = 10
 		}
 		
-		rows, err := s.db.QueryContext(ctx, query, limit)
+		rows, err := s.db.QueryContext(ctx, query, opts.Collection, opts.Collection, limit)
 		if err != nil {
 			continue
 		}
@@ -353,6 +359,13 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		return nil, wrapError("range_search", err)
 	}
 	
+	// A metric that scores identical vectors at or below zero reports negative distances
+	unit := make([]float32, len(query))
+	if len(unit) > 0 {
+		unit[0] = 1
+	}
+	negativeDistance := s.similarityFn(unit, unit) <= 0
+	
 	// Filter by radius
 	var results []ScoredEmbedding
 	for _, candidate := range candidates {
@@ -370,7 +383,7 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		// - DotProduct: not suitable for range search (unbounded)
 		
 		var distance float32
-		if score <= 0 {
+		if negativeDistance {
 			// Euclidean distance (negative score)
 			distance = float32(-score)
 		} else {
-- 
2.43.0


From c9cd4f19067119e07ec89d63c5e37983a29ec00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:06 +0000
Subject: [PATCH 17/46] fix: multi-vector entities: no document reference,
 indexes updated after commit, caller's filter untouched, typed metadata
 readable

---
 internal/encoding/utils.go |  9 +++++++++
 pkg/core/multi_vector.go   | 39 +++++++++++++++++---------------------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/internal/encoding/utils.go b/internal/encoding/utils.go
index 9dc51d4..dcb0b49 100644
--- a/internal/encoding/utils.go
+++ b/internal/encoding/utils.go
@@ -104,6 +104,15 @@ func DecodeMetadata(jsonStr string) (map[string]string, error) {
 	
 	var metadata map[string]string
 	if err := json.Unmarshal([]byte(jsonStr), &metadata); err != nil {
+		// Multi-vector entities and other tools store typed values; keep them as text
+		var typed map[string]interface{}
+		if typedErr := json.Unmarshal([]byte(jsonStr), &typed); typedErr == nil {
+			metadata = make(map[string]string, len(typed))
+			for k, v := range typed {
+				metadata[k] = fmt.Sprint(v)
+			}
+			return metadata, nil
+		}
 		return nil, fmt.Errorf("failed to decode metadata: %w", err)
 	}
 	
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 44d6290..d46e66f 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -96,23 +96,24 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		
 		_, err = tx.ExecContext(ctx, `
 			INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, created_at)
-			VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
-		`, compositeID, 1, vectorBytes, entity.Content, entity.ID, string(metadataJSON))
+			VALUES (?, ?, ?, ?, NULL, ?, CURRENT_TIMESTAMP)
+		`, compositeID, 1, vectorBytes, entity.Content, string(metadataJSON)) // an entity is not a document
 		
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
 		}
-		
-		// Update HNSW index if enabled
-		if s.config.HNSW.Enabled && s.hnswIndex != nil {
-			if err := s.hnswIndex.Insert(compositeID, vector); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
 	}
 	
-	return tx.Commit()
+	if err := tx.Commit(); err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+	
+	// Update indexes, only now that the rows exist
+	for fieldName, vector := range entity.Vectors {
+		s.updateIndexes(fmt.Sprintf("%s___%s", entity.ID, fieldName), vector)
+	}
+	
+	return nil
 }
 
 // SearchMultiVector performs multi-vector search
@@ -146,8 +147,9 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		// Search with field-specific filter
 		fieldOpts := opts.SearchOptions
-		if fieldOpts.Filter == nil {
-			fieldOpts.Filter = make(map[string]string)
+		fieldOpts.Filter = make(map[string]string) // the caller's map stays as it is
+		for k, v := range opts.Filter {
+			fieldOpts.Filter[k] = v
 		}
 		fieldOpts.Filter["_vector_field"] = fieldName
 		
@@ -371,15 +373,8 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 		return wrapError("delete_multi_vector", err)
 	}
 	
-	// Update HNSW index
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		for _, id := range compositeIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
-	}
+	// Update indexes
+	s.removeFromIndexes(compositeIDs)
 	
 	return nil
 }
\ No newline at end of file
-- 
2.43.0


From 89469742d8b73bcb5d7ac8fcefd6bf7eebe37a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:19 +0000
Subject: [PATCH 18/46] fix: storage errors while reading rows are reported;
 failed TrainIndex keeps the index; CreateCollection is atomic

---
 pkg/core/advanced_search.go |  7 +++++++
 pkg/core/chat.go            |  9 +++++++++
 pkg/core/collections.go     | 19 ++++++++++++++++---
 pkg/core/document.go        |  3 +++
 pkg/core/faceted_search.go  |  5 ++++-
 pkg/core/multi_vector.go    |  8 +++++++-
 pkg/core/store_crud.go      |  3 +++
 pkg/core/store_index.go     | 29 +++++++++++++++--------------
 pkg/core/store_query.go     |  3 +++
 9 files changed, 67 insertions(+), 19 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index aca18b6..e54f4c0 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -4,6 +4,7 @@ package core
 import (
 	"context"
 	"database/sql"
+	"errors"
 	"fmt"
 	"math"
 	"math/rand"
@@ -584,6 +585,9 @@ func (s *SQLiteStore) RecommendSimilar(ctx context.Context, positiveIDs []string
 	positiveVectors := [][]float32{}
 	for _, id := range positiveIDs {
 		emb, err := s.GetByID(ctx, id)
+		if err != nil && !errors.Is(err, ErrNotFound) {
+			return nil, err
+		}
 		if err == nil && emb != nil {
 			positiveVectors = append(positiveVectors, emb.Vector)
 		}
@@ -592,6 +596,9 @@ func (s *SQLiteStore) RecommendSimilar(ctx context.Context, positiveIDs []string
 	negativeVectors := [][]float32{}
 	for _, id := range negativeIDs {
 		emb, err := s.GetByID(ctx, id)
+		if err != nil && !errors.Is(err, ErrNotFound) {
+			return nil, err
+		}
 		if err == nil && emb != nil {
 			negativeVectors = append(negativeVectors, emb.Vector)
 		}
diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 8b2d24c..128b211 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -154,6 +154,9 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 
 		messages = append(messages, &msg)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Reverse to return chronological order (oldest first)
 	for i, j := 0, len(messages)-1; i < j; i, j = i+1, j-1 {
@@ -211,6 +214,9 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 			scored = append(scored, scoredMsg{msg: &msg, score: float32(score)})
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort by score
 	// Note: Implement simple sort
@@ -328,6 +334,9 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 		}
 		results = append(results, scored{msg: &msg, score: float32(s.similarityFn(queryVec, vec))})
 	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("search messages by user: %w", err)
+	}
 
 	// Sort descending by score
 	for i := 0; i < len(results); i++ {
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 99147f0..e6857a8 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -53,8 +53,14 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 		return nil, wrapError("create_collection", fmt.Errorf("dimensions must be non-negative"))
 	}
 
-	// Insert new collection
-	result, err := s.db.ExecContext(ctx, `
+	// Insert new collection; it exists only if it can also be returned
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return nil, wrapError("create_collection", fmt.Errorf("failed to start transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
+	result, err := tx.ExecContext(ctx, `
 		INSERT INTO collections (name, dimensions, created_at, updated_at)
 		VALUES (?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`, name, dimensions)
@@ -72,7 +78,7 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 	var metadataJSON sql.NullString
 	var description sql.NullString
 
-	err = s.db.QueryRowContext(ctx, `
+	err = tx.QueryRowContext(ctx, `
 		SELECT id, name, dimensions, description, metadata, created_at, updated_at
 		FROM collections WHERE name = ?
 	`, name).Scan(
@@ -93,6 +99,10 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 		return nil, wrapError("create_collection", fmt.Errorf("failed to retrieve created collection: %w", err))
 	}
 
+	if err := tx.Commit(); err != nil {
+		return nil, wrapError("create_collection", fmt.Errorf("failed to commit transaction: %w", err))
+	}
+
 	// Parse metadata if present
 	if metadataJSON.Valid && metadataJSON.String != "" {
 		if err := json.Unmarshal([]byte(metadataJSON.String), &collection.Metadata); err != nil {
@@ -214,6 +224,9 @@ func (s *SQLiteStore) ListCollections(ctx context.Context) ([]*Collection, error
 
 		collections = append(collections, collection)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("list_collections", fmt.Errorf("failed to list collections: %w", err))
+	}
 
 	return collections, nil
 }
diff --git a/pkg/core/document.go b/pkg/core/document.go
index 89b11bd..c766c02 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -205,6 +205,9 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 		}
 		docs = append(docs, &doc)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("list_documents", err)
+	}
 
 	return docs, nil
 }
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index ec7436f..aeaf7e6 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -310,7 +310,7 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 		
 		rows, err := s.db.QueryContext(ctx, query, opts.Collection, opts.Collection, limit)
 		if err != nil {
-			continue
+			return nil, err
 		}
 		
 		facetResult := FacetResult{
@@ -330,6 +330,9 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 			// Log error but don't override the main error
 			_ = err
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		
 		if len(facetResult.Values) > 0 {
 			results = append(results, facetResult)
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index d46e66f..fcbced6 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -155,7 +155,7 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		results, err := s.Search(ctx, queryVector, fieldOpts)
 		if err != nil {
-			continue
+			return nil, wrapError("search_multi_vector", err)
 		}
 		
 		// Group by entity ID
@@ -326,6 +326,9 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 			entity.Metadata[k] = v
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("get_multi_vector", err)
+	}
 	
 	if len(entity.Vectors) == 0 {
 		return nil, wrapError("get_multi_vector", ErrNotFound)
@@ -363,6 +366,9 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 		// Log error but don't override the main error
 		_ = err
 	}
+	if err := rows.Err(); err != nil {
+		return wrapError("delete_multi_vector", err)
+	}
 	
 	// Delete from database
 	_, err = s.db.ExecContext(ctx, `
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index c6f4205..71780cf 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -565,6 +565,9 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 	if closeErr := rows.Close(); closeErr != nil {
 		s.logger.Warn("failed to close rows during delete by filter", "error", closeErr)
 	}
+	if err := rows.Err(); err != nil {
+		return wrapError("delete_by_filter", fmt.Errorf("failed to query embeddings: %w", err))
+	}
 
 	if len(idsToDelete) == 0 {
 		return nil // Nothing to delete
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index 2b3a622..801ac3f 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -348,18 +348,15 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		}
 	}
 
-	if s.ivfIndex == nil {
-		if s.config.VectorDim <= 0 {
-			return wrapError("train_index", fmt.Errorf("vector dimension not set"))
-		}
-		s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-	} else {
-		// Re-initialize to change number of centroids if needed, or just retrain
-		if s.ivfIndex.NCentroids != numCentroids {
-			s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-		} else {
-			s.ivfIndex.Clear() // Clear existing data to re-train
-		}
+	if s.ivfIndex == nil && s.config.VectorDim <= 0 {
+		return wrapError("train_index", fmt.Errorf("vector dimension not set"))
+	}
+
+	// Train a new index and put it in place only once it is complete: if training
+	// fails, searches go on with the present one
+	ivf := index.NewIVFIndex(s.config.VectorDim, numCentroids)
+	if s.ivfIndex != nil && s.ivfIndex.NCentroids == numCentroids {
+		ivf.SetNProbe(s.ivfIndex.NProbe)
 	}
 
 	s.logger.Info("training IVF index", "nCentroids", numCentroids)
@@ -393,13 +390,16 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		ids = append(ids, id)
 		vectors = append(vectors, vec)
 	}
+	if err := rows.Err(); err != nil {
+		return wrapError("train_index", fmt.Errorf("failed to fetch vectors: %w", err))
+	}
 
 	if len(vectors) == 0 {
 		return wrapError("train_index", fmt.Errorf("no vectors found for training"))
 	}
 
 	// Train the index
-	if err := s.ivfIndex.Train(vectors); err != nil {
+	if err := ivf.Train(vectors); err != nil {
 		return wrapError("train_index", err)
 	}
 
@@ -408,7 +408,7 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 	// Add all vectors to the index
 	var errorCount int
 	for i, vec := range vectors {
-		if err := s.ivfIndex.Add(ids[i], vec); err != nil {
+		if err := ivf.Add(ids[i], vec); err != nil {
 			s.logger.Warn("failed to add vector to IVF index", "id", ids[i], "error", err)
 			errorCount++
 		}
@@ -417,6 +417,7 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 	if errorCount > 0 {
 		s.logger.Warn("some vectors failed to add to IVF index", "count", errorCount)
 	}
+	s.ivfIndex = ivf
 
 	return nil
 }
diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index 2821f43..0ab0acd 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -45,6 +45,9 @@ func (s *SQLiteStore) GetByID(ctx context.Context, id string) (*Embedding, error
 	}()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, wrapError("get_by_id", fmt.Errorf("failed to query embedding: %w", err))
+		}
 		return nil, wrapError("get_by_id", ErrNotFound)
 	}
 
-- 
2.43.0


From e470b285c12d73df92b71b1351512fbf480149d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:45 +0000
Subject: [PATCH 19/46] fix: a metadata filter for an empty value does not
 match rows without the key

---
 pkg/core/store_search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 2272638..3696b19 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -447,8 +447,8 @@ func (s *SQLiteStore) matchesFilter(emb Embedding, filter map[string]string) boo
 			}
 			continue
 		}
-		if emb.Metadata == nil || emb.Metadata[key] != value {
-			return false
+		if actual, exists := emb.Metadata[key]; !exists || actual != value {
+			return false // a missing key is not an empty value
 		}
 	}
 	return true
-- 
2.43.0


From f95b4b9d2bca868d3fbe4f218b42d4c401f4c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:20 +0000
Subject: [PATCH 20/46] fix: ImportIndex brings the imported index in line with
 the rows and supports IVF stores

---
 pkg/core/io.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index 9216c12..8553684 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -473,17 +473,28 @@ func (s *SQLiteStore) ImportIndex(ctx context.Context, filepath string) error {
 		if err := s.hnswIndex.Load(file); err != nil {
 			// Try IVF format
 			file.Seek(0, 0)
-			if s.ivfIndex == nil {
-				s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, s.config.IVF.NCentroids)
+			ivf := s.ivfIndex
+			if ivf == nil {
+				ivf = index.NewIVFIndex(s.config.VectorDim, s.config.IVF.NCentroids)
 			}
-			if err := s.ivfIndex.Load(file); err != nil {
+			if err := ivf.Load(file); err != nil {
 				return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
 			}
+			s.ivfIndex = ivf
 		}
-		return nil
+	} else if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil {
+		if err := s.ivfIndex.Load(file); err != nil {
+			return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
+		}
+	} else {
+		return wrapError("import_index", fmt.Errorf("no index enabled in config"))
 	}
 
-	return wrapError("import_index", fmt.Errorf("no index enabled in config"))
+	// The file may be older or newer than the rows
+	if err := s.reconcileIndexes(ctx); err != nil {
+		return wrapError("import_index", err)
+	}
+	return nil
 }
 
 // Backup creates a full backup of the database to a file
-- 
2.43.0


From 17c324166184abf1514ff6d2ea1c2d14ae83f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:50 +0000
Subject: [PATCH 21/46] fix: a refused first insert does not fix the
 auto-detected dimension

---
 pkg/core/store_crud.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 71780cf..d650357 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -12,7 +12,7 @@ import (
 )
 
 // Upsert inserts or updates a single embedding
-func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
+func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 	s.mu.RLock()
 	currentDim := s.config.VectorDim
 	adapter := s.adapter
@@ -34,6 +34,11 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	// Auto-detect dimension on first insert
 	if currentDim == 0 {
 		currentDim = s.detectDimension(incomingDim)
+		defer func() {
+			if err != nil {
+				s.forgetDimension() // a refused insert must not fix the dimension
+			}
+		}()
 	}
 
 	// Auto-train quantizer if not trained
@@ -69,12 +74,16 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 
 	// Re-acquire read lock for database operations
 	s.mu.RLock()
+	if s.config.VectorDim != currentDim {
+		// Another insert fixed or gave up the dimension in between
+		s.mu.RUnlock()
+		return s.Upsert(ctx, emb)
+	}
 	defer s.mu.RUnlock()
 
 	if s.closed {
 		return wrapError("upsert", ErrStoreClosed)
 	}
-
 	s.writeMu.Lock()
 	defer s.writeMu.Unlock()
 
@@ -180,8 +189,22 @@ func (s *SQLiteStore) detectDimension(incomingDim int) int {
 	return currentDim
 }
 
+// forgetDimension returns an empty store to auto-detection
+func (s *SQLiteStore) forgetDimension() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed {
+		return
+	}
+	var one int
+	if err := s.db.QueryRow("SELECT 1 FROM embeddings LIMIT 1").Scan(&one); err == sql.ErrNoRows {
+		s.config.VectorDim = 0
+		s.quantizer = nil // made for the forgotten dimension
+	}
+}
+
 // UpsertBatch inserts or updates multiple embeddings in a transaction
-func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
+func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err error) {
 	// Auto-detect dimension on first insert
 	if len(embs) > 0 && len(embs[0].Vector) > 0 {
 		s.mu.RLock()
@@ -189,10 +212,20 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		s.mu.RUnlock()
 		if detect {
 			s.detectDimension(len(embs[0].Vector))
+			defer func() {
+				if err != nil {
+					s.forgetDimension()
+				}
+			}()
 		}
 	}
 
 	s.mu.RLock()
+	if s.config.VectorDim == 0 && !s.closed && len(embs) > 0 && len(embs[0].Vector) > 0 {
+		// Another insert gave up the dimension in between
+		s.mu.RUnlock()
+		return s.UpsertBatch(ctx, embs)
+	}
 	defer s.mu.RUnlock()
 
 	if s.closed {
-- 
2.43.0


From f3a879a2f99c0a740ef164ffb101b67bffc40b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:35 +0000
Subject: [PATCH 22/46] fix: graph exports keep edge vectors, properties and
 exact weights; imports report rejected entries; batches reject unencodable
 entries

---
 pkg/graph/graph_batch.go  | 28 +++++++++--
 pkg/graph/graph_export.go | 98 +++++++++++++++++++++++++++++++--------
 2 files changed, 102 insertions(+), 24 deletions(-)

diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index 427f389..ebc24a0 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -549,10 +549,20 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			continue
 		}
 		
-		vectorBytes, _ := encoding.EncodeVector(node.Vector)
+		vectorBytes, err := encoding.EncodeVector(node.Vector)
+		if err != nil {
+			result.FailedCount++
+			result.Errors = append(result.Errors, err)
+			continue
+		}
 		var propertiesJSON []byte
 		if node.Properties != nil {
-			propertiesJSON, _ = json.Marshal(node.Properties)
+			propertiesJSON, err = json.Marshal(node.Properties)
+			if err != nil {
+				result.FailedCount++
+				result.Errors = append(result.Errors, err)
+				continue
+			}
 		}
 		
 		_, err = stmt.ExecContext(ctx, node.ID, vectorBytes, node.Content, node.NodeType, string(propertiesJSON))
@@ -625,12 +635,22 @@ func (g *GraphStore) upsertEdgesBatchTx(ctx context.Context, tx *sql.Tx, edges [
 		
 		var propertiesJSON []byte
 		if edge.Properties != nil {
-			propertiesJSON, _ = json.Marshal(edge.Properties)
+			propertiesJSON, err = json.Marshal(edge.Properties)
+			if err != nil {
+				result.FailedCount++
+				result.Errors = append(result.Errors, err)
+				continue
+			}
 		}
 		
 		var vectorBytes []byte
 		if len(edge.Vector) > 0 {
-			vectorBytes, _ = encoding.EncodeVector(edge.Vector)
+			vectorBytes, err = encoding.EncodeVector(edge.Vector)
+			if err != nil {
+				result.FailedCount++
+				result.Errors = append(result.Errors, err)
+				continue
+			}
 		}
 		
 		_, err = stmt.ExecContext(ctx, edge.ID, edge.FromNodeID, edge.ToNodeID, edge.EdgeType, edge.Weight, string(propertiesJSON), vectorBytes)
diff --git a/pkg/graph/graph_export.go b/pkg/graph/graph_export.go
index 0eec310..9b69548 100644
--- a/pkg/graph/graph_export.go
+++ b/pkg/graph/graph_export.go
@@ -69,7 +69,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -85,6 +85,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			{ID: "d4", For: "edge", AttrName: "type", AttrType: "string"},
 			{ID: "d5", For: "edge", AttrName: "weight", AttrType: "double"},
 			{ID: "d6", For: "edge", AttrName: "properties", AttrType: "string"},
+			{ID: "d7", For: "edge", AttrName: "vector", AttrType: "string"},
 		},
 		Graph: GraphMLGraph{
 			ID:          "G",
@@ -133,7 +134,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			Target: edge.ToNodeID,
 			Data: []GraphMLData{
 				{Key: "d4", Value: edge.EdgeType},
-				{Key: "d5", Value: fmt.Sprintf("%f", edge.Weight)},
+				{Key: "d5", Value: strconv.FormatFloat(edge.Weight, 'g', -1, 64)},
 			},
 		}
 		
@@ -143,6 +144,12 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			gmlEdge.Data = append(gmlEdge.Data, GraphMLData{Key: "d6", Value: string(propsJSON)})
 		}
 		
+		// Encode vector as JSON
+		if len(edge.Vector) > 0 {
+			vectorJSON, _ := json.Marshal(edge.Vector)
+			gmlEdge.Data = append(gmlEdge.Data, GraphMLData{Key: "d7", Value: string(vectorJSON)})
+		}
+		
 		doc.Graph.Edges = append(doc.Graph.Edges, gmlEdge)
 	}
 	
@@ -211,7 +218,7 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 	}
 	
 	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
+	if err := importResult(g.UpsertNodesBatch(ctx, nodes)); err != nil {
 		return fmt.Errorf("failed to import nodes: %w", err)
 	}
 	
@@ -238,6 +245,8 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 				}
 			case "properties":
 				_ = json.Unmarshal([]byte(data.Value), &edge.Properties)
+			case "vector":
+				_ = json.Unmarshal([]byte(data.Value), &edge.Vector)
 			}
 		}
 		
@@ -245,7 +254,7 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 	}
 	
 	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
+	if err := importResult(g.UpsertEdgesBatch(ctx, edges)); err != nil {
 		return fmt.Errorf("failed to import edges: %w", err)
 	}
 	
@@ -273,7 +282,7 @@ type GEXFMeta struct {
 type GEXFGraph struct {
 	Mode       string       `xml:"mode,attr"`
 	DefaultEdgeType string  `xml:"defaultedgetype,attr"`
-	Attributes GEXFAttrs    `xml:"attributes"`
+	Attributes []GEXFAttrs  `xml:"attributes"`
 	Nodes      GEXFNodes    `xml:"nodes"`
 	Edges      GEXFEdges    `xml:"edges"`
 }
@@ -315,6 +324,7 @@ type GEXFEdge struct {
 	Target string  `xml:"target,attr"`
 	Weight float64 `xml:"weight,attr,omitempty"`
 	Type   string  `xml:"type,attr,omitempty"`
+	AttValues []GEXFAttValue `xml:"attvalues>attvalue"`
 }
 
 // GEXFAttValue represents a GEXF attribute value
@@ -336,7 +346,7 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -352,13 +362,22 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 		Graph: GEXFGraph{
 			Mode:            "static",
 			DefaultEdgeType: "directed",
-			Attributes: GEXFAttrs{
-				Class: "node",
-				Attrs: []GEXFAttr{
-					{ID: "0", Title: "content", Type: "string"},
-					{ID: "1", Title: "type", Type: "string"},
-					{ID: "2", Title: "vector", Type: "string"},
-					{ID: "3", Title: "properties", Type: "string"},
+			Attributes: []GEXFAttrs{
+				{
+					Class: "node",
+					Attrs: []GEXFAttr{
+						{ID: "0", Title: "content", Type: "string"},
+						{ID: "1", Title: "type", Type: "string"},
+						{ID: "2", Title: "vector", Type: "string"},
+						{ID: "3", Title: "properties", Type: "string"},
+					},
+				},
+				{
+					Class: "edge",
+					Attrs: []GEXFAttr{
+						{ID: "4", Title: "properties", Type: "string"},
+						{ID: "5", Title: "vector", Type: "string"},
+					},
 				},
 			},
 			Nodes: GEXFNodes{
@@ -412,6 +431,15 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 			Type:   edge.EdgeType,
 		}
 		
+		if edge.Properties != nil {
+			propsJSON, _ := json.Marshal(edge.Properties)
+			gexfEdge.AttValues = append(gexfEdge.AttValues, GEXFAttValue{For: "4", Value: string(propsJSON)})
+		}
+		if len(edge.Vector) > 0 {
+			vectorJSON, _ := json.Marshal(edge.Vector)
+			gexfEdge.AttValues = append(gexfEdge.AttValues, GEXFAttValue{For: "5", Value: string(vectorJSON)})
+		}
+		
 		doc.Graph.Edges.Edges = append(doc.Graph.Edges.Edges, gexfEdge)
 	}
 	
@@ -441,8 +469,15 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 	
 	// Create attribute mapping
 	attrMap := make(map[string]string)
-	for _, attr := range doc.Graph.Attributes.Attrs {
-		attrMap[attr.ID] = attr.Title
+	edgeAttrMap := make(map[string]string)
+	for _, attrs := range doc.Graph.Attributes {
+		for _, attr := range attrs.Attrs {
+			if attrs.Class == "edge" {
+				edgeAttrMap[attr.ID] = attr.Title
+			} else {
+				attrMap[attr.ID] = attr.Title
+			}
+		}
 	}
 	
 	// Import nodes
@@ -480,7 +515,7 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 	}
 	
 	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
+	if err := importResult(g.UpsertNodesBatch(ctx, nodes)); err != nil {
 		return fmt.Errorf("failed to import nodes: %w", err)
 	}
 	
@@ -500,11 +535,20 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 			edge.Weight = 1.0
 		}
 		
+		for _, attValue := range gexfEdge.AttValues {
+			switch edgeAttrMap[attValue.For] {
+			case "properties":
+				_ = json.Unmarshal([]byte(attValue.Value), &edge.Properties)
+			case "vector":
+				_ = json.Unmarshal([]byte(attValue.Value), &edge.Vector)
+			}
+		}
+		
 		edges = append(edges, edge)
 	}
 	
 	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
+	if err := importResult(g.UpsertEdgesBatch(ctx, edges)); err != nil {
 		return fmt.Errorf("failed to import edges: %w", err)
 	}
 	
@@ -526,7 +570,7 @@ func (g *GraphStore) ExportJSON(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		for _, edge := range edges {
 			if !edgeSet[edge.ID] {
@@ -572,14 +616,14 @@ func (g *GraphStore) ImportJSON(ctx context.Context, reader io.Reader) error {
 	
 	// Batch import nodes
 	if len(graphData.Nodes) > 0 {
-		if _, err := g.UpsertNodesBatch(ctx, graphData.Nodes); err != nil {
+		if err := importResult(g.UpsertNodesBatch(ctx, graphData.Nodes)); err != nil {
 			return fmt.Errorf("failed to import nodes: %w", err)
 		}
 	}
 	
 	// Batch import edges
 	if len(graphData.Edges) > 0 {
-		if _, err := g.UpsertEdgesBatch(ctx, graphData.Edges); err != nil {
+		if err := importResult(g.UpsertEdgesBatch(ctx, graphData.Edges)); err != nil {
 			return fmt.Errorf("failed to import edges: %w", err)
 		}
 	}
@@ -587,6 +631,20 @@ func (g *GraphStore) ImportJSON(ctx context.Context, reader io.Reader) error {
 	return nil
 }
 
+// importResult turns a batch with rejected entries into an error
+func importResult(result *BatchResult, err error) error {
+	if err != nil {
+		return err
+	}
+	if result.FailedCount > 0 {
+		if len(result.Errors) > 0 {
+			return fmt.Errorf("%d entries rejected: %w", result.FailedCount, result.Errors[0])
+		}
+		return fmt.Errorf("%d entries rejected", result.FailedCount)
+	}
+	return nil
+}
+
 // ExportFormat represents supported export formats
 type ExportFormat string
 
-- 
2.43.0


From fd80aee345fa366a80eb7412b9cf05db04fa3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:44 +0000
Subject: [PATCH 23/46] fix: graph HNSW stays connected and in step with
 batches; neighbour limits, subgraph duplicates, edge scores and read errors
 in graph queries

---
 pkg/graph/graph.go            | 38 ++++++++++++++++-----
 pkg/graph/graph_algorithms.go | 31 +++++++++++++++--
 pkg/graph/graph_batch.go      | 39 ++++++++++++++++++---
 pkg/graph/graph_hnsw.go       | 64 +++++++++++++++++------------------
 pkg/graph/graph_hybrid.go     | 13 ++++---
 pkg/graph/graph_traversal.go  | 35 +++++++++++++------
 6 files changed, 159 insertions(+), 61 deletions(-)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index e6da873..3344f38 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -8,6 +8,7 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -79,6 +80,7 @@ type GraphStore struct {
 	store     *core.SQLiteStore
 	db        *sql.DB
 	hnswIndex *HNSWGraphIndex // HNSW index for fast vector search
+	indexMu   sync.Mutex      // Keeps a node's database write and index update together
 }
 
 // NewGraphStore creates a new graph store from a SQLite store
@@ -165,6 +167,9 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		updated_at = CURRENT_TIMESTAMP
 	`
 
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
 	_, err = g.db.ExecContext(ctx, query,
 		node.ID,
 		vectorBytes,
@@ -177,16 +182,32 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		return err
 	}
 
-	if g.hnswIndex != nil {
-		g.hnswIndex.index.Remove(node.ID)
-		if err := g.hnswIndex.index.Add(node.ID, node.Vector); err != nil {
-			return fmt.Errorf("failed to update hnsw index: %w", err)
-		}
+	if err := g.indexNode(node); err != nil {
+		return fmt.Errorf("failed to update hnsw index: %w", err)
 	}
 
 	return nil
 }
 
+// indexNode brings the HNSW index, if enabled, in line with a written node; indexMu is held
+func (g *GraphStore) indexNode(node *GraphNode) error {
+	if g.hnswIndex == nil {
+		return nil
+	}
+	g.hnswIndex.index.Remove(node.ID)
+	return g.hnswIndex.index.Add(node.ID, append([]float32(nil), node.Vector...))
+}
+
+// unindexNodes removes deleted nodes from the HNSW index, if enabled; indexMu is held
+func (g *GraphStore) unindexNodes(nodeIDs []string) {
+	if g.hnswIndex == nil {
+		return
+	}
+	for _, nodeID := range nodeIDs {
+		g.hnswIndex.index.Remove(nodeID)
+	}
+}
+
 // GetNode retrieves a node by ID
 func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, error) {
 	query := `
@@ -236,6 +257,9 @@ func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, er
 // DeleteNode removes a node and all its edges
 func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
 	// Edges are automatically deleted due to CASCADE
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
 	query := `DELETE FROM graph_nodes WHERE id = ?`
 	result, err := g.db.ExecContext(ctx, query, nodeID)
 	if err != nil {
@@ -251,9 +275,7 @@ func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
 		return fmt.Errorf("node not found: %s", nodeID)
 	}
 
-	if g.hnswIndex != nil {
-		g.hnswIndex.index.Remove(nodeID)
-	}
+	g.unindexNodes([]string{nodeID})
 
 	return nil
 }
diff --git a/pkg/graph/graph_algorithms.go b/pkg/graph/graph_algorithms.go
index 4ba8f65..ba25b7c 100644
--- a/pkg/graph/graph_algorithms.go
+++ b/pkg/graph/graph_algorithms.go
@@ -41,6 +41,9 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 		nodes = append(nodes, id)
 	}
 	rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("query nodes: %w", err)
+	}
 
 	if len(nodes) == 0 {
 		return []PageRankResult{}, nil
@@ -70,6 +73,9 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 		}
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, fmt.Errorf("query edges: %w", err)
+	}
 
 	// 3. Compute PageRank
 	nodeCount := float64(len(nodes))
@@ -152,6 +158,9 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		nodes = append(nodes, id)
 	}
 	rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("query nodes: %w", err)
+	}
 
 	if len(nodes) == 0 {
 		return []Community{}, nil
@@ -186,6 +195,9 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		}
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, fmt.Errorf("query edges: %w", err)
+	}
 
 	// 3. Louvain Algorithm (Simplified)
 	communities := make([]int, len(nodes))
@@ -306,6 +318,9 @@ func (g *GraphStore) PredictEdges(ctx context.Context, nodeID string, topK int)
 			adj[v][u] = true // Treat as undirected for common neighbors
 		}
 	}
+	if err := edgeRows.Err(); err != nil {
+		return nil, fmt.Errorf("query edges: %w", err)
+	}
 
 	existingConnections := adj[nodeID]
 	if existingConnections == nil {
@@ -404,11 +419,17 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	adj := make(map[string][]string)
 	for edgeRows.Next() {
 		var u, v string
-		edgeRows.Scan(&u, &v)
+		if err := edgeRows.Scan(&u, &v); err != nil {
+			edgeRows.Close()
+			return nil, err
+		}
 		adj[u] = append(adj[u], v)
 		adj[v] = append(adj[v], u) // Undirected traversal
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, fmt.Errorf("query edges: %w", err)
+	}
 
 	// Get all IDs for traversal
 	idRows, err := g.db.QueryContext(ctx, "SELECT id FROM graph_nodes")
@@ -418,10 +439,16 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	var allIDs []string
 	for idRows.Next() {
 		var id string
-		idRows.Scan(&id)
+		if err := idRows.Scan(&id); err != nil {
+			idRows.Close()
+			return nil, err
+		}
 		allIDs = append(allIDs, id)
 	}
 	idRows.Close()
+	if err := idRows.Err(); err != nil {
+		return nil, err
+	}
 
 	visited := make(map[string]bool)
 	components := 0
diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index ebc24a0..1cdf83d 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -36,6 +36,9 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -59,6 +62,8 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 	}
 	defer func() { _ = stmt.Close() }()
 	
+	written := make([]*GraphNode, 0, len(nodes))
+	
 	// Process each node
 	for _, node := range nodes {
 		if node == nil || node.ID == "" {
@@ -106,6 +111,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 			result.FailedCount++
 		} else {
 			result.SuccessCount++
+			written = append(written, node)
 		}
 	}
 	
@@ -114,6 +120,12 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	for _, node := range written {
+		if err := g.indexNode(node); err != nil {
+			return result, fmt.Errorf("failed to update hnsw index: %w", err)
+		}
+	}
+	
 	return result, nil
 }
 
@@ -127,6 +139,9 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -162,6 +177,8 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	g.unindexNodes(nodeIDs)
+	
 	return result, nil
 }
 
@@ -466,6 +483,9 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -474,11 +494,13 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 	defer func() { _ = tx.Rollback() }()
 	
 	// Process node upserts
+	var written []*GraphNode
 	if len(ops.NodeUpserts) > 0 {
-		nodeResult, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
+		nodeResult, nodes, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to upsert nodes: %w", err)
 		}
+		written = nodes
 		result.SuccessCount += nodeResult.SuccessCount
 		result.FailedCount += nodeResult.FailedCount
 		result.Errors = append(result.Errors, nodeResult.Errors...)
@@ -520,12 +542,19 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	for _, node := range written {
+		if err := g.indexNode(node); err != nil {
+			return result, fmt.Errorf("failed to update hnsw index: %w", err)
+		}
+	}
+	g.unindexNodes(ops.NodeDeletes)
+	
 	return result, nil
 }
 
 // Helper functions for transaction-based operations
 
-func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, error) {
+func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, []*GraphNode, error) {
 	result := &BatchResult{Errors: make([]error, 0)}
 	
 	stmt, err := tx.PrepareContext(ctx, `
@@ -539,10 +568,11 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			updated_at = CURRENT_TIMESTAMP
 	`)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	defer func() { _ = stmt.Close() }()
 	
+	written := make([]*GraphNode, 0, len(nodes))
 	for _, node := range nodes {
 		if node == nil || node.ID == "" || len(node.Vector) == 0 {
 			result.FailedCount++
@@ -571,10 +601,11 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			result.Errors = append(result.Errors, err)
 		} else {
 			result.SuccessCount++
+			written = append(written, node)
 		}
 	}
 	
-	return result, nil
+	return result, written, nil
 }
 
 func (g *GraphStore) deleteNodesBatchTx(ctx context.Context, tx *sql.Tx, nodeIDs []string) (*BatchResult, error) {
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 37a0435..19e4dad 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -69,14 +69,16 @@ func (h *SimpleHNSW) Add(id string, vector []float32) error {
 		}
 	}
 
-	// Set entry point if this is the first node or higher level
-	if h.entryPoint == "" || level > h.getNodeLevel(h.entryPoint) {
+	// The first node has nothing to connect to
+	entry := h.entryPoint
+	if entry == "" || entry == id {
 		h.entryPoint = id
+		return nil
 	}
 
-	// Connect to existing nodes at each level
+	// Connect to existing nodes at each level, starting from the current entry point
 	for l := level; l >= 0; l-- {
-		candidates := h.searchLevel(vector, h.entryPoint, 1, l)
+		candidates := h.searchLevel(vector, entry, h.maxConns, l)
 		maxConnections := h.maxConns
 		if l == 0 {
 			maxConnections = h.maxConns * 2 // More connections at level 0
@@ -92,12 +94,18 @@ func (h *SimpleHNSW) Add(id string, vector []float32) error {
 		}
 	}
 
+	// A node on a higher level becomes the entry point
+	if level > h.getNodeLevel(entry) {
+		h.entryPoint = id
+	}
+
 	return nil
 }
 
 // searchLevel searches for candidates at a specific level
 func (h *SimpleHNSW) searchLevel(query []float32, entryPoint string, ef int, level int) []searchCandidate {
 	visited := make(map[string]bool)
+	expandedNodes := make(map[string]bool)
 	candidates := make([]searchCandidate, 0, ef*2)
 	
 	if entryPoint == "" {
@@ -127,8 +135,8 @@ func (h *SimpleHNSW) searchLevel(query []float32, entryPoint string, ef int, lev
 
 		expanded := false
 		for _, candidate := range candidates {
-			if !visited[candidate.nodeID+"_expanded"] {
-				visited[candidate.nodeID+"_expanded"] = true
+			if !expandedNodes[candidate.nodeID] {
+				expandedNodes[candidate.nodeID] = true
 				
 				// Explore connections
 				if connections, exists := h.graph[level][candidate.nodeID]; exists {
@@ -178,31 +186,11 @@ func (h *SimpleHNSW) addConnection(nodeID1, nodeID2 string, level int) {
 		h.graph[level] = make(map[string][]string)
 	}
 
-	// Add connection from node1 to node2
-	if h.graph[level][nodeID1] == nil {
-		h.graph[level][nodeID1] = make([]string, 0, h.maxConns)
-	}
-	if len(h.graph[level][nodeID1]) < h.maxConns {
-		// Check if already connected
-		for _, conn := range h.graph[level][nodeID1] {
-			if conn == nodeID2 {
-				return
-			}
-		}
+	// Both directions are always kept: a dropped link could leave a node unreachable
+	if !contains(h.graph[level][nodeID1], nodeID2) {
 		h.graph[level][nodeID1] = append(h.graph[level][nodeID1], nodeID2)
 	}
-
-	// Add connection from node2 to node1
-	if h.graph[level][nodeID2] == nil {
-		h.graph[level][nodeID2] = make([]string, 0, h.maxConns)
-	}
-	if len(h.graph[level][nodeID2]) < h.maxConns {
-		// Check if already connected
-		for _, conn := range h.graph[level][nodeID2] {
-			if conn == nodeID1 {
-				return
-			}
-		}
+	if !contains(h.graph[level][nodeID2], nodeID1) {
 		h.graph[level][nodeID2] = append(h.graph[level][nodeID2], nodeID1)
 	}
 }
@@ -280,6 +268,11 @@ func (h *SimpleHNSW) Remove(nodeID string) {
 				}
 			}
 			delete(h.graph[level], nodeID)
+
+			// Link the former neighbors so that none of them becomes unreachable
+			for i := 1; i < len(connections); i++ {
+				h.addConnection(connections[i-1], connections[i], level)
+			}
 		}
 	}
 
@@ -297,7 +290,10 @@ func (h *SimpleHNSW) Remove(nodeID string) {
 
 // EnableHNSWIndex enables HNSW indexing for the graph store
 func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
-	g.hnswIndex = &HNSWGraphIndex{
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
+	hnswIndex := &HNSWGraphIndex{
 		index: NewSimpleHNSW(dimensions, 16),
 	}
 	
@@ -315,7 +311,7 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 		var nodeID string
 		var vectorBytes []byte
 		if err := rows.Scan(&nodeID, &vectorBytes); err != nil {
-			continue
+			return fmt.Errorf("failed to scan node: %w", err)
 		}
 
 		vector, err := encoding.DecodeVector(vectorBytes)
@@ -323,9 +319,13 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 			continue
 		}
 
-		_ = g.hnswIndex.index.Add(nodeID, vector)
+		_ = hnswIndex.index.Add(nodeID, vector)
+	}
+	if err := rows.Err(); err != nil {
+		return fmt.Errorf("failed to read existing nodes: %w", err)
 	}
 
+	g.hnswIndex = hnswIndex
 	return nil
 }
 
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index fbc81a9..c66b0e6 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -82,15 +82,18 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		}
 
 		// Add graph score if available
+		edgeScore := 0.0
 		if graphResults != nil {
 			if gd, exists := graphResults[nodeID]; exists {
 				result.GraphScore = 1.0 / float64(gd.distance+1) // Inverse distance
 				result.Distance = gd.distance
+				edgeScore = gd.weight
 			}
 		}
 
 		result.CombinedScore = result.VectorScore*query.Weights.VectorWeight +
-			result.GraphScore*query.Weights.GraphWeight
+			result.GraphScore*query.Weights.GraphWeight +
+			edgeScore*query.Weights.EdgeWeight
 
 		nodeScores[nodeID] = result
 	}
@@ -148,7 +151,9 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 
 // GraphVectorSearch performs vector search within a graph neighborhood
 func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string, vector []float32, opts TraversalOptions) ([]*HybridResult, error) {
-	// First, get neighbors within specified depth
+	// First, get all neighbors within specified depth; the limit applies to the ranked results
+	limit := opts.Limit
+	opts.Limit = 0
 	neighbors, err := g.Neighbors(ctx, startNodeID, opts)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get neighbors: %w", err)
@@ -180,8 +185,8 @@ func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string,
 	})
 
 	// Apply limit if specified
-	if opts.Limit > 0 && len(results) > opts.Limit {
-		results = results[:opts.Limit]
+	if limit > 0 && len(results) > limit {
+		results = results[:limit]
 	}
 
 	return results, nil
diff --git a/pkg/graph/graph_traversal.go b/pkg/graph/graph_traversal.go
index 15c3371..04025f1 100644
--- a/pkg/graph/graph_traversal.go
+++ b/pkg/graph/graph_traversal.go
@@ -89,14 +89,21 @@ func (g *GraphStore) Neighbors(ctx context.Context, nodeID string, opts Traversa
 				}{neighborID, current.depth + 1})
 			}
 
-			// Check limit
-			if opts.Limit > 0 && len(neighborIDs) >= opts.Limit {
+			// Check limit; with a node type filter it applies to the matching nodes
+			if opts.Limit > 0 && len(opts.NodeTypes) == 0 && len(neighborIDs) >= opts.Limit {
 				return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
 			}
 		}
 	}
 
-	return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	neighbors, err := g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	if err != nil {
+		return nil, err
+	}
+	if opts.Limit > 0 && len(neighbors) > opts.Limit {
+		neighbors = neighbors[:opts.Limit]
+	}
+	return neighbors, nil
 }
 
 // ShortestPath finds the shortest path between two nodes using BFS
@@ -205,27 +212,33 @@ func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*Pa
 // Subgraph extracts a subgraph containing specified nodes and their connections
 func (g *GraphStore) Subgraph(ctx context.Context, nodeIDs []string) (*GraphResult, error) {
 	nodeSet := make(map[string]bool)
+	uniqueIDs := make([]string, 0, len(nodeIDs))
 	for _, id := range nodeIDs {
-		nodeSet[id] = true
+		if !nodeSet[id] {
+			nodeSet[id] = true
+			uniqueIDs = append(uniqueIDs, id)
+		}
 	}
 
 	nodes := make([]*GraphNode, 0, len(nodeIDs))
 	edges := make([]*GraphEdge, 0)
 
 	// Get all nodes
-	for _, nodeID := range nodeIDs {
-		node, err := g.GetNode(ctx, nodeID)
-		if err != nil {
-			continue // Skip if node not found
+	nodesByID, err := g.getNodesByIDs(ctx, uniqueIDs)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get nodes: %w", err)
+	}
+	for _, nodeID := range uniqueIDs {
+		if node, ok := nodesByID[nodeID]; ok { // Skip if node not found
+			nodes = append(nodes, node)
 		}
-		nodes = append(nodes, node)
 	}
 
 	// Get edges between nodes in the subgraph
-	for _, nodeID := range nodeIDs {
+	for _, nodeID := range uniqueIDs {
 		nodeEdges, err := g.GetEdges(ctx, nodeID, "out")
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to get edges: %w", err)
 		}
 
 		for _, edge := range nodeEdges {
-- 
2.43.0


From afec7c352cd0e0960a748a79decda28efdb8db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:37 +0000
Subject: [PATCH 24/46] fix: graph searches report storage errors

---
 pkg/graph/graph_hnsw.go   | 29 ++++++++++++++++++++++++-----
 pkg/graph/graph_hybrid.go | 36 ++++++++++++++++++++++--------------
 2 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 19e4dad..27bdb8f 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -329,6 +329,15 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 	return nil
 }
 
+// candidateNodes loads the nodes of index candidates
+func (g *GraphStore) candidateNodes(ctx context.Context, candidates []searchCandidate) (map[string]*GraphNode, error) {
+	nodeIDs := make([]string, 0, len(candidates))
+	for _, candidate := range candidates {
+		nodeIDs = append(nodeIDs, candidate.nodeID)
+	}
+	return g.getNodesByIDs(ctx, nodeIDs)
+}
+
 // HNSWSearch performs HNSW-accelerated vector search
 func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, threshold float64) ([]*HybridResult, error) {
 	if g.hnswIndex == nil {
@@ -338,11 +347,16 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 	candidates := g.hnswIndex.index.Search(query, k*2)
 	results := make([]*HybridResult, 0, k)
 
+	// Get full node data
+	nodesByID, err := g.candidateNodes(ctx, candidates)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get nodes: %w", err)
+	}
+
 	for _, candidate := range candidates {
 		if candidate.score >= threshold && len(results) < k {
-			// Get full node data
-			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
+			node, ok := nodesByID[candidate.nodeID]
+			if !ok {
 				continue
 			}
 
@@ -369,11 +383,16 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 	candidates := g.hnswIndex.index.Search(query.Vector, query.TopK*3)
 	results := make([]*HybridResult, 0, query.TopK)
 
+	nodesByID, err := g.candidateNodes(ctx, candidates)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get nodes: %w", err)
+	}
+
 	// Combine with graph scoring
 	for _, candidate := range candidates {
 		if candidate.score >= query.VectorThreshold {
-			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
+			node, ok := nodesByID[candidate.nodeID]
+			if !ok {
 				continue
 			}
 
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index c66b0e6..ca58ab6 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -59,6 +59,21 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		}
 	}
 
+	// Load the nodes reached only by traversal
+	missingIDs := make([]string, 0)
+	for nodeID := range graphResults {
+		if _, ok := nodeCache[nodeID]; !ok {
+			missingIDs = append(missingIDs, nodeID)
+		}
+	}
+	missingNodes, err := g.getNodesByIDs(ctx, missingIDs)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get nodes: %w", err)
+	}
+	for nodeID, node := range missingNodes {
+		nodeCache[nodeID] = node
+	}
+
 	// Phase 3: Combine scores
 	nodeScores := make(map[string]*HybridResult)
 
@@ -66,12 +81,7 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 	for nodeID, vectorScore := range vectorResults {
 		node, ok := nodeCache[nodeID]
 		if !ok {
-			var err error
-			node, err = g.GetNode(ctx, nodeID)
-			if err != nil {
-				continue
-			}
-			nodeCache[nodeID] = node
+			continue
 		}
 
 		result := &HybridResult{
@@ -103,12 +113,7 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		if _, exists := nodeScores[nodeID]; !exists {
 			node, ok := nodeCache[nodeID]
 			if !ok {
-				var err error
-				node, err = g.GetNode(ctx, nodeID)
-				if err != nil {
-					continue
-				}
-				nodeCache[nodeID] = node
+				continue
 			}
 
 			result := &HybridResult{
@@ -160,8 +165,11 @@ func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string,
 	}
 
 	// Add the start node itself
-	startNode, err := g.GetNode(ctx, startNodeID)
-	if err == nil {
+	startNodes, err := g.getNodesByIDs(ctx, []string{startNodeID})
+	if err != nil {
+		return nil, fmt.Errorf("failed to get start node: %w", err)
+	}
+	if startNode, ok := startNodes[startNodeID]; ok {
 		neighbors = append([]*GraphNode{startNode}, neighbors...)
 	}
 
-- 
2.43.0


From 41d666fd46789c51f0b5c4d10429b3e05b680b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:13 +0000
Subject: [PATCH 25/46] fix: memory buckets of different users never coincide;
 expired memories do not use up search limits; memory writes are atomic

---
 pkg/cortexdb/cortexdb.go   |   4 +-
 pkg/cortexdb/memory_api.go | 146 ++++++++++++++++++++++++++-----------
 2 files changed, 108 insertions(+), 42 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index 1c4d761..a1ffa1e 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"sync"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -15,7 +16,8 @@ import (
 type DB struct {
 	store    *core.SQLiteStore
 	graph    *graph.GraphStore
-	embedder Embedder // Optional embedder for text operations
+	embedder Embedder   // Optional embedder for text operations
+	memoryMu sync.Mutex // serializes memory writes
 }
 
 // Config represents database configuration
diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 25bef9a..5157b6c 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -33,9 +33,6 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 	if err != nil {
 		return nil, err
 	}
-	if err := db.ensureMemoryBucket(ctx, bucketID, req.UserID, scope, normalizeMemoryNamespace(req.Namespace)); err != nil {
-		return nil, err
-	}
 
 	metadata := buildMemoryMetadata(scope, normalizeMemoryNamespace(req.Namespace), req.Metadata, req.Importance, req.TTLSeconds)
 	vectorBytes, err := db.embedMemoryContent(ctx, req.Content)
@@ -48,7 +45,12 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 	}
 
 	role := firstNonEmpty(req.Role, defaultMemoryRole)
-	if _, err := db.store.GetDB().ExecContext(ctx, `
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
+	if err := db.ensureMemoryBucket(ctx, bucketID, req.UserID, scope, normalizeMemoryNamespace(req.Namespace)); err != nil {
+		return nil, err
+	}
+	row, err := db.writeMemoryRow(ctx, req.MemoryID, `
 		INSERT INTO messages (id, session_id, role, content, vector, metadata, created_at)
 		VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
 		ON CONFLICT(id) DO UPDATE SET
@@ -57,13 +59,9 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 			content = excluded.content,
 			vector = excluded.vector,
 			metadata = excluded.metadata
-	`, req.MemoryID, bucketID, role, req.Content, vectorBytes, metadataJSON); err != nil {
-		return nil, fmt.Errorf("save memory: %w", err)
-	}
-
-	row, err := db.loadMemoryRow(ctx, req.MemoryID)
+	`, req.MemoryID, bucketID, role, req.Content, vectorBytes, metadataJSON)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("save memory: %w", err)
 	}
 	return &MemorySaveResponse{Memory: row.record}, nil
 }
@@ -74,6 +72,20 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
+	var newVector []byte
+	if req.Content != nil {
+		if strings.TrimSpace(*req.Content) == "" {
+			return nil, ErrEmptyText
+		}
+		var err error
+		newVector, err = db.embedMemoryContent(ctx, *req.Content)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
 	row, err := db.loadMemoryRow(ctx, req.MemoryID)
 	if err != nil {
 		return nil, err
@@ -82,14 +94,7 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 	content := row.record.Content
 	vectorBytes := row.vector
 	if req.Content != nil {
-		if strings.TrimSpace(*req.Content) == "" {
-			return nil, ErrEmptyText
-		}
-		content = *req.Content
-		vectorBytes, err = db.embedMemoryContent(ctx, content)
-		if err != nil {
-			return nil, err
-		}
+		content, vectorBytes = *req.Content, newVector
 	}
 
 	metadata := cloneAnyMap(row.record.Metadata)
@@ -112,17 +117,13 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 		return nil, fmt.Errorf("marshal memory metadata: %w", err)
 	}
 
-	if _, err := db.store.GetDB().ExecContext(ctx, `
+	updated, err := db.writeMemoryRow(ctx, req.MemoryID, `
 		UPDATE messages
 		SET content = ?, vector = ?, metadata = ?
 		WHERE id = ?
-	`, content, vectorBytes, metadataJSON, req.MemoryID); err != nil {
-		return nil, fmt.Errorf("update memory: %w", err)
-	}
-
-	updated, err := db.loadMemoryRow(ctx, req.MemoryID)
+	`, content, vectorBytes, metadataJSON, req.MemoryID)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("update memory: %w", err)
 	}
 	return &MemorySaveResponse{Memory: updated.record}, nil
 }
@@ -153,16 +154,26 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 	if db.HasEmbedder() && normalizeRetrievalMode(req.RetrievalMode) != RetrievalModeLexical {
 		queryVec, err := db.embedder.Embed(ctx, req.Query)
 		if err == nil {
-			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, req.TopK)
+			// Expired memories must not use up the limit, so it applies after they are dropped.
+			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, -1)
 			if err == nil && len(messages) > 0 {
-				hits := make([]MemorySearchHit, 0, len(messages))
-				for i, message := range messages {
-					record := memoryRecordFromMessage(bucketID, "", message)
+				userID := ""
+				if session, err := db.store.GetSession(ctx, bucketID); err == nil {
+					userID = session.UserID
+				}
+				hits := make([]MemorySearchHit, 0, req.TopK)
+				for _, message := range messages {
+					record := memoryRecordFromMessage(bucketID, userID, message)
 					if memoryExpired(record) {
 						continue
 					}
-					score := float64(len(messages)-i) / float64(len(messages))
-					hits = append(hits, MemorySearchHit{Memory: record, Score: score})
+					hits = append(hits, MemorySearchHit{Memory: record})
+					if len(hits) == req.TopK {
+						break
+					}
+				}
+				for i := range hits {
+					hits[i].Score = float64(len(hits)-i) / float64(len(hits))
 				}
 				if len(hits) > 0 {
 					return &MemorySearchResponse{Query: req.Query, Results: hits}, nil
@@ -184,20 +195,30 @@ func (db *DB) DeleteMemory(ctx context.Context, req MemoryDeleteRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
+	db.memoryMu.Lock()
+	defer db.memoryMu.Unlock()
 	row, err := db.loadMemoryRow(ctx, req.MemoryID)
 	if err != nil {
 		return nil, err
 	}
-	if _, err := db.store.GetDB().ExecContext(ctx, `DELETE FROM messages WHERE id = ?`, req.MemoryID); err != nil {
+	tx, err := db.store.GetDB().BeginTx(ctx, nil)
+	if err != nil {
+		return nil, fmt.Errorf("delete memory: %w", err)
+	}
+	defer func() { _ = tx.Rollback() }()
+	if _, err := tx.ExecContext(ctx, `DELETE FROM messages WHERE id = ?`, req.MemoryID); err != nil {
 		return nil, fmt.Errorf("delete memory: %w", err)
 	}
-	if _, err := db.store.GetDB().ExecContext(ctx, `
+	if _, err := tx.ExecContext(ctx, `
 		DELETE FROM sessions
 		WHERE id = ?
 		  AND NOT EXISTS (SELECT 1 FROM messages WHERE session_id = ?)
 	`, row.record.SessionID, row.record.SessionID); err != nil {
 		return nil, fmt.Errorf("cleanup empty memory bucket: %w", err)
 	}
+	if err := tx.Commit(); err != nil {
+		return nil, fmt.Errorf("delete memory: %w", err)
+	}
 	return &MemoryDeleteResponse{MemoryID: req.MemoryID, Deleted: true}, nil
 }
 
@@ -260,7 +281,36 @@ func (db *DB) embedMemoryContent(ctx context.Context, content string) ([]byte, e
 	return vectorBytes, nil
 }
 
+// writeMemoryRow runs a statement that writes one memory and reads it back,
+// in one transaction: a write that is reported as failed leaves nothing behind.
+func (db *DB) writeMemoryRow(ctx context.Context, memoryID, query string, args ...any) (*memoryRow, error) {
+	tx, err := db.store.GetDB().BeginTx(ctx, nil)
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = tx.Rollback() }()
+	if _, err := tx.ExecContext(ctx, query, args...); err != nil {
+		return nil, err
+	}
+	row, err := loadMemoryRow(ctx, tx, memoryID)
+	if err != nil {
+		return nil, err
+	}
+	if err := tx.Commit(); err != nil {
+		return nil, err
+	}
+	return row, nil
+}
+
 func (db *DB) loadMemoryRow(ctx context.Context, memoryID string) (*memoryRow, error) {
+	return loadMemoryRow(ctx, db.store.GetDB(), memoryID)
+}
+
+type rowQuerier interface {
+	QueryRowContext(ctx context.Context, query string, args ...any) *sql.Row
+}
+
+func loadMemoryRow(ctx context.Context, q rowQuerier, memoryID string) (*memoryRow, error) {
 	if memoryID == "" {
 		return nil, fmt.Errorf("memory_id is required")
 	}
@@ -268,7 +318,7 @@ func (db *DB) loadMemoryRow(ctx context.Context, memoryID string) (*memoryRow, e
 	row := memoryRow{}
 	var metadataJSON []byte
 	var createdAt time.Time
-	err := db.store.GetDB().QueryRowContext(ctx, `
+	err := q.QueryRowContext(ctx, `
 		SELECT m.id, m.session_id, s.user_id, m.role, m.content, m.vector, m.metadata, m.created_at
 		FROM messages m
 		JOIN sessions s ON s.id = m.session_id
@@ -325,8 +375,7 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			WHERE messages_fts MATCH ?
 			  AND m.session_id = ?
 			ORDER BY bm25(messages_fts)
-			LIMIT ?
-		`, searchQuery, bucketID, topK*4)
+		`, searchQuery, bucketID)
 		if err != nil {
 			if firstErr == nil {
 				firstErr = fmt.Errorf("search memory lexical: %w", err)
@@ -334,7 +383,8 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			continue
 		}
 
-		for rows.Next() {
+		live := 0 // expired memories do not count towards the limit
+		for live < topK*4 && rows.Next() {
 			var record MemoryRecord
 			var metadataJSON []byte
 			var createdAt time.Time
@@ -354,6 +404,7 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			if memoryExpired(record) {
 				continue
 			}
+			live++
 
 			scoreWeight := 1.0 - float64(idx)*0.05
 			if scoreWeight < 0.8 {
@@ -364,6 +415,13 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 				merged[record.ID] = scoredMemory{record: record, score: score}
 			}
 		}
+		if err := rows.Err(); err != nil {
+			_ = rows.Close()
+			if firstErr == nil {
+				firstErr = fmt.Errorf("search memory lexical: %w", err)
+			}
+			continue
+		}
 		if err := rows.Close(); err != nil {
 			return nil, fmt.Errorf("close lexical memory rows: %w", err)
 		}
@@ -412,22 +470,28 @@ func resolveMemoryBucket(scope, userID, sessionID, namespace string) (string, st
 
 	switch scope {
 	case MemoryScopeGlobal:
-		return scope, fmt.Sprintf("memory:%s:%s", scope, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s", scope, bucketPart(namespace)), nil
 	case MemoryScopeUser:
 		if strings.TrimSpace(userID) == "" {
 			return "", "", fmt.Errorf("user_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, userID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, bucketPart(userID), bucketPart(namespace)), nil
 	case MemoryScopeSession:
 		if strings.TrimSpace(sessionID) == "" {
 			return "", "", fmt.Errorf("session_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, sessionID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, bucketPart(sessionID), bucketPart(namespace)), nil
 	default:
 		return "", "", fmt.Errorf("unsupported memory scope: %s", scope)
 	}
 }
 
+// bucketPart escapes the separator, so that different users, sessions and
+// namespaces never share a bucket.
+func bucketPart(value string) string {
+	return strings.NewReplacer("%", "%25", ":", "%3A").Replace(value)
+}
+
 func normalizeMemoryNamespace(namespace string) string {
 	namespace = strings.TrimSpace(namespace)
 	if namespace == "" {
@@ -444,7 +508,7 @@ func buildMemoryMetadata(scope, namespace string, metadata map[string]any, impor
 	out["importance"] = importance
 	out["ttl_seconds"] = ttlSeconds
 	if ttlSeconds > 0 {
-		out["expires_at"] = time.Now().UTC().Add(time.Duration(ttlSeconds) * time.Second).Format(time.RFC3339)
+		out["expires_at"] = time.Now().UTC().Add(time.Duration(ttlSeconds) * time.Second).Format(time.RFC3339Nano)
 	} else {
 		delete(out, "expires_at")
 	}
-- 
2.43.0


From c1575340c9b4552d3ea33a01fd0a465ee0edf6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:35 +0000
Subject: [PATCH 26/46] fix: re-ingested knowledge leaves no stale chunks;
 refused saves keep the previous version; graph expansion stays in its
 collection; failed graph batch items are errors

---
 pkg/cortexdb/graphrag.go       | 161 +++++++++++++++++++++++++++------
 pkg/cortexdb/graphrag_tools.go |  32 +++++--
 pkg/cortexdb/knowledge_api.go  |  96 +++++++++++++++-----
 3 files changed, 232 insertions(+), 57 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 53e4d3e..a627620 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -2,6 +2,7 @@ package cortexdb
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"regexp"
@@ -107,7 +108,30 @@ type GraphRAGQueryResult struct {
 }
 
 // InsertGraphDocument ingests a document into the vector store and graph store for GraphRAG retrieval.
+// Re-ingesting a document replaces its chunks.
 func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opts GraphRAGIngestOptions) (*GraphRAGIngestResult, error) {
+	prepared, err := db.prepareGraphDocument(ctx, doc, opts)
+	if err != nil {
+		return nil, err
+	}
+	return db.writeGraphDocument(ctx, prepared)
+}
+
+// preparedGraphDocument holds everything an ingestion writes.
+type preparedGraphDocument struct {
+	collection    string
+	record        *core.Document
+	documentNode  *graph.GraphNode
+	embeddings    []*core.Embedding
+	chunkNodes    []*graph.GraphNode
+	chunkNodeIDs  []string
+	entityNodes   []*graph.GraphNode
+	entityNodeIDs []string
+	edges         []*graph.GraphEdge
+}
+
+// prepareGraphDocument chunks, embeds and extracts a document without writing anything.
+func (db *DB) prepareGraphDocument(ctx context.Context, doc GraphRAGDocument, opts GraphRAGIngestOptions) (*preparedGraphDocument, error) {
 	if db.embedder == nil {
 		return nil, ErrEmbedderNotConfigured
 	}
@@ -119,12 +143,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	}
 
 	applyGraphRAGIngestDefaults(&opts)
-	if err := db.graph.InitGraphSchema(ctx); err != nil {
-		return nil, fmt.Errorf("init graph schema: %w", err)
-	}
-	if err := db.ensureGraphRAGCollection(ctx, opts.Collection); err != nil {
-		return nil, err
-	}
 
 	chunks := splitGraphRAGText(doc.Content, opts.ChunkSize, opts.ChunkOverlap)
 	if len(chunks) == 0 {
@@ -145,9 +163,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		Content: doc.Content,
 		Version: 1,
 	}
-	if err := db.upsertGraphRAGDocumentRecord(ctx, documentRecord); err != nil {
-		return nil, err
-	}
 
 	documentNode := &graph.GraphNode{
 		ID:       documentNodeID,
@@ -159,9 +174,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 			"title":       doc.Title,
 		},
 	}
-	if err := db.graph.UpsertNode(ctx, documentNode); err != nil {
-		return nil, fmt.Errorf("upsert document node: %w", err)
-	}
 
 	embeddings := make([]*core.Embedding, 0, len(chunks))
 	chunkNodes := make([]*graph.GraphNode, 0, len(chunks))
@@ -278,14 +290,8 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
-	if err := db.store.UpsertBatch(ctx, embeddings); err != nil {
-		return nil, fmt.Errorf("upsert graphrag embeddings: %w", err)
-	}
-	if _, err := db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
-		return nil, fmt.Errorf("upsert chunk graph nodes: %w", err)
-	}
-
 	entityNodeIDs := make([]string, 0, len(entityTexts))
+	entityNodes := make([]*graph.GraphNode, 0, len(entityTexts))
 	if len(entityTexts) > 0 {
 		entityNames := make([]string, 0, len(entityTexts))
 		idOrder := make([]string, 0, len(entityTexts))
@@ -299,7 +305,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 			return nil, fmt.Errorf("embed entities: %w", err)
 		}
 
-		entityNodes := make([]*graph.GraphNode, 0, len(entityNames))
 		for i, entityID := range idOrder {
 			entity := entityTexts[entityID]
 			entityNodeIDs = append(entityNodeIDs, entityID)
@@ -314,9 +319,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 				},
 			})
 		}
-		if _, err := db.graph.UpsertNodesBatch(ctx, entityNodes); err != nil {
-			return nil, fmt.Errorf("upsert entity nodes: %w", err)
-		}
 
 		for chunkID, mentioned := range entityMentions {
 			for entityID := range mentioned {
@@ -344,19 +346,111 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
-	if len(edges) > 0 {
-		if _, err := db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+	return &preparedGraphDocument{
+		collection:    opts.Collection,
+		record:        documentRecord,
+		documentNode:  documentNode,
+		embeddings:    embeddings,
+		chunkNodes:    chunkNodes,
+		chunkNodeIDs:  chunkNodeIDs,
+		entityNodes:   entityNodes,
+		entityNodeIDs: entityNodeIDs,
+		edges:         edges,
+	}, nil
+}
+
+// writeGraphDocument stores a prepared document.
+func (db *DB) writeGraphDocument(ctx context.Context, p *preparedGraphDocument) (*GraphRAGIngestResult, error) {
+	if err := db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
+	if err := db.ensureGraphRAGCollection(ctx, p.collection); err != nil {
+		return nil, err
+	}
+	if err := db.upsertGraphRAGDocumentRecord(ctx, p.record); err != nil {
+		return nil, err
+	}
+	if err := db.graph.UpsertNode(ctx, p.documentNode); err != nil {
+		return nil, fmt.Errorf("upsert document node: %w", err)
+	}
+	if err := db.store.UpsertBatch(ctx, p.embeddings); err != nil {
+		return nil, fmt.Errorf("upsert graphrag embeddings: %w", err)
+	}
+	if err := db.removeStaleChunks(ctx, p.record.ID, p.chunkNodeIDs); err != nil {
+		return nil, err
+	}
+	if err := batchError(db.graph.UpsertNodesBatch(ctx, p.chunkNodes)); err != nil {
+		return nil, fmt.Errorf("upsert chunk graph nodes: %w", err)
+	}
+	if len(p.entityNodes) > 0 {
+		if err := batchError(db.graph.UpsertNodesBatch(ctx, p.entityNodes)); err != nil {
+			return nil, fmt.Errorf("upsert entity nodes: %w", err)
+		}
+	}
+	if len(p.edges) > 0 {
+		if err := batchError(db.graph.UpsertEdgesBatch(ctx, p.edges)); err != nil {
 			return nil, fmt.Errorf("upsert graph edges: %w", err)
 		}
 	}
 
 	return &GraphRAGIngestResult{
-		DocumentNodeID: documentNodeID,
-		ChunkNodeIDs:   chunkNodeIDs,
-		EntityNodeIDs:  entityNodeIDs,
+		DocumentNodeID: p.documentNode.ID,
+		ChunkNodeIDs:   p.chunkNodeIDs,
+		EntityNodeIDs:  p.entityNodeIDs,
 	}, nil
 }
 
+// removeStaleChunks deletes the chunks of an earlier, longer version of a document.
+func (db *DB) removeStaleChunks(ctx context.Context, documentID string, keep []string) error {
+	current := make(map[string]struct{}, len(keep))
+	for _, id := range keep {
+		current[id] = struct{}{}
+	}
+	stored, err := db.store.GetByDocID(ctx, documentID)
+	if err != nil {
+		return fmt.Errorf("get document chunks: %w", err)
+	}
+	var stale []string
+	for _, chunk := range stored {
+		if _, ok := current[chunk.ID]; !ok && isChunkOf(documentID, chunk.ID) {
+			stale = append(stale, chunk.ID)
+		}
+	}
+	if len(stale) == 0 {
+		return nil
+	}
+	if err := batchError(db.graph.DeleteNodesBatch(ctx, stale)); err != nil {
+		return fmt.Errorf("delete stale chunk nodes: %w", err)
+	}
+	if err := db.store.DeleteBatch(ctx, stale); err != nil {
+		return fmt.Errorf("delete stale chunks: %w", err)
+	}
+	return nil
+}
+
+// batchError turns items that a graph batch could not write into an error.
+func batchError(result *graph.BatchResult, err error) error {
+	if err != nil {
+		return err
+	}
+	if result != nil {
+		return errors.Join(result.Errors...)
+	}
+	return nil
+}
+
+// inCollection reports whether a chunk reached through the graph belongs to a collection.
+func (db *DB) inCollection(ctx context.Context, chunkID, collection string) (bool, error) {
+	chunk, err := db.store.GetByID(ctx, chunkID)
+	if errors.Is(err, core.ErrNotFound) {
+		return false, nil
+	}
+	if err != nil {
+		return false, err
+	}
+	return chunk.Collection == collection, nil
+}
+
 // SearchGraphRAG performs seed chunk retrieval plus graph neighborhood expansion.
 func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQueryOptions) (*GraphRAGQueryResult, error) {
 	if db.embedder == nil {
@@ -424,6 +518,11 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 				}
 				related := chunkResults[neighbor.ID]
 				if related == nil {
+					if ok, err := db.inCollection(ctx, neighbor.ID, opts.Collection); err != nil {
+						return nil, fmt.Errorf("expand graph neighborhood: %w", err)
+					} else if !ok {
+						continue
+					}
 					related = &GraphRAGChunkResult{
 						ID:      neighbor.ID,
 						Content: neighbor.Content,
@@ -666,6 +765,12 @@ func graphChunkNodeID(documentID string, index int) string {
 	return fmt.Sprintf("chunk:%s:%03d", documentID, index)
 }
 
+// isChunkOf reports whether an ID is that of a chunk of the document.
+func isChunkOf(documentID, id string) bool {
+	index, ok := strings.CutPrefix(id, "chunk:"+documentID+":")
+	return ok && index != "" && strings.Trim(index, "0123456789") == ""
+}
+
 func graphEntityNodeID(name string) string {
 	normalized := strings.ToLower(strings.TrimSpace(name))
 	var b strings.Builder
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index bfb2df7..b32be9b 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -3,6 +3,7 @@ package cortexdb
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"hash/fnv"
 	"sort"
@@ -628,10 +629,13 @@ func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocu
 	if err := t.db.store.UpsertBatch(ctx, embeddings); err != nil {
 		return nil, fmt.Errorf("upsert lexical chunks: %w", err)
 	}
-	if _, err := t.db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
+	if err := t.db.removeStaleChunks(ctx, req.DocumentID, chunkIDs); err != nil {
+		return nil, err
+	}
+	if err := batchError(t.db.graph.UpsertNodesBatch(ctx, chunkNodes)); err != nil {
 		return nil, fmt.Errorf("upsert chunk nodes: %w", err)
 	}
-	if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+	if err := batchError(t.db.graph.UpsertEdgesBatch(ctx, edges)); err != nil {
 		return nil, fmt.Errorf("upsert chunk edges: %w", err)
 	}
 
@@ -701,12 +705,12 @@ func (t *GraphRAGToolbox) UpsertEntities(ctx context.Context, req ToolUpsertEnti
 	}
 
 	if len(nodes) > 0 {
-		if _, err := t.db.graph.UpsertNodesBatch(ctx, nodes); err != nil {
+		if err := batchError(t.db.graph.UpsertNodesBatch(ctx, nodes)); err != nil {
 			return nil, fmt.Errorf("upsert entity nodes: %w", err)
 		}
 	}
 	if len(edges) > 0 {
-		if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+		if err := batchError(t.db.graph.UpsertEdgesBatch(ctx, edges)); err != nil {
 			return nil, fmt.Errorf("upsert mention edges: %w", err)
 		}
 	}
@@ -764,7 +768,7 @@ func (t *GraphRAGToolbox) UpsertRelations(ctx context.Context, req ToolUpsertRel
 	}
 
 	if len(edges) > 0 {
-		if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
+		if err := batchError(t.db.graph.UpsertEdgesBatch(ctx, edges)); err != nil {
 			return nil, fmt.Errorf("upsert relation edges: %w", err)
 		}
 	}
@@ -791,6 +795,9 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 		TopK:       req.TopK,
 		Threshold:  req.Threshold,
 	}
+	if searchOpts.TopK <= 0 {
+		searchOpts.TopK = 10
+	}
 
 	queries := lexicalSearchQueries(req.Query, req.Keywords, req.AlternateQueries)
 	if len(queries) == 0 {
@@ -1063,6 +1070,11 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			return nil, err
 		}
 		for _, chunk := range entityResp.Chunks {
+			if ok, err := t.db.inCollection(ctx, chunk.ID, opts.Collection); err != nil {
+				return nil, err
+			} else if !ok {
+				continue
+			}
 			if chunk.Score < 0.75 {
 				chunk.Score = 0.75
 			}
@@ -1105,6 +1117,11 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			case "entity":
 				entitySet[node.Content] = struct{}{}
 			case "chunk":
+				if ok, err := t.db.inCollection(ctx, node.ID, opts.Collection); err != nil {
+					return nil, err
+				} else if !ok {
+					continue
+				}
 				chunk := ToolChunk{
 					ID:      node.ID,
 					Content: node.Content,
@@ -1211,9 +1228,12 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 	chunks := make([]ToolChunk, 0, len(orderedIDs))
 	for _, chunkID := range orderedIDs {
 		emb, err := t.db.store.GetByID(ctx, chunkID)
-		if err != nil {
+		if errors.Is(err, core.ErrNotFound) {
 			continue
 		}
+		if err != nil {
+			return nil, fmt.Errorf("get chunk: %w", err)
+		}
 		var entities []string
 		if includeEntities {
 			entities, err = t.getChunkEntityNames(ctx, chunkID)
diff --git a/pkg/cortexdb/knowledge_api.go b/pkg/cortexdb/knowledge_api.go
index 55c2de9..e71f25e 100644
--- a/pkg/cortexdb/knowledge_api.go
+++ b/pkg/cortexdb/knowledge_api.go
@@ -30,14 +30,9 @@ func (db *DB) SaveKnowledge(ctx context.Context, req KnowledgeSaveRequest) (*Kno
 	if err != nil && !errors.Is(err, core.ErrNotFound) {
 		return nil, fmt.Errorf("get existing knowledge: %w", err)
 	}
-	if existing != nil {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
-	}
 
 	metadata := cloneStringMap(req.Metadata)
-	ingest, err := db.ingestKnowledgeContent(ctx, req.KnowledgeID, req.Title, req.Content, req.Collection, req.ChunkSize, req.ChunkOverlap, metadata, req.Entities, req.Relations)
+	ingest, err := db.ingestKnowledgeContent(ctx, existing != nil, req.KnowledgeID, req.Title, req.Content, req.Collection, req.ChunkSize, req.ChunkOverlap, metadata, req.Entities, req.Relations)
 	if err != nil {
 		return nil, err
 	}
@@ -126,10 +121,7 @@ func (db *DB) UpdateKnowledge(ctx context.Context, req KnowledgeUpdateRequest) (
 	replaceArtifacts := req.Content != nil || req.Title != nil || req.Collection != nil || req.Metadata != nil
 	ingest := &knowledgeIngestResult{}
 	if replaceArtifacts {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
-		ingest, err = db.ingestKnowledgeContent(ctx, req.KnowledgeID, title, content, collection, chunkSize, chunkOverlap, metadata, req.Entities, req.Relations)
+		ingest, err = db.ingestKnowledgeContent(ctx, true, req.KnowledgeID, title, content, collection, chunkSize, chunkOverlap, metadata, req.Entities, req.Relations)
 		if err != nil {
 			return nil, err
 		}
@@ -295,7 +287,9 @@ func (t *GraphRAGToolbox) DeleteKnowledge(ctx context.Context, req KnowledgeDele
 	return t.db.DeleteKnowledge(ctx, req)
 }
 
-func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, content, collection string, chunkSize, chunkOverlap int, metadata map[string]string, entities []ToolEntityInput, relations []ToolRelationInput) (*knowledgeIngestResult, error) {
+// ingestKnowledgeContent replaces the artifacts of a knowledge item. Everything that
+// can be refused is checked and embedded before the previous version is removed.
+func (db *DB) ingestKnowledgeContent(ctx context.Context, replace bool, knowledgeID, title, content, collection string, chunkSize, chunkOverlap int, metadata map[string]string, entities []ToolEntityInput, relations []ToolRelationInput) (*knowledgeIngestResult, error) {
 	doc := GraphRAGDocument{
 		ID:       knowledgeID,
 		Title:    title,
@@ -305,12 +299,43 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 	toolbox := db.GraphRAGTools()
 	result := &knowledgeIngestResult{}
 
+	ingestOpts := GraphRAGIngestOptions{
+		Collection:   collection,
+		ChunkSize:    chunkSize,
+		ChunkOverlap: chunkOverlap,
+	}
+	applyGraphRAGIngestDefaults(&ingestOpts)
+
+	if err := db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
+	known := map[string]struct{}{graphDocumentNodeID(knowledgeID): {}}
+	var prepared *preparedGraphDocument
 	if db.HasEmbedder() {
-		ingest, err := db.InsertGraphDocument(ctx, doc, GraphRAGIngestOptions{
-			Collection:   collection,
-			ChunkSize:    chunkSize,
-			ChunkOverlap: chunkOverlap,
-		})
+		var err error
+		prepared, err = db.prepareGraphDocument(ctx, doc, ingestOpts)
+		if err != nil {
+			return nil, err
+		}
+		for _, id := range append(prepared.chunkNodeIDs, prepared.entityNodeIDs...) {
+			known[id] = struct{}{}
+		}
+	} else {
+		for i := range splitGraphRAGText(content, ingestOpts.ChunkSize, ingestOpts.ChunkOverlap) {
+			known[graphChunkNodeID(knowledgeID, i)] = struct{}{}
+		}
+	}
+	if err := db.checkKnowledgeLinks(ctx, knowledgeID, known, entities, relations); err != nil {
+		return nil, err
+	}
+	if replace {
+		if err := db.cleanupKnowledgeArtifacts(ctx, knowledgeID); err != nil {
+			return nil, err
+		}
+	}
+
+	if prepared != nil {
+		ingest, err := db.writeGraphDocument(ctx, prepared)
 		if err != nil {
 			return nil, err
 		}
@@ -338,12 +363,6 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 	}
 
 	if result.collection == "" {
-		ingestOpts := GraphRAGIngestOptions{
-			Collection:   collection,
-			ChunkSize:    chunkSize,
-			ChunkOverlap: chunkOverlap,
-		}
-		applyGraphRAGIngestDefaults(&ingestOpts)
 		result.collection = ingestOpts.Collection
 	}
 
@@ -375,6 +394,37 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 	return result, nil
 }
 
+// checkKnowledgeLinks refuses mentions and relations whose ends will not exist.
+func (db *DB) checkKnowledgeLinks(ctx context.Context, knowledgeID string, known map[string]struct{}, entities []ToolEntityInput, relations []ToolRelationInput) error {
+	for _, entity := range entities {
+		known[resolveEntityNodeID(entity.ID, entity.Name)] = struct{}{}
+	}
+	var ends []string
+	for _, entity := range entities {
+		if strings.TrimSpace(entity.Name) != "" || strings.TrimSpace(entity.ID) != "" {
+			ends = append(ends, entity.ChunkIDs...)
+		}
+	}
+	for _, rel := range relations {
+		fromID, toID := resolveEntityNodeID("", rel.From), resolveEntityNodeID("", rel.To)
+		if fromID != "" && toID != "" {
+			ends = append(ends, fromID, toID)
+		}
+	}
+	for _, id := range ends {
+		if _, ok := known[id]; ok || id == "" {
+			continue
+		}
+		if isChunkOf(knowledgeID, id) {
+			return fmt.Errorf("unknown chunk: %s", id)
+		}
+		if _, err := db.graph.GetNode(ctx, id); err != nil {
+			return fmt.Errorf("unknown node %s: %w", id, err)
+		}
+	}
+	return nil
+}
+
 func (db *DB) cleanupKnowledgeArtifacts(ctx context.Context, knowledgeID string) error {
 	if err := db.graph.InitGraphSchema(ctx); err != nil {
 		return fmt.Errorf("init graph schema: %w", err)
@@ -390,7 +440,7 @@ func (db *DB) cleanupKnowledgeArtifacts(ctx context.Context, knowledgeID string)
 	for _, chunk := range chunks {
 		nodeIDs = append(nodeIDs, chunk.ID)
 	}
-	if _, err := db.graph.DeleteNodesBatch(ctx, nodeIDs); err != nil {
+	if err := batchError(db.graph.DeleteNodesBatch(ctx, nodeIDs)); err != nil {
 		return fmt.Errorf("delete graph nodes: %w", err)
 	}
 	if err := db.store.DeleteDocument(ctx, knowledgeID); err != nil {
-- 
2.43.0


From 12bf3c378aac5ae95bfde7f8f9c555c1ae14f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:14 +0000
Subject: [PATCH 27/46] fix: entity search reports storage errors; related
 chunks of equal score come in a fixed order

---
 pkg/cortexdb/graphrag.go       | 7 ++++++-
 pkg/cortexdb/graphrag_tools.go | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index a627620..2b62f1a 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -594,7 +594,12 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 		chunk.BaseScore = chunk.Score
 		relatedChunkList = append(relatedChunkList, *chunk)
 	}
-	sort.Slice(relatedChunkList, func(i, j int) bool { return relatedChunkList[i].Score > relatedChunkList[j].Score })
+	sort.Slice(relatedChunkList, func(i, j int) bool {
+		if relatedChunkList[i].Score != relatedChunkList[j].Score {
+			return relatedChunkList[i].Score > relatedChunkList[j].Score
+		}
+		return relatedChunkList[i].ID < relatedChunkList[j].ID
+	})
 	if len(relatedChunkList) > opts.MaxRelatedChunks {
 		relatedChunkList = relatedChunkList[:opts.MaxRelatedChunks]
 	}
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index b32be9b..34eb211 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -878,7 +878,7 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 			Limit:     req.TopK * 8,
 		})
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("search chunks by entity: %w", err)
 		}
 		for _, node := range neighbors {
 			scoreMap[node.ID] += 1.0
@@ -1160,7 +1160,12 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 		}
 		relatedChunks = append(relatedChunks, *chunk)
 	}
-	sort.Slice(relatedChunks, func(i, j int) bool { return relatedChunks[i].Score > relatedChunks[j].Score })
+	sort.Slice(relatedChunks, func(i, j int) bool {
+		if relatedChunks[i].Score != relatedChunks[j].Score {
+			return relatedChunks[i].Score > relatedChunks[j].Score
+		}
+		return relatedChunks[i].ID < relatedChunks[j].ID
+	})
 	if len(relatedChunks) > opts.MaxRelatedChunks {
 		relatedChunks = relatedChunks[:opts.MaxRelatedChunks]
 	}
-- 
2.43.0


From a2a3100ed527133e9dc960818a20725d80782949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:29 +0000
Subject: [PATCH 28/46] fix: entity search works before anything has been
 ingested

---
 pkg/cortexdb/graphrag_tools.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 34eb211..18aeccb 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -868,6 +868,11 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 		req.MaxHops = 1
 	}
 
+	// Nothing may have been ingested yet
+	if err := t.db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
+
 	scoreMap := make(map[string]float64)
 	for _, entityName := range req.EntityNames {
 		entityID := resolveEntityNodeID("", entityName)
-- 
2.43.0


From ecb12b1d1bec4203cbfbccdd65c4ab6f3e5e2c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:12 +0000
Subject: [PATCH 29/46] fix: memory banks keep their settings, metadata and
 isolation; recall limits apply after its conditions and storage errors are
 reported

---
 pkg/hindsight/chat.go      |  12 +-
 pkg/hindsight/hindsight.go | 415 +++++++++++++++++++++----------------
 pkg/hindsight/hooks.go     |  42 +++-
 3 files changed, 276 insertions(+), 193 deletions(-)

diff --git a/pkg/hindsight/chat.go b/pkg/hindsight/chat.go
index 31224dd..4bddc36 100644
--- a/pkg/hindsight/chat.go
+++ b/pkg/hindsight/chat.go
@@ -84,7 +84,7 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 		defer s.wg.Done()
 		bgCtx := context.Background()
 		// Retrieve the sliding window of recent messages.
-		// GetSessionHistory returns messages in descending order (newest first).
+		// GetSessionHistory returns them in chronological order (oldest first).
 		recent, err := s.store.GetSessionHistory(bgCtx, sessionID, windowSize)
 		if err != nil {
 			slog.Error("hindsight/auto-retain: fetch session history",
@@ -94,9 +94,6 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 		if len(recent) == 0 {
 			return
 		}
-		// Reverse to chronological order before passing to extractor.
-		reverseMessages(recent)
-
 		result, err := s.RetainFromText(bgCtx, bankID, recent)
 		if err != nil {
 			slog.Error("hindsight/auto-retain: RetainFromText",
@@ -130,10 +127,3 @@ func roleMatches(role string, filter []string) bool {
 	}
 	return false
 }
-
-// reverseMessages reverses a slice of messages in-place.
-func reverseMessages(msgs []*core.Message) {
-	for i, j := 0, len(msgs)-1; i < j; i, j = i+1, j-1 {
-		msgs[i], msgs[j] = msgs[j], msgs[i]
-	}
-}
diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 34de8f0..5cbf991 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -8,9 +8,12 @@ package hindsight
 import (
 	"context"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -33,6 +36,8 @@ type System struct {
 	// auto-retain state (registered via SetAutoRetain)
 	autoRetainCfg     AutoRetainConfig
 	autoRetainCounter int // counts role-matched messages since last trigger
+	// factMu serialises RetainFromText's choice of memory IDs with their storage.
+	factMu sync.Mutex
 	// wg tracks in-flight background goroutines so Close() can wait for them.
 	wg sync.WaitGroup
 }
@@ -104,9 +109,16 @@ func New(cfg *Config) (*System, error) {
 	}
 
 	// Store collection reference and load persisted banks
-	collection, _ := sys.store.GetCollection(ctx, cfg.Collection)
+	collection, err := sys.store.GetCollection(ctx, cfg.Collection)
+	if err != nil {
+		db.Close()
+		return nil, fmt.Errorf("open collection: %w", err)
+	}
 	sys.collection = collection
-	_ = sys.loadPersistedBanks(ctx)
+	if err := sys.loadPersistedBanks(ctx); err != nil {
+		db.Close()
+		return nil, fmt.Errorf("load banks: %w", err)
+	}
 
 	return sys, nil
 }
@@ -146,19 +158,6 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 	// Build metadata for cortexdb
 	metadata := s.buildMetadata(mem)
 
-	// Extract entities from content for graph storage (optional, failures ignored)
-	for _, entity := range mem.Entities {
-		// Add entity node to graph (using a simple hash-based vector)
-		node := &graph.GraphNode{
-			ID:       entity,
-			NodeType: "entity",
-			Content:  entity,
-			// Use a minimal vector for the entity node
-			Vector: make([]float32, 3),
-		}
-		_ = s.graph.UpsertNode(ctx, node) // Ignore errors - graph is optional
-	}
-
 	// Store the memory vector and content
 	embedding := &core.Embedding{
 		ID:         mem.ID,
@@ -173,26 +172,62 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 		return fmt.Errorf("store memory: %w", err)
 	}
 
+	// Extract entities from content for graph storage (optional, failures ignored)
+	for _, entity := range mem.Entities {
+		// Never replace a node of another kind, such as a bank of the same name
+		if _, err := s.graph.GetNode(ctx, entity); err == nil {
+			continue
+		}
+		// Add entity node to graph (using a simple hash-based vector)
+		node := &graph.GraphNode{
+			ID:       entity,
+			NodeType: "entity",
+			Content:  entity,
+			// Use a minimal vector for the entity node
+			Vector: make([]float32, 3),
+		}
+		_ = s.graph.UpsertNode(ctx, node) // Ignore errors - graph is optional
+	}
+
 	return nil
 }
 
 // getCollection returns the collection name for memories.
 func (s *System) getCollection() string {
-	return "memories"
+	return s.collection.Name
+}
+
+// reservedMetadata are the keys buildMetadata owns: metadata supplied by the
+// caller never replaces them.
+var reservedMetadata = map[string]bool{
+	"bank_id":       true,
+	"memory_type":   true,
+	"created_at":    true,
+	"created_at_ns": true,
+	"confidence":    true,
+	"entities":      true,
 }
 
 // buildMetadata converts a Memory to cortexdb metadata map.
 func (s *System) buildMetadata(mem *Memory) map[string]string {
 	metadata := make(map[string]string)
 
+	// Additional metadata (converted to string)
+	for k, v := range mem.Metadata {
+		if !reservedMetadata[k] {
+			metadata[k] = fmt.Sprintf("%v", v)
+		}
+	}
+
 	// Core metadata
 	metadata["bank_id"] = mem.BankID
 	metadata["memory_type"] = string(mem.Type)
 	metadata["created_at"] = fmt.Sprintf("%d", mem.CreatedAt.Unix())
+	metadata["created_at_ns"] = fmt.Sprintf("%d", mem.CreatedAt.Nanosecond())
 
 	// Type-specific metadata
 	if mem.Type == OpinionMemory || mem.Type == ObservationMemory {
-		metadata["confidence"] = fmt.Sprintf("%.4f", mem.Confidence)
+		metadata["confidence"] = strconv.FormatFloat(mem.Confidence, 'f', -1, 64)
 	}
 
 	// Store entities as comma-separated string for filtering
@@ -200,11 +235,6 @@ func (s *System) buildMetadata(mem *Memory) map[string]string {
 		metadata["entities"] = strings.Join(mem.Entities, ",")
 	}
 
-	// Copy additional metadata (convert to string)
-	for k, v := range mem.Metadata {
-		metadata[k] = fmt.Sprintf("%v", v)
-	}
-
 	return metadata
 }
 
@@ -215,60 +245,48 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 	}
 
 	var allResults []*RecallResult
+	var searchErr error
 	var wg sync.WaitGroup
 	resultsMu := sync.Mutex{}
+	collect := func(search func(context.Context, *RecallRequest) ([]*RecallResult, error)) {
+		defer wg.Done()
+		results, err := search(ctx, req)
+		resultsMu.Lock()
+		defer resultsMu.Unlock()
+		if err != nil {
+			searchErr = err
+			return
+		}
+		allResults = append(allResults, results...)
+	}
 
 	// Run enabled strategies in parallel
 	if req.Strategy.Memory && req.QueryVector != nil {
 		wg.Add(1)
-		go func() {
-			defer wg.Done()
-			if results := s.semanticSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
-		}()
+		go collect(s.semanticSearch)
 	}
 
 	if req.Strategy.Priming && req.Query != "" {
 		wg.Add(1)
-		go func() {
-			defer wg.Done()
-			if results := s.keywordSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
-		}()
+		go collect(s.keywordSearch)
 	}
 
 	if req.Strategy.Temporal != nil {
 		wg.Add(1)
-		go func() {
-			defer wg.Done()
-			if results := s.temporalSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
-		}()
+		go collect(s.temporalSearch)
 	}
 
 	if len(req.Strategy.Entity) > 0 {
 		wg.Add(1)
-		go func() {
-			defer wg.Done()
-			if results := s.entitySearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
-		}()
+		go collect(s.entitySearch)
 	}
 
 	wg.Wait()
 
+	if searchErr != nil {
+		return nil, searchErr
+	}
+
 	// Count how many strategies returned results
 	strategyCount := 0
 	if req.Strategy.Memory && req.QueryVector != nil {
@@ -292,15 +310,7 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 	} else {
 		// Single strategy or no results - sort by original score
 		merged = allResults
-		if len(merged) > 1 {
-			for i := 0; i < len(merged); i++ {
-				for j := i + 1; j < len(merged); j++ {
-					if merged[j].Score > merged[i].Score {
-						merged[i], merged[j] = merged[j], merged[i]
-					}
-				}
-			}
-		}
+		sortResults(merged)
 	}
 
 	// Apply optional RerankerFn after RRF; silently fall back on error or empty result.
@@ -321,8 +331,33 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 	return merged, nil
 }
 
+// sortResults orders results by descending score; equal scores are ordered by
+// memory ID, so that the same recall always returns the same order.
+func sortResults(results []*RecallResult) {
+	sort.SliceStable(results, func(i, j int) bool {
+		if results[i].Score != results[j].Score {
+			return results[i].Score > results[j].Score
+		}
+		return results[i].ID < results[j].ID
+	})
+}
+
+// bankSearch scores every memory of a bank against the query vector, best first,
+// so that callers can apply further conditions before they limit the results.
+func (s *System) bankSearch(ctx context.Context, queryVector []float32, filter map[string]string) ([]core.ScoredEmbedding, error) {
+	stats, err := s.store.GetCollectionStats(ctx, s.getCollection())
+	if err != nil {
+		return nil, err
+	}
+	return s.store.Search(ctx, queryVector, core.SearchOptions{
+		Collection: s.getCollection(),
+		TopK:       int(stats.Count) + 1,
+		Filter:     filter,
+	})
+}
+
 // semanticSearch performs vector similarity search.
-func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	topK := req.Strategy.TopK
 	if topK == 0 {
 		topK = req.TopK
@@ -339,7 +374,7 @@ func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) []*Reca
 
 	results, err := s.store.Search(ctx, req.QueryVector, opts)
 	if err != nil {
-		return nil
+		return nil, fmt.Errorf("semantic search: %w", err)
 	}
 
 	out := make([]*RecallResult, 0, len(results))
@@ -353,11 +388,11 @@ func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) []*Reca
 			})
 		}
 	}
-	return out
+	return out, nil
 }
 
 // keywordSearch performs BM25 keyword search using HybridSearch.
-func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	topK := req.Strategy.TopK
 	if topK == 0 {
 		topK = req.TopK
@@ -399,7 +434,7 @@ func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*Recal
 	}
 
 	if err != nil {
-		return nil
+		return nil, fmt.Errorf("keyword search: %w", err)
 	}
 
 	out := make([]*RecallResult, 0, len(results))
@@ -413,14 +448,14 @@ func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*Recal
 			})
 		}
 	}
-	return out
+	return out, nil
 }
 
 // temporalSearch performs time-range filtered search.
-func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	tf := req.Strategy.Temporal
 	if tf == nil {
-		return nil
+		return nil, nil
 	}
 
 	topK := req.Strategy.TopK
@@ -431,20 +466,14 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 		topK = 10
 	}
 
-	// For temporal search, we first get all bank memories then filter
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       topK * 5, // Get more to filter
-		Filter:     map[string]string{"bank_id": req.BankID},
-	}
-
 	if req.QueryVector == nil {
-		return nil // Need vector for search
+		return nil, nil // Need vector for search
 	}
 
-	results, err := s.store.Search(ctx, req.QueryVector, opts)
+	// For temporal search, we first get all bank memories then filter
+	results, err := s.bankSearch(ctx, req.QueryVector, map[string]string{"bank_id": req.BankID})
 	if err != nil {
-		return nil
+		return nil, fmt.Errorf("temporal search: %w", err)
 	}
 
 	// Filter by time range
@@ -471,15 +500,18 @@ func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*Reca
 				Strategy: "temporal",
 			})
 		}
+		if len(out) == topK {
+			break
+		}
 	}
 
-	return out
+	return out, nil
 }
 
 // entitySearch performs graph-based entity search.
-func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) entitySearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	if len(req.Strategy.Entity) == 0 {
-		return nil
+		return nil, nil
 	}
 
 	topK := req.Strategy.TopK
@@ -492,51 +524,42 @@ func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*Recall
 
 	// Find memories that contain the specified entities
 	// We use metadata filtering for this
-	var allResults []*RecallResult
-	seen := make(map[string]bool)
-
+	if req.QueryVector == nil {
+		return nil, nil // No vector - can't search effectively
+	}
+	wanted := make(map[string]bool, len(req.Strategy.Entity))
 	for _, entity := range req.Strategy.Entity {
-		opts := core.SearchOptions{
-			Collection: s.getCollection(),
-			TopK:       topK,
-			Filter:     map[string]string{"bank_id": req.BankID},
-		}
-
-		var results []core.ScoredEmbedding
-		var err error
+		wanted[entity] = true
+	}
 
-		if req.QueryVector != nil {
-			results, err = s.store.Search(ctx, req.QueryVector, opts)
-		} else {
-			// No vector - can't search effectively
-			continue
-		}
+	results, err := s.bankSearch(ctx, req.QueryVector, map[string]string{"bank_id": req.BankID})
+	if err != nil {
+		return nil, fmt.Errorf("entity search: %w", err)
+	}
 
-		if err != nil {
+	var allResults []*RecallResult
+	for _, r := range results {
+		mem := s.scoredEmbeddingToMemory(&r)
+		if mem == nil {
 			continue
 		}
-
-		for _, r := range results {
-			if !seen[r.ID] {
-				// Check if this memory contains the entity
-				if entities, ok := r.Metadata["entities"]; ok {
-					if strings.Contains(entities, entity) {
-						seen[r.ID] = true
-						mem := s.scoredEmbeddingToMemory(&r)
-						if mem != nil {
-							allResults = append(allResults, &RecallResult{
-								Memory:   mem,
-								Score:    r.Score,
-								Strategy: "entity",
-							})
-						}
-					}
-				}
+		// Check if this memory names one of the entities
+		for _, entity := range mem.Entities {
+			if wanted[entity] {
+				allResults = append(allResults, &RecallResult{
+					Memory:   mem,
+					Score:    r.Score,
+					Strategy: "entity",
+				})
+				break
 			}
 		}
+		if len(allResults) == topK {
+			break
+		}
 	}
 
-	return allResults
+	return allResults, nil
 }
 
 // rrfFuse combines results from multiple strategies using Reciprocal Rank Fusion.
@@ -560,8 +583,8 @@ func (s *System) rrfFuse(results []*RecallResult) []*RecallResult {
 	}
 
 	// Calculate ranks and aggregate
-	for strategy, stratResults := range byStrategy {
-		for rank, r := range stratResults {
+	for _, strategy := range []string{"semantic", "keyword", "temporal", "entity"} {
+		for rank, r := range byStrategy[strategy] {
 			if ranks[r.ID] == nil {
 				ranks[r.ID] = make(map[string]int)
 			}
@@ -577,8 +600,10 @@ func (s *System) rrfFuse(results []*RecallResult) []*RecallResult {
 	// Calculate RRF scores
 	for id, r := range byID {
 		rrfScore := 0.0
-		for _, rank := range ranks[id] {
-			rrfScore += 1.0 / (k + float64(rank))
+		for _, strategy := range []string{"semantic", "keyword", "temporal", "entity"} {
+			if rank, ok := ranks[id][strategy]; ok {
+				rrfScore += 1.0 / (k + float64(rank))
+			}
 		}
 		r.Score = rrfScore
 	}
@@ -590,13 +615,7 @@ func (s *System) rrfFuse(results []*RecallResult) []*RecallResult {
 	}
 
 	// Sort by score descending
-	for i := 0; i < len(merged); i++ {
-		for j := i + 1; j < len(merged); j++ {
-			if merged[j].Score > merged[i].Score {
-				merged[i], merged[j] = merged[j], merged[i]
-			}
-		}
-	}
+	sortResults(merged)
 
 	return merged
 }
@@ -616,6 +635,11 @@ func (s *System) scoredEmbeddingToMemory(r *core.ScoredEmbedding) *Memory {
 	}
 
 	// Extract metadata
+	for k, v := range r.Metadata {
+		if !reservedMetadata[k] {
+			mem.Metadata[k] = v
+		}
+	}
 	if bankID, ok := r.Metadata["bank_id"]; ok {
 		mem.BankID = bankID
 	}
@@ -623,9 +647,10 @@ func (s *System) scoredEmbeddingToMemory(r *core.ScoredEmbedding) *Memory {
 		mem.Type = MemoryType(memType)
 	}
 	if createdStr, ok := r.Metadata["created_at"]; ok {
-		var created int64
+		var created, nanos int64
 		fmt.Sscanf(createdStr, "%d", &created)
-		mem.CreatedAt = time.Unix(created, 0)
+		fmt.Sscanf(r.Metadata["created_at_ns"], "%d", &nanos)
+		mem.CreatedAt = time.Unix(created, nanos)
 	}
 	if confStr, ok := r.Metadata["confidence"]; ok {
 		var conf float64
@@ -668,7 +693,11 @@ func (s *System) Reflect(ctx context.Context, req *ContextRequest) (*ContextResp
 	tokenCount := len(context) / 4
 	if req.TokenBudget > 0 && tokenCount > req.TokenBudget {
 		// Truncate context to fit budget
-		context = context[:req.TokenBudget*4]
+		end := req.TokenBudget * 4
+		for end > 0 && !utf8.RuneStart(context[end]) {
+			end--
+		}
+		context = context[:end]
 		tokenCount = req.TokenBudget
 	}
 
@@ -749,7 +778,13 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 	if _, exists := s.banks[bank.ID]; exists {
 		return fmt.Errorf("bank %s already exists", bank.ID)
 	}
+	if node, err := s.graph.GetNode(ctx, bank.ID); err == nil && node.NodeType == "bank" {
+		return fmt.Errorf("bank %s already exists", bank.ID)
+	}
 
+	if bank.Disposition == nil {
+		bank.Disposition = DefaultDisposition()
+	}
 	bank.CreatedAt = time.Now().Unix()
 
 	// Persist bank to graph_nodes for cross-session persistence
@@ -780,8 +815,7 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		NodeType:   "bank",
 		Properties: properties,
 	}); err != nil {
-		// Log but don't fail - bank is still in memory
-		fmt.Printf("[Warning] Failed to persist bank to graph: %v\n", err)
+		return fmt.Errorf("persist bank: %w", err)
 	}
 
 	s.banks[bank.ID] = bank
@@ -799,25 +833,28 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 		return bank, true
 	}
 
-	// Try to load from database graph
-	ctx := context.Background()
-	node, err := s.graph.GetNode(ctx, bankID)
-	if err == nil && node.NodeType == "bank" {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
-		}
-
-		s.mu.Lock()
-		s.banks[bankID] = bank
-		s.mu.Unlock()
+	// Try to load from database graph; the lock is held throughout, so that a bank
+	// deleted meanwhile does not come back
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.lookupBank(context.Background(), bankID)
+}
 
+// lookupBank finds a bank in memory or in the database. The caller holds s.mu.
+func (s *System) lookupBank(ctx context.Context, bankID string) (*Bank, bool) {
+	if bank, ok := s.banks[bankID]; ok {
 		return bank, true
 	}
-
-	return nil, false
+	node, err := s.graph.GetNode(ctx, bankID)
+	if err != nil {
+		return nil, false
+	}
+	bank := s.nodeToBank(node)
+	if bank == nil {
+		return nil, false
+	}
+	s.banks[bankID] = bank
+	return bank, true
 }
 
 // ListBanks returns all registered banks.
@@ -837,15 +874,16 @@ func (s *System) DeleteBank(bankID string) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if _, exists := s.banks[bankID]; !exists {
+	ctx := context.Background()
+	if _, exists := s.lookupBank(ctx, bankID); !exists {
 		return fmt.Errorf("bank %s not found", bankID)
 	}
 
-	delete(s.banks, bankID)
-
 	// Also delete from graph database for persistence
-	ctx := context.Background()
-	_ = s.graph.DeleteNode(ctx, bankID)
+	if err := s.graph.DeleteNode(ctx, bankID); err != nil {
+		return fmt.Errorf("delete bank: %w", err)
+	}
+	delete(s.banks, bankID)
 
 	return nil
 }
@@ -922,7 +960,13 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 	}
 
 	// Detect patterns for entities with multiple memories
-	for entity, entityMemories := range byEntity {
+	entities := make([]string, 0, len(byEntity))
+	for entity := range byEntity {
+		entities = append(entities, entity)
+	}
+	sort.Strings(entities)
+	for _, entity := range entities {
+		entityMemories := byEntity[entity]
 		if len(entityMemories) >= 2 {
 			// Check for pattern: repeated interactions or behaviors
 			if s.isPreferencePattern(entityMemories) {
@@ -1012,7 +1056,7 @@ func (s *System) generalizeFromMemories(memories []*Memory, bank *Bank, req *Ref
 	var topTheme string
 	var maxCount int
 	for theme, count := range themes {
-		if count > maxCount && count >= 2 {
+		if count >= 2 && (count > maxCount || count == maxCount && theme < topTheme) {
 			maxCount = count
 			topTheme = theme
 		}
@@ -1166,18 +1210,12 @@ func (s *System) AddObservation(ctx context.Context, obs *Observation) error {
 
 // GetObservations retrieves observations for a bank.
 func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observation, error) {
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       100,
-		Filter: map[string]string{
-			"bank_id":     bankID,
-			"memory_type": string(ObservationMemory),
-		},
-	}
-
 	// Use a dummy vector for search
 	dummyVec := make([]float32, 1)
-	results, err := s.store.Search(ctx, dummyVec, opts)
+	results, err := s.bankSearch(ctx, dummyVec, map[string]string{
+		"bank_id":     bankID,
+		"memory_type": string(ObservationMemory),
+	})
 	if err != nil {
 		return nil, fmt.Errorf("search observations: %w", err)
 	}
@@ -1196,7 +1234,7 @@ func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observa
 			}
 
 			// Extract metadata
-			if sourceIDs, ok := mem.Metadata["source_memory_ids"].(string); ok {
+			if sourceIDs, ok := mem.Metadata["source_memory_ids"].(string); ok && sourceIDs != "" {
 				obs.SourceMemoryIDs = strings.Split(sourceIDs, ",")
 			}
 			if obsType, ok := mem.Metadata["observation_type"].(string); ok {
@@ -1221,18 +1259,13 @@ func (s *System) loadPersistedBanks(ctx context.Context) error {
 
 	nodes, err := s.graph.GetAllNodes(ctx, filter)
 	if err != nil {
-		return nil // Don't fail on load error
+		return err
 	}
 
 	for _, node := range nodes {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
+		if bank := s.nodeToBank(node); bank != nil {
+			s.banks[bank.ID] = bank
 		}
-
-		s.banks[bank.ID] = bank
 	}
 
 	return nil
@@ -1244,10 +1277,32 @@ func (s *System) nodeToBank(node *graph.GraphNode) *Bank {
 		return nil
 	}
 
-	return &Bank{
+	bank := &Bank{
 		ID:          node.ID,
 		Name:        node.Content,
-		Description: node.Content,
+		Disposition: DefaultDisposition(),
 		CreatedAt:   node.CreatedAt.Unix(),
 	}
+	if v, ok := node.Properties["name"].(string); ok {
+		bank.Name = v
+	}
+	if v, ok := node.Properties["description"].(string); ok {
+		bank.Description = v
+	}
+	if v, ok := node.Properties["background"].(string); ok {
+		bank.Background = v
+	}
+	if v, ok := node.Properties["skepticism"].(float64); ok {
+		bank.Skepticism = int(v)
+	}
+	if v, ok := node.Properties["literalism"].(float64); ok {
+		bank.Literalism = int(v)
+	}
+	if v, ok := node.Properties["empathy"].(float64); ok {
+		bank.Empathy = int(v)
+	}
+	if v, ok := node.Properties["created_at"].(float64); ok {
+		bank.CreatedAt = int64(v)
+	}
+	return bank
 }
diff --git a/pkg/hindsight/hooks.go b/pkg/hindsight/hooks.go
index 129b9b0..30f453b 100644
--- a/pkg/hindsight/hooks.go
+++ b/pkg/hindsight/hooks.go
@@ -244,6 +244,9 @@ func (s *System) SetAutoRetain(cfg *AutoRetainConfig) {
 // ExtractResult.Errors while successfully retained facts increment
 // ExtractResult.Retained.
 //
+// Fact IDs are scoped to the bank: a fact whose ID is already used by a memory of
+// another bank is stored under "<bankID>:<ID>" and leaves that memory alone.
+//
 // Returns ErrNoFactExtractor if SetFactExtractor has not been called.
 func (s *System) RetainFromText(ctx context.Context, bankID string, messages []*core.Message) (*ExtractResult, error) {
 	s.mu.RLock()
@@ -265,6 +268,10 @@ func (s *System) RetainFromText(ctx context.Context, bankID string, messages []*
 		return nil, fmt.Errorf("RetainFromText: extractor error: %w", err)
 	}
 
+	// One retention at a time, so that two banks never claim the same ID
+	s.factMu.Lock()
+	defer s.factMu.Unlock()
+
 	result := &ExtractResult{}
 	for i, f := range facts {
 		if f.ID == "" {
@@ -277,10 +284,19 @@ func (s *System) RetainFromText(ctx context.Context, bankID string, messages []*
 			result.Errors = append(result.Errors, fmt.Errorf("fact[%d] %q: empty Vector, skipped", i, f.ID))
 			continue
 		}
+		factType := f.Type
+		if factType == "" {
+			factType = WorldMemory
+		}
+		id, err := s.factID(ctx, bankID, f.ID)
+		if err != nil {
+			result.Errors = append(result.Errors, fmt.Errorf("fact[%d] %q: %w", i, f.ID, err))
+			continue
+		}
 		if err := s.Retain(ctx, &Memory{
-			ID:         f.ID,
+			ID:         id,
 			BankID:     bankID,
-			Type:       f.Type,
+			Type:       factType,
 			Content:    f.Content,
 			Vector:     f.Vector,
 			Entities:   f.Entities,
@@ -294,3 +310,25 @@ func (s *System) RetainFromText(ctx context.Context, bankID string, messages []*
 	}
 	return result, nil
 }
+
+// factID returns the memory ID under which a bank stores a fact: the fact's own
+// ID, unless a memory of another bank already has it.
+func (s *System) factID(ctx context.Context, bankID, id string) (string, error) {
+	store, ok := s.store.(interface {
+		GetByID(ctx context.Context, id string) (*core.Embedding, error)
+	})
+	if !ok {
+		return id, nil
+	}
+	existing, err := store.GetByID(ctx, id)
+	if errors.Is(err, core.ErrNotFound) {
+		return id, nil
+	}
+	if err != nil {
+		return "", err
+	}
+	if existing.Metadata["bank_id"] == bankID {
+		return id, nil
+	}
+	return bankID + ":" + id, nil
+}
-- 
2.43.0


From 3b706fd1a0370b2745758949d52b6a4bbc6f73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:22 +0000
Subject: [PATCH 30/46] fix: semantic routes persist every utterance, are added
 all-or-none and removed for good; failures of the embedder and the store are
 reported; function parameters follow their own extractor and schema

---
 pkg/semantic-router/embedder.go |  30 ++++-
 pkg/semantic-router/hybrid.go   |  60 ++++++++--
 pkg/semantic-router/router.go   | 197 ++++++++++++++++++++------------
 pkg/semantic-router/schema.go   |  35 +++++-
 pkg/semantic-router/sparse.go   |  30 ++++-
 pkg/semantic-router/types.go    |   6 +-
 6 files changed, 255 insertions(+), 103 deletions(-)

diff --git a/pkg/semantic-router/embedder.go b/pkg/semantic-router/embedder.go
index 73ae939..9b714ff 100644
--- a/pkg/semantic-router/embedder.go
+++ b/pkg/semantic-router/embedder.go
@@ -3,6 +3,7 @@ package semanticrouter
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // MockEmbedder is a simple embedder for testing purposes.
@@ -57,9 +58,24 @@ func (m *MockEmbedder) Dimensions() int {
 }
 
 // CachedEmbedder wraps another embedder and caches results.
+// It is safe for concurrent use if the wrapped embedder is.
 type CachedEmbedder struct {
 	embedder Embedder
 	cache    map[string][]float32
+	mu       sync.RWMutex
+}
+
+func (c *CachedEmbedder) get(text string) ([]float32, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	vec, ok := c.cache[text]
+	return vec, ok
+}
+
+func (c *CachedEmbedder) put(text string, vec []float32) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.cache[text] = vec
 }
 
 // NewCachedEmbedder creates a new cached embedder.
@@ -72,7 +88,7 @@ func NewCachedEmbedder(embedder Embedder) *CachedEmbedder {
 
 // Embed returns a cached embedding if available, otherwise computes and caches it.
 func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, error) {
-	if vec, ok := c.cache[text]; ok {
+	if vec, ok := c.get(text); ok {
 		return vec, nil
 	}
 
@@ -81,7 +97,7 @@ func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, err
 		return nil, err
 	}
 
-	c.cache[text] = vec
+	c.put(text, vec)
 	return vec, nil
 }
 
@@ -92,7 +108,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 
 	// Check cache first
 	for i, text := range texts {
-		if vec, ok := c.cache[text]; ok {
+		if vec, ok := c.get(text); ok {
 			vectors[i] = vec
 		} else {
 			uncached[i] = text
@@ -117,7 +133,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 					return nil, fmt.Errorf("failed to embed %q: %w", text, err)
 				}
 				vectors[origIdx] = vec
-				c.cache[text] = vec
+				c.put(text, vec)
 			}
 			return vectors, nil
 		}
@@ -125,7 +141,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 		for batchIdx, vec := range batchVecs {
 			origIdx := indexMap[batchIdx]
 			vectors[origIdx] = vec
-			c.cache[uncachedTexts[batchIdx]] = vec
+			c.put(uncachedTexts[batchIdx], vec)
 		}
 	}
 
@@ -139,10 +155,14 @@ func (c *CachedEmbedder) Dimensions() int {
 
 // ClearCache clears the embedding cache.
 func (c *CachedEmbedder) ClearCache() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.cache = make(map[string][]float32)
 }
 
 // CacheSize returns the number of cached embeddings.
 func (c *CachedEmbedder) CacheSize() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return len(c.cache)
 }
diff --git a/pkg/semantic-router/hybrid.go b/pkg/semantic-router/hybrid.go
index 45b9ea7..d3bfc77 100644
--- a/pkg/semantic-router/hybrid.go
+++ b/pkg/semantic-router/hybrid.go
@@ -52,10 +52,6 @@ type SparseRoute struct {
 	Utterances   []string
 	Handler      RouteHandler
 	Metadata     map[string]string
-
-	cachedVectors map[string]float64
-	cachedOnce    sync.Once
-	cachedErr     error
 }
 
 // SparseConfig holds configuration for sparse router.
@@ -132,6 +128,19 @@ func (r *SparseRouter) Add(route *SparseRoute) error {
 	return nil
 }
 
+// remove takes a route out again.
+func (r *SparseRouter) remove(name string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	for i, route := range r.routes {
+		if route.Name == name {
+			r.routes = append(r.routes[:i:i], r.routes[i+1:]...)
+			return
+		}
+	}
+}
+
 // Route performs sparse routing.
 func (r *SparseRouter) Route(ctx context.Context, query string) (*RouteResult, error) {
 	if query == "" {
@@ -154,7 +163,7 @@ func (r *SparseRouter) Route(ctx context.Context, query string) (*RouteResult, e
 
 		for _, vec := range vectors {
 			score := SparseSimilarity(queryVec, vec)
-			if score > maxScore {
+			if bestRoute == nil || score > maxScore {
 				maxScore = score
 				bestRoute = route
 			}
@@ -322,6 +331,10 @@ func (h *HybridRouter) Add(route *Route, sparseRoute *SparseRoute) error {
 
 	if sparseRoute != nil {
 		if err := h.sparse.Add(sparseRoute); err != nil {
+			// Both or neither
+			if route != nil {
+				_ = h.dense.Remove(route.Name)
+			}
 			return fmt.Errorf("failed to add sparse route: %w", err)
 		}
 	}
@@ -342,11 +355,16 @@ func (h *HybridRouter) AddBatch(denseRoutes []*Route, sparseRoutes []*SparseRout
 		}
 	}
 
-	if len(sparseRoutes) > 0 {
-		for _, route := range sparseRoutes {
-			if err := h.sparse.Add(route); err != nil {
-				return fmt.Errorf("failed to add sparse route: %w", err)
+	for i, route := range sparseRoutes {
+		if err := h.sparse.Add(route); err != nil {
+			// All or none
+			for _, added := range sparseRoutes[:i] {
+				h.sparse.remove(added.Name)
+			}
+			for _, added := range denseRoutes {
+				_ = h.dense.Remove(added.Name)
 			}
+			return fmt.Errorf("failed to add sparse route: %w", err)
 		}
 	}
 
@@ -359,6 +377,12 @@ func (h *HybridRouter) Route(ctx context.Context, query string) (*HybridRouteRes
 		return &HybridRouteResult{}, nil
 	}
 
+	// Not while routes are being added, which goes to both routers
+	h.denseMu.RLock()
+	h.sparseMu.RLock()
+	defer h.denseMu.RUnlock()
+	defer h.sparseMu.RUnlock()
+
 	// Get dense result
 	denseResult, err := h.dense.Route(ctx, query)
 	if err != nil {
@@ -426,18 +450,34 @@ func (h *HybridRouter) RouteBatch(ctx context.Context, queries []string) ([]*Hyb
 // List returns all route names from both routers.
 func (h *HybridRouter) List() []string {
 	h.denseMu.RLock()
+	h.sparseMu.RLock()
 	defer h.denseMu.RUnlock()
+	defer h.sparseMu.RUnlock()
 
-	return h.dense.List()
+	names := h.dense.List()
+	seen := make(map[string]bool, len(names))
+	for _, name := range names {
+		seen[name] = true
+	}
+	for _, name := range h.sparse.List() {
+		if !seen[name] {
+			names = append(names, name)
+		}
+	}
+	return names
 }
 
 // GetAlpha returns the current alpha value.
 func (h *HybridRouter) GetAlpha() float64 {
+	h.denseMu.RLock()
+	defer h.denseMu.RUnlock()
 	return h.alpha
 }
 
 // SetAlpha updates the alpha weight.
 func (h *HybridRouter) SetAlpha(alpha float64) {
+	h.denseMu.Lock()
+	defer h.denseMu.Unlock()
 	h.alpha = alpha
 }
 
diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 42fbaa3..5ccd7bd 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -2,7 +2,10 @@ package semanticrouter
 
 import (
 	"context"
+	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"sync"
 
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -118,16 +121,15 @@ func (r *Router) Add(route *Route) error {
 		}
 	}
 
-	r.routes = append(r.routes, route)
-
 	// If store is available, persist the route
 	if r.store != nil {
-		ctx := context.Background()
-		if err := r.persistRoute(ctx, route); err != nil {
+		if err := r.persistRoutes(context.Background(), []*Route{route}); err != nil {
 			return fmt.Errorf("failed to persist route: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, route)
+
 	return nil
 }
 
@@ -136,9 +138,11 @@ func (r *Router) AddBatch(routes []*Route) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	ctx := context.Background()
-
+	seen := make(map[string]bool, len(routes))
 	for _, route := range routes {
+		if route == nil {
+			return fmt.Errorf("route cannot be nil")
+		}
 		if route.Name == "" {
 			return fmt.Errorf("route name cannot be empty")
 		}
@@ -152,19 +156,21 @@ func (r *Router) AddBatch(routes []*Route) error {
 				return fmt.Errorf("route %q already exists", route.Name)
 			}
 		}
+		if seen[route.Name] {
+			return fmt.Errorf("route %q appears twice", route.Name)
+		}
+		seen[route.Name] = true
 	}
 
-	r.routes = append(r.routes, routes...)
-
 	// Persist routes if store is available
-	if r.store != nil {
-		for _, route := range routes {
-			if err := r.persistRoute(ctx, route); err != nil {
-				return fmt.Errorf("failed to persist route %q: %w", route.Name, err)
-			}
+	if r.store != nil && len(routes) > 0 {
+		if err := r.persistRoutes(context.Background(), routes); err != nil {
+			return fmt.Errorf("failed to persist routes: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, routes...)
+
 	return nil
 }
 
@@ -175,27 +181,27 @@ func (r *Router) Remove(name string) error {
 
 	for i, route := range r.routes {
 		if route.Name == name {
-			// Remove from slice
-			r.routes = append(r.routes[:i], r.routes[i+1:]...)
-
 			// Remove from store if available
 			if r.store != nil {
 				ctx := context.Background()
-				opts := core.SearchOptions{
-					Filter:     map[string]string{"route_name": name},
-					TopK:       1000,
-					Collection: "semantic_routes",
+				stored, err := r.storedUtterances(ctx, map[string]string{"route_name": name})
+				if err != nil {
+					return fmt.Errorf("failed to remove route %q: %w", name, err)
 				}
-				results, err := r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), opts)
-				if err == nil {
-					ids := make([]string, len(results))
-					for i, r := range results {
-						ids[i] = r.ID
+				ids := make([]string, len(stored))
+				for i, s := range stored {
+					ids[i] = s.ID
+				}
+				if len(ids) > 0 {
+					if err := r.store.DeleteBatch(ctx, ids); err != nil {
+						return fmt.Errorf("failed to remove route %q: %w", name, err)
 					}
-					r.store.DeleteBatch(ctx, ids)
 				}
 			}
 
+			// Remove from slice
+			r.routes = append(r.routes[:i:i], r.routes[i+1:]...)
+
 			return nil
 		}
 	}
@@ -225,12 +231,12 @@ func (r *Router) Route(ctx context.Context, query string) (*RouteResult, error)
 	for _, route := range r.routes {
 		vectors, err := r.getRouteVectors(ctx, route)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to embed route %q: %w", route.Name, err)
 		}
 
 		for _, vec := range vectors {
 			score := r.config.SimilarityFunc(queryVec, vec)
-			if score > maxScore {
+			if bestRoute == nil || score > maxScore {
 				maxScore = score
 				bestRoute = route
 			}
@@ -292,34 +298,22 @@ func (r *Router) Get(name string) *Route {
 
 // getRouteVectors returns the cached or computed embeddings for a route's utterances.
 func (r *Router) getRouteVectors(ctx context.Context, route *Route) ([][]float32, error) {
-	// If store is available, try to load from there first
-	if r.store != nil {
-		opts := core.SearchOptions{
-			Filter:     map[string]string{"route_name": route.Name},
-			TopK:       1000,
-			Collection: "semantic_routes",
-		}
-		results, err := r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), opts)
-		if err == nil && len(results) > 0 {
-			vectors := make([][]float32, len(results))
-			for i, r := range results {
-				vectors[i] = r.Vector
-			}
-			return vectors, nil
-		}
-	}
-
-	// Fall back to caching in memory
-	if !r.config.CacheEmbeddings {
+	// Routes of a persistent router keep the vectors they were stored with
+	if r.store == nil && !r.config.CacheEmbeddings {
 		return r.embedVectors(ctx, route.Utterances)
 	}
 
-	var err error
-	route.cachedOnce.Do(func() {
-		route.cachedVectors, err = r.embedVectors(ctx, route.Utterances)
-	})
+	route.cacheMu.Lock()
+	defer route.cacheMu.Unlock()
+	if route.cachedVectors == nil {
+		vectors, err := r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return nil, err // not cached: the next call tries again
+		}
+		route.cachedVectors = vectors
+	}
 
-	return route.cachedVectors, err
+	return route.cachedVectors, nil
 }
 
 // embedVectors converts text utterances to embeddings.
@@ -347,32 +341,75 @@ func (r *Router) embedVectors(ctx context.Context, utterances []string) ([][]flo
 	return vectors, nil
 }
 
-// persistRoute stores a route's utterances in the vector store.
-func (r *Router) persistRoute(ctx context.Context, route *Route) error {
+// persistRoutes stores the utterances of routes in the vector store, all or none.
+func (r *Router) persistRoutes(ctx context.Context, routes []*Route) error {
 	// Create collection for routes if it doesn't exist
 	_, err := r.store.CreateCollection(ctx, "semantic_routes", r.embedder.Dimensions())
 	if err != nil {
 		// Collection might already exist, ignore error
 	}
 
-	vectors, err := r.embedVectors(ctx, route.Utterances)
-	if err != nil {
-		return err
-	}
+	var embeddings []*core.Embedding
+	allVectors := make([][][]float32, len(routes))
+	for n, route := range routes {
+		vectors, err := r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return err
+		}
+		allVectors[n] = vectors
 
-	embeddings := make([]*core.Embedding, len(vectors))
-	for i, vec := range vectors {
-		embeddings[i] = &core.Embedding{
-			Vector:     vec,
-			Content:    route.Utterances[i],
-			Collection: "semantic_routes",
-			Metadata: map[string]string{
-				"route_name": route.Name,
-			},
+		routeMetadata := ""
+		if len(route.Metadata) > 0 {
+			data, err := json.Marshal(route.Metadata)
+			if err != nil {
+				return err
+			}
+			routeMetadata = string(data)
+		}
+
+		for i, vec := range vectors {
+			metadata := map[string]string{
+				"route_name":      route.Name,
+				"utterance_index": strconv.Itoa(i),
+			}
+			if routeMetadata != "" {
+				metadata["route_metadata"] = routeMetadata
+			}
+			embeddings = append(embeddings, &core.Embedding{
+				ID:         fmt.Sprintf("semantic_route:%s:%d", route.Name, i),
+				Vector:     vec,
+				Content:    route.Utterances[i],
+				Collection: "semantic_routes",
+				Metadata:   metadata,
+			})
 		}
 	}
 
-	return r.store.UpsertBatch(ctx, embeddings)
+	if err := r.store.UpsertBatch(ctx, embeddings); err != nil {
+		return err
+	}
+	for n, route := range routes {
+		route.cacheMu.Lock()
+		route.cachedVectors = allVectors[n]
+		route.cacheMu.Unlock()
+	}
+	return nil
+}
+
+// storedUtterances returns every stored utterance that matches the filter.
+func (r *Router) storedUtterances(ctx context.Context, filter map[string]string) ([]core.ScoredEmbedding, error) {
+	stats, err := r.store.GetCollectionStats(ctx, "semantic_routes")
+	if err != nil {
+		return nil, err
+	}
+	if stats.Count == 0 {
+		return nil, nil
+	}
+	return r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), core.SearchOptions{
+		TopK:       int(stats.Count) + 1,
+		Collection: "semantic_routes",
+		Filter:     filter,
+	})
 }
 
 // loadRoutesFromStore loads routes from the vector store.
@@ -380,7 +417,7 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 	// Get all routes from the semantic_routes collection
 	collections, err := r.store.ListCollections(ctx)
 	if err != nil {
-		return nil // Store might not be initialized yet
+		return err
 	}
 
 	found := false
@@ -396,16 +433,18 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 	}
 
 	// Search for all route embeddings
-	opts := core.SearchOptions{
-		TopK:       10000,
-		Collection: "semantic_routes",
-	}
-	dim := r.embedder.Dimensions()
-	results, err := r.store.Search(ctx, make([]float32, dim), opts)
+	results, err := r.storedUtterances(ctx, nil)
 	if err != nil {
-		return nil
+		return err
 	}
 
+	// Utterances in the order they were given
+	index := func(e core.ScoredEmbedding) int {
+		i, _ := strconv.Atoi(e.Metadata["utterance_index"])
+		return i
+	}
+	sort.SliceStable(results, func(i, j int) bool { return index(results[i]) < index(results[j]) })
+
 	// Group results by route name
 	routeMap := make(map[string]*Route)
 	for _, result := range results {
@@ -419,6 +458,11 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 				Name:       routeName,
 				Utterances: []string{},
 			}
+			if data := result.Metadata["route_metadata"]; data != "" {
+				if err := json.Unmarshal([]byte(data), &routeMap[routeName].Metadata); err != nil {
+					return fmt.Errorf("metadata of route %q: %w", routeName, err)
+				}
+			}
 		}
 
 		routeMap[routeName].Utterances = append(routeMap[routeName].Utterances, result.Content)
@@ -429,6 +473,7 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 	for _, route := range routeMap {
 		r.routes = append(r.routes, route)
 	}
+	sort.Slice(r.routes, func(i, j int) bool { return r.routes[i].Name < r.routes[j].Name })
 
 	return nil
 }
diff --git a/pkg/semantic-router/schema.go b/pkg/semantic-router/schema.go
index af4f19d..fbda24e 100644
--- a/pkg/semantic-router/schema.go
+++ b/pkg/semantic-router/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 )
@@ -149,6 +150,15 @@ func (fr *FunctionRouter) Route(ctx context.Context, text string) (*FunctionCall
 
 	fr.mu.RLock()
 	route, ok := fr.routes[result.RouteName]
+	if !ok {
+		// The function may be named differently from its route
+		for _, candidate := range fr.routes {
+			if candidate.Route != nil && candidate.Route.Name == result.RouteName {
+				route, ok = candidate, true
+				break
+			}
+		}
+	}
 	fr.mu.RUnlock()
 
 	if !ok {
@@ -157,7 +167,11 @@ func (fr *FunctionRouter) Route(ctx context.Context, text string) (*FunctionCall
 	}
 
 	// Extract parameters using the function schema
-	params, missing, err := fr.extractor.Extract(ctx, text, route.FunctionSchema)
+	extractor := route.FunctionSchema.Extractor
+	if extractor == nil {
+		extractor = fr.extractor
+	}
+	params, missing, err := extractor.Extract(ctx, text, route.FunctionSchema)
 	if err != nil {
 		return nil, fmt.Errorf("parameter extraction failed: %w", err)
 	}
@@ -211,13 +225,18 @@ func (r *RegexExtractor) Extract(ctx context.Context, text string, schema *Funct
 
 	textLower := strings.ToLower(text)
 
+	required := make(map[string]bool, len(schema.Required))
+	for _, name := range schema.Required {
+		required[name] = true
+	}
+
 	for paramName, paramSchema := range schema.Parameters {
 		// Check for custom pattern
 		if patterns, ok := r.patterns[schema.Name]; ok {
 			if pattern, ok := patterns[paramName]; ok {
 				re, err := regexp.Compile(pattern)
 				if err != nil {
-					continue
+					return nil, nil, fmt.Errorf("pattern of parameter %q: %w", paramName, err)
 				}
 				matches := re.FindStringSubmatch(text)
 				if len(matches) > 1 {
@@ -231,10 +250,16 @@ func (r *RegexExtractor) Extract(ctx context.Context, text string, schema *Funct
 		value := r.extractValue(text, textLower, paramName, paramSchema)
 		if value != nil {
 			params[paramName] = value
-		} else if paramSchema.Required {
+		} else if paramSchema.Required || required[paramName] {
 			missing = append(missing, paramName)
 		}
 	}
+	for name := range required {
+		if _, ok := schema.Parameters[name]; !ok {
+			missing = append(missing, name)
+		}
+	}
+	sort.Strings(missing)
 
 	return params, missing, nil
 }
@@ -247,7 +272,7 @@ func (r *RegexExtractor) extractValue(text, textLower, paramName string, schema
 	for _, keyword := range keywords {
 		if strings.Contains(textLower, keyword) {
 			// Try to extract value after the keyword
-			pattern := keyword + `\s+[:是]?\s*["']?([^"'\s,。.!?]+)["']?`
+			pattern := regexp.QuoteMeta(keyword) + `\s+[:是]?\s*["']?([^"'\s,。.!?]+)["']?`
 			re := regexp.MustCompile(pattern)
 			matches := re.FindStringSubmatch(textLower)
 			if len(matches) > 1 {
@@ -390,11 +415,13 @@ func (b *SchemaBuilder) SetHandler(handler FunctionHandler) *SchemaBuilder {
 // Build returns the constructed schema.
 func (b *SchemaBuilder) Build() *FunctionSchema {
 	// Build required list
+	b.schema.Required = nil
 	for name, param := range b.schema.Parameters {
 		if param.Required {
 			b.schema.Required = append(b.schema.Required, name)
 		}
 	}
+	sort.Strings(b.schema.Required)
 	return b.schema
 }
 
diff --git a/pkg/semantic-router/sparse.go b/pkg/semantic-router/sparse.go
index 9f4fa59..d29d012 100644
--- a/pkg/semantic-router/sparse.go
+++ b/pkg/semantic-router/sparse.go
@@ -137,6 +137,10 @@ func (e *BM25Encoder) Fit(ctx context.Context, documents []string) error {
 
 	e.totalDocs = len(documents)
 	e.docFreq = make(map[string]int)
+	e.idf = make(map[string]float64)
+	e.vocabMu.Lock()
+	e.vocabulary = nil
+	e.vocabMu.Unlock()
 	termDocCount := make(map[string]map[int]bool) // term -> set of doc indices
 
 	totalLen := 0.0
@@ -180,7 +184,10 @@ func (e *BM25Encoder) Fit(ctx context.Context, documents []string) error {
 		e.idf[term] = idf
 	}
 
-	e.avgDocLen = totalLen / float64(e.totalDocs)
+	e.avgDocLen = 0
+	if e.totalDocs > 0 {
+		e.avgDocLen = totalLen / float64(e.totalDocs)
+	}
 
 	return nil
 }
@@ -199,6 +206,12 @@ func (e *BM25Encoder) EncodeSparse(text string) map[string]float64 {
 
 	result := make(map[string]float64)
 
+	// Without a corpus every document has the average length
+	relLen := 1.0
+	if e.avgDocLen > 0 {
+		relLen = docLen / e.avgDocLen
+	}
+
 	// Count term frequencies
 	termFreq := make(map[string]int)
 	for _, term := range terms {
@@ -215,7 +228,7 @@ func (e *BM25Encoder) EncodeSparse(text string) map[string]float64 {
 
 		// BM25 formula: IDF * (tf * (k1 + 1)) / (tf + k1 * (1 - b + b * (docLen / avgDocLen)))
 		numerator := float64(tf) * (e.k1 + 1)
-		denominator := float64(tf) + e.k1*(1-e.b+e.b*(docLen/e.avgDocLen))
+		denominator := float64(tf) + e.k1*(1-e.b+e.b*relLen)
 		bm25 := idf * (numerator / denominator)
 
 		result[term] = bm25
@@ -237,7 +250,7 @@ func (e *BM25Encoder) EncodeSparseBatch(texts []string) []map[string]float64 {
 func (e *BM25Encoder) Vocabulary() []string {
 	e.vocabMu.RLock()
 	defer e.vocabMu.RUnlock()
-	return e.vocabulary
+	return append([]string(nil), e.vocabulary...)
 }
 
 // Dimensions returns the size of the vocabulary.
@@ -292,6 +305,10 @@ func (e *TFIDFEncoder) Fit(ctx context.Context, documents []string) error {
 
 	e.totalDocs = len(documents)
 	e.docFreq = make(map[string]int)
+	e.idf = make(map[string]float64)
+	e.vocabMu.Lock()
+	e.vocabulary = nil
+	e.vocabMu.Unlock()
 	termDocCount := make(map[string]map[int]bool)
 
 	for docIdx, doc := range documents {
@@ -381,7 +398,7 @@ func (e *TFIDFEncoder) EncodeSparseBatch(texts []string) []map[string]float64 {
 func (e *TFIDFEncoder) Vocabulary() []string {
 	e.vocabMu.RLock()
 	defer e.vocabMu.RUnlock()
-	return e.vocabulary
+	return append([]string(nil), e.vocabulary...)
 }
 
 // Dimensions returns the size of the vocabulary.
@@ -488,7 +505,10 @@ func TopTerms(vec map[string]float64, k int) []TermScore {
 
 	// Sort by score descending
 	sort.Slice(scores, func(i, j int) bool {
-		return scores[i].Score > scores[j].Score
+		if scores[i].Score != scores[j].Score {
+			return scores[i].Score > scores[j].Score
+		}
+		return scores[i].Term < scores[j].Term
 	})
 
 	if k > 0 && k < len(scores) {
diff --git a/pkg/semantic-router/types.go b/pkg/semantic-router/types.go
index 9fed0f0..09c7e70 100644
--- a/pkg/semantic-router/types.go
+++ b/pkg/semantic-router/types.go
@@ -24,10 +24,10 @@ type Route struct {
 	// Metadata stores additional information about the route
 	Metadata map[string]string `json:"metadata,omitempty"`
 
-	// cachedVectors stores pre-computed embeddings for utterances
+	// cachedVectors stores pre-computed embeddings for utterances; nil until they
+	// have been computed successfully
 	cachedVectors [][]float32
-	cachedOnce    sync.Once
-	cachedErr     error
+	cacheMu       sync.Mutex
 }
 
 // RouteHandler is a function that handles a matched route.
-- 
2.43.0


From 46d83d1359b3e6d2ccc1faf650af5c50761eca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 31/46] fix: re-inserting a geo point replaces it; radius
 search finds points at high latitudes, across the antimeridian and antipodal
 ones

---
 pkg/geo/geospatial.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/pkg/geo/geospatial.go b/pkg/geo/geospatial.go
index 60e773b..3e91a91 100644
--- a/pkg/geo/geospatial.go
+++ b/pkg/geo/geospatial.go
@@ -82,6 +82,11 @@ func (g *GeoIndex) Insert(point GeoPoint) error {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
+	// An existing point with this ID is replaced
+	if old, exists := g.points[point.ID]; exists {
+		g.removeFromGrid(old)
+	}
+
 	// Store point
 	g.points[point.ID] = &point
 
@@ -106,10 +111,17 @@ func (g *GeoIndex) Delete(id string) bool {
 	delete(g.points, id)
 
 	// Remove from grid index
+	g.removeFromGrid(point)
+
+	return true
+}
+
+// removeFromGrid removes a point from its grid cell; the caller holds the lock
+func (g *GeoIndex) removeFromGrid(point *GeoPoint) {
 	gridKey := g.getGridKey(point.Coordinate)
 	if cells, ok := g.grid[gridKey]; ok {
 		for i, p := range cells {
-			if p.ID == id {
+			if p.ID == point.ID {
 				// Remove element by swapping with last and truncating
 				g.grid[gridKey][i] = cells[len(cells)-1]
 				g.grid[gridKey] = cells[:len(cells)-1]
@@ -121,8 +133,6 @@ func (g *GeoIndex) Delete(id string) bool {
 			delete(g.grid, gridKey)
 		}
 	}
-
-	return true
 }
 
 // SearchRadius finds all points within a given radius from a center point
@@ -310,12 +320,29 @@ func (g *GeoIndex) getCandidateCells(center Coordinate, radiusKM float64) []*Geo
 	// At equator, 1 degree ≈ 111km
 	degreesRadius := radiusKM / 111.0
 	cellsRadius := int64(math.Ceil(degreesRadius / g.gridSize))
-	
+
+	// Away from the equator a degree of longitude is shorter, so the same
+	// radius spans more of them.
+	degreesLng := 360.0
+	if maxLat := math.Abs(center.Lat) + degreesRadius; maxLat < 89 {
+		degreesLng = degreesRadius / math.Cos(maxLat*math.Pi/180)
+	}
+	cellsLng := int64(math.Ceil(degreesLng / g.gridSize))
+
+	// Near a pole or across the antimeridian the grid does not narrow the search
+	if math.Abs(center.Lng)+degreesLng >= 180 {
+		all := make([]*GeoPoint, 0, len(g.points))
+		for _, point := range g.points {
+			all = append(all, point)
+		}
+		return all
+	}
+
 	centerGridX := int64(center.Lng / g.gridSize)
 	centerGridY := int64(center.Lat / g.gridSize)
 	
 	var candidates []*GeoPoint
-	for dx := -cellsRadius; dx <= cellsRadius; dx++ {
+	for dx := -cellsLng; dx <= cellsLng; dx++ {
 		for dy := -cellsRadius; dy <= cellsRadius; dy++ {
 			gridKey := ((centerGridX + dx) << 32) | ((centerGridY + dy) & 0xFFFFFFFF)
 			if cells, ok := g.grid[gridKey]; ok {
@@ -337,7 +364,7 @@ func haversineDistance(p1, p2 Coordinate) float64 {
 	a := math.Sin(deltaLat/2)*math.Sin(deltaLat/2) +
 		math.Cos(lat1Rad)*math.Cos(lat2Rad)*
 			math.Sin(deltaLng/2)*math.Sin(deltaLng/2)
-	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
+	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(math.Max(0, 1-a)))
 
 	return EarthRadiusKM * c
 }
-- 
2.43.0


From 72c3b5fe86826a289d1392eb83852a1d2d14e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:56 +0000
Subject: [PATCH 32/46] fix: aggregations group any type, take any metadata
 field and compare filter values with metadata text

---
 pkg/core/aggregations.go | 78 ++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index 598ff25..975c526 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // AggregationType defines the type of aggregation
@@ -60,6 +61,11 @@ func (s *SQLiteStore) Aggregate(ctx context.Context, req AggregationRequest) (*A
 		return nil, wrapError("aggregate", err)
 	}
 
+	// Any aggregation can be computed per group
+	if len(req.GroupBy) > 0 {
+		return s.aggregateGroupBy(ctx, req)
+	}
+
 	switch req.Type {
 	case AggregationCount:
 		return s.aggregateCount(ctx, req)
@@ -114,11 +120,11 @@ func (s *SQLiteStore) aggregateSum(ctx context.Context, req AggregationRequest)
 	// Use JSON extraction for metadata field
 	query := fmt.Sprintf(`
 		SELECT 
-			SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as sum_value,
+			SUM(CAST(json_extract(metadata, '%s') AS REAL)) as sum_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE json_extract(metadata, '%s') IS NOT NULL`,
+		jsonPath(req.Field), jsonPath(req.Field))
 
 	args := []interface{}{}
 
@@ -160,11 +166,11 @@ func (s *SQLiteStore) aggregateAvg(ctx context.Context, req AggregationRequest)
 
 	query := fmt.Sprintf(`
 		SELECT 
-			AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as avg_value,
+			AVG(CAST(json_extract(metadata, '%s') AS REAL)) as avg_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE json_extract(metadata, '%s') IS NOT NULL`,
+		jsonPath(req.Field), jsonPath(req.Field))
 
 	args := []interface{}{}
 
@@ -211,11 +217,11 @@ func (s *SQLiteStore) aggregateMinMax(ctx context.Context, req AggregationReques
 
 	query := fmt.Sprintf(`
 		SELECT 
-			%s(CAST(json_extract(metadata, '$.%s') AS REAL)) as value,
+			%s(CAST(json_extract(metadata, '%s') AS REAL)) as value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		aggFunc, req.Field, req.Field)
+		WHERE json_extract(metadata, '%s') IS NOT NULL`,
+		aggFunc, jsonPath(req.Field), jsonPath(req.Field))
 
 	args := []interface{}{}
 
@@ -258,11 +264,14 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	// Build SELECT clause for group keys
 	selectClauses := []string{}
 	groupByClauses := []string{}
+	columns := map[string]string{"count": "COUNT(*)", "value": "agg_value", "agg_value": "agg_value"}
 	for _, field := range req.GroupBy {
-		selectClauses = append(selectClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s') as %s", field, field))
-		groupByClauses = append(groupByClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s')", field))
+		expr := fmt.Sprintf("json_extract(metadata, '%s')", jsonPath(field))
+		selectClauses = append(selectClauses, expr)
+		groupByClauses = append(groupByClauses, expr)
+		if _, taken := columns[field]; !taken {
+			columns[field] = expr
+		}
 	}
 
 	// Add aggregation based on field
@@ -270,13 +279,13 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if req.Field != "" {
 		switch req.Type {
 		case AggregationSum:
-			aggClause = fmt.Sprintf("SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("SUM(CAST(json_extract(metadata, '%s') AS REAL)) as agg_value", jsonPath(req.Field))
 		case AggregationAvg:
-			aggClause = fmt.Sprintf("AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("AVG(CAST(json_extract(metadata, '%s') AS REAL)) as agg_value", jsonPath(req.Field))
 		case AggregationMin:
-			aggClause = fmt.Sprintf("MIN(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MIN(CAST(json_extract(metadata, '%s') AS REAL)) as agg_value", jsonPath(req.Field))
 		case AggregationMax:
-			aggClause = fmt.Sprintf("MAX(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = fmt.Sprintf("MAX(CAST(json_extract(metadata, '%s') AS REAL)) as agg_value", jsonPath(req.Field))
 		default:
 			aggClause = "COUNT(*) as agg_value"
 		}
@@ -310,7 +319,14 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if len(req.Having) > 0 {
 		havingClauses := []string{}
 		for field, value := range req.Having {
-			havingClauses = append(havingClauses, fmt.Sprintf("%s = ?", field))
+			column, ok := columns[field]
+			if !ok {
+				return nil, fmt.Errorf("unknown having field: %s", field)
+			}
+			if strings.HasPrefix(column, "json_extract") {
+				value = metadataText(value)
+			}
+			havingClauses = append(havingClauses, fmt.Sprintf("%s = ?", column))
 			args = append(args, value)
 		}
 		query += fmt.Sprintf(" HAVING %s", joinStrings(havingClauses, " AND "))
@@ -318,9 +334,13 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 
 	// Add ORDER BY clause
 	if req.OrderBy != "" {
-		query += fmt.Sprintf(" ORDER BY %s DESC", req.OrderBy)
+		column, ok := columns[req.OrderBy]
+		if !ok {
+			return nil, fmt.Errorf("unknown order_by field: %s", req.OrderBy)
+		}
+		query += fmt.Sprintf(" ORDER BY %s DESC", column)
 	} else {
-		query += " ORDER BY count DESC"
+		query += " ORDER BY COUNT(*) DESC"
 	}
 
 	// Add LIMIT clause
@@ -410,24 +430,14 @@ func validateAggregationRequest(req AggregationRequest) error {
 // addMetadataFilters adds metadata filters to the query
 func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}) {
 	for field, value := range filters {
-		query += fmt.Sprintf(" AND json_extract(metadata, '$.%s') = ?", field)
-		
-		// Convert value to appropriate SQL type
+		query += fmt.Sprintf(" AND json_extract(metadata, '%s') = ?", jsonPath(field))
+
+		// Metadata holds text; other values are compared by their JSON form
+		value = metadataText(value)
 		switch v := value.(type) {
 		case string:
 			args = append(args, v)
-		case int:
-			args = append(args, v)
-		case float64:
-			args = append(args, v)
-		case bool:
-			if v {
-				args = append(args, 1)
-			} else {
-				args = append(args, 0)
-			}
 		default:
-			// Try to convert to JSON string
 			if jsonBytes, err := json.Marshal(v); err == nil {
 				args = append(args, string(jsonBytes))
 			} else {
-- 
2.43.0


From 4adc5d96b234ea3dfa2053a5f42c041ae1c3a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:26 +0000
Subject: [PATCH 33/46] fix: diversity, negative-example and anomaly searches
 and rerankers work for metrics with negative scores; rerank options are
 honoured

---
 pkg/core/advanced_search.go | 20 ++++++++++++--------
 pkg/core/faceted_search.go  | 29 ++++++++++++-----------------
 pkg/core/reranker.go        | 29 +++++++++++++++++++++++++----
 3 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index e54f4c0..11478d5 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -328,9 +328,9 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		
 		// Calculate positive scores
 		if len(opts.PositiveVectors) > 0 {
-			for _, posVec := range opts.PositiveVectors {
+			for j, posVec := range opts.PositiveVectors {
 				score := float32(s.similarityFn(posVec, candidates[i].Vector))
-				if score > positiveScore {
+				if j == 0 || score > positiveScore {
 					positiveScore = score
 				}
 			}
@@ -338,9 +338,9 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		
 		// Calculate negative scores
 		if len(opts.NegativeVectors) > 0 {
-			for _, negVec := range opts.NegativeVectors {
+			for j, negVec := range opts.NegativeVectors {
 				score := float32(s.similarityFn(negVec, candidates[i].Vector))
-				if score > negativeScore {
+				if j == 0 || score > negativeScore {
 					negativeScore = score
 				}
 			}
@@ -371,6 +371,10 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 
 // SearchWithDiversity performs search with result diversification
 func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32, opts DiversitySearchOptions) ([]ScoredEmbedding, error) {
+	if opts.TopK <= 0 {
+		opts.TopK = 10 // As for Search
+	}
+
 	// Get initial candidates (more than needed for diversity)
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
@@ -425,9 +429,9 @@ func (s *SQLiteStore) diversifyMMR(candidates []ScoredEmbedding, query []float32
 			
 			// Diversity score (minimum similarity to selected items)
 			maxSim := float32(0)
-			for _, sel := range selected {
+			for j, sel := range selected {
 				sim := float32(s.similarityFn(candidate.Vector, sel.Vector))
-				if sim > maxSim {
+				if j == 0 || sim > maxSim {
 					maxSim = sim
 				}
 			}
@@ -469,7 +473,7 @@ func (s *SQLiteStore) diversifyDistance(candidates []ScoredEmbedding, opts Diver
 		// Check if candidate is far enough from all selected
 		tooClose := false
 		for _, sel := range selected {
-			dist := float32(1.0 - s.similarityFn(candidate.Vector, sel.Vector))
+			dist := s.vectorDistance(candidate.Vector, sel.Vector)
 			if dist < minDist {
 				tooClose = true
 				break
@@ -638,7 +642,7 @@ func (s *SQLiteStore) FindAnomalies(ctx context.Context, opts SearchOptions) ([]
 		// Calculate distance to all other vectors
 		for j, other := range candidates {
 			if i != j {
-				dist := float32(1.0 - s.similarityFn(candidate.Vector, other.Vector))
+				dist := s.vectorDistance(candidate.Vector, other.Vector)
 				distances = append(distances, dist)
 			}
 		}
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index aeaf7e6..1c9b3b1 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -362,13 +362,6 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		return nil, wrapError("range_search", err)
 	}
 	
-	// A metric that scores identical vectors at or below zero reports negative distances
-	unit := make([]float32, len(query))
-	if len(unit) > 0 {
-		unit[0] = 1
-	}
-	negativeDistance := s.similarityFn(unit, unit) <= 0
-	
 	// Filter by radius
 	var results []ScoredEmbedding
 	for _, candidate := range candidates {
@@ -378,21 +371,12 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 			continue
 		}
 		
-		score := s.similarityFn(query, candidate.Vector)
-		
 		// For range search, we need to handle different similarity metrics:
 		// - Euclidean: score is negative distance, so actual distance = -score
 		// - Cosine: score is similarity (0 to 1), so distance = 1 - score
 		// - DotProduct: not suitable for range search (unbounded)
 		
-		var distance float32
-		if negativeDistance {
-			// Euclidean distance (negative score)
-			distance = float32(-score)
-		} else {
-			// Cosine similarity or other bounded metrics
-			distance = float32(1.0 - score)
-		}
+		distance := s.vectorDistance(query, candidate.Vector)
 		
 		if distance <= radius {
 			// For display, use the actual distance as the score for range search
@@ -414,6 +398,17 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 	return results, nil
 }
 
+// vectorDistance is the distance of two vectors under the store's metric
+func (s *SQLiteStore) vectorDistance(a, b []float32) float32 {
+	score := s.similarityFn(a, b)
+	// A metric that scores identical vectors at or below zero reports negative distances
+	if s.similarityFn([]float32{1}, []float32{1}) <= 0 {
+		return float32(-score)
+	}
+	// Cosine similarity or other bounded metrics
+	return float32(1.0 - score)
+}
+
 // BatchRangeSearch performs range search for multiple queries
 func (s *SQLiteStore) BatchRangeSearch(ctx context.Context, queries [][]float32, radius float32, opts SearchOptions) ([][]ScoredEmbedding, error) {
 	results := make([][]ScoredEmbedding, len(queries))
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index 6aba00b..21b51dc 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -3,6 +3,7 @@ package core
 import (
 	"context"
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 )
@@ -56,7 +57,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 
 	if reranker == nil {
 		// No reranker, return normal search results
-		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
+		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK, Threshold: opts.Threshold})
 	}
 
 	// Perform initial search with more candidates than needed
@@ -75,6 +76,11 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		return initialResults, nil
 	}
 
+	originalScores := make(map[string]float64, len(initialResults))
+	for _, r := range initialResults {
+		originalScores[r.ID] = r.Score
+	}
+
 	// Apply reranking
 	reranked, err := reranker.Rerank(ctx, queryText, initialResults)
 	if err != nil {
@@ -100,6 +106,18 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		results = results[:opts.TopK]
 	}
 
+	// Report the vector similarity instead of the reranker's score
+	if opts.PreserveOriginalScore {
+		preserved := make([]ScoredEmbedding, len(results))
+		for i, r := range results {
+			preserved[i] = r
+			if score, ok := originalScores[r.ID]; ok {
+				preserved[i].Score = score
+			}
+		}
+		results = preserved
+	}
+
 	return results, nil
 }
 
@@ -206,6 +224,9 @@ func (r *KeywordMatchReranker) Rerank(ctx context.Context, query string, results
 		reranked[i] = result
 		if matchCount > 0 {
 			boostFactor := 1.0 + (float64(matchCount) * r.Boost)
+			if result.Score < 0 {
+				boostFactor = 1 / boostFactor // Towards zero is better
+			}
 			reranked[i].Score = result.Score * boostFactor
 		}
 	}
@@ -348,7 +369,7 @@ func (r *DiversityReranker) Rerank(ctx context.Context, query string, results []
 	for len(remaining) > 0 {
 		// Find the item with maximum MMR score
 		bestIdx := 0
-		bestScore := -1.0
+		bestScore := math.Inf(-1)
 
 		for i, item := range remaining {
 			// Relevance to query
@@ -356,9 +377,9 @@ func (r *DiversityReranker) Rerank(ctx context.Context, query string, results []
 
 			// Similarity to already selected items (max similarity)
 			maxSim := 0.0
-			for _, selected := range selected {
+			for j, selected := range selected {
 				sim := simFunc(item.Vector, selected.Vector)
-				if sim > maxSim {
+				if j == 0 || sim > maxSim {
 					maxSim = sim
 				}
 			}
-- 
2.43.0


From b0a051eb9d55fc76f901eabb56257cb89bf8ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:09 +0000
Subject: [PATCH 34/46] fix: streamed searches report storage errors and honour
 the threshold; incremental index keeps, shows and stores every accepted
 update

---
 pkg/core/streaming.go | 229 ++++++++++++++++++++++++++----------------
 1 file changed, 141 insertions(+), 88 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index c55c19e..e874e63 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -42,6 +42,12 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		opts.MaxLatency = 100 * time.Millisecond
 	}
 	
+	// Get all candidates here, so that a failure is reported
+	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
+	}
+
 	// Create result channel
 	resultChan := make(chan StreamingResult, opts.BatchSize)
 	
@@ -49,14 +55,9 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	go func() {
 		defer close(resultChan)
 		
-		// Get all candidates
-		candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
-		if err != nil {
-			return
-		}
-		
 		// Process in batches
 		batchID := 0
+		goodResults := 0
 		totalCandidates := len(candidates)
 		
 		for i := 0; i < totalCandidates; i += opts.BatchSize {
@@ -77,6 +78,9 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 			// Score batch
 			for _, candidate := range batch {
 				score := s.similarityFn(query, candidate.Vector)
+				if opts.Threshold > 0 && score < opts.Threshold {
+					continue
+				}
 				candidate.Score = score
 				
 				result := StreamingResult{
@@ -105,7 +109,8 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 				
 				// Check early termination
 				if opts.EarlyTerminate && result.Score >= opts.QualityThreshold {
-					if opts.TopK > 0 && i+len(batchResults) >= opts.TopK {
+					goodResults++
+					if opts.TopK > 0 && goodResults >= opts.TopK {
 						return // Found enough good results
 					}
 				}
@@ -177,9 +182,10 @@ func MergeStreamResults(ctx context.Context, channels ...<-chan StreamingResult)
 
 // CollectTopKFromStream collects top-k results from a streaming channel
 func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k int) ([]ScoredEmbedding, error) {
-	// Use a heap to maintain top-k
+	if k < 0 {
+		k = 0
+	}
 	topK := make([]ScoredEmbedding, 0, k)
-	seen := make(map[string]bool)
 	
 	for {
 		select {
@@ -189,14 +195,27 @@ func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k
 				return topK, nil
 			}
 			
-			// Skip duplicates
-			if seen[result.ID] {
+			if k == 0 {
 				continue
 			}
-			seen[result.ID] = true
-			
+
+			// A result may arrive from several streams; its best score counts
+			at := -1
+			for i := range topK {
+				if topK[i].ID == result.ID {
+					at = i
+				}
+			}
+
 			// Add to top-k
-			if len(topK) < k {
+			if at >= 0 {
+				if result.Score > topK[at].Score {
+					topK[at] = result.ScoredEmbedding
+					sort.Slice(topK, func(i, j int) bool {
+						return topK[i].Score > topK[j].Score
+					})
+				}
+			} else if len(topK) < k {
 				topK = append(topK, result.ScoredEmbedding)
 				sort.Slice(topK, func(i, j int) bool {
 					return topK[i].Score > topK[j].Score
@@ -224,11 +243,16 @@ func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k
 	}
 }
 
+// maxPendingUpdates bounds the updates an IncrementalIndex accepts before they are stored
+const maxPendingUpdates = 200
+
 // IncrementalIndex allows adding vectors while searching continues
 type IncrementalIndex struct {
 	mu        sync.RWMutex
 	store     *SQLiteStore
-	updates   chan *Embedding
+	pending   []*Embedding // accepted updates that are not stored yet, oldest first
+	wake      chan struct{}
+	done      chan struct{}
 	closed    bool
 	closeOnce sync.Once
 }
@@ -236,8 +260,9 @@ type IncrementalIndex struct {
 // NewIncrementalIndex creates a new incremental index
 func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 	idx := &IncrementalIndex{
-		store:   store,
-		updates: make(chan *Embedding, 100),
+		store: store,
+		wake:  make(chan struct{}, 1),
+		done:  make(chan struct{}),
 	}
 	
 	// Start background update processor
@@ -248,118 +273,146 @@ func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 
 // AddAsync adds a vector asynchronously
 func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
-	idx.mu.RLock()
-	defer idx.mu.RUnlock()
+	if emb == nil {
+		return fmt.Errorf("embedding is nil")
+	}
+
+	idx.mu.Lock()
+	defer idx.mu.Unlock()
 	
 	if idx.closed {
 		return fmt.Errorf("index is closed")
 	}
 	
-	select {
-	case idx.updates <- emb:
-		return nil
-	default:
+	if len(idx.pending) >= maxPendingUpdates {
 		return fmt.Errorf("update queue is full")
 	}
+	update := *emb // the caller may reuse its embedding
+	idx.pending = append(idx.pending, &update)
+
+	// Flush early if a batch is full
+	if len(idx.pending) >= maxPendingUpdates/2 {
+		select {
+		case idx.wake <- struct{}{}:
+		default:
+		}
+	}
+	return nil
 }
 
 // SearchWithUpdates performs search while considering ongoing updates
 func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
-	// Get current results
-	results, err := idx.store.Search(ctx, query, opts)
+	// The latest pending version of each embedding
+	idx.mu.RLock()
+	latest := make(map[string]*Embedding, len(idx.pending))
+	for _, emb := range idx.pending {
+		latest[emb.ID] = emb
+	}
+	idx.mu.RUnlock()
+
+	if len(latest) == 0 {
+		return idx.store.Search(ctx, query, opts)
+	}
+	if opts.TopK <= 0 {
+		opts.TopK = 10
+	}
+
+	// Stored results, with room for those a pending update replaces
+	storeOpts := opts
+	storeOpts.TopK += len(latest)
+	stored, err := idx.store.Search(ctx, query, storeOpts)
 	if err != nil {
 		return nil, err
 	}
-	
-	// Check pending updates
-	idx.mu.RLock()
-	pendingCount := len(idx.updates)
-	idx.mu.RUnlock()
-	
-	if pendingCount > 0 {
-		// Process some pending updates quickly
-		processedCount := 0
-		timeout := time.After(10 * time.Millisecond)
-		
-	ProcessLoop:
-		for processedCount < pendingCount && processedCount < 10 {
-			select {
-			case emb := <-idx.updates:
-				if emb != nil {
-					score := idx.store.similarityFn(query, emb.Vector)
-					if opts.TopK == 0 || len(results) < opts.TopK || score > results[len(results)-1].Score {
-						// This update might affect results
-						results = append(results, ScoredEmbedding{
-							Embedding: *emb,
-							Score:     score,
-						})
-						
-						// Re-sort
-						sort.Slice(results, func(i, j int) bool {
-							return results[i].Score > results[j].Score
-						})
-						
-						// Trim to TopK
-						if opts.TopK > 0 && len(results) > opts.TopK {
-							results = results[:opts.TopK]
-						}
-					}
-					
-					// Re-queue for background processing
-					idx.updates <- emb
-				}
-				processedCount++
-				
-			case <-timeout:
-				break ProcessLoop
-			}
+
+	results := make([]ScoredEmbedding, 0, len(stored)+len(latest))
+	for _, result := range stored {
+		if _, replaced := latest[result.ID]; !replaced {
+			results = append(results, result)
+		}
+	}
+	for _, emb := range latest {
+		if len(emb.Vector) != len(query) {
+			continue
+		}
+		update := *emb
+		if update.Collection == "" {
+			update.Collection = "default"
 		}
+		if opts.Collection != "" && update.Collection != opts.Collection {
+			continue
+		}
+		if !idx.store.matchesFilter(update, opts.Filter) {
+			continue
+		}
+		score := idx.store.similarityFn(query, update.Vector)
+		if opts.Threshold > 0 && score < opts.Threshold {
+			continue
+		}
+		results = append(results, ScoredEmbedding{Embedding: update, Score: score})
+	}
+
+	sort.Slice(results, func(i, j int) bool {
+		return results[i].Score > results[j].Score
+	})
+	if len(results) > opts.TopK {
+		results = results[:opts.TopK]
 	}
 	
 	return results, nil
 }
 
-// Close shuts down the incremental index
+// Close shuts down the incremental index after storing the accepted updates
 func (idx *IncrementalIndex) Close() {
 	idx.closeOnce.Do(func() {
 		idx.mu.Lock()
 		idx.closed = true
-		close(idx.updates)
 		idx.mu.Unlock()
+		close(idx.wake)
 	})
+	<-idx.done
 }
 
 // processUpdates handles background update processing
 func (idx *IncrementalIndex) processUpdates() {
-	batch := make([]*Embedding, 0, 100)
+	defer close(idx.done)
 	ticker := time.NewTicker(100 * time.Millisecond)
 	defer ticker.Stop()
 	
 	for {
 		select {
-		case emb, ok := <-idx.updates:
+		case _, ok := <-idx.wake:
+			idx.flush()
 			if !ok {
-				// Channel closed, flush remaining batch
-				if len(batch) > 0 {
-					_ = idx.store.UpsertBatch(context.Background(), batch)
-				}
 				return
 			}
 			
-			batch = append(batch, emb)
-			
-			// Flush batch if full
-			if len(batch) >= 100 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
-				batch = batch[:0]
-			}
-			
 		case <-ticker.C:
 			// Periodic flush
-			if len(batch) > 0 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
-				batch = batch[:0]
+			idx.flush()
+		}
+	}
+}
+
+// flush stores the pending updates
+func (idx *IncrementalIndex) flush() {
+	idx.mu.RLock()
+	batch := append([]*Embedding(nil), idx.pending...)
+	idx.mu.RUnlock()
+	if len(batch) == 0 {
+		return
+	}
+
+	if err := idx.store.UpsertBatch(context.Background(), batch); err != nil {
+		// One refused update must not take the others with it
+		for _, emb := range batch {
+			if err := idx.store.Upsert(context.Background(), emb); err != nil {
+				idx.store.logger.Warn("failed to store pending update", "id", emb.ID, "error", err)
 			}
 		}
 	}
-}
\ No newline at end of file
+
+	idx.mu.Lock()
+	idx.pending = idx.pending[len(batch):]
+	idx.mu.Unlock()
+}
-- 
2.43.0


From 09ff2683dcb784527de161e4a38b271eca3cd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 35/46] fix: indexes return k live results, keep their own
 vectors, delete everywhere, retrain and load without loss

---
 pkg/index/flat.go        |  7 +++--
 pkg/index/hnsw.go        | 27 ++++++++++++++----
 pkg/index/ivf.go         | 43 +++++++++++++++++++++++------
 pkg/index/lsh.go         | 18 +++++++++++-
 pkg/index/multi_index.go | 59 ++++++++++++++++++++++++++++++----------
 5 files changed, 122 insertions(+), 32 deletions(-)

diff --git a/pkg/index/flat.go b/pkg/index/flat.go
index 53974b0..e8241ee 100644
--- a/pkg/index/flat.go
+++ b/pkg/index/flat.go
@@ -70,7 +70,7 @@ func (f *FlatIndex) Search(query []float32, k int) ([]string, []float32) {
 	f.mu.RLock()
 	defer f.mu.RUnlock()
 
-	if len(f.vectors) == 0 {
+	if len(f.vectors) == 0 || k <= 0 {
 		return []string{}, []float32{}
 	}
 
@@ -190,11 +190,14 @@ func (f *FlatIndex) BatchInsert(ids []string, vectors [][]float32) error {
 	f.mu.Lock()
 	defer f.mu.Unlock()
 
-	for i, id := range ids {
+	// A batch is inserted as a whole or not at all
+	for i := range ids {
 		if len(vectors[i]) != f.dimension {
 			return fmt.Errorf("dimension mismatch at index %d: expected %d, got %d", i, f.dimension, len(vectors[i]))
 		}
+	}
 
+	for i, id := range ids {
 		v := make([]float32, f.dimension)
 		copy(v, vectors[i])
 		
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index ecdc138..5715f8b 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -337,6 +337,12 @@ func (h *HNSW) link(node *HNSWNode, vector []float32) {
 
 // searchLayer performs a greedy search in a specific layer
 func (h *HNSW) searchLayer(query []float32, entryPoints []string, ef int, layer int) []string {
+	return h.searchLayerNodes(query, entryPoints, ef, layer, false)
+}
+
+// searchLayerNodes performs a greedy search in a specific layer. With liveOnly,
+// deleted nodes are passed through but take none of the ef places.
+func (h *HNSW) searchLayerNodes(query []float32, entryPoints []string, ef int, layer int, liveOnly bool) []string {
 	visited := make(map[string]bool)
 	candidates := &distHeap{}
 	dynamicList := &distHeap{} // max heap for nearest
@@ -345,12 +351,14 @@ func (h *HNSW) searchLayer(query []float32, entryPoints []string, ef int, layer
 		dist := h.calculateDistance(query, h.Nodes[point])
 		
 		heap.Push(candidates, &heapItem{id: point, dist: dist})
-		heap.Push(dynamicList, &heapItem{id: point, dist: -dist}) // negative for max heap
+		if !liveOnly || !h.Nodes[point].Deleted {
+			heap.Push(dynamicList, &heapItem{id: point, dist: -dist}) // negative for max heap
+		}
 		visited[point] = true
 	}
 	
 	for candidates.Len() > 0 {
-		if dynamicList.Len() > 0 {
+		if dynamicList.Len() > 0 && (!liveOnly || dynamicList.Len() >= ef) {
 			lowerBound := (*candidates)[0].dist
 			if lowerBound > -(*dynamicList)[0].dist {
 				break
@@ -370,8 +378,11 @@ func (h *HNSW) searchLayer(query []float32, entryPoints []string, ef int, layer
 				
 				dist := h.calculateDistance(query, h.Nodes[neighbor])
 				
-				if dist < -(*dynamicList)[0].dist || dynamicList.Len() < ef {
+				if dynamicList.Len() < ef || dist < -(*dynamicList)[0].dist {
 					heap.Push(candidates, &heapItem{id: neighbor, dist: dist})
+					if liveOnly && h.Nodes[neighbor].Deleted {
+						continue
+					}
 					heap.Push(dynamicList, &heapItem{id: neighbor, dist: -dist})
 					
 					if dynamicList.Len() > ef {
@@ -473,9 +484,12 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 	
-	if h.EntryPoint == "" {
+	if h.EntryPoint == "" || k <= 0 {
 		return []string{}, []float32{}
 	}
+	if ef < k {
+		ef = k // fewer candidates cannot fill k places
+	}
 	
 	// Search from top layer to layer 0
 	entryNode := h.Nodes[h.EntryPoint]
@@ -486,7 +500,7 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 	}
 	
 	// Search at layer 0 with ef
-	candidates := h.searchLayer(query, currNearest, ef, 0)
+	candidates := h.searchLayerNodes(query, currNearest, ef, 0, true)
 	
 	// Return top k
 	type result struct {
@@ -767,7 +781,8 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 
 				// Prepare node data
 				var quantized []byte
-				var storedVector []float32 = v.Vector
+				// Keep a private copy: the caller may reuse its slice
+				var storedVector []float32 = append([]float32(nil), v.Vector...)
 
 				if tempHNSW.Quantizer != nil {
 					var err error
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 3b4e753..eafd43f 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -68,17 +68,30 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
+	// Decode into a separate index first so that a truncated or corrupt snapshot
+	// leaves this one as it was
+	var loaded IVFIndex
+
 	// Decode parameters
-	if err := dec.Decode(&ivf.NCentroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Dimension); err != nil { return err }
-	if err := dec.Decode(&ivf.NProbe); err != nil { return err }
-	if err := dec.Decode(&ivf.Trained); err != nil { return err }
+	if err := dec.Decode(&loaded.NCentroids); err != nil { return err }
+	if err := dec.Decode(&loaded.Dimension); err != nil { return err }
+	if err := dec.Decode(&loaded.NProbe); err != nil { return err }
+	if err := dec.Decode(&loaded.Trained); err != nil { return err }
 
 	// Decode data
-	if err := dec.Decode(&ivf.Centroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Invlists); err != nil { return err }
-	if err := dec.Decode(&ivf.IDs); err != nil { return err }
-	if err := dec.Decode(&ivf.Vectors); err != nil { return err }
+	if err := dec.Decode(&loaded.Centroids); err != nil { return err }
+	if err := dec.Decode(&loaded.Invlists); err != nil { return err }
+	if err := dec.Decode(&loaded.IDs); err != nil { return err }
+	if err := dec.Decode(&loaded.Vectors); err != nil { return err }
+
+	ivf.NCentroids = loaded.NCentroids
+	ivf.Dimension = loaded.Dimension
+	ivf.NProbe = loaded.NProbe
+	ivf.Trained = loaded.Trained
+	ivf.Centroids = loaded.Centroids
+	ivf.Invlists = loaded.Invlists
+	ivf.IDs = loaded.IDs
+	ivf.Vectors = loaded.Vectors
 
 	return nil
 }
@@ -92,6 +105,12 @@ func (ivf *IVFIndex) Train(vectors [][]float32) error {
 		return fmt.Errorf("need at least %d vectors for training, got %d", ivf.NCentroids, len(vectors))
 	}
 	
+	for i, vector := range vectors {
+		if len(vector) != ivf.Dimension {
+			return fmt.Errorf("training vector %d has dimension %d, index has dimension %d", i, len(vector), ivf.Dimension)
+		}
+	}
+	
 	// Run k-means to find centroids
 	centroids, err := kMeansIVF(vectors, ivf.NCentroids, 20)
 	if err != nil {
@@ -106,6 +125,12 @@ func (ivf *IVFIndex) Train(vectors [][]float32) error {
 		ivf.Invlists[i] = []int{}
 	}
 	
+	// Vectors added before a retraining stay in the index
+	for i, vector := range ivf.Vectors {
+		centroidIdx := ivf.findNearestCentroid(vector)
+		ivf.Invlists[centroidIdx] = append(ivf.Invlists[centroidIdx], i)
+	}
+	
 	return nil
 }
 
@@ -203,7 +228,7 @@ func (ivf *IVFIndex) Search(query []float32, k int) ([]string, []float32, error)
 	})
 	
 	// Return top-k results
-	topK := min(k, len(candidates))
+	topK := max(min(k, len(candidates)), 0)
 	ids := make([]string, topK)
 	distances := make([]float32, topK)
 	
diff --git a/pkg/index/lsh.go b/pkg/index/lsh.go
index c8b298e..0750d89 100644
--- a/pkg/index/lsh.go
+++ b/pkg/index/lsh.go
@@ -101,6 +101,12 @@ func (lsh *LSHIndex) Insert(id string, vector []float32) error {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
+	// An ID that is already present is replaced
+	lsh.remove(id)
+	
+	// Keep a private copy: the caller may reuse its slice
+	vector = append([]float32(nil), vector...)
+	
 	// Store the vector
 	lsh.vectors[id] = vector
 	
@@ -151,6 +157,9 @@ func (lsh *LSHIndex) Search(query []float32, k int) ([]LSHSearchResult, error) {
 	})
 	
 	// Return top k
+	if k < 0 {
+		k = 0
+	}
 	if len(results) > k {
 		results = results[:k]
 	}
@@ -207,6 +216,9 @@ func (lsh *LSHIndex) SearchWithMultiProbe(query []float32, k int, numProbes int)
 		return results[i].Distance < results[j].Distance
 	})
 	
+	if k < 0 {
+		k = 0
+	}
 	if len(results) > k {
 		results = results[:k]
 	}
@@ -218,7 +230,11 @@ func (lsh *LSHIndex) SearchWithMultiProbe(query []float32, k int, numProbes int)
 func (lsh *LSHIndex) Delete(id string) bool {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
-	
+	return lsh.remove(id)
+}
+
+// remove removes a vector; the caller holds the write lock
+func (lsh *LSHIndex) remove(id string) bool {
 	vector, exists := lsh.vectors[id]
 	if !exists {
 		return false
diff --git a/pkg/index/multi_index.go b/pkg/index/multi_index.go
index 29d1f17..848a99a 100644
--- a/pkg/index/multi_index.go
+++ b/pkg/index/multi_index.go
@@ -81,8 +81,16 @@ func (m *MultiIndex) AddIndex(indexType IndexType, index VectorIndex) {
 	m.indices[indexType] = index
 }
 
-// Insert inserts a vector into all indices
+// Insert inserts a vector into all indices, or into none if one of them refuses it
 func (m *MultiIndex) Insert(id string, vector []float32) error {
+	err := m.insertAll(id, vector)
+	if err != nil {
+		_ = m.Delete(id)
+	}
+	return err
+}
+
+func (m *MultiIndex) insertAll(id string, vector []float32) error {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 	
@@ -178,7 +186,7 @@ func (m *MultiIndex) searchMergeAll(query []float32, k int) ([]string, []float32
 	})
 	
 	// Extract top-k
-	limit := k
+	limit := max(k, 0)
 	if limit > len(results) {
 		limit = len(results)
 	}
@@ -203,9 +211,9 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	// Get candidates from primary index
 	candidateK := k * 2
 	if m.config.RerankTopK > 0 {
-		candidateK = m.config.RerankTopK
+		candidateK = max(m.config.RerankTopK, k)
 	}
-	candidateIDs, _ := primary.Search(query, candidateK)
+	candidateIDs, candidateDists := primary.Search(query, candidateK)
 	
 	if len(candidateIDs) == 0 {
 		return []string{}, []float32{}
@@ -219,8 +227,10 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	}
 	
 	resultMap := make(map[string]*result)
-	for _, id := range candidateIDs {
+	primaryDists := make(map[string]float32)
+	for i, id := range candidateIDs {
 		resultMap[id] = &result{id: id, score: 0, voteCount: 0}
+		primaryDists[id] = candidateDists[i]
 	}
 	
 	// Get refined distances from secondary indices
@@ -241,16 +251,22 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	for _, r := range resultMap {
 		if r.voteCount > 0 {
 			r.score /= float32(r.voteCount)
+		} else {
+			r.score = primaryDists[r.id]
 		}
 		results = append(results, *r)
 	}
 	
+	// Candidates that no secondary index confirmed come last
 	sort.Slice(results, func(i, j int) bool {
+		if (results[i].voteCount > 0) != (results[j].voteCount > 0) {
+			return results[i].voteCount > 0
+		}
 		return results[i].score < results[j].score
 	})
 	
 	// Return top-k
-	limit := k
+	limit := max(k, 0)
 	if limit > len(results) {
 		limit = len(results)
 	}
@@ -316,7 +332,7 @@ func (m *MultiIndex) searchWithVoting(query []float32, k int) ([]string, []float
 	})
 	
 	// Return top-k
-	limit := k
+	limit := max(k, 0)
 	if limit > len(votes) {
 		limit = len(votes)
 	}
@@ -336,12 +352,14 @@ func (m *MultiIndex) Delete(id string) error {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 	
+	// An index that lacks the vector does not keep the others from deleting it
+	var firstErr error
 	for _, index := range m.indices {
-		if err := index.Delete(id); err != nil {
-			return err
+		if err := index.Delete(id); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 // Size returns the size of the primary index
@@ -404,7 +422,11 @@ func (h *HybridIndex) Insert(id string, vector []float32) error {
 	if err := h.hnsw.Insert(id, vector); err != nil {
 		return err
 	}
-	return h.ivf.Add(id, vector)
+	if err := h.ivf.Add(id, vector); err != nil {
+		_ = h.hnsw.Delete(id)
+		return err
+	}
+	return nil
 }
 
 // Search performs hybrid search
@@ -454,7 +476,7 @@ func (h *HybridIndex) Search(query []float32, k int) ([]string, []float32) {
 	})
 	
 	// Extract top-k
-	limit := k
+	limit := max(k, 0)
 	if limit > len(results) {
 		limit = len(results)
 	}
@@ -478,7 +500,9 @@ func (h *HybridIndex) Delete(id string) error {
 		// Log but don't fail - some indices may not support deletion
 		_ = err
 	}
-	// IVF doesn't support delete, would need rebuild
+	if err := h.ivf.Delete(id); err != nil {
+		_ = err
+	}
 	return nil
 }
 
@@ -505,11 +529,18 @@ type HNSWAdapter struct {
 // NewHNSWAdapter creates a new HNSW adapter
 func NewHNSWAdapter(dimension, M int, distFunc func([]float32, []float32) float32) *HNSWAdapter {
 	return &HNSWAdapter{
-		HNSW:      NewHNSW(dimension, M, distFunc),
+		HNSW:      NewHNSW(M, 200, distFunc),
 		defaultEf: 50,
 	}
 }
 
+// Insert implements VectorIndex interface; like the other indices it replaces
+// the vector of an ID that is already present
+func (h *HNSWAdapter) Insert(id string, vector []float32) error {
+	h.Upsert(id, vector)
+	return nil
+}
+
 // Search implements VectorIndex interface
 func (h *HNSWAdapter) Search(query []float32, k int) ([]string, []float32) {
 	ef := h.defaultEf
-- 
2.43.0


From e4379346a92ada88820150bd68a59842fa22307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 36/46] fix: quantizers round to the nearest level, measure
 true distances and refuse malformed input

---
 pkg/quantization/product_quantization.go | 71 ++++++++++++++++--------
 pkg/quantization/scalar_quantization.go  | 37 +++++++-----
 2 files changed, 72 insertions(+), 36 deletions(-)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 4020a72..a9086a3 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -23,6 +23,10 @@ type ProductQuantizer struct {
 
 // NewProductQuantizer creates a new PQ instance
 func NewProductQuantizer(dimension, numSubspaces, numCentroids int) (*ProductQuantizer, error) {
+	if dimension <= 0 || numSubspaces <= 0 || numCentroids <= 0 {
+		return nil, fmt.Errorf("dimension %d, numSubspaces %d and numCentroids %d must be positive", dimension, numSubspaces, numCentroids)
+	}
+	
 	if dimension%numSubspaces != 0 {
 		return nil, fmt.Errorf("dimension %d must be divisible by numSubspaces %d", dimension, numSubspaces)
 	}
@@ -46,6 +50,12 @@ func (pq *ProductQuantizer) Train(vectors [][]float32) error {
 		return fmt.Errorf("need at least %d vectors for training, got %d", pq.K*pq.M, len(vectors))
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != pq.D {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), pq.D)
+		}
+	}
+	
 	pq.TrainSize = len(vectors)
 	
 	// Train each subspace independently
@@ -143,19 +153,35 @@ func (pq *ProductQuantizer) ComputeDistance(codes []byte, query []float32) (floa
 		return 0, errors.New("quantizer not trained")
 	}
 	
+	if len(query) != pq.D {
+		return 0, fmt.Errorf("query dimension %d doesn't match quantizer dimension %d", len(query), pq.D)
+	}
+	
 	// Precompute distance table
 	distTable := pq.computeDistanceTable(query)
 	
-	// Sum distances from each subspace
-	totalDist := float32(0)
-	for m := 0; m < pq.M; m++ {
-		totalDist += distTable[m][codes[m]]
+	return pq.tableDistance(distTable, codes)
+}
+
+// tableDistance computes the distance between a code and the query of a distance table
+func (pq *ProductQuantizer) tableDistance(distTable [][]float32, codes []byte) (float32, error) {
+	if len(codes) != pq.M {
+		return 0, fmt.Errorf("codes length %d doesn't match number of subspaces %d", len(codes), pq.M)
 	}
 	
-	return totalDist, nil
+	// Sum squared distances from each subspace
+	total := float32(0)
+	for m, code := range codes {
+		if int(code) >= pq.K {
+			return 0, fmt.Errorf("invalid code %d for subspace %d", code, m)
+		}
+		total += distTable[m][code]
+	}
+	
+	return float32(math.Sqrt(float64(total))), nil
 }
 
-// computeDistanceTable precomputes distances between query and all centroids
+// computeDistanceTable precomputes squared distances between query and all centroids
 func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 	table := make([][]float32, pq.M)
 	
@@ -166,7 +192,8 @@ func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 		subquery := query[start:end]
 		
 		for k := 0; k < pq.K; k++ {
-			table[m][k] = euclideanDistance(subquery, pq.Codebooks[m][k])
+			dist := euclideanDistance(subquery, pq.Codebooks[m][k])
+			table[m][k] = dist * dist
 		}
 	}
 	
@@ -175,7 +202,7 @@ func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 
 // SearchPQ performs approximate nearest neighbor search on PQ-compressed vectors
 func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int) ([]int, []float32) {
-	if !pq.Trained || len(codes) == 0 {
+	if !pq.Trained || len(codes) == 0 || len(query) != pq.D {
 		return nil, nil
 	}
 	
@@ -188,13 +215,11 @@ func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int)
 		dist float32
 	}
 	
-	results := make([]result, len(codes))
+	results := make([]result, 0, len(codes))
 	for i, code := range codes {
-		dist := float32(0)
-		for m := 0; m < pq.M; m++ {
-			dist += distTable[m][code[m]]
+		if dist, err := pq.tableDistance(distTable, code); err == nil {
+			results = append(results, result{idx: i, dist: dist})
 		}
-		results[i] = result{idx: i, dist: dist}
 	}
 	
 	// Sort by distance
@@ -203,7 +228,7 @@ func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int)
 	})
 	
 	// Return top-K
-	k := topK
+	k := max(topK, 0)
 	if k > len(results) {
 		k = len(results)
 	}
@@ -269,15 +294,15 @@ func (pq *ProductQuantizer) DeserializeCodebooks(data []byte) error {
 	
 	offset := 0
 	
-	// Read header
-	pq.M = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
-	pq.K = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
-	pq.D = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
-	pq.SubDim = int(binary.LittleEndian.Uint32(data[offset:]))
-	offset += 4
+	// Read header; nothing changes unless it describes the data that follows
+	m, k := binary.LittleEndian.Uint32(data), binary.LittleEndian.Uint32(data[4:])
+	d, subDim := binary.LittleEndian.Uint32(data[8:]), binary.LittleEndian.Uint32(data[12:])
+	offset += 16
+	if m == 0 || k == 0 || k > 256 || subDim == 0 || uint64(m)*uint64(subDim) != uint64(d) ||
+		uint64(d)*uint64(k)*4 != uint64(len(data)-16) {
+		return errors.New("invalid codebook data")
+	}
+	pq.M, pq.K, pq.D, pq.SubDim = int(m), int(k), int(d), int(subDim)
 	
 	// Initialize codebooks
 	pq.Codebooks = make([][][]float32, pq.M)
diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index a6bef6c..23e9ecb 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -42,7 +42,12 @@ func (sq *ScalarQuantizer) Save(w io.Writer) error {
 // Load deserializes the quantizer
 func (sq *ScalarQuantizer) Load(r io.Reader) error {
 	dec := gob.NewDecoder(r)
-	return dec.Decode(sq)
+	var loaded ScalarQuantizer
+	if err := dec.Decode(&loaded); err != nil {
+		return err
+	}
+	*sq = loaded
+	return nil
 }
 
 // Train learns the value ranges from training data
@@ -51,6 +56,12 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	for _, vec := range vectors {
+		if len(vec) != sq.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), sq.Dimension)
+		}
+	}
+	
 	// Initialize min/max
 	for d := 0; d < sq.Dimension; d++ {
 		sq.Min[d] = vectors[0][d]
@@ -59,10 +70,6 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 	
 	// Find min/max for each dimension
 	for _, vec := range vectors {
-		if len(vec) != sq.Dimension {
-			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), sq.Dimension)
-		}
-		
 		for d := 0; d < sq.Dimension; d++ {
 			if vec[d] < sq.Min[d] {
 				sq.Min[d] = vec[d]
@@ -111,8 +118,8 @@ func (sq *ScalarQuantizer) Encode(vector []float32) ([]byte, error) {
 			normalized = 1
 		}
 		
-		// Quantize
-		quantized := uint32(normalized * maxVal)
+		// Quantize to the nearest level
+		quantized := uint32(normalized*maxVal + 0.5)
 		
 		// Pack bits
 		for b := 0; b < sq.NBits; b++ {
@@ -197,7 +204,12 @@ func (bq *BinaryQuantizer) Save(w io.Writer) error {
 // Load deserializes the quantizer
 func (bq *BinaryQuantizer) Load(r io.Reader) error {
 	dec := gob.NewDecoder(r)
-	return dec.Decode(bq)
+	var loaded BinaryQuantizer
+	if err := dec.Decode(&loaded); err != nil {
+		return err
+	}
+	*bq = loaded
+	return nil
 }
 
 // Train learns thresholds from training data
@@ -302,11 +314,10 @@ func (bq *BinaryQuantizer) SearchBinary(query []byte, database [][]byte, topK in
 		dist int
 	}
 	
-	results := make([]result, len(database))
+	results := make([]result, 0, len(database))
 	for i, vec := range database {
-		results[i] = result{
-			idx:  i,
-			dist: bq.HammingDistance(query, vec),
+		if dist := bq.HammingDistance(query, vec); dist >= 0 { // lengths match
+			results = append(results, result{idx: i, dist: dist})
 		}
 	}
 	
@@ -320,7 +331,7 @@ func (bq *BinaryQuantizer) SearchBinary(query []byte, database [][]byte, topK in
 	}
 	
 	// Return top-K
-	k := topK
+	k := max(topK, 0)
 	if k > len(results) {
 		k = len(results)
 	}
-- 
2.43.0


From cd142a3c55b624c5866d446dcd83a2fe47376c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 37/46] fix: quantizer training and automatic saves hold the
 store's locks, and retraining re-encodes the index

---
 pkg/core/store_close.go |  6 ++++++
 pkg/core/store_crud.go  | 38 +++++++++++++++++++-------------------
 pkg/core/store_index.go | 26 ++++++++++++++++++++++----
 3 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/pkg/core/store_close.go b/pkg/core/store_close.go
index 86ddcc2..5572ff6 100644
--- a/pkg/core/store_close.go
+++ b/pkg/core/store_close.go
@@ -26,6 +26,12 @@ func (s *SQLiteStore) Close() error {
 
 	s.closed = true
 
+	s.saveMu.Lock()
+	if s.saveTimer != nil {
+		s.saveTimer.Stop()
+	}
+	s.saveMu.Unlock()
+
 	if s.db != nil {
 		if err := s.db.Close(); err != nil {
 			return err
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index d650357..66a2166 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -41,22 +41,6 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 		}()
 	}
 
-	// Auto-train quantizer if not trained
-	if s.quantizer != nil {
-		trained := false
-		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-			trained = sq.Trained
-		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-			trained = bq.Trained
-		}
-
-		if !trained {
-			if err := s.TrainQuantizer(ctx); err != nil {
-				s.logger.Warn("failed to auto-train quantizer", "error", err)
-			}
-		}
-	}
-
 	// Handle dimension mismatch
 	if incomingDim != currentDim {
 		adaptedVector, err := adapter.AdaptVector(emb.Vector, incomingDim, currentDim)
@@ -87,6 +71,22 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) (err error) {
 	s.writeMu.Lock()
 	defer s.writeMu.Unlock()
 
+	// Auto-train quantizer if not trained
+	if s.quantizer != nil {
+		trained := false
+		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
+			trained = sq.Trained
+		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
+			trained = bq.Trained
+		}
+
+		if !trained {
+			if err := s.trainQuantizer(ctx); err != nil {
+				s.logger.Warn("failed to auto-train quantizer", "error", err)
+			}
+		}
+	}
+
 	// Determine collection ID
 	collectionID := emb.CollectionID
 	if collectionID == 0 {
@@ -254,6 +254,9 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err e
 		}
 	}
 
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
 	// Auto-train quantizer if not trained
 	if s.quantizer != nil {
 		trained := false
@@ -281,9 +284,6 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) (err e
 		}
 	}
 
-	s.writeMu.Lock()
-	defer s.writeMu.Unlock()
-
 	// Start transaction
 	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index 801ac3f..55f4f33 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -63,7 +63,7 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 
 	// If quantization enabled but not loaded from snapshot, we need to train it before rebuilding
 	if s.quantizer != nil && !loaded {
-		if err := s.TrainQuantizer(ctx); err != nil {
+		if err := s.trainQuantizer(ctx); err != nil {
 			s.logger.Warn("failed to train quantizer", "error", err)
 		}
 	}
@@ -424,10 +424,25 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 
 // TrainQuantizer trains the quantizer on existing vectors
 func (s *SQLiteStore) TrainQuantizer(ctx context.Context) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return wrapError("train_quantizer", ErrStoreClosed)
+	}
 	if s.quantizer == nil {
 		return nil
 	}
+	if err := s.trainQuantizer(ctx); err != nil {
+		return err
+	}
+	// The codes in the index were made with the old ranges
+	return s.reconcileIndexes(ctx)
+}
 
+// trainQuantizer trains the quantizer; the caller holds mu, or writeMu before
+// anything is encoded
+func (s *SQLiteStore) trainQuantizer(ctx context.Context) error {
 	s.logger.Info("training quantizer")
 
 	// Sample up to 1000 vectors for training
@@ -584,23 +599,25 @@ func (s *SQLiteStore) startAutoSave() {
 		interval = 5 * time.Minute // Default 5 minutes
 	}
 
+	s.saveMu.Lock()
 	s.saveTimer = time.AfterFunc(interval, func() {
 		s.autoSaveLoop()
 	})
+	s.saveMu.Unlock()
 	s.logger.Info("auto-save started", "interval", interval)
 }
 
 // autoSaveLoop runs the periodic save loop
 func (s *SQLiteStore) autoSaveLoop() {
 	s.mu.RLock()
-	closed := s.closed
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
 
-	if closed {
+	if s.closed {
 		return
 	}
 
 	// Try to save snapshot
+	s.writeMu.Lock() // the quantizer saved with the index must be the one it was built with
 	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
 	if err := s.saveIndexSnapshot(ctx); err != nil {
 		s.logger.Warn("auto-save failed", "error", err)
@@ -608,6 +625,7 @@ func (s *SQLiteStore) autoSaveLoop() {
 		s.logger.Debug("auto-save completed")
 	}
 	cancel()
+	s.writeMu.Unlock()
 
 	// Schedule next save
 	s.saveMu.Lock()
-- 
2.43.0


From 8ccab325f3cccfc173c7432964181618bfbcd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 38/46] fix: enabling the graph's HNSW index is safe while
 searches run

---
 pkg/graph/graph.go        | 17 ++++++++++-------
 pkg/graph/graph_hnsw.go   | 12 +++++++-----
 pkg/graph/graph_hybrid.go |  4 ++--
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index 3344f38..462e622 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -9,6 +9,7 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -79,8 +80,8 @@ type HybridResult struct {
 type GraphStore struct {
 	store     *core.SQLiteStore
 	db        *sql.DB
-	hnswIndex *HNSWGraphIndex // HNSW index for fast vector search
-	indexMu   sync.Mutex      // Keeps a node's database write and index update together
+	hnswIndex atomic.Pointer[HNSWGraphIndex] // HNSW index for fast vector search
+	indexMu   sync.Mutex                     // Keeps a node's database write and index update together
 }
 
 // NewGraphStore creates a new graph store from a SQLite store
@@ -191,20 +192,22 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 
 // indexNode brings the HNSW index, if enabled, in line with a written node; indexMu is held
 func (g *GraphStore) indexNode(node *GraphNode) error {
-	if g.hnswIndex == nil {
+	hnswIndex := g.hnswIndex.Load()
+	if hnswIndex == nil {
 		return nil
 	}
-	g.hnswIndex.index.Remove(node.ID)
-	return g.hnswIndex.index.Add(node.ID, append([]float32(nil), node.Vector...))
+	hnswIndex.index.Remove(node.ID)
+	return hnswIndex.index.Add(node.ID, append([]float32(nil), node.Vector...))
 }
 
 // unindexNodes removes deleted nodes from the HNSW index, if enabled; indexMu is held
 func (g *GraphStore) unindexNodes(nodeIDs []string) {
-	if g.hnswIndex == nil {
+	hnswIndex := g.hnswIndex.Load()
+	if hnswIndex == nil {
 		return
 	}
 	for _, nodeID := range nodeIDs {
-		g.hnswIndex.index.Remove(nodeID)
+		hnswIndex.index.Remove(nodeID)
 	}
 }
 
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 27bdb8f..248f3c8 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -325,7 +325,7 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 		return fmt.Errorf("failed to read existing nodes: %w", err)
 	}
 
-	g.hnswIndex = hnswIndex
+	g.hnswIndex.Store(hnswIndex)
 	return nil
 }
 
@@ -340,11 +340,12 @@ func (g *GraphStore) candidateNodes(ctx context.Context, candidates []searchCand
 
 // HNSWSearch performs HNSW-accelerated vector search
 func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, threshold float64) ([]*HybridResult, error) {
-	if g.hnswIndex == nil {
+	hnswIndex := g.hnswIndex.Load()
+	if hnswIndex == nil {
 		return nil, fmt.Errorf("HNSW index not enabled")
 	}
 
-	candidates := g.hnswIndex.index.Search(query, k*2)
+	candidates := hnswIndex.index.Search(query, k*2)
 	results := make([]*HybridResult, 0, k)
 
 	// Get full node data
@@ -374,13 +375,14 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 
 // HNSWHybridSearch combines HNSW search with graph proximity
 func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) ([]*HybridResult, error) {
-	if g.hnswIndex == nil {
+	hnswIndex := g.hnswIndex.Load()
+	if hnswIndex == nil {
 		// Fall back to regular hybrid search
 		return g.HybridSearch(ctx, query)
 	}
 
 	// Get HNSW candidates
-	candidates := g.hnswIndex.index.Search(query.Vector, query.TopK*3)
+	candidates := hnswIndex.index.Search(query.Vector, query.TopK*3)
 	results := make([]*HybridResult, 0, query.TopK)
 
 	nodesByID, err := g.candidateNodes(ctx, candidates)
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index ca58ab6..39e654b 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -315,13 +315,13 @@ type graphDistance struct {
 }
 
 func (g *GraphStore) vectorCandidates(ctx context.Context, query *HybridQuery) ([]*GraphNode, error) {
-	if g.hnswIndex != nil && query.TopK > 0 {
+	if hnswIndex := g.hnswIndex.Load(); hnswIndex != nil && query.TopK > 0 {
 		candidateLimit := query.TopK * 5
 		if candidateLimit < 50 {
 			candidateLimit = 50
 		}
 
-		candidates := g.hnswIndex.index.Search(query.Vector, candidateLimit)
+		candidates := hnswIndex.index.Search(query.Vector, candidateLimit)
 		nodeIDs := make([]string, 0, len(candidates))
 		for _, candidate := range candidates {
 			nodeIDs = append(nodeIDs, candidate.nodeID)
-- 
2.43.0


From cf261d7a5a1afedcdff16e55032e17026cd750e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:35 +0000
Subject: [PATCH 39/46] fix: snippets of knowledge hits never cut a character
 in two

---
 pkg/cortexdb/knowledge_memory_helpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/cortexdb/knowledge_memory_helpers.go b/pkg/cortexdb/knowledge_memory_helpers.go
index 2c551af..1209e98 100644
--- a/pkg/cortexdb/knowledge_memory_helpers.go
+++ b/pkg/cortexdb/knowledge_memory_helpers.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 func compactSnippet(content string) string {
@@ -11,7 +12,11 @@ func compactSnippet(content string) string {
 	if len(content) <= 180 {
 		return content
 	}
-	return content[:177] + "..."
+	cut := 177
+	for !utf8.RuneStart(content[cut]) {
+		cut-- // never cut a character in two
+	}
+	return content[:cut] + "..."
 }
 
 func cloneStringMap(values map[string]string) map[string]string {
-- 
2.43.0


From cc771744bca41deb5840596aadb2e68edff646c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:52 +0000
Subject: [PATCH 40/46] fix: multi-vector search aggregates every queried field
 before TopK, upserts update the whole entity

---
 pkg/core/multi_vector.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index fcbced6..0bce9f7 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
@@ -70,6 +71,24 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		}
 	}()
 	
+	// Fields the entity keeps from before describe the entity as it is now
+	entityMetadata := map[string]interface{}{}
+	for k, v := range entity.Metadata {
+		entityMetadata[k] = v
+	}
+	entityMetadata["_entity_id"] = entity.ID
+	entityJSON, err := json.Marshal(entityMetadata)
+	if err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+	if _, err := tx.ExecContext(ctx, `
+		UPDATE embeddings
+		SET content = ?, metadata = json_set(?, '$._vector_field', json_extract(metadata, '$._vector_field'))
+		WHERE json_extract(metadata, '$._entity_id') = ?
+	`, entity.Content, string(entityJSON), entity.ID); err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+	
 	// Insert each vector with a composite ID
 	for fieldName, vector := range entity.Vectors {
 		compositeID := fmt.Sprintf("%s___%s", entity.ID, fieldName)
@@ -146,14 +165,11 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		}
 		
 		// Search with field-specific filter
+		// TopK limits the entities, so no field may drop any before they are aggregated
 		fieldOpts := opts.SearchOptions
-		fieldOpts.Filter = make(map[string]string) // the caller's map stays as it is
-		for k, v := range opts.Filter {
-			fieldOpts.Filter[k] = v
-		}
-		fieldOpts.Filter["_vector_field"] = fieldName
+		fieldOpts.TopK = math.MaxInt
 		
-		results, err := s.Search(ctx, queryVector, fieldOpts)
+		results, err := s.SearchWithFilter(ctx, queryVector, fieldOpts, map[string]interface{}{"_vector_field": fieldName})
 		if err != nil {
 			return nil, wrapError("search_multi_vector", err)
 		}
-- 
2.43.0


From d5023cdf9e2852d6da6e3cb7cec51efd8aebfcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:31 +0000
Subject: [PATCH 41/46] fix: graph index ranks with the store's metric and
 never shortens type-filtered hybrid results

---
 pkg/graph/graph_hnsw.go   | 1 +
 pkg/graph/graph_hybrid.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 248f3c8..c32564e 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -296,6 +296,7 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 	hnswIndex := &HNSWGraphIndex{
 		index: NewSimpleHNSW(dimensions, 16),
 	}
+	hnswIndex.index.similarity = g.store.GetSimilarityFunc() // rank as the scans do
 	
 	// Index existing nodes with vectors
 	ctx := context.Background()
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index 39e654b..4062992 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -343,7 +343,8 @@ func (g *GraphStore) vectorCandidates(ctx context.Context, query *HybridQuery) (
 			}
 			nodes = append(nodes, node)
 		}
-		if len(nodes) > 0 {
+		// Too few may be due to candidates of other types; scan all nodes then
+		if len(nodes) >= query.TopK {
 			return nodes, nil
 		}
 	}
-- 
2.43.0


From 9d98bec3c10272271a610673e563b1865b3fef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:38 +0000
Subject: [PATCH 42/46] fix: collection statistics report when the last row was
 inserted

---
 pkg/core/collections.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index e6857a8..3094442 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -316,7 +316,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	// Get last inserted timestamp if any embeddings exist
 	if stats.Count > 0 {
 		err = s.db.QueryRowContext(ctx, `
-			SELECT MAX(created_at) FROM embeddings WHERE collection_id = ?
+			SELECT created_at FROM embeddings WHERE collection_id = ? ORDER BY created_at DESC LIMIT 1
 		`, collection.ID).Scan(&stats.LastInsertedAt)
 		if err != nil {
 			// Don't fail for this
-- 
2.43.0


From ea1a6b8bb2fac41808c7b6353e9c9c959e31ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:23 +0000
Subject: [PATCH 43/46] fix: a dump or index export that fails leaves an
 earlier file in place

---
 pkg/core/io.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index 8553684..754e869 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -383,16 +383,25 @@ func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding
 
 // DumpToFile exports data to a file
 func (s *SQLiteStore) DumpToFile(ctx context.Context, filepath string, opts DumpOptions) (*DumpStats, error) {
-	file, err := os.Create(filepath)
+	// Write beside the target, so that a dump that fails leaves an earlier one alone
+	partial := filepath + ".partial"
+	file, err := os.Create(partial)
 	if err != nil {
 		return nil, wrapError("dump_to_file", fmt.Errorf("failed to create file: %w", err))
 	}
-	defer func() { _ = file.Close() }()
 
 	stats, err := s.Dump(ctx, file, opts)
+	if closeErr := file.Close(); err == nil && closeErr != nil {
+		err = wrapError("dump_to_file", fmt.Errorf("failed to write file: %w", closeErr))
+	}
+	if err == nil {
+		if renameErr := os.Rename(partial, filepath); renameErr != nil {
+			err = wrapError("dump_to_file", fmt.Errorf("failed to replace file: %w", renameErr))
+		}
+	}
 	if err != nil {
 		// Remove partial file on error
-		_ = os.Remove(filepath)
+		_ = os.Remove(partial)
 		return nil, err
 	}
 
@@ -419,6 +428,10 @@ func (s *SQLiteStore) ExportIndex(ctx context.Context, filepath string) error {
 		return wrapError("export_index", ErrStoreClosed)
 	}
 
+	if s.hnswIndex == nil && s.ivfIndex == nil {
+		return wrapError("export_index", fmt.Errorf("no index to export"))
+	}
+
 	file, err := os.Create(filepath)
 	if err != nil {
 		return wrapError("export_index", fmt.Errorf("failed to create file: %w", err))
-- 
2.43.0


From 1feb3a01577e4f83927e547062bcaf35a0b1f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:05 +0000
Subject: [PATCH 44/46] fix: entities with a type of their own are listed with
 their chunks

---
 pkg/cortexdb/graphrag.go       | 14 ++++++++++----
 pkg/cortexdb/graphrag_tools.go |  8 ++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 2b62f1a..71a07e7 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -509,10 +509,10 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 		}
 
 		for _, neighbor := range neighbors {
-			switch neighbor.NodeType {
-			case "entity":
+			switch {
+			case isEntityNode(neighbor):
 				entitySet[neighbor.Content] = struct{}{}
-			case "chunk":
+			case neighbor.NodeType == "chunk":
 				if _, isSeed := seedIDs[neighbor.ID]; isSeed {
 					continue
 				}
@@ -565,7 +565,7 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 		neighbors, err := db.graph.Neighbors(ctx, chunkID, graph.TraversalOptions{
 			MaxDepth:  1,
 			Direction: "both",
-			NodeTypes: []string{"entity"},
+			EdgeTypes: []string{"mentions"},
 			Limit:     16,
 		})
 		if err != nil {
@@ -794,6 +794,12 @@ func graphEntityNodeID(name string) string {
 	return "entity:" + id
 }
 
+// isEntityNode reports whether a graph node is an entity, whatever type the
+// extractor gave it.
+func isEntityNode(node *graph.GraphNode) bool {
+	return node.NodeType == "entity" || strings.HasPrefix(node.ID, "entity:")
+}
+
 func buildGraphRAGContext(chunks []GraphRAGChunkResult) string {
 	if len(chunks) == 0 {
 		return ""
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 18aeccb..b60b6d6 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -1118,10 +1118,10 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			return nil, err
 		}
 		for _, node := range neighbors {
-			switch node.NodeType {
-			case "entity":
+			switch {
+			case isEntityNode(node):
 				entitySet[node.Content] = struct{}{}
-			case "chunk":
+			case node.NodeType == "chunk":
 				if ok, err := t.db.inCollection(ctx, node.ID, opts.Collection); err != nil {
 					return nil, err
 				} else if !ok {
@@ -1271,7 +1271,7 @@ func (t *GraphRAGToolbox) getChunkEntityNames(ctx context.Context, chunkID strin
 	neighbors, err := t.db.graph.Neighbors(ctx, chunkID, graph.TraversalOptions{
 		MaxDepth:  1,
 		Direction: "both",
-		NodeTypes: []string{"entity"},
+		EdgeTypes: []string{"mentions"},
 		Limit:     32,
 	})
 	if err != nil {
-- 
2.43.0


From f24290a04ec595fc4be7a84b27d37728bb37a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:05 +0000
Subject: [PATCH 45/46] fix: re-ingesting a document replaces its mentions and
 relationships, unknown relationship ends are refused before writing

---
 pkg/cortexdb/graphrag.go | 51 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 71a07e7..5afe34e 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -341,6 +341,14 @@ func (db *DB) prepareGraphDocument(ctx context.Context, doc GraphRAGDocument, op
 		sort.Strings(keys)
 		for _, key := range keys {
 			rel := relationshipKeys[key]
+			for _, id := range []string{rel.FromNodeID, rel.ToNodeID} {
+				if _, ok := entityTexts[id]; ok {
+					continue
+				}
+				if _, err := db.graph.GetNode(ctx, id); err != nil {
+					return nil, fmt.Errorf("relationship to unknown entity %s: %w", id, err)
+				}
+			}
 			relCopy := rel
 			edges = append(edges, &relCopy)
 		}
@@ -387,6 +395,9 @@ func (db *DB) writeGraphDocument(ctx context.Context, p *preparedGraphDocument)
 			return nil, fmt.Errorf("upsert entity nodes: %w", err)
 		}
 	}
+	if err := db.removeStaleLinks(ctx, p.record.ID, p.edges); err != nil {
+		return nil, err
+	}
 	if len(p.edges) > 0 {
 		if err := batchError(db.graph.UpsertEdgesBatch(ctx, p.edges)); err != nil {
 			return nil, fmt.Errorf("upsert graph edges: %w", err)
@@ -428,6 +439,46 @@ func (db *DB) removeStaleChunks(ctx context.Context, documentID string, keep []s
 	return nil
 }
 
+// removeStaleLinks deletes the mentions and relationships that an earlier version of a
+// document was extracted to and the current one is not.
+func (db *DB) removeStaleLinks(ctx context.Context, documentID string, keep []*graph.GraphEdge) error {
+	current := make(map[string]struct{}, len(keep))
+	for _, edge := range keep {
+		current[edge.ID] = struct{}{}
+	}
+	rows, err := db.store.GetDB().QueryContext(ctx, `
+		SELECT id FROM graph_edges
+		WHERE (edge_type = 'mentions' AND from_node_id IN (SELECT id FROM embeddings WHERE doc_id = ?))
+		   OR CASE WHEN json_valid(properties)
+		      THEN json_extract(properties, '$.document_id') = ? AND json_extract(properties, '$.source_chunk_id') IS NOT NULL
+		      END`,
+		documentID, documentID)
+	if err != nil {
+		return fmt.Errorf("list document links: %w", err)
+	}
+	defer rows.Close()
+	var stale []string
+	for rows.Next() {
+		var id string
+		if err := rows.Scan(&id); err != nil {
+			return fmt.Errorf("list document links: %w", err)
+		}
+		if _, ok := current[id]; !ok {
+			stale = append(stale, id)
+		}
+	}
+	if err := rows.Err(); err != nil {
+		return fmt.Errorf("list document links: %w", err)
+	}
+	if len(stale) == 0 {
+		return nil
+	}
+	if err := batchError(db.graph.DeleteEdgesBatch(ctx, stale)); err != nil {
+		return fmt.Errorf("delete stale links: %w", err)
+	}
+	return nil
+}
+
 // batchError turns items that a graph batch could not write into an error.
 func batchError(result *graph.BatchResult, err error) error {
 	if err != nil {
-- 
2.43.0


From c32a10e2f1c2fc9df77c1b36a74730dd6e1ee303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 46/46] fix: SearchWithFilter matches large and whole numbers
 by the text metadata holds

---
 pkg/core/advanced_filter.go |  2 ++
 pkg/core/store_search.go    | 16 +++-------------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 05b9908..e48300f 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -396,6 +396,8 @@ func metadataText(v interface{}) interface{} {
 		return strconv.FormatBool(x)
 	case string, nil:
 		return v
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
+		return fmt.Sprint(x) // exact, where a float64 would round large numbers
 	}
 	if f, ok := toFloat64(v); ok {
 		return strconv.FormatFloat(f, 'f', -1, 64)
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 3696b19..7389dd8 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -577,19 +577,9 @@ func (s *SQLiteStore) compareMetadataValues(actual, expected interface{}) bool {
 			return actualStr == expectedStr
 		}
 
-		// Handle numeric comparisons by converting expected value to string
-		if expectedInt, ok := expected.(int); ok {
-			return actualStr == fmt.Sprintf("%d", expectedInt)
-		}
-
-		if expectedFloat, ok := expected.(float64); ok {
-			return actualStr == fmt.Sprintf("%g", expectedFloat)
-		}
-
-		// Handle boolean comparison by converting expected value to string
-		if expectedBool, ok := expected.(bool); ok {
-			return actualStr == fmt.Sprintf("%t", expectedBool)
-		}
+		// Handle numbers and booleans by converting the expected value to the text
+		// metadata holds, as the other filters do
+		return metadataText(expected) == actualStr
 	}
 
 	// Handle numeric comparisons when actual is numeric
-- 
2.43.0

