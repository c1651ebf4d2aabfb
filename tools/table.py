NOT_APPLICABLE = []
PROPS = [
 dict(id='C01', title='CRUD read-back: reads reflect exactly the acknowledged writes',
  statement='After any sequence of embedding, document and collection writes, every read (by id, by document, by type, listings, counts, statistics, collection listing) returns exactly the rows the acknowledged writes leave behind, with the vector, content, document, collection, metadata and ACL last written for each id. An operation that reports an error changes nothing, and an operation that must be refused (missing id, unknown collection or document, wrong dimension, duplicate) is refused.',
  over=['histories', 'inputs'], quant='every sequence of up to 3 (quick) or 4 (thorough) operations over 23 operations on 3 ids, 2 documents, 2 collections, including reopening the store',
  why='The existing tests run a few fixed sequences; interactions such as delete/recreate, collection drop followed by re-creation, cascade deletes or a failed batch in the middle need the product of operations.',
  files=['pkg/core/store_crud.go', 'pkg/core/store_query.go', 'pkg/core/collections.go', 'pkg/core/document.go'],
  mech=[('INSERT OR REPLACE and DELETE statements', 'pkg/core/store_crud.go'), ('foreign keys with ON DELETE CASCADE', 'pkg/core/store_init.go')],
  technique='explicit-state exploration of operation sequences on the real store against a reference model',
  note='Exhaustive over the stated sequences; trusts SQLite itself and the map-based reference model.'),
 dict(id='C02', title='Vector search returns exactly the brute-force top-k',
  statement='For every history of writes, deletes, clears and reopenings and for every query, a vector search returns no deleted, duplicate or non-matching row, reports each row with its current contents and its true similarity, sorts by score, and returns the k best rows that satisfy the collection, document, metadata and threshold restrictions. This holds without an index and with the HNSW index (cosine) or a trained IVF index whose probe covers the data.',
  over=['histories', 'inputs', 'configurations'], quant='every sequence of up to 3/4 operations from an 11-operation alphabet, for linear, HNSW (all scripted level draws), IVF and flat stores, each followed by a grid of queries (vectors, k, threshold, collection, filters)',
  why='Index maintenance bugs need a particular order of re-upsert, delete, clear and restart; the tests insert once and query once.',
  files=['pkg/core/store_search.go', 'pkg/core/store_index.go', 'pkg/core/similarity.go', 'pkg/index/hnsw.go', 'pkg/index/ivf.go'],
  mech=[('searchWithHNSW, searchWithIVF, searchLinear', 'pkg/core/store_search.go'), ('index updates after each write', 'pkg/core/store_crud.go')],
  technique='explicit-state exploration of operation sequences on the real store against a brute-force oracle',
  note='Exhaustive over the stated sequences, query grid and level draws; scores compared within 1e-5.'),
 dict(id='C03', title='Crash durability: a restart finds exactly the acknowledged writes',
  statement='Whatever instant the process or machine stops during a history of embedding, document, collection, chat and index-snapshot writes, reopening the database succeeds and shows every write acknowledged before the stop, none of a write that was not started, and each interrupted operation either completely or not at all (a batch, a collection or document deletion, a clear). Searches after the restart agree with the recovered rows, also with an HNSW or IVF index.',
  over=['crash points', 'histories'], quant='every prefix of the file-write log of each history, plus torn last pages/records',
  why='The tests never stop a process in the middle of an operation; atomicity of multi-statement operations is visible only at specific crash points.',
  files=['pkg/core/store_init.go', 'pkg/core/store_crud.go', 'pkg/core/collections.go', 'pkg/core/store_index.go'],
  mech=[('transactions around multi-row writes', 'pkg/core/store_crud.go'), ('WAL journal, synchronous setting', 'pkg/core/store_init.go'), ('index rebuild or snapshot load at open', 'pkg/core/store_index.go')],
  technique='exhaustive enumeration of crash points and torn writes of recorded histories of the real store',
  note='Crash images are prefixes of the recorded write sequence and torn final log writes; no reordering of synced writes is modelled.'),
 dict(id='C04', title='A failed operation changes nothing and a failed read is reported',
  statement='If the storage engine reports an error at any statement, transaction start, commit or row fetch inside an operation, the operation returns an error and leaves rows, documents, collections, chat history and indexes as they were, so that a later search and a retry see the old state; a read never passes off a partial answer as complete. An operation that returns success has taken effect in full.',
  over=['faults', 'histories'], quant='an error injected at every storage call of every operation (36 writes and reads), in several starting states and index configurations',
  why='The tests run on a healthy database; each error branch is an untested path.',
  files=['pkg/core/store_crud.go', 'pkg/core/store_query.go', 'pkg/core/store_search.go', 'pkg/core/collections.go', 'pkg/core/document.go', 'pkg/core/chat.go'],
  mech=[('rollback on error', 'pkg/core/store_crud.go'), ('rows.Err checks', 'pkg/core/store_query.go'), ('index update after commit', 'pkg/core/store_crud.go')],
  technique='exhaustive fault injection: every storage call of every operation fails once, on the real store',
  note='One fault per execution; faults are injected at the database/sql driver boundary. Load, hybrid search, streaming search and size statistics are outside.'),
 dict(id='C05', title='Keyword and hybrid search track the stored text exactly',
  statement='After any history of writes, updates, deletes, clears, collection and document deletions and reopenings, a keyword search returns exactly the rows whose current text contains the query words (within the requested collection and filters), and a hybrid search returns the reciprocal-rank fusion of the vector ranking and the keyword ranking. No deleted or overwritten text is ever found, and no stored text is missed.',
  over=['histories', 'inputs'], quant='every sequence of up to 3/4 operations on texts, followed by all keyword queries over the vocabulary and hybrid queries',
  why='The text index is kept in step by triggers and rebuilds; drift appears only after particular sequences of replace and delete.',
  files=['pkg/core/store_init.go', 'pkg/core/advanced_search.go', 'pkg/core/store_crud.go'],
  mech=[('FTS triggers', 'pkg/core/store_init.go'), ('HybridSearch fusion', 'pkg/core/advanced_search.go')],
  technique='explicit-state exploration of operation sequences on the real store against a reference text matcher and fusion',
  note='Single-word vocabulary plus multi-word queries; vector ties are resolved either way.'),
 dict(id='C06', title='Collection isolation: no search leaves its collection',
  statement='Every search entry point (plain, filtered, advanced filter, ACL, keyword and hybrid, range, faceted, streaming, diversity, negative examples, recommendation, anomalies, aggregation) restricted to a collection, a document or a metadata filter returns every row in that scope and no row outside it, whatever the placement of rows, after moving rows between collections, dropping and re-creating collections, deleting documents and reopening, with and without an index.',
  over=['histories', 'inputs', 'configurations'], quant='every placement of four rows into three collections, times collection operations, times all search entry points, scopes and filters',
  why='There are over twenty search entry points, each building its own SQL or filtering in memory; the tests cover a few with one collection.',
  files=['pkg/core/store_search.go', 'pkg/core/advanced_search.go', 'pkg/core/advanced_filter.go', 'pkg/core/faceted_search.go', 'pkg/core/streaming.go'],
  mech=[('fetchCandidates and the per-API WHERE clauses', 'pkg/core/store_search.go')],
  technique='exhaustive enumeration of placements and operations on the real store against a set oracle',
  note='Exhaustive over the stated placements; TopK large, so ranking is left to C02.'),
 dict(id='C07', title='ACL searches return exactly the rows the caller may see',
  statement='A search with access control returns a row only when the row is public (no list of its own and none on its document) or its effective list (its own, else its document\'s) names one of the caller\'s principals verbatim, and every such row is eligible; a caller without principals sees public rows only; ranking, top-k, threshold, collection and metadata restrictions apply after access is decided. This holds after every change of a list: re-upsert, batch, document update or deletion, moving a row to another document, export and import, reopening.',
  over=['histories', 'inputs'], quant='every pair of rows over 12 own and 5 document access lists, every sequence of up to 3/4 list-changing operations, times all principal sets of the grid and 5 option sets',
  why='Tests use one user and one list; leaks need particular pairs such as prefix names, wildcard characters, empty lists or a document list changed after the row was written.',
  files=['pkg/core/advanced_search.go', 'pkg/core/store_search.go', 'pkg/core/store_crud.go', 'pkg/core/document.go', 'pkg/core/io.go'],
  mech=[('ACL condition over acl columns of row and document', 'pkg/core/store_search.go')],
  technique='exhaustive enumeration of access lists, principals and list-changing histories on the real store against a reference rule',
  note='Exhaustive over the stated lists and sequences; principal names include LIKE wildcards, quotes and prefixes of each other.'),
 dict(id='C08', title='Metadata filters select exactly the rows that satisfy them',
  statement='For every filter expression (equality, inequality, ordering, ranges, IN, LIKE/contains, existence, NOT, AND, OR, nested) every way of applying it - search pre-filter, post-filter, filter string, filter builder, export filter, plain key/value filters, DeleteByFilter - selects exactly the rows on which the expression is true, with missing keys, numbers, booleans, empty strings and special characters treated the same way everywhere. DeleteByFilter removes exactly those rows and nothing else.',
  over=['inputs'], quant='every expression of a grammar (all leaves over a value grid, NOT, AND/OR of two, all three-leaf shapes over a reduced set) times 20 metadata rows',
  why='The tests evaluate a dozen expressions; SQL precedence, NULL logic and typing differ between the SQL and the in-memory evaluator only for particular combinations.',
  files=['pkg/core/advanced_filter.go', 'pkg/core/store_search.go', 'pkg/core/store_crud.go'],
  mech=[('FilterExpression to SQL', 'pkg/core/advanced_filter.go'), ('DeleteByFilter', 'pkg/core/store_crud.go')],
  technique='exhaustive enumeration of filter expressions on the real store against a reference evaluator',
  note='Exhaustive over the grammar; keys containing a double quote are outside.'),
 dict(id='C10', title='Chat history is complete, ordered and private to its session and user',
  statement='Every acknowledged session and message is returned unchanged; a session history lists exactly that session\'s messages in order of arrival, the limit keeps the newest; messages for unknown sessions and duplicate ids are refused; semantic and keyword searches over messages return only matching messages of the requested session or user, never another user\'s and never the excluded session, best first, and in full up to the limit. This holds across reopening.',
  over=['histories', 'inputs'], quant='every sequence of up to 3/4 chat operations with clock ticks from 0 ns to seconds, then all reads at all limits',
  why='Tests use one user with well-separated timestamps; order and isolation fail only with equal timestamps, shared words or several users.',
  files=['pkg/core/chat.go'],
  mech=[('sessions and messages tables', 'pkg/core/store_init.go'), ('history and search queries', 'pkg/core/chat.go')],
  technique='explicit-state exploration of chat operation sequences on the real store, with a controlled clock, against a list model',
  note='Exhaustive over the stated sequences; the clock is scripted.'),
 dict(id='C11', title='Export, import, backup and index files reproduce the store',
  statement='Exporting a store (JSON, JSONL, CSV) and importing the result into another store, or opening a backup, yields the same rows: ids, vectors, content, documents, collections, metadata and access lists. A filtered export contains exactly the matching rows. Import without replacement keeps existing rows and reports them as skipped, with replacement overwrites them; the reported counts are true; a truncated or malformed file is reported as an error. Importing an index file never makes a search disagree with the rows.',
  over=['histories', 'inputs', 'faults'], quant='every sequence of up to 3/4 writes, all formats and options, exports of up to 257 rows under every import option, every truncation point of an export, index export/import around every later write',
  why='Round trips are tested with one or two plain rows; loss appears for particular values, containers or stale index files.',
  files=['pkg/core/io.go', 'pkg/core/store_index.go', 'pkg/core/store.go'],
  mech=[('Dump and Load', 'pkg/core/io.go'), ('ExportIndex and ImportIndex', 'pkg/core/store_index.go')],
  technique='explicit-state exploration of write sequences, exported and re-imported through the real code, against a reference model',
  note='Exhaustive over the stated sequences and truncation points. Import does not create missing collections or documents; such rows count as failed.'),
 dict(id='C12', title='Every stored vector obeys the dimension policy',
  statement='A store has one dimension: configured, or fixed by the first accepted vector. Whatever the order of single and batch writes, refusals, deletions and reopenings, every stored vector has that dimension; a vector of another length is refused under the strict policy and otherwise stored as the policy defines (truncated, padded, adapted); queries follow the same rule; a refused write leaves the dimension open. Vectors with NaN or infinite components are refused.',
  over=['histories', 'inputs', 'configurations'], quant='every sequence of up to 3/4 inserts, deletions and reopenings with vectors of 1 to 4 components under five policies, fixed and automatic dimension, with and without HNSW; every arrangement of up to 5 components on 7 scales adapted to 1 to 6',
  why='Tests fix the dimension up front; the automatic dimension interacts with batches, failures and restarts.',
  files=['pkg/core/dimension.go', 'pkg/core/store_crud.go', 'pkg/core/store_init.go', 'pkg/core/store_search.go'],
  mech=[('dimension adaptation', 'pkg/core/dimension.go'), ('auto-detection', 'pkg/core/store_crud.go')],
  technique='explicit-state exploration of insert sequences on the real store against a reference policy',
  note='Random adaptation is checked with a scripted generator; empty vectors under adapting policies are outside.'),
 dict(id='C13', title='Concurrent operations behave as if run one at a time',
  statement='Whatever the interleaving of writes, deletes, collection and document operations, reads and searches issued from several goroutines on one store, each returns an outcome, and the store ends in a state, that some sequential order of the same operations would give; searches return only versions that were written, once each, and never miss a row nobody touches; no operation deadlocks, panics or fails because another one runs; and once all have returned, the vector and text indexes agree with the rows.',
  over=['schedules', 'inputs'], quant='every schedule with at most 2 (quick) or 4 (thorough) preemptions at lock and storage calls of every pair of 18 operations, plus selected triples and two-operation threads, on linear, HNSW and IVF stores',
  why='The tests start goroutines and hope; a lost index update needs one particular order of a database write and an index update.',
  files=['pkg/core/store_crud.go', 'pkg/core/store_search.go', 'pkg/core/store_index.go', 'pkg/core/collections.go', 'pkg/core/store.go'],
  mech=[('store RWMutex and write mutex', 'pkg/core/store.go'), ('SQLite transactions and busy timeout', 'pkg/core/store_init.go')],
  technique='stateless model checking: exhaustive preemption-bounded schedule exploration of the real code under a controlled scheduler, with a linearizability oracle',
  note='Interleaving granularity is lock acquisition and storage calls; data races between them are not modelled.'),
 dict(id='C14', title='Close is safe at any moment',
  statement='Close may be called at any time, several times and concurrently with any operation: each operation either takes effect in full or is refused with an error and no effect; after Close has returned every operation is refused without panic, hang or effect, and Close itself keeps returning success; a reopened store shows exactly the acknowledged writes with its indexes in step.',
  over=['schedules', 'histories'], quant='every public store operation after Close, and every schedule with up to 3/5 preemptions of every operation against one Close (1/2 preemptions for two operations or two threads), on linear, HNSW and IVF stores',
  why='Shutdown races are not reachable by sequential tests.',
  files=['pkg/core/store_close.go', 'pkg/core/store_crud.go', 'pkg/core/store_search.go', 'pkg/core/store_index.go'],
  mech=[('closed flag under the store lock', 'pkg/core/store_close.go'), ('index snapshot on close', 'pkg/core/store_index.go')],
  technique='stateless model checking: exhaustive preemption-bounded schedule exploration of the real code with Close, plus enumeration of all operations on a closed store',
  note='Interleaving granularity is lock acquisition and storage calls.'),
 dict(id='C19', title='Graph CRUD keeps exactly the acknowledged nodes and edges',
  statement='After any sequence of node and edge upserts (single, batch and mixed batch), deletions and reopenings, every graph read returns exactly the nodes and edges the acknowledged writes leave behind, with vector, content, type, weight and properties last written; no edge refers to a missing node; deleting a node removes its edges; an invalid member of a batch is reported and left out while the others are written; an operation during which the storage engine reports an error reports it and changes nothing; a read that meets a storage error reports it.',
  over=['histories', 'inputs', 'faults'], quant='every sequence of up to 3/4 operations out of 22, from an empty and a populated graph, and a fault at every storage call of every operation',
  why='Cascades, replaced edges and half-applied batches depend on the order of operations and on failures the tests never provoke.',
  files=['pkg/graph/graph.go', 'pkg/graph/graph_batch.go'],
  mech=[('node and edge upserts and deletions', 'pkg/graph/graph.go'), ('batch transactions', 'pkg/graph/graph_batch.go')],
  technique='explicit-state exploration of graph operation sequences and injected faults on the real store against a reference graph',
  note='Exhaustive over the stated sequences; one fault per execution.'),
 dict(id='C20', title='Graph traversal, paths and analytics equal their definitions',
  statement='For every graph: the neighbours of a node are exactly the nodes within the depth, direction and type restrictions, each once and never the start, and the limit truncates without inventing; a shortest path exists exactly when the target is reachable, has minimal length and consists of stored edges; Connected agrees with reachability; a subgraph is exactly the induced one; PageRank satisfies its equation and sums to one; communities partition the nodes along connectivity; statistics and predicted edges agree with the stored edges.',
  over=['inputs'], quant='every directed graph on up to 3 nodes with loops, every graph on 4 nodes with at most 3 (thorough: all 12) edges, multigraphs, 5-node graphs with 4-5/8 edges and longer shapes, with all starts, targets, directions, depths, types and limits',
  why='Tests use one or two hand-drawn graphs; cycles, self loops, parallel edges and unreachable parts matter in combination.',
  files=['pkg/graph/graph_traversal.go', 'pkg/graph/graph_algorithms.go'],
  mech=[('breadth-first traversal', 'pkg/graph/graph_traversal.go'), ('PageRank, communities, statistics', 'pkg/graph/graph_algorithms.go')],
  technique='exhaustive enumeration of small graphs and queries on the real code against reference definitions',
  note='Exhaustive up to the stated graph sizes.'),
 dict(id='C21', title='A graph export re-imported gives the same graph',
  statement='Exporting a graph in any format that can be imported and importing it into an empty store gives the same nodes and edges with the same types, contents, vectors, weights and properties, whatever characters and values they contain; importing into a populated store replaces equal ids and keeps the rest; a truncated or inconsistent file is reported as an error, never accepted silently.',
  over=['histories', 'inputs', 'faults'], quant='every sequence of up to 2/3 graph operations, a grid of awkward values, every truncation point, every missing node',
  why='Tests export simple graphs and look at the text.',
  files=['pkg/graph/graph_export.go'],
  mech=[('Export and Import', 'pkg/graph/graph_export.go')],
  technique='explicit-state exploration of graph operation sequences, exported and re-imported through the real code',
  note='Exhaustive over the stated sequences, values and truncation points.'),
 dict(id='C22', title='Graph vector and hybrid search rank exactly the stored nodes',
  statement='Hybrid, neighbourhood and similarity searches over the graph return exactly the nodes their filters and reach select, each once, with the documented score, best first and up to the limit; with the graph HNSW index enabled the results are those of a full scan after any history of upserts, deletions and reopenings, and after any interleaving of concurrent operations the index agrees with the stored nodes.',
  over=['histories', 'inputs', 'schedules'], quant='all small graphs and query grids; every sequence of up to 3 operations under every pattern of level draws; every schedule with up to 2/4 preemptions of pairs of operations',
  why='Whether the index stays in step and connected depends on the history and on random levels the tests do not control.',
  files=['pkg/graph/graph_hybrid.go', 'pkg/graph/graph_hnsw.go', 'pkg/graph/graph.go'],
  mech=[('hybrid scoring', 'pkg/graph/graph_hybrid.go'), ('HNSW maintenance', 'pkg/graph/graph_hnsw.go')],
  technique='exhaustive enumeration of graphs, histories, level draws and schedules on the real code against a full-scan oracle',
  note='Exhaustive over the stated graphs and histories; index sizes small enough that the beam covers them.'),
 dict(id='C26', title='Memories stay in their scope, expire on time and are never half-written',
  statement='A memory saved under a user, session or global scope and namespace is found by searches of exactly that scope and namespace and by no other, whatever the names; it reads back with the content, role, metadata, importance and expiry last written; a search returns the live matching memories of its scope, best first and in full up to the limit, never an expired or deleted one, and expired memories do not displace live ones. Invalid requests, failed embeddings and storage errors change nothing. Concurrent saves, updates and deletions act as if run one at a time.',
  over=['histories', 'inputs', 'faults', 'schedules'], quant='every sequence of up to 3/4 operations out of 16 with and without embedder, 167 similar bucket names pairwise, optional fields written over each other in every combination, 70 memories with every limit, every mix of 7/9 expired and live memories, a fault at every storage call, every schedule with up to 2/4 preemptions of pairs of operations',
  why='Leaks need two particular names, expiry needs a clock, lost updates need an interleaving; the tests have none of these.',
  files=['pkg/cortexdb/memory_api.go', 'pkg/cortexdb/knowledge_memory_types.go'],
  mech=[('resolveMemoryBucket, SearchMemory, expiry', 'pkg/cortexdb/memory_api.go'), ('messages and sessions tables', 'pkg/core/chat.go')],
  technique='explicit-state exploration of memory operation sequences with a scripted clock, fault injection and schedule exploration on the real code against a reference model',
  note='Exhaustive over the stated sequences; expiry is checked up to one second; saving an existing id in another scope moves it.'),
 dict(id='C25', title='Saved knowledge is found, updated and deleted as a whole',
  statement='A saved knowledge item reads back with the title, content, source, author, collection and metadata last saved or updated; its chunks and graph nodes are exactly those of its current content, whatever versions preceded it; a deleted item leaves no chunk, node or edge behind. Searches return exactly the chunks their words, embedding and graph neighbourhood reach inside the requested collection, never a chunk of an older version, of another collection or of a deleted item, and hits carry the data of their item. Every accepted change raises its version number. A refused request and a failed embedding leave the previous version in place.',
  over=['histories', 'inputs', 'faults'], quant='every sequence of up to 3/4 operations out of 15, without and with an embedder, all search modes; every refused request; an embedder failing at every call; a storage fault at every call',
  why='Stale chunks appear only after particular version sequences, lost versions only when a later step fails; the tests save once and search.',
  files=['pkg/cortexdb/knowledge_api.go', 'pkg/cortexdb/graphrag.go', 'pkg/cortexdb/graphrag_tools.go'],
  mech=[('SaveKnowledge, UpdateKnowledge, DeleteKnowledge', 'pkg/cortexdb/knowledge_api.go'), ('ingestion and search', 'pkg/cortexdb/graphrag.go')],
  technique='explicit-state exploration of knowledge operation sequences and faults on the real code against a reference model',
  note='Exhaustive over the stated sequences; a storage failure in mid-operation leaves a partly written item (known finding).'),
 dict(id='C27', title='GraphRAG tools split, link, retrieve and pack documents as documented',
  statement='Ingesting a document splits every line into windows of the requested size and overlap so that no word is lost, links the chunks in order, and replaces the chunks of an earlier version. Entities and relations are stored once however often they are sent, and a relation to an unknown entity is refused. Entity searches, graph expansion and lookups return exactly what the stored graph reaches within the hops and types asked for. A context keeps the order asked for, honours chunk, character and per-document limits, and leaves out nothing that fits. Lexical search returns exactly the chunks of its collection that match, up to the limit. Reads report storage errors.',
  over=['inputs', 'faults'], quant='all pairs of paragraph lengths up to 7/10 with all chunk sizes and overlaps, every chunk sequence of length up to 4 with all limits, all 64 mention patterns with all relations, all word combinations, entities and relations with every combination of optional fields, a fault at every storage call',
  why='Off-by-one windows, skipped chunks and unreachable neighbours need particular combinations of lengths and limits.',
  files=['pkg/cortexdb/graphrag.go', 'pkg/cortexdb/graphrag_tools.go'],
  mech=[('splitGraphRAGText, packGraphRAGContext', 'pkg/cortexdb/graphrag.go'), ('tool implementations', 'pkg/cortexdb/graphrag_tools.go')],
  technique='exhaustive enumeration of documents, mention graphs, limits and faults on the real code against reference definitions',
  note='Exhaustive over the stated inputs.'),
 dict(id='C32', title='Tool calls and the MCP server do exactly what the typed API does',
  statement='Every tool called with JSON input, directly or over an MCP session, has the effect and the answer of the corresponding typed call with the same values, for every property of every tool and every state of the database; the defined, dispatched and listed tools, their properties and required properties agree; unknown tools and malformed inputs are refused; the same search on the same data gives the same answer.',
  over=['histories', 'inputs'], quant='every sequence of up to 2/3 writing calls out of 15 followed by 40 reading calls using every property of every tool, without and with an embedder; every call with every set of up to two properties left out, on large documents and on a closed database',
  why='A mistyped property or a missed option in one of 20 tools is invisible unless that option is used and matters.',
  files=['pkg/cortexdb/graphrag_tools.go', 'pkg/cortexdb/mcp.go', 'pkg/cortexdb/knowledge_memory_types.go', 'pkg/cortexdb/knowledge_memory_tooldefs.go'],
  mech=[('Call and Definitions', 'pkg/cortexdb/graphrag_tools.go'), ('NewMCPServer', 'pkg/cortexdb/mcp.go')],
  technique='explicit-state exploration of tool call sequences on three instances of the real system, compared call by call',
  note='Exhaustive over the stated sequences; the MCP session uses the in-memory transport.'),
 dict(id='C33', title='The text API stores and finds what its embedder and words say',
  statement='Inserting a text, a batch of texts or a quick text stores exactly that text with its metadata and the vector of its embedding under its id; text search returns what the vector search of the embedded query returns and hybrid text search what hybrid search returns; text-only search returns exactly the texts containing all words of the query, up to the limit; without an embedder embedding operations are refused; a failed embedding changes nothing.',
  over=['histories', 'inputs', 'faults'], quant='every sequence of up to 3/4 operations out of 11 under every index type and without an embedder, an embedder failure at every call',
  why='Replacements, batches with empty texts and reopened indexes combine in ways single tests do not.',
  files=['pkg/cortexdb/cortexdb.go'],
  mech=[('InsertText, InsertTextBatch, SearchText, Quick', 'pkg/cortexdb/cortexdb.go')],
  technique='explicit-state exploration of text operation sequences on the real code against a reference model and the vector API',
  note='Exhaustive over the stated sequences.'),
 dict(id='C23', title='An agent memory bank recalls exactly its own memories, as retained',
  statement='Recall returns only memories of the requested bank, each as last retained (content, vector, type, entities, confidence, time, metadata): caller metadata cannot move a memory to another bank, change its type or time. Semantic recall returns the k most similar memories of the bank; temporal recall the k most similar within the inclusive time range; entity recall the k most similar that name one of the entities exactly; several strategies together return the union of what each returns alone, ranked by reciprocal rank fusion; a reranker\'s order is used as given and its failure leaves the fused order. Extracted facts stay within their bank even when two banks use the same fact id. Observations and banks (name, description, background, disposition) come back after reopening as they were created. Reflection uses only this bank\'s memories, stays within its token budget and never cuts a character. Automatic retention fires at every n-th matching message with the last messages of that session in chronological order. A storage failure is reported and changes nothing; concurrent use behaves like some sequential order.',
  over=['histories', 'inputs', 'faults', 'schedules'], quant='every sequence of 3/4 operations out of 12, every combination of recall strategies, every trigger/window/role setting over every message sequence of length 4/6, every storage fault, schedules with at most 1/2 preemptions',
  why='Leaks between banks and limits applied before conditions need particular mixtures of memories and requests.',
  files=['pkg/hindsight/hindsight.go', 'pkg/hindsight/hooks.go', 'pkg/hindsight/chat.go', 'pkg/hindsight/bank.go'],
  mech=[('Retain, Recall, Reflect, Observe, banks', 'pkg/hindsight/hindsight.go'), ('RetainFromText, hooks', 'pkg/hindsight/hooks.go'), ('AddMessage', 'pkg/hindsight/chat.go')],
  technique='explicit-state exploration of operation sequences, fault positions and schedules on the real code against a reference model',
  note='Exhaustive over the stated sequences. Memory ids are the caller\'s and global; entity names hold no comma.'),
 dict(id='C24', title='Semantic routing picks the best registered route, also after restarts',
  statement='Route returns the route with the most similar utterance under the configured similarity (best or average over utterances as configured), with its true score, and refuses a match below the threshold; routing a batch equals routing each query. The set of routes is exactly what the acknowledged Add, AddBatch and Remove calls leave, also after the router is recreated from its store with all utterances, their order and metadata; additions are all-or-none, duplicates are refused, a removed route does not come back. A failing embedder or store is reported, changes nothing and is not cached. Sparse routers (BM25, TF-IDF) score only the corpus last fitted, hybrid routing weighs dense and sparse scores by alpha, the function router extracts each parameter with its own extractor and reports exactly the required ones that are missing. Concurrent use behaves like some sequential order.',
  over=['histories', 'inputs', 'faults', 'schedules'], quant='every sequence of up to 3/4 operations over the route operations in every router mode and similarity, every failing embedder or storage call, every corpus/pair of routes in the bound, routes of up to 25 utterances, every subset of present and required parameters, schedules with at most 1/2 preemptions',
  why='Lost utterances after a restart, half-added batches and cached failures need a particular sequence or fault.',
  files=['pkg/semantic-router/router.go', 'pkg/semantic-router/hybrid.go', 'pkg/semantic-router/sparse.go', 'pkg/semantic-router/schema.go', 'pkg/semantic-router/embedder.go'],
  mech=[('Add, AddBatch, Remove, Route, loadRoutes', 'pkg/semantic-router/router.go'), ('HybridRouter', 'pkg/semantic-router/hybrid.go'), ('BM25 and TF-IDF encoders', 'pkg/semantic-router/sparse.go'), ('function parameters', 'pkg/semantic-router/schema.go'), ('CachedEmbedder', 'pkg/semantic-router/embedder.go')],
  technique='explicit-state exploration of route operation sequences, fault positions and schedules on the real code against a reference model',
  note='Exhaustive over the stated sequences; routes of equal score may be chosen in any order.'),
 dict(id='C28', title='Geo search returns exactly the points inside the requested area',
  statement='After any sequence of inserts, replacements, deletes and clears, a radius search returns exactly the current points within that great-circle distance of the centre, in km, miles or metres, sorted, each once with its current place and true distance, anywhere on the globe including poles, the antimeridian and grid cell borders; nearest-neighbour search returns the k nearest; a bounding box search returns exactly the points in the box; a polygon search exactly the points inside a simple polygon. Invalid coordinates, radii, boxes and polygons are refused. Concurrent use behaves like some sequential order.',
  over=['histories', 'inputs', 'schedules'], quant='every sequence of up to 5/6 of 12 operations, every centre and point of a 288-point grid of critical coordinates with 12 radii, every box of the grid, every simple polygon with 3-5 corners on a 3x3/4x4 lattice, schedules with at most 2/3 preemptions',
  why='A missed grid cell shows only for particular combinations of latitude, cell border and radius; a stale cell only after a replacement.',
  files=['pkg/geo/geospatial.go'],
  mech=[('Insert, Delete, SearchRadius, SearchKNN, SearchBoundingBox, SearchPolygon', 'pkg/geo/geospatial.go')],
  technique='explicit-state exploration of operation sequences and exhaustive enumeration of coordinates, boxes and polygons on the real code against brute force',
  note='Exhaustive over the stated grid; points within 1 m of the radius or on a polygon border are not judged.'),
 dict(id='C29', title='Aggregations and facets equal their definitions over the current rows',
  statement='Count, sum, average, minimum, maximum and group-by aggregations return exactly the value computed over the current rows of the collection that satisfy the metadata filters, per group when grouping fields are given, with correct counts, having-conditions, ordering and limit, for any metadata field name. A faceted search returns exactly the k best rows that satisfy all facet filters (equals, in, range, contains, prefix, exists, nested AND/OR/NOT), the collection, the metadata filter and the threshold, and its facet counts are the true numbers of rows per value in the collection. Requests missing a needed field, or naming an unknown type or order, are refused.',
  over=['histories', 'inputs'], quant='every set of up to 3 rows out of 8 kinds times about 3,000 aggregation requests, every facet filter up to one (quick) or two (thorough) nesting levels and every pair of facets, every sequence of 3/4 writes',
  why='A wrong combination of filter, group and limit is visible only for particular data.',
  files=['pkg/core/aggregations.go', 'pkg/core/faceted_search.go'],
  mech=[('Aggregate', 'pkg/core/aggregations.go'), ('SearchWithFacets', 'pkg/core/faceted_search.go')],
  technique='exhaustive enumeration of row sets, requests and write sequences on the real store against definitions evaluated on a reference model',
  note='Exhaustive over the stated rows and requests; aggregated fields are numeric, text facets have no wildcards.'),
 dict(id='C30', title='Range, diversity, negative, anomaly and reranked search match definitions',
  statement='Range search returns exactly the rows within the radius (1-cosine or Euclidean distance), nearest first. Search with negative examples and recommendation score each row by its best similarity to a positive example minus the weighted best similarity to a negative one. Anomaly search ranks by the mean distance to the five nearest rows. Diversified search is the greedy MMR selection for the given lambda, or the most relevant rows that keep the minimum distance, or a random choice among the 2k best. A reranked search is the search, then the reranker, then threshold and limit, with the original scores if so requested, and a reranker failure is reported. Each built-in reranker (normalisation, keyword boost, RRF, MMR, custom, weighted combination) computes its documented score and sorts by it. Every row returned is a stored row, once, with its contents, for cosine, dot product and Euclidean stores.',
  over=['inputs', 'configurations'], quant='every subset of up to 5/8 of eight vectors under each similarity times a grid of options; every built-in reranker on lists of up to 3/4 results',
  why='Sign errors for negative similarities and wrong pools show only for particular vector sets and metrics.',
  files=['pkg/core/advanced_search.go', 'pkg/core/faceted_search.go', 'pkg/core/reranker.go', 'pkg/core/similarity.go'],
  mech=[('SearchWithNegatives, SearchWithDiversity, RecommendSimilar, FindAnomalies', 'pkg/core/advanced_search.go'), ('RangeSearch', 'pkg/core/faceted_search.go'), ('SearchWithReranker and built-in rerankers', 'pkg/core/reranker.go')],
  technique='exhaustive enumeration of vector sets, metrics and options on the real store against the definitions',
  note='Exhaustive over the stated sets; near-ties at limits are not judged.'),
 dict(id='C31', title='Streams yield every matching row; accepted async updates are never lost',
  statement='A streamed search yields, batch by batch, exactly the rows in scope that satisfy the filter and threshold, each once with its score, sorted within its batch, stopping early only after TopK results that reach the quality threshold; a failure to read the rows is reported, not shown as an empty stream. Merged streams yield the union, and collecting top-k returns the k best distinct results (or, by design, any k above 0.9). An incremental index either refuses an update or keeps it: a search sees the latest version of every accepted update at once, within scope, filter and threshold, each id once; flushing stores the updates in order, one bad update never takes others with it, and closing returns when every accepted update is stored.',
  over=['inputs', 'histories', 'faults'], quant='every subset of eight rows times batch sizes and options; every stream of up to 4/5 results; every sequence of 4/5 asynchronous operations with ticks under control; every storage fault position',
  why='Lost updates and truncated streams need a particular order of additions, flushes and closing, or a fault.',
  files=['pkg/core/streaming.go'],
  mech=[('StreamSearch, MergeStreamResults, CollectTopKFromStream', 'pkg/core/streaming.go'), ('IncrementalIndex', 'pkg/core/streaming.go')],
  technique='exhaustive enumeration of row sets, streams, operation sequences with controlled ticks, and storage faults on the real code',
  note='Exhaustive over the stated sequences; goroutine interleavings within a stream are not enumerated; consumers keep up.'),
 dict(id='C15', title='HNSW index answers with the nearest live vectors after any history',
  statement='After any sequence of inserts, upserts, deletes, re-insertions, batch and parallel insertions, and save/load, an HNSW search returns min(k, live) distinct live ids with their true distances in ascending order (those of the quantized vector when a quantizer is set), and exactly the k nearest while the vectors fit the link lists and the search width covers them; deleted vectors are never returned and take no place of live ones, k larger than ef is still filled, and changing a slice after inserting it changes nothing. Inserting a present id and deleting an unknown one are refused. A snapshot loads to the same answers; a truncated one is refused and leaves the index as it was.',
  over=['histories', 'inputs', 'configurations', 'crash points'], quant='every sequence of 4/5 operations over five ids for each metric, tower-height pattern and quantizer, times queries, k and ef; every size, worker count and prior content of parallel builds listed; every stretch of deletions out of 60 vectors; every truncation of a snapshot',
  why='Lost links and resurrected or crowding deleted nodes need a particular order of insertions, deletions and tower heights.',
  files=['pkg/index/hnsw.go'],
  mech=[('HNSW.insert, link, searchLayer, Search, Delete', 'pkg/index/hnsw.go'), ('InsertBatchParallel', 'pkg/index/hnsw.go'), ('Save, Load', 'pkg/index/hnsw.go')],
  technique='exhaustive enumeration of operation sequences with scripted tower heights on the real index against brute force',
  note='Exhaustive over the stated sequences; exactness only where HNSW guarantees it (small sets), count and distances always.'),
 dict(id='C16', title='IVF, flat, LSH, multi and hybrid indexes agree with brute force',
  statement='After any sequence of insertions, replacements, deletions, training, retraining, clearing and save/load, the flat index returns exactly the k nearest vectors and all vectors within a radius; IVF is exact when all lists are probed and exact within the probed list otherwise, and keeps its vectors through retraining; LSH answers are independent of history (equal to a fresh index of the same vectors), always find the query itself, and more probes never lose results; all members of a multi-index hold the same vectors, an insertion refused by one is in none, a deletion reaches all, every combination strategy returns the k nearest, and reranking puts unconfirmed candidates last; a hybrid index never returns a deleted vector. Vectors and queries of another dimension are refused, a truncated snapshot is refused and harmless, and the caller may reuse its slices.',
  over=['histories', 'inputs', 'configurations', 'crash points'], quant='every sequence of 3-6 operations per index kind and configuration, times queries, k, radii and probe counts; every truncation of an IVF snapshot; every subset of vectors known to a reranking member',
  why='Stale list entries, partial insertions and wrong merges need a particular history.',
  files=['pkg/index/ivf.go', 'pkg/index/flat.go', 'pkg/index/lsh.go', 'pkg/index/multi_index.go'],
  mech=[('IVFIndex', 'pkg/index/ivf.go'), ('FlatIndex', 'pkg/index/flat.go'), ('LSHIndex', 'pkg/index/lsh.go'), ('MultiIndex, HybridIndex', 'pkg/index/multi_index.go')],
  technique='exhaustive enumeration of operation sequences on the real indexes against brute force',
  note='Exhaustive over the stated sequences and configurations.'),
 dict(id='C17', title='Quantizers reconstruct within their resolution and persist exactly',
  statement='A trained scalar quantizer of any bit width reconstructs every component, clamped to the trained range, within half a quantization step; a binary quantizer keeps for each component whether it exceeds the trained mean, and Hamming searches rank by the true bit distance; a product quantizer maps each part to its nearest codeword, and its distances and rankings are those of the decoded vectors. Encoding a decoded vector gives the same code. Codes have the fixed size. Saving and loading preserve every answer; truncated or corrupt stored forms, vectors of another size, codes that are too short, and use before training are refused without changing the quantizer.',
  over=['inputs', 'configurations', 'crash points'], quant='every pair of training vectors and every vector over a value grid for bit widths 1-8; every database of three codes out of six; product quantizers of eight shapes on 12/60 training sets; every truncation and header corruption listed',
  why='Bit packing and rounding errors show only for particular widths, dimensions and values.',
  files=['pkg/quantization/scalar_quantization.go', 'pkg/quantization/product_quantization.go'],
  mech=[('ScalarQuantizer, BinaryQuantizer', 'pkg/quantization/scalar_quantization.go'), ('ProductQuantizer', 'pkg/quantization/product_quantization.go')],
  technique='exhaustive enumeration of bounded training sets, vectors, codes and corrupted forms on the real quantizers against their definitions',
  note='Exhaustive over the stated grids; finite values only.'),
 dict(id='C18', title='Stored vectors and metadata decode to exactly what was encoded',
  statement='Every vector, bit for bit including negative zero, denormals, infinities and NaN payloads, decodes from its stored bytes to itself; the stored form is the little-endian count and values that existing databases hold; every truncation and every malformed byte string is refused or decodes to a vector whose stored form it starts with, never a panic or invented values. Metadata maps with any UTF-8 keys and values decode to themselves, with nil and empty kept apart, and malformed text is refused. Validation refuses exactly empty vectors and those with NaN or infinite components.',
  over=['inputs', 'crash points'], quant='every vector of up to 3/4 components over 16 float bit patterns and every truncation; every byte string of up to 6/8 bytes over 6 byte values; every pair of metadata entries over 18 strings',
  why='Boundary bit patterns and truncation points are not sampled by tests.',
  files=['internal/encoding/utils.go'],
  mech=[('EncodeVector, DecodeVector', 'internal/encoding/utils.go'), ('EncodeMetadata, DecodeMetadata', 'internal/encoding/utils.go'), ('ValidateVector', 'internal/encoding/utils.go')],
  technique='exhaustive enumeration of bounded inputs and truncations on the real functions',
  note='Exhaustive over the stated inputs.'),
 dict(id='C34', title='Concurrent use never accesses shared memory without synchronisation',
  statement='Whatever operations run at the same time on one open store (plain, HNSW, IVF, quantized, or still empty with its dimension unknown), graph, database, set of memory banks, router (dense, sparse, hybrid), encoder, caching embedder, or index (flat, HNSW, IVF, LSH, multi, hybrid, geo), including the store\'s own automatic saves, changes of logger, dimension policy, hooks, alpha and probes, training, import, load, clear and Close: no two of them access the same memory, one of them writing, without being ordered by a lock or an atomic access of that object. None of them deadlocks or panics.',
  over=['schedules', 'configurations'], quant='every ordered pair of the 7-66 operations of each of 24 objects, the first stopped after each of its lock and storage calls while the second runs',
  why='A missing lock shows as a crash or corrupted map only under an unlucky schedule; tests run mostly sequentially and without the race detector.',
  files=['pkg/core/store.go', 'pkg/core/store_crud.go', 'pkg/core/store_index.go', 'pkg/core/store_search.go', 'pkg/graph/graph.go', 'pkg/graph/graph_hnsw.go', 'pkg/index/hnsw.go', 'pkg/index/ivf.go', 'pkg/index/flat.go', 'pkg/index/lsh.go', 'pkg/index/multi_index.go', 'pkg/geo/geospatial.go', 'pkg/hindsight/hindsight.go', 'pkg/semantic-router/router.go', 'pkg/semantic-router/hybrid.go', 'pkg/semantic-router/sparse.go', 'pkg/cortexdb/cortexdb.go'],
  mech=[('SQLiteStore.mu, writeMu, saveMu', 'pkg/core/store.go'), ('GraphStore.indexMu, SimpleHNSW.mutex', 'pkg/graph/graph.go'), ('HNSW.mu, IVFIndex.mu, LSHIndex.mu, MultiIndex.mu', 'pkg/index/hnsw.go'), ('System.mu', 'pkg/hindsight/hindsight.go'), ('Router.mu, HybridRouter.mu', 'pkg/semantic-router/router.go')],
  technique='stateless exploration of schedules of the real code under a controlled scheduler invisible to the race detector, happens-before checked on every schedule',
  note='Exhaustive over single preemptions of every pair; streaming operations (channels) are left out.'),
 dict(id='C35', title='Multi-vector entities read back whole and rank by their aggregate',
  statement='An entity with several named vectors reads back with the content, metadata and vectors last written; a vector that a later upsert does not name keeps its value, while content and metadata change for the whole entity. A multi-vector search returns, best first and each entity once, exactly the k best entities by the chosen aggregation (maximum, minimum, sum, average, weighted) of the weighted similarities over the queried fields, whatever other fields, entities, collections and plain rows are stored. Deleting an entity removes all of its vectors and nothing else. This holds across reopening, with and without an index.',
  over=['histories', 'inputs', 'configurations'], quant='every sequence of up to 3/4 writes, deletions and reopenings of confusable entities, and every entity set over a vector grid times aggregations, weights, fields and k',
  why='An aggregate is wrong only when fields disagree in sign or rank, or when an entity is cut off in one field and not another; the tests query one entity set.',
  files=['pkg/core/multi_vector.go'],
  mech=[('UpsertMultiVector, GetMultiVector, DeleteMultiVector', 'pkg/core/multi_vector.go'), ('SearchMultiVector, aggregateScores', 'pkg/core/multi_vector.go')],
  technique='explicit-state exploration of entity operation sequences and exhaustive enumeration of entity sets and queries on the real store against a reference model',
  note='Exhaustive over the stated sequences and grids; the threshold option is not judged.'),
 dict(id='C36', title='GraphRAG ingests documents whole and retrieves the right neighbourhood',
  statement='InsertGraphDocument stores exactly the document, its chunks with their vectors and metadata, its entities (with whatever type the extractor gave them), the mentions and the relationships; ingesting a document again replaces its chunks, mentions and relationships and leaves other documents alone. A blank document, a failing embedder or extractor, or a relationship to an entity that exists nowhere is refused and changes nothing; after a storage failure, repeating the call leaves exactly what it would have left. SearchGraphRAG starts from the TopK chunks of the collection most similar to the query, and, when the retrieval mode asks for the graph (auto: when the query names something), adds the chunks within MaxHops (best seed score halved, at most MaxRelatedChunks) and lists their entities; SearchGraphRAGLexical does the same from the text and entity matches. Results are reranked by 60% similarity, 25% shared words and 15% shared entities less redundancy, packed within the chunk, character and per-document limits, and never contain a chunk of another collection. Storage and embedder errors are reported.',
  over=['inputs', 'histories', 'faults'], quant='all sequences of up to 3/4 ingestions out of 11, a fault at every storage call of ingestions and searches, 64/1024 mention patterns with all queries, modes, hops and limits',
  why='Stale links after a re-ingestion, a related chunk that should have been reached or left out, and half-refused documents need a particular history or mention pattern.',
  files=['pkg/cortexdb/graphrag.go', 'pkg/cortexdb/graphrag_tools.go'],
  mech=[('prepareGraphDocument, writeGraphDocument, removeStaleLinks', 'pkg/cortexdb/graphrag.go'), ('SearchGraphRAG, rerankGraphRAGChunks, packGraphRAGContext', 'pkg/cortexdb/graphrag.go'), ('SearchGraphRAGLexical', 'pkg/cortexdb/graphrag_tools.go')],
  technique='exhaustive enumeration of ingestion histories, mention graphs, retrieval options and storage faults on the real code against a reference model',
  note='Exhaustive over the stated histories, patterns and options.'),
]
