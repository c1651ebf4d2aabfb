# per property: oracle, cost of the quick check (8 cores), further limits
ORACLE = {
'C01': ('a map from id to row, a map of documents and of collections with cascade rules; each prefix of each sequence is compared through every read API once.', '15 s.', 'Batches of up to 700 rows with a refused member cover chunked statements.'),
'C02': ('brute force over the model rows: exact scores, exact top-k, ties free.', '20 s.', 'HNSW exactness is demanded only while the set fits its link lists (2M+1 vectors); IVF only when all lists are probed.'),
'C03': ('the model after the last acknowledged operation, or after the interrupted one; rows, documents, collections, chat and a search grid are compared after reopening every image.', '10 s.', 'The recorded write order is the order the process issued; reordering inside the kernel is bounded by the recorded fsyncs only.'),
'C04': ('the model before the operation (error) or after it (success), compared through reads and searches, and again after a retry.', '5 s.'),
'C05': ('a tokenizer-level matcher over model texts and reciprocal-rank fusion (k=60) of the two reference rankings.', '24 s.'),
'C06': ('set of model rows in scope; each entry point with a TopK above the number of rows must return exactly that set.', '55 s.', 'Names are confusable on purpose (case, LIKE wildcards, prefixes). DPP diversity may return fewer rows by design: only soundness is required of it.'),
'C07': ('the access rule of the statement evaluated on the model.', '24 s.'),
'C08': ('three-valued-free reference evaluator of the expression on each metadata map.', '6 s.'),
'C10': ('append-only list per session with scripted timestamps.', '11 s.'),
'C11': ('the model rows, documents and access lists; a second real store receives the import.', '5 s.'),
'C12': ('reference policy (truncate, pad, adapt) with scripted coins.', '23 s.'),
'C13': ('serializability: the set of (results, final state) of all sequential orders is computed by running them on the real code; each schedule must land in it; index agreement after quiescence against brute force.', '15 s.'),
'C14': ('every operation against a closed store must fail and change nothing; for schedules as C13 with Close as an operation.', '12 s.'),
'C15': ('brute-force distances over live vectors.', '10 s.'),
'C16': ('brute force; for LSH a freshly built index of the same live vectors; for IVF with few probes brute force within the list.', '8 s.'),
'C17': ('half-step error bound, means, nearest codeword, Hamming counts, and equality of all answers after save/load.', '1 s.'),
'C18': ('identity and the documented byte layout.', '1 s.'),
'C19': ('reference graph (maps of nodes and edges with cascade).', '10 s.'),
'C20': ('textbook breadth-first search, reachability, induced subgraph, power iteration, union-find.', '20-50 s.'),
'C21': ('the exported graph itself, node by node and edge by edge.', '10 s.'),
'C22': ('full scan with the documented weighting; serial executions for schedules.', '30-60 s.', 'Graph HNSW exactness up to about 100 nodes.'),
'C23': ('reference memory bank: brute-force similarity per bank, rank fusion, trigger counters.', '60-120 s.', 'Keyword recall falls back to other strategies when the text index fails, by design, and is not judged under that fault.'),
'C24': ('reference router: best/average utterance similarity, BM25 and TF-IDF formulas, fusion by alpha.', '15-40 s.'),
'C25': ('map of items; expected chunks from a reference splitter; expected hits by words, embedding and graph distance.', '40 s.'),
'C26': ('map of memories with scope, namespace and expiry under the scripted clock.', '30-60 s.'),
'C36': ('reference document, entity and graph model; reference seeds, expansion, reranking and packing.', '60 s.'),
'C27': ('reference splitter, packer, graph expansion and word matcher.', '12 s.'),
'C28': ('haversine over all current points; exact box arithmetic; ray casting for polygons.', '6 s.'),
'C29': ('the definitions evaluated over model rows.', '15 s.'),
'C30': ('the definitions evaluated over model rows for three similarities.', '10 s.'),
'C31': ('set of matching rows; list of accepted updates.', '4 s.', 'Channels and goroutines of a stream run freely; only the observable sequence is judged.'),
'C32': ('three instances: typed API, JSON tool call, MCP session; compared call by call.', '8 s.'),
'C33': ('map of texts; the vector API on the same embedding for searches.', '9 s.'),
'C34': ('the race runtime of the Go toolchain reports unordered accesses on each enumerated schedule.', '60 s.', 'The race runtime judges one schedule at a time; the enumeration supplies all schedules of the bound. `RegexExtractor` has no lock and claims no concurrent use, so it is left out.'),
'C35': ('map of entities; aggregate of reference cosine scores.', '40 s.', 'Entity ids do not embed the separator of composite row ids.'),
}
