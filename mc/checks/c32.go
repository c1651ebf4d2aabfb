package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/modelcontextprotocol/go-sdk/mcp"
)

// tcall is one tool call: its JSON input and the same request through the
// typed API.
type tcall struct {
	tool, in string
	typed    func(t *cortexdb.GraphRAGToolbox) (any, error)
	with     func(in string) tcall // the same call with another input
}

func (x tcall) String() string { return x.tool + x.in }

func tc[Req, Resp any](tool, in string, f func(*cortexdb.GraphRAGToolbox, context.Context, Req) (*Resp, error), req Req) tcall {
	return tcall{tool: tool, in: in, typed: func(t *cortexdb.GraphRAGToolbox) (any, error) {
		r, err := f(t, bg, req)
		if err != nil {
			return nil, err
		}
		return r, nil
	}, with: func(in string) tcall {
		var q Req
		_ = json.Unmarshal([]byte(in), &q)
		return tc(tool, in, f, q)
	}}
}

func toolWrites() []tcall {
	type T = cortexdb.GraphRAGToolbox
	return []tcall{
		tc("ingest_document", `{"document_id":"d1","title":"First","content":"apple pear plum kiwi","chunk_size":3,"chunk_overlap":1,"metadata":{"k":"v"}}`, (*T).IngestDocument,
			cortexdb.ToolIngestDocumentRequest{DocumentID: "d1", Title: "First", Content: "apple pear plum kiwi", ChunkSize: 3, ChunkOverlap: 1, Metadata: map[string]string{"k": "v"}}),
		tc("ingest_document", `{"document_id":"d2","content":"apple\nZeus quince","collection":"other"}`, (*T).IngestDocument,
			cortexdb.ToolIngestDocumentRequest{DocumentID: "d2", Content: "apple\nZeus quince", Collection: "other"}),
		tc("upsert_entities", `{"document_id":"d1","entities":[{"name":"Zeus","description":"god","type":"entity","chunk_ids":["chunk:d1:000"],"metadata":{"a":"b"}},{"id":"entity:hera","name":"Hera"}]}`, (*T).UpsertEntities,
			cortexdb.ToolUpsertEntitiesRequest{DocumentID: "d1", Entities: []cortexdb.ToolEntityInput{{Name: "Zeus", Description: "god", Type: "entity", ChunkIDs: []string{"chunk:d1:000"}, Metadata: map[string]string{"a": "b"}}, {ID: "entity:hera", Name: "Hera"}}}),
		tc("upsert_relations", `{"document_id":"d1","relations":[{"from":"Zeus","to":"Hera","type":"married","weight":2.5,"chunk_ids":["chunk:d1:000"],"metadata":{"x":"y"}},{"from":"Hera","to":"entity:zeus"}]}`, (*T).UpsertRelations,
			cortexdb.ToolUpsertRelationsRequest{DocumentID: "d1", Relations: []cortexdb.ToolRelationInput{{From: "Zeus", To: "Hera", Type: "married", Weight: 2.5, ChunkIDs: []string{"chunk:d1:000"}, Metadata: map[string]string{"x": "y"}}, {From: "Hera", To: "entity:zeus"}}}),
		tc("knowledge_save", `{"knowledge_id":"k1","title":"T","content":"plum pear Zeus kiwi apple","source_url":"http://x","author":"A","collection":"other","chunk_size":2,"chunk_overlap":1,"metadata":{"m":"1"},"entities":[{"name":"Ares","chunk_ids":["chunk:k1:001"]},{"name":"Zeus"}],"relations":[{"from":"Ares","to":"Zeus"}]}`, (*T).SaveKnowledge,
			cortexdb.KnowledgeSaveRequest{KnowledgeID: "k1", Title: "T", Content: "plum pear Zeus kiwi apple", SourceURL: "http://x", Author: "A", Collection: "other", ChunkSize: 2, ChunkOverlap: 1, Metadata: map[string]string{"m": "1"}, Entities: []cortexdb.ToolEntityInput{{Name: "Ares", ChunkIDs: []string{"chunk:k1:001"}}, {Name: "Zeus"}}, Relations: []cortexdb.ToolRelationInput{{From: "Ares", To: "Zeus"}}}),
		tc("knowledge_save", `{"knowledge_id":"d1","content":"apple kiwi"}`, (*T).SaveKnowledge, cortexdb.KnowledgeSaveRequest{KnowledgeID: "d1", Content: "apple kiwi"}),
		tc("knowledge_update", `{"knowledge_id":"k1","title":"U","source_url":"","author":"B","metadata":{"n":"2"},"chunk_size":4,"chunk_overlap":2,"collection":"graphrag_chunks"}`, (*T).UpdateKnowledge,
			cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Title: ptr("U"), SourceURL: ptr(""), Author: ptr("B"), Metadata: map[string]string{"n": "2"}, ChunkSize: ptr(4), ChunkOverlap: ptr(2), Collection: ptr("graphrag_chunks")}),
		tc("knowledge_update", `{"knowledge_id":"d1","content":"quince quince","entities":[{"name":"Zeus"}],"relations":[{"from":"Zeus","to":"Zeus"}]}`, (*T).UpdateKnowledge,
			cortexdb.KnowledgeUpdateRequest{KnowledgeID: "d1", Content: ptr("quince quince"), Entities: []cortexdb.ToolEntityInput{{Name: "Zeus"}}, Relations: []cortexdb.ToolRelationInput{{From: "Zeus", To: "Zeus"}}}),
		tc("knowledge_delete", `{"knowledge_id":"k1"}`, (*T).DeleteKnowledge, cortexdb.KnowledgeDeleteRequest{KnowledgeID: "k1"}),
		tc("knowledge_delete", `{"knowledge_id":"d1"}`, (*T).DeleteKnowledge, cortexdb.KnowledgeDeleteRequest{KnowledgeID: "d1"}),
		tc("memory_save", `{"memory_id":"m1","user_id":"u","session_id":"s","scope":"session","namespace":"n","role":"tool","content":"apple plum","metadata":{"a":1,"b":"x"},"importance":0.5,"ttl_seconds":5000}`, (*T).SaveMemory,
			cortexdb.MemorySaveRequest{MemoryID: "m1", UserID: "u", SessionID: "s", Scope: "session", Namespace: "n", Role: "tool", Content: "apple plum", Metadata: map[string]any{"a": 1, "b": "x"}, Importance: 0.5, TTLSeconds: 5000}),
		tc("memory_save", `{"memory_id":"m2","content":"apple kiwi"}`, (*T).SaveMemory, cortexdb.MemorySaveRequest{MemoryID: "m2", Content: "apple kiwi"}),
		tc("memory_update", `{"memory_id":"m1","content":"apple pear","metadata":{"c":true},"importance":0.9,"ttl_seconds":9000}`, (*T).UpdateMemory,
			cortexdb.MemoryUpdateRequest{MemoryID: "m1", Content: ptr("apple pear"), Metadata: map[string]any{"c": true}, Importance: ptr(0.9), TTLSeconds: ptr(9000)}),
		tc("memory_delete", `{"memory_id":"m2"}`, (*T).DeleteMemory, cortexdb.MemoryDeleteRequest{MemoryID: "m2"}),
		tc("memory_delete", `{"memory_id":"m1"}`, (*T).DeleteMemory, cortexdb.MemoryDeleteRequest{MemoryID: "m1"}),
	}
}

func toolReads() []tcall {
	type T = cortexdb.GraphRAGToolbox
	st := func(in string, r cortexdb.ToolSearchTextRequest) tcall {
		return tc("search_text", in, (*T).SearchText, r)
	}
	sl := func(in string, r cortexdb.ToolSearchGraphRAGLexicalRequest) tcall {
		return tc("search_graphrag_lexical", in, (*T).SearchGraphRAGLexical, r)
	}
	ks := func(in string, r cortexdb.KnowledgeSearchRequest) tcall {
		return tc("knowledge_search", in, (*T).SearchKnowledge, r)
	}
	ms := func(in string, r cortexdb.MemorySearchRequest) tcall {
		return tc("memory_search", in, (*T).SearchMemory, r)
	}
	bc := func(in string, r cortexdb.ToolBuildContextRequest) tcall {
		return tc("build_context", in, (*T).BuildContext, r)
	}
	eg := func(in string, r cortexdb.ToolExpandGraphRequest) tcall {
		return tc("expand_graph", in, (*T).ExpandGraph, r)
	}
	ids := []string{"chunk:d1:000", "chunk:d1:001", "chunk:k1:000", "chunk:k1:001", "chunk:d2:000", "chunk:d2:001"}
	idj := `["chunk:d1:000","chunk:d1:001","chunk:k1:000","chunk:k1:001","chunk:d2:000","chunk:d2:001"]`
	return []tcall{
		st(`{"query":"apple"}`, cortexdb.ToolSearchTextRequest{Query: "apple"}),
		st(`{"query":"apple","collection":"other","top_k":1}`, cortexdb.ToolSearchTextRequest{Query: "apple", Collection: "other", TopK: 1}),
		st(`{"query":"xx","keywords":["kiwi"],"alternate_queries":["plum pear"]}`, cortexdb.ToolSearchTextRequest{Query: "xx", Keywords: []string{"kiwi"}, AlternateQueries: []string{"plum pear"}}),
		st(`{"query":"apple","threshold":0.9}`, cortexdb.ToolSearchTextRequest{Query: "apple", Threshold: 0.9}),
		st(`{"query":"apple","retrieval_mode":"graph"}`, cortexdb.ToolSearchTextRequest{Query: "apple", RetrievalMode: "graph"}),
		st(`{"query":"apple","retrieval_mode":"graph","disable_graph":true}`, cortexdb.ToolSearchTextRequest{Query: "apple", RetrievalMode: "graph", DisableGraph: true}),
		st(`{"query":" "}`, cortexdb.ToolSearchTextRequest{Query: " "}),
		tc("search_chunks_by_entities", `{"entity_names":["Zeus","Ares"]}`, (*T).SearchChunksByEntities, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: []string{"Zeus", "Ares"}}),
		tc("search_chunks_by_entities", `{"entity_names":["Zeus"],"top_k":1,"max_hops":3}`, (*T).SearchChunksByEntities, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: []string{"Zeus"}, TopK: 1, MaxHops: 3}),
		tc("search_chunks_by_entities", `{"entity_names":["Zeus"],"top_k":10,"max_hops":3}`, (*T).SearchChunksByEntities, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: []string{"Zeus"}, TopK: 10, MaxHops: 3}),
		eg(`{"node_ids":["entity:zeus","doc:d1"]}`, cortexdb.ToolExpandGraphRequest{NodeIDs: []string{"entity:zeus", "doc:d1"}}),
		eg(`{"node_ids":["doc:k1"],"max_hops":3,"edge_types":["has_chunk","mentions"],"node_types":["chunk"]}`, cortexdb.ToolExpandGraphRequest{NodeIDs: []string{"doc:k1"}, MaxHops: 3, EdgeTypes: []string{"has_chunk", "mentions"}, NodeTypes: []string{"chunk"}}),
		eg(`{"node_ids":["entity:zeus"],"limit":1,"edge_types":["married"]}`, cortexdb.ToolExpandGraphRequest{NodeIDs: []string{"entity:zeus"}, Limit: 1, EdgeTypes: []string{"married"}}),
		tc("get_nodes", `{"node_ids":["doc:d1","entity:zeus","entity:hera","chunk:k1:000"]}`, (*T).GetNodes, cortexdb.ToolGetNodesRequest{NodeIDs: []string{"doc:d1", "entity:zeus", "entity:hera", "chunk:k1:000"}}),
		tc("get_chunks", `{"chunk_ids":`+idj+`}`, (*T).GetChunks, cortexdb.ToolGetChunksRequest{ChunkIDs: ids}),
		tc("get_chunks", `{"chunk_ids":`+idj+`,"retrieval_mode":"lexical"}`, (*T).GetChunks, cortexdb.ToolGetChunksRequest{ChunkIDs: ids, RetrievalMode: "lexical"}),
		tc("get_chunks", `{"chunk_ids":`+idj+`,"disable_graph":true}`, (*T).GetChunks, cortexdb.ToolGetChunksRequest{ChunkIDs: ids, DisableGraph: true}),
		bc(`{"chunk_ids":`+idj+`}`, cortexdb.ToolBuildContextRequest{ChunkIDs: ids}),
		bc(`{"chunk_ids":`+idj+`,"max_context_chunks":1}`, cortexdb.ToolBuildContextRequest{ChunkIDs: ids, MaxContextChunks: 1}),
		bc(`{"chunk_ids":`+idj+`,"max_context_chars":60,"disable_graph":true}`, cortexdb.ToolBuildContextRequest{ChunkIDs: ids, MaxContextChars: 60, DisableGraph: true}),
		bc(`{"chunk_ids":`+idj+`,"per_document_limit":1,"retrieval_mode":"lexical"}`, cortexdb.ToolBuildContextRequest{ChunkIDs: ids, PerDocumentLimit: 1, RetrievalMode: "lexical"}),
		sl(`{"query":"apple"}`, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: "apple"}),
		sl(`{"query":"apple Zeus","collection":"other","top_k":1,"max_hops":1}`, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: "apple Zeus", Collection: "other", TopK: 1, MaxHops: 1}),
		sl(`{"query":"xx","entity_names":["Zeus"],"max_context_chunks":1,"max_context_chars":50}`, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: "xx", EntityNames: []string{"Zeus"}, MaxContextChunks: 1, MaxContextChars: 50}),
		sl(`{"query":"xx","keywords":["plum"],"retrieval_mode":"lexical","per_document_limit":1}`, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: "xx", Keywords: []string{"plum"}, RetrievalMode: "lexical", PerDocumentLimit: 1}),
		sl(`{"query":"xx","alternate_queries":["kiwi"],"disable_graph":true,"diversity_lambda":0.2,"per_document_limit":5}`, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: "xx", AlternateQueries: []string{"kiwi"}, DisableGraph: true, DiversityLambda: 0.2, PerDocumentLimit: 5}),
		tc("knowledge_get", `{"knowledge_id":"k1"}`, (*T).GetKnowledge, cortexdb.KnowledgeGetRequest{KnowledgeID: "k1"}),
		tc("knowledge_get", `{"knowledge_id":"d1"}`, (*T).GetKnowledge, cortexdb.KnowledgeGetRequest{KnowledgeID: "d1"}),
		ks(`{"query":"apple"}`, cortexdb.KnowledgeSearchRequest{Query: "apple"}),
		ks(`{"query":"apple Zeus","collection":"other","top_k":1,"max_hops":1}`, cortexdb.KnowledgeSearchRequest{Query: "apple Zeus", Collection: "other", TopK: 1, MaxHops: 1}),
		ks(`{"query":"xx","entity_names":["Zeus"],"max_context_chunks":1,"max_context_chars":50}`, cortexdb.KnowledgeSearchRequest{Query: "xx", EntityNames: []string{"Zeus"}, MaxContextChunks: 1, MaxContextChars: 50}),
		ks(`{"query":"xx","keywords":["plum"],"retrieval_mode":"lexical","per_document_limit":1}`, cortexdb.KnowledgeSearchRequest{Query: "xx", Keywords: []string{"plum"}, RetrievalMode: "lexical", PerDocumentLimit: 1}),
		ks(`{"query":"xx","alternate_queries":["kiwi"],"disable_graph":true,"diversity_lambda":0.2,"per_document_limit":5}`, cortexdb.KnowledgeSearchRequest{Query: "xx", AlternateQueries: []string{"kiwi"}, DisableGraph: true, DiversityLambda: 0.2, PerDocumentLimit: 5}),
		ks(`{"query":""}`, cortexdb.KnowledgeSearchRequest{}),
		tc("memory_get", `{"memory_id":"m1"}`, (*T).GetMemory, cortexdb.MemoryGetRequest{MemoryID: "m1"}),
		tc("memory_get", `{"memory_id":"m2"}`, (*T).GetMemory, cortexdb.MemoryGetRequest{MemoryID: "m2"}),
		ms(`{"query":"apple"}`, cortexdb.MemorySearchRequest{Query: "apple"}),
		ms(`{"query":"apple","user_id":"u","session_id":"s","scope":"session","namespace":"n","top_k":1}`, cortexdb.MemorySearchRequest{Query: "apple", UserID: "u", SessionID: "s", Scope: "session", Namespace: "n", TopK: 1}),
		ms(`{"query":"zz","keywords":["kiwi"],"retrieval_mode":"lexical"}`, cortexdb.MemorySearchRequest{Query: "zz", Keywords: []string{"kiwi"}, RetrievalMode: "lexical"}),
		ms(`{"query":"zz","alternate_queries":["apple kiwi"]}`, cortexdb.MemorySearchRequest{Query: "zz", AlternateQueries: []string{"apple kiwi"}}),
	}
}

// variants are the call with every set of up to two of its properties left out.
func (x tcall) variants() (l []tcall) {
	var m map[string]json.RawMessage
	_ = json.Unmarshal([]byte(x.in), &m)
	var keys []string
	for k := range m {
		if k != "knowledge_id" && k != "memory_id" && k != "document_id" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for i := range keys {
		for j := i; j < len(keys); j++ {
			n := map[string]json.RawMessage{}
			for k, v := range m {
				if k != keys[i] && k != keys[j] {
					n[k] = v
				}
			}
			b, _ := json.Marshal(n)
			l = append(l, x.with(string(b)))
		}
	}
	return l
}

// required tells whether the tool can be called over MCP with these properties.
func (e *toolEnv) required(x tcall) bool {
	var m map[string]json.RawMessage
	_ = json.Unmarshal([]byte(x.in), &m)
	for _, t := range e.tools.Tools {
		if t.Name == x.tool {
			b, _ := json.Marshal(t.InputSchema)
			var s struct {
				Required []string `json:"required"`
			}
			_ = json.Unmarshal(b, &s)
			for _, k := range s.Required {
				if _, ok := m[k]; !ok {
					return false
				}
			}
		}
	}
	return true
}

// norm renders an answer without its timestamps; null, empty and absent are
// the same.
func norm(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unprintable: " + err.Error()
	}
	var x any
	_ = json.Unmarshal(b, &x)
	var clean func(x any) any
	clean = func(x any) any {
		switch t := x.(type) {
		case map[string]any:
			for k, y := range t {
				switch k {
				case "created_at", "updated_at", "expires_at":
					delete(t, k)
					continue
				}
				if y = clean(y); y == nil {
					delete(t, k)
				} else {
					t[k] = y
				}
			}
			if len(t) == 0 {
				return nil
			}
		case []any:
			if len(t) == 0 {
				return nil
			}
			for i := range t {
				t[i] = clean(t[i])
			}
		}
		return x
	}
	b, _ = json.Marshal(clean(x))
	return string(b)
}

// toolEnv is the same database three times: behind the typed API, behind tool
// calls with JSON input and behind an MCP session.
type toolEnv struct {
	c              *vk.C
	typed, js, srv *cortexdb.DB
	session        *mcp.ClientSession
	tools          *mcp.ListToolsResult
}

func newToolEnv(c *vk.C, sem bool) *toolEnv {
	e := &toolEnv{c: c}
	open := func(name string) *cortexdb.DB {
		var emb *wordEmbedder
		if sem {
			emb = &wordEmbedder{vocab: kVocab}
		}
		db := openCortex(c, c.Dir()+"/"+name, emb, core.IndexTypeFlat)
		c.Defer(func() { db.Close() })
		return db
	}
	e.typed, e.js, e.srv = open("t.db"), open("j.db"), open("m.db")
	server := e.srv.NewMCPServer(cortexdb.MCPServerOptions{})
	st, ct := mcp.NewInMemoryTransports()
	ctx, cancel := context.WithCancel(bg)
	go func() { _ = server.Run(ctx, st) }()
	s, err := mcp.NewClient(&mcp.Implementation{Name: "check", Version: "1"}, nil).Connect(ctx, ct, nil)
	if err != nil {
		cancel()
		c.Fatal(err.Error())
	}
	e.session = s
	c.Defer(func() { s.Close(); cancel() })
	if e.tools, err = s.ListTools(ctx, &mcp.ListToolsParams{}); err != nil {
		c.Failf("mcp", "ListTools: %v", err)
	}
	return e
}

// mcpCall returns the structured answer of a tool over MCP.
func (e *toolEnv) mcpCall(tool, in string) (any, error) {
	r, err := e.session.CallTool(bg, &mcp.CallToolParams{Name: tool, Arguments: json.RawMessage(in)})
	if err != nil {
		return nil, err
	}
	if r.IsError {
		b, _ := json.Marshal(r.Content)
		return nil, fmt.Errorf("%s", b)
	}
	var txt string
	for _, x := range r.Content {
		if t, ok := x.(*mcp.TextContent); ok {
			txt += t.Text
		}
	}
	if norm(json.RawMessage(txt)) != norm(r.StructuredContent) {
		e.c.Failf("mcp", "%s%s: the text %s and the structured content %s differ", tool, in, txt, norm(r.StructuredContent))
	}
	return r.StructuredContent, nil
}

func (e *toolEnv) run(x tcall) (any, error) {
	want, werr := x.typed(e.typed.GraphRAGTools())
	js, jerr := e.js.GraphRAGTools().Call(bg, x.tool, json.RawMessage(x.in))
	ms, merr := e.mcpCall(x.tool, x.in)
	e.c.Trans(3)
	if (werr == nil) != (jerr == nil) || werr == nil && norm(js) != norm(want) || werr != nil && werr.Error() != jerr.Error() {
		e.c.Failf("call", "the tool call %s%s gives\n %s (%v), the typed API\n %s (%v)", x.tool, x.in, norm(js), jerr, norm(want), werr)
	}
	if (werr == nil) != (merr == nil) || werr == nil && norm(ms) != norm(want) || werr != nil && !strings.Contains(merr.Error(), strings.Trim(fmt.Sprintf("%q", werr.Error()), `"`)) {
		e.c.Failf("mcp", "the MCP call %s%s gives\n %s (%v), the typed API\n %s (%v)", x.tool, x.in, norm(ms), merr, norm(want), werr)
	}
	return want, werr
}

var toolNames = []string{"build_context", "expand_graph", "get_chunks", "get_nodes", "ingest_document", "knowledge_delete", "knowledge_get", "knowledge_save", "knowledge_search", "knowledge_update", "memory_delete", "memory_get", "memory_save", "memory_search", "memory_update", "search_chunks_by_entities", "search_graphrag_lexical", "search_text", "upsert_entities", "upsert_relations"}

// surface compares definitions, dispatch and MCP listing.
func (e *toolEnv) surface(calls []tcall) {
	c := e.c
	t := e.js.GraphRAGTools()
	var defs []string
	props := map[string]map[string]bool{}
	req := map[string]map[string]bool{}
	for _, d := range t.Definitions() {
		defs = append(defs, d.Name)
		props[d.Name], req[d.Name] = map[string]bool{}, map[string]bool{}
		b, _ := json.Marshal(d.InputSchema)
		var s struct {
			Properties map[string]any `json:"properties"`
			Required   []string       `json:"required"`
		}
		_ = json.Unmarshal(b, &s)
		for k := range s.Properties {
			props[d.Name][k] = true
		}
		for _, k := range s.Required {
			req[d.Name][k] = true
		}
		if d.Description == "" {
			c.Failf("definitions", "%s has no description", d.Name)
		}
	}
	var listed []string
	for _, x := range e.tools.Tools {
		listed = append(listed, x.Name)
		b, _ := json.Marshal(x.InputSchema)
		var s struct {
			Properties map[string]any `json:"properties"`
			Required   []string       `json:"required"`
		}
		_ = json.Unmarshal(b, &s)
		var a, w []string
		for k := range s.Properties {
			a = append(a, k)
		}
		for k := range props[x.Name] {
			w = append(w, k)
		}
		if setOf(a) != setOf(w) {
			c.Failf("definitions", "%s takes %s over MCP, its definition names %s", x.Name, setOf(a), setOf(w))
		}
		w = nil
		for k := range req[x.Name] {
			w = append(w, k)
		}
		if setOf(s.Required) != setOf(w) {
			c.Failf("definitions", "%s requires %s over MCP, its definition %s", x.Name, setOf(s.Required), setOf(w))
		}
	}
	if setOf(defs) != setOf(toolNames) || setOf(listed) != setOf(toolNames) {
		c.Failf("definitions", "defined tools %s, listed over MCP %s, want %s", setOf(defs), setOf(listed), setOf(toolNames))
	}
	// every property used here is a defined one, and every defined one is used
	used := map[string]map[string]bool{}
	for _, x := range calls {
		var m map[string]any
		if err := json.Unmarshal([]byte(x.in), &m); err != nil {
			c.Fatal(err.Error())
		}
		if used[x.tool] == nil {
			used[x.tool] = map[string]bool{}
		}
		for k := range m {
			if !props[x.tool][k] {
				c.Failf("definitions", "%s: property %s is not defined", x.tool, k)
			}
			used[x.tool][k] = true
		}
		for k := range req[x.tool] {
			if _, ok := m[k]; !ok {
				c.Failf("definitions", "%s: property %s is required but not needed", x.tool, k)
			}
		}
	}
	// unknown tools and malformed inputs are refused everywhere
	for _, name := range append([]string{"nosuch", "", "knowledge_saves"}, toolNames...) {
		for _, in := range []string{`{`, `[]`, `"x"`, `{"query":1,"node_ids":1,"chunk_ids":1,"entity_names":1,"knowledge_id":1,"memory_id":1,"document_id":1,"entities":1,"relations":1}`, `{}`} {
			known := has(toolNames, name)
			r, err := t.Call(bg, name, json.RawMessage(in))
			if err == nil && (!known || in != `{}`) {
				c.Failf("refused", "Call(%q, %s) is accepted: %v", name, in, r)
			}
			if in == `{` {
				continue // not expressible over MCP
			}
			if r, err := e.session.CallTool(bg, &mcp.CallToolParams{Name: name, Arguments: json.RawMessage(in)}); err == nil && !r.IsError && (!known || in != `{}`) {
				c.Failf("refused", "MCP %q %s is accepted: %v", name, in, r)
			}
		}
	}
}

// keyPaths collects the JSON paths of an answer.
func keyPaths(prefix string, v any, out map[string]bool) {
	b, _ := json.Marshal(v)
	var x any
	_ = json.Unmarshal(b, &x)
	var walk func(p string, x any)
	walk = func(p string, x any) {
		switch t := x.(type) {
		case map[string]any:
			for k, y := range t {
				walk(p+"."+k, y)
			}
		case []any:
			for _, y := range t {
				walk(p, y)
			}
		default:
			if x != nil {
				out[p] = true
			}
		}
	}
	walk(prefix, x)
}

// wireKeys are the fields clients of the tools read.
const wireKeys = `
build_context.chunks.Content build_context.chunks.DocumentID build_context.chunks.Entities build_context.chunks.ID build_context.chunks.Score
build_context.context expand_graph.edges.edge_type expand_graph.edges.from_node_id expand_graph.edges.id expand_graph.edges.properties.chunk_ids
expand_graph.edges.properties.document_id expand_graph.edges.to_node_id expand_graph.edges.weight expand_graph.nodes.content expand_graph.nodes.id
expand_graph.nodes.node_type expand_graph.nodes.properties.chunk_index expand_graph.nodes.properties.document_id expand_graph.nodes.properties.name
expand_graph.nodes.properties.title get_chunks.chunks.content get_chunks.chunks.document_id get_chunks.chunks.entities get_chunks.chunks.id
get_chunks.chunks.metadata.k get_chunks.chunks.metadata.m get_nodes.nodes.content get_nodes.nodes.id get_nodes.nodes.node_type
get_nodes.nodes.properties.chunk_index get_nodes.nodes.properties.document_id get_nodes.nodes.properties.name get_nodes.nodes.properties.title
ingest_document.chunk_node_ids ingest_document.collection ingest_document.document_node_id knowledge_delete.deleted knowledge_delete.knowledge_id
knowledge_get.knowledge.author knowledge_get.knowledge.chunk_ids knowledge_get.knowledge.collection knowledge_get.knowledge.content
knowledge_get.knowledge.entities knowledge_get.knowledge.id knowledge_get.knowledge.metadata.m knowledge_get.knowledge.source_url
knowledge_get.knowledge.title knowledge_save.document_node_id knowledge_save.entity_node_ids knowledge_save.knowledge.author
knowledge_save.knowledge.chunk_ids knowledge_save.knowledge.collection knowledge_save.knowledge.content knowledge_save.knowledge.entities
knowledge_save.knowledge.id knowledge_save.knowledge.metadata.m knowledge_save.knowledge.source_url knowledge_save.knowledge.title
knowledge_save.relation_edge_ids knowledge_search.chunks.Content knowledge_search.chunks.DocumentID knowledge_search.chunks.Entities
knowledge_search.chunks.ID knowledge_search.chunks.Score knowledge_search.context knowledge_search.entities knowledge_search.query
knowledge_search.results.chunk_ids knowledge_search.results.entities knowledge_search.results.knowledge_id knowledge_search.results.score
knowledge_search.results.snippet knowledge_search.results.title memory_delete.deleted memory_delete.memory_id memory_get.memory.content
memory_get.memory.expires_at memory_get.memory.id memory_get.memory.importance memory_get.memory.metadata.a memory_get.memory.metadata.b
memory_get.memory.metadata.c memory_get.memory.namespace memory_get.memory.role memory_get.memory.scope memory_get.memory.session_id
memory_get.memory.ttl_seconds memory_get.memory.user_id memory_save.memory.content memory_save.memory.expires_at memory_save.memory.id
memory_save.memory.importance memory_save.memory.metadata.a memory_save.memory.metadata.b memory_save.memory.namespace memory_save.memory.role
memory_save.memory.scope memory_save.memory.session_id memory_save.memory.ttl_seconds memory_save.memory.user_id memory_search.query
memory_search.results.memory.content memory_search.results.memory.expires_at memory_search.results.memory.id memory_search.results.memory.importance
memory_search.results.memory.metadata.a memory_search.results.memory.metadata.b memory_search.results.memory.metadata.c
memory_search.results.memory.namespace memory_search.results.memory.role memory_search.results.memory.scope memory_search.results.memory.session_id
memory_search.results.memory.ttl_seconds memory_search.results.memory.user_id memory_search.results.score memory_update.memory.content
memory_update.memory.expires_at memory_update.memory.id memory_update.memory.importance memory_update.memory.metadata.a
memory_update.memory.metadata.b memory_update.memory.metadata.c memory_update.memory.namespace memory_update.memory.role memory_update.memory.scope
memory_update.memory.session_id memory_update.memory.ttl_seconds memory_update.memory.user_id search_chunks_by_entities.chunks.content
search_chunks_by_entities.chunks.document_id search_chunks_by_entities.chunks.entities search_chunks_by_entities.chunks.id
search_chunks_by_entities.chunks.metadata.k search_chunks_by_entities.chunks.metadata.m search_chunks_by_entities.chunks.score
search_graphrag_lexical.Chunks.Content search_graphrag_lexical.Chunks.DocumentID search_graphrag_lexical.Chunks.Entities
search_graphrag_lexical.Chunks.ID search_graphrag_lexical.Chunks.Score search_graphrag_lexical.Context search_graphrag_lexical.Entities
search_graphrag_lexical.Query search_text.chunks.content search_text.chunks.document_id search_text.chunks.entities search_text.chunks.id
search_text.chunks.metadata.k search_text.chunks.metadata.m search_text.chunks.score upsert_entities.entity_node_ids
upsert_entities.mention_edge_count upsert_relations.edge_ids
`

func init() {
	vk.Register(&vk.Check{ID: "C32", Rule: "every sequence of up to 2 (thorough 3) writing tool calls out of 15 followed by 40 reading tool calls that use every property of every tool, through the typed API, through JSON tool calls and through an MCP session on three databases, without and with an embedder; every call with every set of up to two properties left out, on larger documents, and on a closed database; definitions, listing and refusals of every tool",
		Assumptions: []string{"timestamps are not compared; null, empty and absent fields are the same"},
		Run: func(w *vk.W) {
			writes, reads := toolWrites(), toolReads()
			var names []string
			for i, x := range writes {
				names = append(names, fmt.Sprintf("%d:%s", i, x.tool))
			}
			w.Case("surface", func(c *vk.C) { newToolEnv(c, false).surface(append(writes, reads...)) })
			w.Case("keys", func(c *vk.C) {
				e := newToolEnv(c, false)
				paths := map[string]bool{}
				for _, i := range []int{0, 1, 2, 3, 4, 10, 11, 12} {
					r, _ := e.run(writes[i])
					keyPaths(writes[i].tool, r, paths)
				}
				for _, x := range reads {
					r, _ := e.run(x)
					keyPaths(x.tool, r, paths)
				}
				for _, i := range []int{8, 13} {
					r, _ := e.run(writes[i])
					keyPaths(writes[i].tool, r, paths)
				}
				var l []string
				for p := range paths {
					l = append(l, p)
				}
				sort.Strings(l)
				for _, p := range strings.Fields(wireKeys) {
					if !paths[p] {
						c.Failf("keys", "no answer carries %s; they carry %s", p, strings.Join(l, " "))
					}
				}
			})
			// every call with properties left out, on a filled database
			all := append(append([]tcall(nil), writes...), reads...)
			for i := range all {
				i := i
				w.Case(fmt.Sprintf("variants|%d:%s", i, all[i].tool), func(c *vk.C) {
					e := newToolEnv(c, i%2 == 1)
					for n, v := range all[i].variants() {
						if !e.required(v) {
							continue
						}
						if n == 0 || i < len(writes) {
							for _, k := range []int{0, 1, 2, 3, 4, 10, 11} {
								e.run(writes[k])
							}
						}
						e.run(v)
						for _, k := range []int{13, 14, 26, 27, 34, 35} {
							if i < len(writes) {
								e.run(reads[k])
							}
						}
						c.State(v.String())
					}
				})
			}
			// documents beyond every default limit
			w.Case("large", func(c *vk.C) {
				e := newToolEnv(c, false)
				var ids []string
				for d := 0; d < 9; d++ {
					x := fmt.Sprintf(`{"document_id":"L%d","content":%q}`, d, strings.Repeat(fmt.Sprintf("apple%d kiwi ", d), 40)+"\n"+strings.Repeat("plum ", 30))
					e.run(writes[0].with(x))
					e.run(writes[10].with(fmt.Sprintf(`{"memory_id":"M%d","content":"apple %d","user_id":"u","scope":"user"}`, d, d)))
					ids = append(ids, fmt.Sprintf("chunk:L%d:000", d), fmt.Sprintf("chunk:L%d:001", d))
				}
				long := strings.Repeat("apple kiwi plum ", 90)
				for _, v := range append(writes[4].variants(), writes[6].variants()...) {
					var m map[string]json.RawMessage
					_ = json.Unmarshal([]byte(v.in), &m)
					if m["content"] != nil || v.tool == "knowledge_update" {
						m["content"], _ = json.Marshal(long + v.tool)
					}
					n, _ := json.Marshal(m)
					if v = v.with(string(n)); e.required(v) {
						e.run(v)
						c.State(v.String())
					}
				}
				b, _ := json.Marshal(ids)
				for _, x := range reads {
					for _, o := range append(x.variants(), x) {
						var m map[string]json.RawMessage
						_ = json.Unmarshal([]byte(o.in), &m)
						if m["chunk_ids"] != nil {
							m["chunk_ids"] = b
						}
						if m["query"] != nil {
							m["query"] = json.RawMessage(`"kiwi plum"`)
						}
						if m["memory_id"] != nil {
							m["memory_id"] = json.RawMessage(`"M3"`)
						}
						n, _ := json.Marshal(m)
						if o = o.with(string(n)); e.required(o) {
							e.run(o)
							c.State(o.String())
						}
					}
				}
			})
			w.Case("closed", func(c *vk.C) {
				e := newToolEnv(c, false)
				for _, k := range []int{0, 1, 2, 3, 4, 10, 11} {
					e.run(writes[k])
				}
				for _, db := range []*cortexdb.DB{e.typed, e.js, e.srv} {
					if err := db.Close(); err != nil {
						c.Failf("close", "%v", err)
					}
				}
				for _, x := range all {
					e.run(x)
				}
			})
			for _, sem := range []bool{false, true} {
				sem := sem
				for d := 0; d <= w.Pick(2, 3); d++ {
					seqsOf(w, fmt.Sprintf("seq%v", sem), names, d, func(c *vk.C, seq []int) {
						e := newToolEnv(c, sem)
						var l []string
						for _, i := range seq {
							_, err := e.run(writes[i])
							l = append(l, outcome(err))
						}
						for _, x := range reads {
							_, err := e.run(x)
							l = append(l, outcome(err))
						}
						c.Outcome(strings.Join(l, ""))
						sort.Strings(l)
						c.State(fmt.Sprint(seq))
					})
				}
			}
		}})
}
