package checks

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

// refSplit is the reference chunking: windows of size words inside each line,
// each starting overlap words before the end of the previous one.
func refSplit(text string, size, overlap int) []string {
	if size <= 0 {
		size = 120
	}
	if overlap < 0 {
		overlap = 0
	}
	if overlap >= size {
		overlap = size / 4
	}
	var out []string
	for _, line := range strings.Split(strings.ReplaceAll(text, "\r", "\n"), "\n") {
		words := strings.Fields(line)
		for at := 0; at < len(words); at += size - overlap {
			end := min(at+size, len(words))
			out = append(out, strings.Join(words[at:end], " "))
			if end == len(words) {
				break
			}
		}
	}
	return out
}

type kdoc struct {
	title, content, source, author, coll string
	meta                                 map[string]string
	chunks                               []string
	mention                              map[int][]string // chunk -> entity names
}

func (d kdoc) String() string {
	return fmt.Sprintf("%q %q %q %q %s %s %q %v", d.title, d.content, d.source, d.author, d.coll, metaStr(d.meta), d.chunks, d.mention)
}

func chunkID(doc string, i int) string { return fmt.Sprintf("chunk:%s:%03d", doc, i) }

type kEnv struct {
	c    *vk.C
	db   *cortexdb.DB
	emb  *wordEmbedder
	path string
	m    map[string]kdoc
	rel  map[string][2]string // relation edges between entities
	err  error
	// light limits the searches of an observation
	light bool
}

var kVocab = []string{"apple", "pear", "plum", "kiwi", "quince", "zeus", "hera"}

func newKEnv(c *vk.C, semantic bool) *kEnv {
	e := &kEnv{c: c, path: newCortexPath(c), m: map[string]kdoc{}, rel: map[string][2]string{}}
	if semantic {
		e.emb = &wordEmbedder{vocab: kVocab}
	}
	e.db = openCortex(c, e.path, e.emb, core.IndexTypeFlat)
	c.Defer(func() { e.db.Close() })
	return e
}

func (e *kEnv) String() string {
	var l []string
	for k, d := range e.m {
		l = append(l, k+"="+d.String())
	}
	sort.Strings(l)
	return strings.Join(l, ";") + fmt.Sprint(len(e.rel))
}

// titleWords lists the capitalized words of a text, each a run by itself here.
func titleWords(s string) []string {
	var out []string
	for _, w := range strings.Fields(s) {
		if w[0] >= 'A' && w[0] <= 'Z' && len(w) > 1 && !has(out, w) {
			out = append(out, w)
		}
	}
	return out
}

func (e *kEnv) build(id string, d *kdoc, size, overlap int, ents []cortexdb.ToolEntityInput) {
	d.chunks = refSplit(d.content, size, overlap)
	d.mention = map[int][]string{}
	if e.emb != nil {
		for i, ch := range d.chunks {
			d.mention[i] = titleWords(ch)
		}
	}
	e.mentions(id, d, ents)
}

func (e *kEnv) mentions(id string, d *kdoc, ents []cortexdb.ToolEntityInput) {
	for _, x := range ents {
		for _, ch := range x.ChunkIDs {
			for i := range d.chunks {
				if ch == chunkID(id, i) && !has(d.mention[i], x.Name) {
					d.mention[i] = append(append([]string(nil), d.mention[i]...), x.Name)
				}
			}
		}
	}
}

func collOr(c string) string {
	if c == "" {
		return "graphrag_chunks"
	}
	return c
}

func (e *kEnv) sameRec(what string, g cortexdb.KnowledgeRecord, id string, w kdoc) {
	var ids, ents []string
	for i := range w.chunks {
		ids = append(ids, chunkID(id, i))
		for _, x := range w.mention[i] {
			if !has(ents, x) {
				ents = append(ents, x)
			}
		}
	}
	if g.ID != id || g.Title != w.title || g.Content != w.content || g.SourceURL != w.source || g.Author != w.author || g.Collection != w.coll || metaStr(g.Metadata) != metaStr(w.meta) || setOf(g.ChunkIDs) != setOf(ids) || setOf(g.Entities) != setOf(ents) {
		e.c.Failf("record", "%s: %+v, want %s: %s, chunks %v, entities %v", what, g, id, w, ids, ents)
	}
}

func (e *kEnv) done(what string, err error, bad bool) bool {
	e.err = err
	if errors.Is(err, vsql.ErrInjected) || errors.Is(err, errEmbed) || errors.Is(err, cortexdb.ErrEmbeddingFailed) {
		return false
	}
	if err != nil && strings.Contains(err.Error(), errEmbed.Error()) {
		return false
	}
	if (err != nil) != bad {
		e.c.Failf("outcome", "%s returned %v, want an error: %v", what, err, bad)
	}
	return err == nil
}

type kOp struct {
	name string
	do   func(e *kEnv)
}

func (e *kEnv) relations(rels []cortexdb.ToolRelationInput) {
	for _, r := range rels {
		e.rel[r.From+"|"+r.To] = [2]string{r.From, r.To}
	}
}

func opSaveK(name string, req cortexdb.KnowledgeSaveRequest, bad bool) kOp {
	return kOp{"S(" + name + ")", func(e *kEnv) {
		r, err := e.db.SaveKnowledge(bg, req)
		if !e.done("SaveKnowledge("+name+")", err, bad) {
			return
		}
		d := kdoc{title: req.Title, content: req.Content, source: req.SourceURL, author: req.Author, coll: collOr(req.Collection), meta: req.Metadata}
		e.build(req.KnowledgeID, &d, req.ChunkSize, req.ChunkOverlap, req.Entities)
		e.m[req.KnowledgeID] = d
		e.relations(req.Relations)
		e.sameRec("SaveKnowledge", r.Knowledge, req.KnowledgeID, d)
		if r.DocumentNodeID != "doc:"+req.KnowledgeID || len(r.RelationEdgeIDs) != len(req.Relations) {
			e.c.Failf("response", "SaveKnowledge(%s) = %+v", name, r)
		}
	}}
}

func opUpdateK(name string, req cortexdb.KnowledgeUpdateRequest, bad bool) kOp {
	return kOp{"U(" + name + ")", func(e *kEnv) {
		d, ok := e.m[req.KnowledgeID]
		r, err := e.db.UpdateKnowledge(bg, req)
		if !e.done("UpdateKnowledge("+name+")", err, bad || !ok) {
			return
		}
		re := false
		set := func(dst *string, v *string, again bool) {
			if v != nil {
				*dst = *v
				re = re || again
			}
		}
		set(&d.title, req.Title, true)
		set(&d.content, req.Content, true)
		set(&d.source, req.SourceURL, false)
		set(&d.author, req.Author, false)
		set(&d.coll, req.Collection, true)
		d.coll = collOr(d.coll)
		if req.Metadata != nil {
			d.meta = req.Metadata
			re = true
		}
		if re {
			size, over := 0, 0
			if req.ChunkSize != nil {
				size = *req.ChunkSize
			}
			if req.ChunkOverlap != nil {
				over = *req.ChunkOverlap
			}
			e.build(req.KnowledgeID, &d, size, over, req.Entities)
		} else {
			m := map[int][]string{}
			for k, v := range d.mention {
				m[k] = v
			}
			d.mention = m
			e.mentions(req.KnowledgeID, &d, req.Entities)
		}
		e.relations(req.Relations)
		e.m[req.KnowledgeID] = d
		e.sameRec("UpdateKnowledge", r.Knowledge, req.KnowledgeID, d)
	}}
}

func opDeleteK(id string) kOp {
	return kOp{"D(" + id + ")", func(e *kEnv) {
		_, ok := e.m[id]
		r, err := e.db.DeleteKnowledge(bg, cortexdb.KnowledgeDeleteRequest{KnowledgeID: id})
		if !e.done("DeleteKnowledge("+id+")", err, !ok) {
			return
		}
		if r.KnowledgeID != id || !r.Deleted {
			e.c.Failf("response", "DeleteKnowledge(%s) = %+v", id, r)
		}
		delete(e.m, id)
	}}
}

func kOps() []kOp {
	S := func(name, id, content string, f func(r *cortexdb.KnowledgeSaveRequest)) kOp {
		r := cortexdb.KnowledgeSaveRequest{KnowledgeID: id, Content: content}
		if f != nil {
			f(&r)
		}
		return opSaveK(name, r, false)
	}
	U := func(name string, r cortexdb.KnowledgeUpdateRequest) kOp { return opUpdateK(name, r, false) }
	ent := func(id string) []cortexdb.ToolEntityInput {
		return []cortexdb.ToolEntityInput{{Name: "Zeus"}, {Name: "Hera", Description: "queen", ChunkIDs: []string{chunkID(id, 0)}}}
	}
	return []kOp{
		S("k1 long", "k1", "apple pear plum kiwi quince", func(r *cortexdb.KnowledgeSaveRequest) { r.ChunkSize, r.Title = 2, "T" }),
		S("k1 short", "k1", "kiwi", nil),
		S("k1 other", "k1", "pear Zeus plum", func(r *cortexdb.KnowledgeSaveRequest) {
			r.ChunkSize, r.ChunkOverlap, r.Collection, r.Author, r.SourceURL = 2, 1, "other", "A", "http://x"
			r.Metadata = map[string]string{"k": "v", "lang": "en"}
		}),
		S("k2 plain", "k2", "apple kiwi", func(r *cortexdb.KnowledgeSaveRequest) { r.Title = "T2" }),
		S("k2 para", "k2", "plum\nZeus pear", func(r *cortexdb.KnowledgeSaveRequest) { r.Metadata = map[string]string{"k": "w"} }),
		S("k2 ents", "k2", "apple hera", func(r *cortexdb.KnowledgeSaveRequest) {
			r.Entities, r.Relations = ent("k2"), []cortexdb.ToolRelationInput{{From: "Hera", To: "Zeus", Type: "knows"}}
		}),
		U("k1 title", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Title: ptr("New")}),
		U("k1 untitled", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Title: ptr("")}),
		U("k1 content", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Content: ptr("quince Zeus kiwi"), ChunkSize: ptr(1)}),
		U("k1 author", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Author: ptr("B"), SourceURL: ptr("")}),
		U("k1 meta", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Metadata: map[string]string{"m": "1"}}),
		U("k1 coll", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Collection: ptr("other")}),
		U("k2 ents", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k2", Entities: ent("k2")}),
		opDeleteK("k1"),
		opDeleteK("k2"),
		{"REOPEN", func(e *kEnv) {
			if err := e.db.Close(); err != nil {
				e.c.Failf("close", "Close: %v", err)
			}
			e.db = openCortex(e.c, e.path, e.emb, core.IndexTypeFlat)
		}},
	}
}

func kBad() []kOp {
	req := func(f func(r *cortexdb.KnowledgeSaveRequest)) cortexdb.KnowledgeSaveRequest {
		r := cortexdb.KnowledgeSaveRequest{KnowledgeID: "k1", Content: "plum plum"}
		f(&r)
		return r
	}
	return []kOp{
		opSaveK("no id", req(func(r *cortexdb.KnowledgeSaveRequest) { r.KnowledgeID = "" }), true),
		opSaveK("blank", req(func(r *cortexdb.KnowledgeSaveRequest) { r.Content = " \n" }), true),
		opSaveK("bad relation", req(func(r *cortexdb.KnowledgeSaveRequest) {
			r.Relations = []cortexdb.ToolRelationInput{{From: "Nobody", To: "Nothing"}}
		}), true),
		opSaveK("bad mention", req(func(r *cortexdb.KnowledgeSaveRequest) {
			r.Entities = []cortexdb.ToolEntityInput{{Name: "Ares", ChunkIDs: []string{"chunk:k1:077"}}}
		}), true),
		opSaveK("bad mention elsewhere", req(func(r *cortexdb.KnowledgeSaveRequest) {
			r.Entities = []cortexdb.ToolEntityInput{{Name: "Ares", ChunkIDs: []string{"chunk:zz:000"}}}
		}), true),
		opUpdateK("blank", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Content: ptr("  ")}, true),
		opUpdateK("bad relation", cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Title: ptr("X"), Relations: []cortexdb.ToolRelationInput{{From: "Nobody", To: "Nothing"}}}, true),
		opUpdateK("no id", cortexdb.KnowledgeUpdateRequest{}, true),
		opDeleteK("zz"),
		opDeleteK(""),
	}
}

// graph is the expected graph: documents, chunks, mentioned entities.
func (e *kEnv) graph() *gmodel {
	g := newGModel()
	edge := func(from, to, typ string) {
		id := from + "->" + to + ":" + typ
		g.edges[id] = gedge{id: id, from: from, to: to, typ: typ}
	}
	for id, d := range e.m {
		g.nodes["doc:"+id] = gnode{id: "doc:" + id, typ: "document"}
		for i, ch := range d.chunks {
			g.nodes[chunkID(id, i)] = gnode{id: chunkID(id, i), typ: "chunk", content: ch}
			edge("doc:"+id, chunkID(id, i), "has_chunk")
			if i > 0 {
				edge(chunkID(id, i-1), chunkID(id, i), "next")
			}
			for _, x := range d.mention[i] {
				n := "entity:" + strings.ToLower(x)
				g.nodes[n] = gnode{id: n, typ: "entity", content: x}
				edge(chunkID(id, i), n, "mentions")
			}
		}
	}
	for _, r := range e.rel {
		edge("entity:"+strings.ToLower(r[0]), "entity:"+strings.ToLower(r[1]), "rel")
	}
	return g
}

// chunksOf lists the stored chunk ids and texts of a collection.
func (e *kEnv) chunksOf(coll string) map[string]string {
	out := map[string]string{}
	for id, d := range e.m {
		if coll == "*" || d.coll == coll {
			for i, ch := range d.chunks {
				out[chunkID(id, i)] = ch
			}
		}
	}
	return out
}

func (e *kEnv) observe() {
	c := e.c
	all := e.chunksOf("*")
	for _, id := range []string{"k1", "k2", "k3"} {
		r, err := e.db.GetKnowledge(bg, cortexdb.KnowledgeGetRequest{KnowledgeID: id})
		w, ok := e.m[id]
		if !ok {
			if !errors.Is(err, core.ErrNotFound) {
				c.Failf("get", "GetKnowledge(%s) of a missing item: %+v, %v", id, r, err)
			}
			if l, err := e.db.Vector().(*core.SQLiteStore).GetByDocID(bg, id); err != nil || len(l) > 0 {
				c.Failf("stale", "item %s does not exist but has chunks %v (%v)", id, l, err)
			}
			continue
		}
		if err != nil {
			c.Failf("get", "GetKnowledge(%s): %v", id, err)
		}
		e.sameRec("GetKnowledge", r.Knowledge, id, w)
	}
	var ids []string
	for id := range all {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	gc, err := e.db.GraphRAGTools().GetChunks(bg, cortexdb.ToolGetChunksRequest{ChunkIDs: append(ids, "chunk:k1:050")})
	if err != nil || len(gc.Chunks) != len(ids) {
		c.Failf("chunks", "GetChunks(%v) = %+v, %v", ids, gc, err)
	}
	for i, ch := range gc.Chunks {
		d := e.m[ch.DocumentID]
		if ch.ID != ids[i] || ch.Content != all[ch.ID] || ch.Metadata["title"] != d.title {
			c.Failf("chunks", "GetChunks: %+v, want %s %q", ch, ids[i], all[ids[i]])
		}
		for k, v := range d.meta {
			if ch.Metadata[k] != v {
				c.Failf("chunks", "chunk %s has metadata %v, want %v", ch.ID, ch.Metadata, d.meta)
			}
		}
	}
	st, err := e.db.Vector().Stats(bg)
	if err != nil || int(st.Count) != len(ids) {
		c.Failf("stale", "the store holds %d chunks (%v), want %d: %v", st.Count, err, len(ids), ids)
	}
	// graph
	want := e.graph()
	got := newGModel()
	if nodes, err := e.db.Graph().GetAllNodes(bg, nil); err == nil {
		for _, n := range nodes {
			if n.NodeType == "entity" {
				continue
			}
			got.nodes[n.ID] = gnode{id: n.ID, typ: n.NodeType, content: n.Content}
			ed, err := e.db.Graph().GetEdges(bg, n.ID, "out")
			if err != nil {
				c.Failf("graph", "%v", err)
			}
			for _, x := range ed {
				got.edges[x.FromNodeID+"->"+x.ToNodeID+":"+x.EdgeType] = gedge{}
			}
		}
	} else if len(e.m) > 0 {
		c.Failf("graph", "GetAllNodes: %v", err)
	}
	for id, n := range want.nodes {
		if g, ok := got.nodes[id]; n.typ != "entity" && (!ok || g.typ != n.typ || n.typ == "chunk" && g.content != n.content) {
			c.Failf("graph", "node %s is %+v, want %+v", id, g, n)
		}
	}
	for id := range got.nodes {
		if _, ok := want.nodes[id]; !ok {
			c.Failf("graph", "stale graph node %s", id)
		}
	}
	for id, x := range want.edges {
		if _, ok := got.edges[id]; !ok && x.typ != "rel" {
			c.Failf("graph", "edge %s is missing", id)
		}
	}
	for id := range got.edges {
		if _, ok := want.edges[id]; !ok {
			c.Failf("graph", "stale edge %s", id)
		}
	}
	for _, coll := range []string{"graphrag_chunks", "other"} {
		in := e.chunksOf(coll)
		for _, q := range []string{"apple", "pear", "kiwi", "Zeus"} {
			for _, mode := range []string{"lexical", "graph", ""} {
				if e.light && q+mode != "peargraph" && q+mode != "Zeus" {
					continue
				}
				e.searchK(want, in, coll, q, mode)
			}
		}
		if e.emb != nil {
			e.best(in, coll, "kiwi apple")
		}
	}
}

// searchK compares one knowledge search, with limits out of the way.
func (e *kEnv) searchK(g *gmodel, in map[string]string, coll, q, mode string) {
	c := e.c
	req := cortexdb.KnowledgeSearchRequest{Query: q, Collection: coll, TopK: 20, MaxHops: 2, MaxRelatedChunks: 50, MaxContextChunks: 50, MaxContextChars: 1 << 20, PerDocumentLimit: 50, RetrievalMode: mode}
	if coll == "graphrag_chunks" {
		req.Collection = ""
	}
	r, err := e.db.SearchKnowledge(bg, req)
	what := fmt.Sprintf("SearchKnowledge(%q in %s, %s)", q, coll, mode)
	if err != nil {
		c.Failf("search", "%s: %v", what, err)
	}
	seeds := map[string]bool{}
	useGraph := mode == "graph" || mode == "" && q == "Zeus"
	if e.emb != nil && mode != "lexical" {
		for id := range in {
			seeds[id] = true
		}
	} else {
		for id, txt := range in {
			if has(strings.Fields(strings.ToLower(txt)), strings.ToLower(q)) {
				seeds[id] = true
			}
		}
		if useGraph && q == "Zeus" {
			for id, d := range g.dists("entity:zeus", "both", nil) {
				if _, ok := in[id]; ok && d <= 2 {
					seeds[id] = true
				}
			}
		}
	}
	want := map[string]bool{}
	for s := range seeds {
		want[s] = true
		if !useGraph {
			continue
		}
		for id, d := range g.dists(s, "both", nil) {
			if _, ok := in[id]; ok && d <= 2 {
				want[id] = true
			}
		}
	}
	got := map[string]bool{}
	docs := map[string]bool{}
	for _, ch := range r.Chunks {
		if txt, ok := in[ch.ID]; !ok || txt != ch.Content || !strings.HasPrefix(ch.ID, "chunk:"+ch.DocumentID+":") {
			c.Failf("foreign", "%s returned %+v; the collection holds %v", what, ch, in)
		}
		if got[ch.ID] {
			c.Failf("dup", "%s returned %s twice", what, ch.ID)
		}
		got[ch.ID] = true
		docs[ch.DocumentID] = true
		if !strings.Contains(r.Context, ch.Content) {
			c.Failf("context", "%s: the context lacks %q", what, ch.Content)
		}
	}
	for id := range want {
		if !got[id] {
			c.Failf("missed", "%s returned %v, want %v", what, got, want)
		}
	}
	for id := range got {
		if !want[id] {
			c.Failf("foreign", "%s returned %v, want %v", what, got, want)
		}
	}
	last := 0.0
	seen := map[string]bool{}
	n := 0
	for i, h := range r.Results {
		d, ok := e.m[h.KnowledgeID]
		if !ok || !docs[h.KnowledgeID] || seen[h.KnowledgeID] {
			c.Failf("hit", "%s: unexpected hit %+v", what, h)
		}
		seen[h.KnowledgeID] = true
		if h.Title != d.title || h.Author != d.author || h.SourceURL != d.source || metaStr(h.Metadata) != metaStr(d.meta) {
			c.Failf("hit", "%s: hit %+v, want %s", what, h, d)
		}
		if i > 0 && h.Score > last+eps {
			c.Failf("hit", "%s: hits out of order", what)
		}
		last = h.Score
		n += len(h.ChunkIDs)
		top := math.Inf(-1)
		for _, ch := range r.Chunks {
			if ch.DocumentID == h.KnowledgeID {
				top = math.Max(top, ch.Score)
			}
		}
		snip := false
		for _, ch := range r.Chunks {
			snip = snip || ch.DocumentID == h.KnowledgeID && ch.Score == top && h.Snippet == refSnippet(ch.Content)
		}
		if h.Score != top || !snip {
			c.Failf("hit", "%s: hit %+v does not carry the score and text of its best chunk (%v)", what, h, r.Chunks)
		}
		var ents []string
		for _, ch := range r.Chunks {
			if ch.DocumentID == h.KnowledgeID {
				for _, x := range ch.Entities {
					if !has(ents, x) {
						ents = append(ents, x)
					}
				}
			}
		}
		if setOf(h.Entities) != setOf(ents) {
			c.Failf("hit", "%s: hit of %s names %v, its chunks %v", what, h.KnowledgeID, h.Entities, ents)
		}
		for _, id := range h.ChunkIDs {
			if !got[id] || !strings.HasPrefix(id, "chunk:"+h.KnowledgeID+":") {
				c.Failf("hit", "%s: hit of %s lists %v", what, h.KnowledgeID, h.ChunkIDs)
			}
		}
	}
	if len(seen) != len(docs) || n != len(got) {
		c.Failf("hit", "%s: hits %v for chunks %v", what, r.Results, got)
	}
}

// kFields updates every set of fields, to a new value or to nothing, of items
// with and without them.
func kFields(c *vk.C, semantic bool, mask int) {
	e := newKEnv(c, semantic)
	e.light = true
	get := func() int {
		d, err := e.db.Vector().(*core.SQLiteStore).GetDocument(bg, "k1")
		if err != nil {
			c.Failf("document", "%v", err)
		}
		return d.Version
	}
	for from := 0; from < 2; from++ {
		for empty := 0; empty < 16; empty++ {
			if empty&^mask != 0 {
				continue
			}
			r := cortexdb.KnowledgeSaveRequest{KnowledgeID: "k1", Content: "apple Zeus pear"}
			if from == 1 {
				r.Title, r.SourceURL, r.Author, r.Collection, r.Metadata = "T", "http://x", "A", "other", map[string]string{"k": "v"}
			}
			opSaveK("k1", r, false).do(e)
			v := get()
			val := func(bit int, s string) *string {
				if mask>>bit&1 == 0 {
					return nil
				}
				if empty>>bit&1 == 1 {
					s = ""
				}
				return &s
			}
			u := cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k1", Title: val(0, "New"), SourceURL: val(1, "http://y"), Author: val(2, "B"), Collection: val(3, []string{"third", "graphrag_chunks"}[from])}
			if mask&16 != 0 {
				u.Metadata = map[string]string{"n": "1"}
			}
			if mask&32 != 0 {
				u.Content = ptr("plum Hera kiwi")
			}
			opUpdateK(fmt.Sprintf("k1 fields %06b empty %04b", mask, empty), u, false).do(e)
			c.Trans(2)
			if get() <= v {
				c.Failf("version", "the version stays at %d after an update", v)
			}
			v = get()
			e.observe()
			opSaveK("k1", r, false).do(e)
			if get() <= v {
				c.Failf("version", "the version stays at %d after saving again", v)
			}
			e.observe()
			c.State(e.String() + fmt.Sprint(mask, empty))
		}
	}
}

// kWords asks for words in the query, the keywords and the alternatives.
func kWords(c *vk.C) {
	e := newKEnv(c, false)
	words := []string{"apple", "pear", "plum", "zz"}
	for i, x := range words[:3] {
		id := fmt.Sprint("k", i+1)
		opSaveK(id, cortexdb.KnowledgeSaveRequest{KnowledgeID: id, Content: x + " text", Entities: []cortexdb.ToolEntityInput{{Name: string(rune('A' + i)), ChunkIDs: []string{chunkID(id, 0)}}, {Name: "Both" + x, ChunkIDs: []string{chunkID(id, 0)}}}}, false).do(e)
	}
	e.light = true
	e.observe()
	for q := range words {
		for kw := 0; kw < 16; kw++ {
			for alt := 0; alt < 16; alt++ {
				req := cortexdb.KnowledgeSearchRequest{Query: words[q], TopK: 20, MaxContextChunks: 50, PerDocumentLimit: 50, MaxContextChars: 1 << 20, DisableGraph: true}
				want := map[string]bool{}
				for i, x := range words {
					if kw>>i&1 == 1 {
						req.Keywords = append(req.Keywords, x)
					}
					if alt>>i&1 == 1 {
						req.AlternateQueries = append(req.AlternateQueries, x)
					}
					if i < 3 && (q == i || (kw|alt)>>i&1 == 1) {
						want[fmt.Sprint("k", i+1)] = true
					}
				}
				for _, mode := range []string{"", "lexical"} {
					req.RetrievalMode = mode
					r, err := e.db.SearchKnowledge(bg, req)
					c.Trans(1)
					what := fmt.Sprintf("SearchKnowledge(%q, keywords %q, alternatives %q, %s)", req.Query, req.Keywords, req.AlternateQueries, mode)
					if err != nil || len(r.Results) != len(want) {
						c.Failf("words", "%s returned %v (%v), want %v", what, r, err, want)
					}
					for _, h := range r.Results {
						if !want[h.KnowledgeID] {
							c.Failf("words", "%s returned %s, want %v", what, h.KnowledgeID, want)
						}
					}
				}
				c.State(fmt.Sprint(q, kw, alt))
			}
		}
	}
}

// refSnippet is the text on one line, cut at a character after at most 180 bytes.
func refSnippet(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) <= 180 {
		return s
	}
	cut := ""
	for _, r := range s {
		if len(cut)+len(string(r)) > 177 {
			break
		}
		cut += string(r)
	}
	return cut + "..."
}

// kSnippets: texts of every length around the limit, of narrow and wide characters.
func kSnippets(w *vk.W) {
	for _, pad := range []string{"x", "é", "語", "🙂", "a\t b"} {
		for n := 168; n <= 190; n++ {
			pad, n := pad, n
			w.Case(fmt.Sprintf("snippet|%s|%d", pad, n), func(c *vk.C) {
				txt := "word "
				for len(txt) < n-len(pad) {
					txt += pad
				}
				txt += strings.Repeat("y", n-len(txt))
				db := openCortex(c, c.Dir()+"/k.db", nil, core.IndexTypeFlat)
				c.Defer(func() { db.Close() })
				if _, err := db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: "k", Title: "T", Content: txt, ChunkSize: 1000}); err != nil {
					c.Failf("accept", "%v", err)
				}
				r, err := db.SearchKnowledge(bg, cortexdb.KnowledgeSearchRequest{Query: "word", RetrievalMode: "lexical"})
				c.Trans(1)
				if err != nil || len(r.Results) != 1 {
					c.Failf("snippet", "text of %d bytes: %v, %v", len(txt), r, err)
				}
				if g := r.Results[0].Snippet; g != refSnippet(txt) {
					c.Failf("snippet", "text %q has snippet %q, want %q", txt, g, refSnippet(txt))
				}
			})
		}
	}
}

// best checks that the single seed of a semantic search is the closest chunk.
func (e *kEnv) best(in map[string]string, coll, q string) {
	c := e.c
	r, err := e.db.SearchKnowledge(bg, cortexdb.KnowledgeSearchRequest{Query: q, Collection: coll, TopK: 1, DisableGraph: true})
	if err != nil {
		c.Failf("search", "%v", err)
	}
	if len(r.Chunks) != min(1, len(in)) {
		c.Failf("best", "SearchKnowledge(%q, %s, k=1) returned %d chunks of %v", q, coll, len(r.Chunks), in)
	}
	if len(in) == 0 {
		return
	}
	s := refCos(e.emb.vec(q), e.emb.vec(in[r.Chunks[0].ID]))
	for id, t := range in {
		if x := refCos(e.emb.vec(q), e.emb.vec(t)); x > s+eps {
			c.Failf("best", "SearchKnowledge(%q, %s, k=1) returned %s (%.3f), closer is %s (%.3f)", q, coll, r.Chunks[0].ID, s, id, x)
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C25", Rule: "updates of every set of fields to new values and to nothing; every combination of query words, keywords and alternatives; every sequence of up to 3 knowledge operations out of 15 (saves of different lengths, collections, metadata and entities, partial updates, deletions, reopening) without and with an embedder, then all reads, chunk and graph contents and searches in every mode; rejected requests; an embedder failing at every call; a storage fault at every call followed by a retry",
		Assumptions: []string{"search limits are out of the way except for the best chunk"},
		Run: func(w *vk.W) {
			kSnippets(w)
			w.Case("words", kWords)
			for mask := 0; mask < 64; mask++ {
				for _, sem := range []bool{false, true} {
					mask, sem := mask, sem
					w.Case(fmt.Sprintf("fields|%v|%d", sem, mask), func(c *vk.C) { kFields(c, sem, mask) })
				}
			}
			ops, bad := kOps(), kBad()
			var names []string
			for _, o := range ops {
				names = append(names, o.name)
			}
			for _, sem := range []bool{false, true} {
				sem := sem
				for d := 1; d <= w.Pick(3, 4); d++ {
					if d == 3 && sem && !w.Thorough() {
						continue
					}
					seqsOf(w, fmt.Sprintf("seq%v", sem), names, d, func(c *vk.C, seq []int) {
						e := newKEnv(c, sem)
						e.light = len(seq) == 3 && !w.Thorough()
						for _, i := range seq {
							c.Logf("%s", ops[i].name)
							ops[i].do(e)
							c.Trans(1)
						}
						c.State(e.String())
						e.observe()
					})
				}
				for i := range bad {
					for p := 0; p < 3; p++ {
						i, p := i, p
						w.Case(fmt.Sprintf("bad|%v|%s|%d", sem, bad[i].name, p), func(c *vk.C) {
							e := newKEnv(c, sem)
							ops[p].do(e)
							ops[5].do(e)
							bad[i].do(e)
							e.observe()
						})
					}
				}
			}
			for i := range ops {
				for _, p := range [][]int{{0, 4}, {2, 5}, {}} {
					i, p := i, p
					w.Case(fmt.Sprintf("embed|%s|%v", ops[i].name, p), func(c *vk.C) {
						for n := 1; n <= 4; n++ {
							e := newKEnv(c, true)
							for _, x := range p {
								ops[x].do(e)
							}
							e.emb.fail, e.emb.once = e.emb.calls+n, true
							ops[i].do(e)
							c.Logf("%s with the embedder failing at call %d: %v", ops[i].name, n, e.err)
							e.emb.fail = 0
							e.observe()
							e.db.Close()
						}
					})
					if ops[i].name == "REOPEN" || len(p) > 0 && p[0] == 2 && !w.Thorough() {
						continue
					}
					w.Case(fmt.Sprintf("fault|%s|%v", ops[i].name, p), func(c *vk.C) {
						torn := ""
						eachFault(c, 120, func(ft *fault) bool {
							e := newKEnv(c, false)
							e.light = !w.Thorough()
							defer e.db.Close()
							for _, x := range p {
								ops[x].do(e)
							}
							ft.arm()
							ops[i].do(e)
							vsql.SetHook(nil)
							c.Logf("%s with a failure at %s: %v", ops[i].name, ft.at, e.err)
							if torn == "" && e.err != nil {
								if sig, msg := c.Try(e.observe); sig != "" {
									torn = fmt.Sprintf("%s fails at %s and leaves: %s", ops[i].name, ft.at, msg)
								}
							}
							// trying again completes the operation
							if ops[i].name[0] == 'D' && e.err != nil {
								if _, err := e.db.GetKnowledge(bg, cortexdb.KnowledgeGetRequest{KnowledgeID: "k1"}); err != nil {
									return true
								}
							}
							if ops[i].name[0] == 'U' && torn != "" {
								return true
							}
							ops[i].do(e)
							e.observe()
							return true
						})
						if torn != "" {
							c.Failf("torn", "%s", torn)
						}
					})
				}
			}
		}})
}
