package checks

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

func nwords(n int, tag string) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("%s%d", tag, i))
	}
	return strings.Join(l, " ")
}

// chunkCase ingests every pair of paragraph lengths with one chunk size and
// overlap and compares chunks and their links.
func chunkCase(c *vk.C, sem bool, size, overlap, maxLen int) {
	var emb *wordEmbedder
	if sem {
		emb = &wordEmbedder{vocab: kVocab}
	}
	db := openCortex(c, newCortexPath(c), emb, core.IndexTypeFlat)
	defer db.Close()
	t := db.GraphRAGTools()
	for _, sep := range []string{"\n", "\r\n", " \n\n  \t\n", "\r"} {
		for a := 0; a <= maxLen; a++ {
			for b := 0; b <= maxLen; b++ {
				if sep != "\n" && a > 3 {
					continue
				}
				text := "  " + nwords(a, "a") + sep + nwords(b, "b") + sep
				want := refSplit(text, size, overlap)
				id := fmt.Sprintf("d%d-%d", a, b)
				var ids []string
				var err error
				if sem {
					var r *cortexdb.GraphRAGIngestResult
					r, err = db.InsertGraphDocument(bg, cortexdb.GraphRAGDocument{ID: id, Content: text}, cortexdb.GraphRAGIngestOptions{ChunkSize: size, ChunkOverlap: overlap})
					if err == nil {
						ids = r.ChunkNodeIDs
					}
				} else {
					var r *cortexdb.ToolIngestDocumentResponse
					r, err = t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: id, Content: text, ChunkSize: size, ChunkOverlap: overlap})
					if err == nil {
						ids = r.ChunkNodeIDs
					}
				}
				c.Trans(1)
				if len(want) == 0 {
					if err == nil {
						c.Failf("empty", "a blank document is accepted: %q", text)
					}
					continue
				}
				if err != nil {
					c.Failf("ingest", "ingesting %q: %v", text, err)
				}
				r, err := t.GetChunks(bg, cortexdb.ToolGetChunksRequest{ChunkIDs: ids})
				if err != nil {
					c.Failf("chunks", "%v", err)
				}
				var got []string
				for _, x := range r.Chunks {
					got = append(got, x.Content)
				}
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					c.Failf("split", "size %d overlap %d: %q is split into %q, want %q", size, overlap, text, got, want)
				}
				// the chain of chunks
				ed, err := db.Graph().GetEdges(bg, "doc:"+id, "out")
				if err != nil || len(ed) != len(ids) {
					c.Failf("links", "document %s has %d chunk edges (%v), want %d", id, len(ed), err, len(ids))
				}
				for i := range ids {
					ed, err := db.Graph().GetEdges(bg, ids[i], "out")
					n := 0
					for _, x := range ed {
						if x.EdgeType == "next" {
							n++
							if i+1 == len(ids) || x.ToNodeID != ids[i+1] {
								c.Failf("links", "chunk %s is followed by %s", ids[i], x.ToNodeID)
							}
						}
					}
					if err != nil || i+1 < len(ids) && n != 1 {
						c.Failf("links", "chunk %s has %d successors (%v)", ids[i], n, err)
					}
				}
				l, err := db.Vector().(*core.SQLiteStore).GetByDocID(bg, id)
				if err != nil || len(l) != len(want) {
					c.Failf("stale", "document %s has %d stored chunks (%v), want %d", id, len(l), err, len(want))
				}
				c.State(fmt.Sprint(a, b, size, overlap))
			}
		}
	}
}

// packEnv holds two documents with chunks of different lengths.
type packEnv struct {
	db    *cortexdb.DB
	doc   map[string]string
	text  map[string]string
	names []string
}

func newPackEnv(c *vk.C) *packEnv {
	e := &packEnv{db: openCortex(c, newCortexPath(c), nil, core.IndexTypeFlat), doc: map[string]string{}, text: map[string]string{}}
	c.Defer(func() { e.db.Close() })
	for _, d := range []struct {
		id    string
		paras []string
	}{{"p", []string{"aa", "bbbbbbbbbb bbbbbb"}}, {"qq", []string{"cccc", "ddddddddd"}}} {
		r, err := e.db.GraphRAGTools().IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: d.id, Content: strings.Join(d.paras, "\n")})
		if err != nil || len(r.ChunkNodeIDs) != len(d.paras) {
			c.Failf("ingest", "%v %v", r, err)
		}
		for i, id := range r.ChunkNodeIDs {
			e.doc[id], e.text[id] = d.id, d.paras[i]
			e.names = append(e.names, id)
		}
	}
	e.names = append(e.names, "chunk:zz:000")
	return e
}

func (e *packEnv) line(id string) string { return "[" + e.doc[id] + "/" + id + "] " + e.text[id] }

// check compares one packing with the stated rules.
func (e *packEnv) check(c *vk.C, ids []string, maxChunks, maxChars, perDoc int) {
	r, err := e.db.GraphRAGTools().BuildContext(bg, cortexdb.ToolBuildContextRequest{ChunkIDs: ids, MaxContextChunks: maxChunks, MaxContextChars: maxChars, PerDocumentLimit: perDoc, DisableGraph: true})
	c.Trans(1)
	what := fmt.Sprintf("BuildContext(%v, chunks %d, chars %d, per document %d)", ids, maxChunks, maxChars, perDoc)
	if err != nil {
		c.Failf("context", "%s: %v", what, err)
	}
	if maxChunks <= 0 {
		maxChunks = 8 // default: 4 hits and 4 related
	}
	if maxChars <= 0 {
		maxChars = 2400
	}
	if perDoc <= 0 {
		perDoc = 2
	}
	var known []string
	for _, id := range ids {
		if e.text[id] != "" {
			known = append(known, id)
		}
	}
	got := r.Chunks
	per := map[string]int{}
	var lines []string
	k := 0
	slack := 0 // length of what is packed, generously counted
	skip := func(id string) {
		// leaving a chunk out needs a reason
		if len(lines) >= maxChunks || per[e.doc[id]] >= perDoc || len(lines) > 0 && slack+len(e.line(id))+8 > maxChars {
			return
		}
		c.Failf("left out", "%s leaves out %s although it fits: %v", what, id, got)
	}
	for _, id := range known {
		if k < len(got) && got[k].ID == id && !(len(lines) > 0 && len(strings.Join(append(append([]string(nil), lines...), e.line(id)), "\n")) > maxChars) && per[e.doc[id]] < perDoc && len(lines) < maxChunks {
			if got[k].Content != e.text[id] || got[k].DocumentID != e.doc[id] {
				c.Failf("context", "%s: chunk %+v", what, got[k])
			}
			lines = append(lines, e.line(id))
			per[e.doc[id]]++
			slack += len(e.line(id)) + 8
			k++
			continue
		}
		skip(id)
	}
	if k != len(got) {
		c.Failf("limits", "%s packs %v: out of order, not asked for or beyond a limit", what, got)
	}
	if r.Context != strings.Join(lines, "\n") {
		c.Failf("context", "%s: context %q, want %q", what, r.Context, lines)
	}
}

// mentionCase builds one pattern of mentions and relations and compares the
// entity, expansion and lookup tools with the graph.
func mentionCase(c *vk.C, mask int, rel int, thorough bool) {
	db := openCortex(c, newCortexPath(c), nil, core.IndexTypeFlat)
	defer db.Close()
	t := db.GraphRAGTools()
	g := newGModel()
	edge := func(from, to, typ string) {
		id := from + "->" + to + ":" + typ
		g.edges[id] = gedge{id: id, from: from, to: to, typ: typ, w: 1}
	}
	var chunks []string
	text := map[string]string{}
	doc := map[string]string{}
	for _, d := range [][]string{{"d1", "apple", "pear"}, {"d2", "plum"}} {
		r, err := t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: d[0], Content: strings.Join(d[1:], "\n")})
		if err != nil {
			c.Failf("ingest", "%v", err)
		}
		g.nodes["doc:"+d[0]] = gnode{id: "doc:" + d[0], typ: "document"}
		for i, id := range r.ChunkNodeIDs {
			chunks = append(chunks, id)
			text[id], doc[id] = d[1+i], d[0]
			g.nodes[id] = gnode{id: id, typ: "chunk", content: d[1+i]}
			edge("doc:"+d[0], id, "has_chunk")
			if i > 0 {
				edge(r.ChunkNodeIDs[i-1], id, "next")
			}
		}
	}
	ents := []string{"New York", "Zeus", "Hera"}
	node := map[string]string{"New York": "entity:new_york", "Zeus": "entity:zeus", "Hera": "entity:hera", "Nobody": "entity:nobody"}
	in := make([]cortexdb.ToolEntityInput, 3)
	mentions := map[string][]string{}
	n := 0
	for i, name := range ents {
		in[i].Name = name
		typ := "entity"
		if i == 0 {
			typ = "city"
			in[i].Type = typ
		}
		g.nodes[node[name]] = gnode{id: node[name], typ: typ, content: name}
		for j, ch := range chunks {
			if i < 2 && mask>>(i*3+j)&1 == 1 {
				in[i].ChunkIDs = append(in[i].ChunkIDs, ch)
				edge(ch, node[name], "mentions")
				mentions[ch] = append(mentions[ch], name)
				n++
			}
		}
	}
	for round := 0; round < 2; round++ { // saying it twice changes nothing
		r, err := t.UpsertEntities(bg, cortexdb.ToolUpsertEntitiesRequest{Entities: in})
		if err != nil || setOf(r.EntityNodeIDs) != setOf([]string{"entity:new_york", "entity:zeus", "entity:hera"}) || r.MentionEdgeCount != n {
			c.Failf("entities", "UpsertEntities = %+v, %v; want %d mentions", r, err, n)
		}
		var rels []cortexdb.ToolRelationInput
		if rel&1 == 1 {
			rels = append(rels, cortexdb.ToolRelationInput{From: "New York", To: "entity:zeus", Type: "hosts", Weight: 0.5})
		}
		if rel&2 == 2 {
			rels = append(rels, cortexdb.ToolRelationInput{From: "Zeus", To: "Hera"})
		}
		rr, err := t.UpsertRelations(bg, cortexdb.ToolUpsertRelationsRequest{Relations: rels})
		if err != nil || len(rr.EdgeIDs) != len(rels) {
			c.Failf("relations", "UpsertRelations = %+v, %v", rr, err)
		}
		for i, id := range rr.EdgeIDs {
			el, err := db.Graph().GetEdgesBatch(bg, []string{id})
			if err != nil || len(el) != 1 {
				c.Failf("relations", "relation edge %s: %v %v", id, el, err)
			}
			e := el[0]
			w, typ := rels[i].Weight, rels[i].Type
			if w == 0 {
				w = 1
			}
			if typ == "" {
				typ = "related_to"
			}
			if err != nil || e.Weight != w || e.EdgeType != typ {
				c.Failf("relations", "relation %+v is stored as %+v (%v)", rels[i], e, err)
			}
		}
	}
	if rel&1 == 1 {
		edge("entity:new_york", "entity:zeus", "hosts")
	}
	if rel&2 == 2 {
		edge("entity:zeus", "entity:hera", "related_to")
	}
	if _, err := t.UpsertRelations(bg, cortexdb.ToolUpsertRelationsRequest{Relations: []cortexdb.ToolRelationInput{{From: "Zeus", To: "Nobody"}}}); err == nil {
		c.Failf("relations", "a relation to an entity that does not exist is accepted")
	}
	c.State(fmt.Sprint(mask, rel))
	// entity search
	lists := [][]string{{"Zeus"}, {"New York"}, {"new york"}, {"entity:zeus"}, {"Hera"}, {"Nobody"}, {"Zeus", "New York"}, {"Nobody", "Zeus"}, {"Hera", "New York", "Zeus"}, nil}
	for _, l := range lists {
		for hops := 0; hops <= 3; hops++ {
			for k := 0; k <= 3; k++ {
				if !thorough && len(l) == 1 && k > 1 {
					continue
				}
				r, err := t.SearchChunksByEntities(bg, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: l, TopK: k, MaxHops: hops})
				c.Trans(1)
				what := fmt.Sprintf("SearchChunksByEntities(%q, hops %d, k %d)", l, hops, k)
				if err != nil {
					c.Failf("entity search", "%s: %v", what, err)
				}
				score := map[string]int{}
				for _, name := range l {
					id := node[name]
					if name == "new york" {
						id = "entity:new_york"
					}
					if name == "entity:zeus" {
						id = name
					}
					for x, d := range g.dists(id, "both", nil) {
						if text[x] != "" && d <= max(hops, 1) {
							score[x]++
						}
					}
				}
				var want []string
				for x := range score {
					want = append(want, x)
				}
				lim := k
				if lim == 0 {
					lim = 10
				}
				if len(r.Chunks) != min(lim, len(want)) {
					c.Failf("entity search", "%s returned %d chunks, want %d of %v", what, len(r.Chunks), min(lim, len(want)), score)
				}
				seen := map[string]bool{}
				least := 1 << 30
				for i, x := range r.Chunks {
					if score[x.ID] == 0 || seen[x.ID] || x.Content != text[x.ID] || x.DocumentID != doc[x.ID] || setOf(x.Entities) != setOf(mentions[x.ID]) {
						c.Failf("entity search", "%s returned %+v; scores %v mentions %v", what, x, score, mentions)
					}
					if i > 0 && score[x.ID] > score[r.Chunks[i-1].ID] {
						c.Failf("entity search", "%s: out of order %v", what, r.Chunks)
					}
					seen[x.ID] = true
					least = score[x.ID]
				}
				for x, s := range score {
					if !seen[x] && s > least {
						c.Failf("entity search", "%s left out %s, linked to %d entities", what, x, s)
					}
				}
			}
		}
	}
	// expansion
	starts := [][]string{{"doc:d1"}, {chunks[0]}, {chunks[2]}, {"entity:zeus"}, {"entity:hera", chunks[1]}, {"nosuch"}, {"doc:d2", "", "doc:d1"}}
	for _, s := range starts {
		for hops := 0; hops <= 3; hops++ {
			for ti, et := range [][]string{nil, {"mentions"}, {"has_chunk", "next"}} {
				for ni, nt := range [][]string{nil, {"chunk"}} {
					r, err := t.ExpandGraph(bg, cortexdb.ToolExpandGraphRequest{NodeIDs: s, MaxHops: hops, EdgeTypes: et, NodeTypes: nt})
					c.Trans(1)
					what := fmt.Sprintf("ExpandGraph(%q, hops %d, edges %v, nodes %v)", s, hops, et, nt)
					if err != nil {
						c.Failf("expand", "%s: %v", what, err)
					}
					want := map[string]bool{}
					for _, x := range s {
						if _, ok := g.nodes[x]; !ok {
							continue
						}
						want[x] = true
						for y, d := range g.dists(x, "both", et) {
							if d <= max(hops, 1) && (nt == nil || g.nodes[y].typ == "chunk") {
								want[y] = true
							}
						}
					}
					got := map[string]bool{}
					for _, x := range r.Nodes {
						if !want[x.ID] || got[x.ID] {
							c.Failf("expand", "%s returned node %s; want %v", what, x.ID, want)
						}
						got[x.ID] = true
					}
					if len(got) != len(want) {
						c.Failf("expand", "%s returned %v, want %v", what, got, want)
					}
					we := map[string]bool{}
					for id, e := range g.edges {
						if want[e.from] && want[e.to] {
							we[id] = true
						}
					}
					ge := map[string]bool{}
					for _, e := range r.Edges {
						id := e.FromNodeID + "->" + e.ToNodeID + ":" + e.EdgeType
						if !we[id] || ge[id] {
							c.Failf("expand", "%s returned edge %s", what, id)
						}
						ge[id] = true
					}
					if len(ge) != len(we) {
						c.Failf("expand", "%s returned edges %v, want %v", what, ge, we)
					}
					_, _ = ti, ni
				}
			}
		}
	}
	r, err := t.GetNodes(bg, cortexdb.ToolGetNodesRequest{NodeIDs: []string{"entity:zeus", "nosuch", chunks[1], "doc:d2"}})
	if err != nil || len(r.Nodes) != 3 {
		c.Failf("nodes", "GetNodes = %v, %v", r, err)
	}
	for _, x := range r.Nodes {
		if w := g.nodes[x.ID]; w.typ != x.NodeType || w.typ != "document" && w.content != x.Content {
			c.Failf("nodes", "GetNodes returned %+v", x)
		}
	}
	gc, err := t.GetChunks(bg, cortexdb.ToolGetChunksRequest{ChunkIDs: chunks})
	if err != nil || len(gc.Chunks) != 3 {
		c.Failf("chunks", "GetChunks = %v, %v", gc, err)
	}
	for i, x := range gc.Chunks {
		if x.ID != chunks[i] || setOf(x.Entities) != setOf(mentions[x.ID]) {
			c.Failf("chunks", "GetChunks returned %+v, mentions %v", x, mentions)
		}
	}
}

// textCase stores every combination of three words and compares lexical search.
func textCase(c *vk.C, coll string) {
	db := openCortex(c, newCortexPath(c), nil, core.IndexTypeFlat)
	defer db.Close()
	t := db.GraphRAGTools()
	ws := []string{"cat", "catnip", "dog"}
	text := map[string]string{}
	for mask := 1; mask < 8; mask++ {
		var l []string
		for i, x := range ws {
			if mask>>i&1 == 1 {
				l = append(l, x)
			}
		}
		for _, cl := range []string{"", "other"} {
			id := fmt.Sprintf("m%d%s", mask, cl)
			r, err := t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: id, Content: strings.Join(l, " "), Collection: cl})
			if err != nil {
				c.Failf("ingest", "%v", err)
			}
			if cl == coll || coll == "graphrag_chunks" && cl == "" {
				text[r.ChunkNodeIDs[0]] = strings.Join(l, " ")
			}
		}
	}
	type q struct {
		query, kw, alt string
	}
	for _, x := range []q{{"cat", "", ""}, {"catnip", "", ""}, {"dog", "", ""}, {"DOG", "", ""}, {"cat dog", "", ""}, {"what is the dog", "", ""}, {"horse", "", ""}, {"horse", "dog", ""}, {"horse", "", "catnip dog"}, {"catnip", "dog", ""}, {"is it a dog?", "", ""}, {"the \"dog\"", "", ""}, {"dog's", "", ""}, {"catn", "", ""}} {
		for k := 0; k <= 8; k++ {
			req := cortexdb.ToolSearchTextRequest{Query: x.query, Collection: coll, TopK: k}
			if x.kw != "" {
				req.Keywords = []string{x.kw}
			}
			if x.alt != "" {
				req.AlternateQueries = []string{x.alt}
			}
			r, err := t.SearchText(bg, req)
			c.Trans(1)
			what := fmt.Sprintf("SearchText(%+v)", req)
			if err != nil {
				c.Failf("text", "%s: %v", what, err)
			}
			want := map[string]bool{}
			for id, txt := range text {
				fs := strings.Fields(txt)
				for _, kw := range strings.FieldsFunc(strings.ToLower(x.query+" "+x.kw), func(r rune) bool { return r < 'a' || r > 'z' }) {
					if kw == "is" || kw == "the" || kw == "it" || kw == "what" || len(kw) < 2 {
						continue
					}
					for _, w := range fs {
						if strings.HasPrefix(w, kw) {
							want[id] = true
						}
					}
				}
				if x.alt != "" {
					all := true
					for _, w := range strings.Fields(x.alt) {
						all = all && has(fs, w)
					}
					if all {
						want[id] = true
					}
				}
			}
			lim := k
			if lim == 0 {
				lim = 10
			}
			seen := map[string]bool{}
			for i, ch := range r.Chunks {
				if !want[ch.ID] || seen[ch.ID] || ch.Content != text[ch.ID] {
					c.Failf("text", "%s returned %+v, want some of %v", what, ch, want)
				}
				if i > 0 && ch.Score > r.Chunks[i-1].Score {
					c.Failf("text", "%s: out of order", what)
				}
				seen[ch.ID] = true
			}
			if len(seen) > lim {
				c.Failf("text", "%s returned %d chunks", what, len(seen))
			}
			if len(seen) < min(lim, len(want)) {
				c.Failf("text missed", "%s returned %v, want %d of %v", what, seen, min(lim, len(want)), want)
			}
		}
	}
}

// detailCase sends entities and relations with every combination of the
// optional fields and re-ingests documents over one another.
func detailCase(c *vk.C) {
	db := openCortex(c, newCortexPath(c), nil, core.IndexTypeFlat)
	defer db.Close()
	t := db.GraphRAGTools()
	r, err := t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: "d", Title: "T", Content: "apple\npear\nplum", Metadata: map[string]string{"lang": "en", "title": "own"}})
	if err != nil || len(r.ChunkNodeIDs) != 3 {
		c.Failf("ingest", "%v %v", r, err)
	}
	ch := r.ChunkNodeIDs
	for i, id := range ch {
		e, err := db.Vector().(*core.SQLiteStore).GetByID(bg, id)
		if err != nil || e.Metadata["lang"] != "en" || e.Metadata["title"] != "own" || e.Metadata["document_id"] != "d" || e.Metadata["chunk_index"] != fmt.Sprint(i) {
			c.Failf("metadata", "chunk %s has metadata %v (%v)", id, e.Metadata, err)
		}
		if len(e.Vector) == 0 || allZero(e.Vector) {
			c.Failf("vector", "chunk %s is stored with the vector %v", id, e.Vector)
		}
	}
	// entities: id, name and chunk lists in every combination
	k := 0
	for _, id := range []string{"", "entity:Own", "entity:x y", "own2"} {
		for _, name := range []string{"", "Zeus", "New York"} {
			for _, desc := range []string{"", "about"} {
				for _, list := range [][]string{nil, {ch[0]}, {"", ch[1]}, {ch[2], "", ch[0]}, {""}} {
					k++
					r, err := t.UpsertEntities(bg, cortexdb.ToolUpsertEntitiesRequest{DocumentID: "d", Entities: []cortexdb.ToolEntityInput{{ID: id, Name: name, Description: desc, ChunkIDs: list, Metadata: map[string]string{"n": fmt.Sprint(k)}}}})
					c.Trans(1)
					what := fmt.Sprintf("UpsertEntities(id %q, name %q, description %q, chunks %q)", id, name, desc, list)
					if err != nil {
						c.Failf("entities", "%s: %v", what, err)
					}
					if id == "" && name == "" {
						if len(r.EntityNodeIDs) != 0 || r.MentionEdgeCount != 0 {
							c.Failf("entities", "%s = %+v", what, r)
						}
						continue
					}
					if len(r.EntityNodeIDs) != 1 {
						c.Failf("entities", "%s = %+v", what, r)
					}
					nid := r.EntityNodeIDs[0]
					if strings.HasPrefix(id, "entity:") && nid != id {
						c.Failf("entities", "%s is stored as %s", what, nid)
					}
					n, err := db.Graph().GetNode(bg, nid)
					if err != nil || n.Properties["n"] != fmt.Sprint(k) || name != "" && (n.Content != name || n.Properties["name"] != name) || desc != "" && n.Properties["description"] != desc {
						c.Failf("entities", "%s is stored as %+v (%v)", what, n, err)
					}
					ed, err := db.Graph().GetEdges(bg, nid, "in")
					if err != nil {
						c.Failf("entities", "%v", err)
					}
					from := map[string]bool{}
					for _, e := range ed {
						from[e.FromNodeID] = e.EdgeType == "mentions"
					}
					cnt := 0
					for _, x := range list {
						if x == "" {
							continue
						}
						cnt++
						if !from[x] {
							c.Failf("entities", "%s: %s does not mention it", what, x)
						}
					}
					if r.MentionEdgeCount != cnt {
						c.Failf("entities", "%s reports %d mentions, want %d", what, r.MentionEdgeCount, cnt)
					}
					c.State(what)
				}
			}
		}
	}
	if _, err := t.UpsertEntities(bg, cortexdb.ToolUpsertEntitiesRequest{Entities: []cortexdb.ToolEntityInput{{Name: "Zeus"}, {Name: "Hera"}}}); err != nil {
		c.Failf("entities", "%v", err)
	}
	// relations: weights and metadata
	for _, w := range []float64{0, 0.01, 0.1, 0.5, 1, 3.5} {
		for _, doc := range []string{"", "d"} {
			for _, list := range [][]string{nil, {ch[0], ch[1]}} {
				for _, md := range []map[string]string{nil, {"k": "v"}, {"document_id": "mine"}} {
					for pos := 0; pos < 2; pos++ {
						rels := make([]cortexdb.ToolRelationInput, pos+1)
						for i := range rels {
							rels[i] = cortexdb.ToolRelationInput{From: "Hera", To: "Zeus", Type: "other"}
						}
						rels[pos] = cortexdb.ToolRelationInput{From: "Zeus", To: "Hera", Type: "knows", Weight: w, ChunkIDs: list, Metadata: md}
						r, err := t.UpsertRelations(bg, cortexdb.ToolUpsertRelationsRequest{DocumentID: doc, Relations: rels})
						c.Trans(1)
						what := fmt.Sprintf("UpsertRelations(document %q, weight %v, chunks %q, metadata %v)", doc, w, list, md)
						if err != nil || len(r.EdgeIDs) != len(rels) {
							c.Failf("relations", "%s = %+v, %v", what, r, err)
						}
						el, err := db.Graph().GetEdgesBatch(bg, r.EdgeIDs[pos:pos+1])
						if err != nil || len(el) != 1 {
							c.Failf("relations", "%s: %v %v", what, el, err)
						}
						e := el[0]
						ww := w
						if ww == 0 {
							ww = 1
						}
						wd := doc
						if md["document_id"] != "" {
							wd = md["document_id"]
						}
						gd, _ := e.Properties["document_id"].(string)
						gk, _ := e.Properties["k"].(string)
						gl, _ := e.Properties["chunk_ids"].([]interface{})
						if e.Weight != ww || e.FromNodeID != "entity:zeus" || e.ToNodeID != "entity:hera" || e.EdgeType != "knows" || gd != wd || gk != md["k"] || len(gl) != len(list) {
							c.Failf("relations", "%s is stored as %+v", what, e)
						}
					}
				}
			}
		}
	}
	// every version over every other
	for a := 1; a <= 4; a++ {
		for b := 1; b <= 4; b++ {
			for i, n := range []int{a, b} {
				var l []string
				for j := 0; j < n; j++ {
					l = append(l, fmt.Sprintf("v%d w%d", i, j))
				}
				r, err := t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: fmt.Sprintf("v%d%d", a, b), Content: strings.Join(l, "\n")})
				if err != nil || len(r.ChunkNodeIDs) != n {
					c.Failf("ingest", "%v %v", r, err)
				}
				c.Trans(1)
			}
			st, err := db.Vector().(*core.SQLiteStore).GetByDocID(bg, fmt.Sprintf("v%d%d", a, b))
			if err != nil || len(st) != b {
				c.Failf("stale", "a document of %d chunks ingested over one of %d leaves %d (%v)", b, a, len(st), err)
			}
			ed, err := db.Graph().GetEdges(bg, fmt.Sprintf("doc:v%d%d", a, b), "out")
			if err != nil || len(ed) != b {
				c.Failf("stale", "a document of %d chunks ingested over one of %d links %d (%v)", b, a, len(ed), err)
			}
			for _, x := range st {
				if !strings.HasPrefix(x.Content, "v1 ") {
					c.Failf("stale", "a chunk of the earlier version is left: %q", x.Content)
				}
			}
		}
	}
}

func allZero(v []float32) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

// manyCase looks for more chunks than the default limits, and for short words.
func manyCase(c *vk.C) {
	db := openCortex(c, newCortexPath(c), nil, core.IndexTypeFlat)
	defer db.Close()
	t := db.GraphRAGTools()
	var l []string
	for i := 0; i < 70; i++ {
		l = append(l, fmt.Sprintf("common w%d", i))
	}
	l = append(l, "go ox!")
	r, err := t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: "many", Content: strings.Join(l, "\n")})
	if err != nil || len(r.ChunkNodeIDs) != 71 {
		c.Failf("ingest", "%v", err)
	}
	for i := 0; i < 71; i++ {
		ed, err := db.Graph().GetEdges(bg, r.ChunkNodeIDs[i], "out")
		if err != nil || i < 70 && (len(ed) != 1 || ed[0].ToNodeID != r.ChunkNodeIDs[i+1]) {
			c.Failf("links", "chunk %d: %v %v", i, ed, err)
		}
	}
	for _, q := range []string{"common", "find common", "nothing", "ox", "where ox"} {
		for _, kw := range [][]string{nil, {"common"}, {"ox"}, {"ox", "common"}} {
			for k := 0; k <= 75; k++ {
				if k > 12 && k < 45 {
					continue
				}
				res, err := t.SearchText(bg, cortexdb.ToolSearchTextRequest{Query: q, Keywords: kw, TopK: k, DisableGraph: true})
				c.Trans(1)
				lim := k
				if lim == 0 {
					lim = 10
				}
				n := 0
				all := q + " " + strings.Join(kw, " ")
				if strings.Contains(all, "common") {
					n += 70
				}
				if strings.Contains(all, "ox") {
					n++
				}
				if err != nil || len(res.Chunks) != min(lim, n) {
					c.Failf("many", "SearchText(%q, keywords %q, k %d) returned %d of %d chunks (%v)", q, kw, k, len(res.Chunks), n, err)
				}
				if k > 70 && strings.Contains(all, "ox") {
					found := false
					for _, x := range res.Chunks {
						found = found || x.ID == r.ChunkNodeIDs[70]
					}
					if !found {
						c.Failf("many", "SearchText(%q, keywords %q, k %d) does not find the short word", q, kw, k)
					}
				}
				c.State(fmt.Sprint(q, kw, k))
			}
		}
	}
}

// toolFaults runs every read tool with a fault at every storage call.
func toolFaults(c *vk.C) {
	e := newPackEnv(c)
	t := e.db.GraphRAGTools()
	if _, err := t.UpsertEntities(bg, cortexdb.ToolUpsertEntitiesRequest{Entities: []cortexdb.ToolEntityInput{{Name: "Zeus", ChunkIDs: []string{e.names[0], e.names[2]}}, {Name: "Hera", ChunkIDs: []string{e.names[1]}}}}); err != nil {
		c.Failf("entities", "%v", err)
	}
	reads := map[string]func() (string, error){
		"entities": func() (string, error) {
			r, err := t.SearchChunksByEntities(bg, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: []string{"Zeus", "Hera"}, MaxHops: 2})
			if err != nil {
				return "", err
			}
			return fmt.Sprint(r.Chunks), nil
		},
		"expand": func() (string, error) {
			r, err := t.ExpandGraph(bg, cortexdb.ToolExpandGraphRequest{NodeIDs: []string{"doc:p"}, MaxHops: 3})
			if err != nil {
				return "", err
			}
			return fmt.Sprint(len(r.Nodes), len(r.Edges)), nil
		},
		"nodes": func() (string, error) {
			r, err := t.GetNodes(bg, cortexdb.ToolGetNodesRequest{NodeIDs: []string{"doc:p", "entity:zeus"}})
			if err != nil {
				return "", err
			}
			return fmt.Sprint(len(r.Nodes)), nil
		},
		"chunks": func() (string, error) {
			r, err := t.GetChunks(bg, cortexdb.ToolGetChunksRequest{ChunkIDs: e.names})
			if err != nil {
				return "", err
			}
			return fmt.Sprint(r.Chunks), nil
		},
		"context": func() (string, error) {
			r, err := t.BuildContext(bg, cortexdb.ToolBuildContextRequest{ChunkIDs: e.names})
			if err != nil {
				return "", err
			}
			return fmt.Sprint(r.Chunks, r.Context), nil
		},
	}
	var names []string
	for n := range reads {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want, err := reads[n]()
		if err != nil {
			c.Failf("read", "%s: %v", n, err)
		}
		eachFault(c, 60, func(ft *fault) bool {
			ft.arm()
			got, err := reads[n]()
			vsql.SetHook(nil)
			if err == nil && got != want {
				c.Failf("swallowed", "%s with a failure at %s returns %s without an error, want %s", n, ft.at, got, want)
			}
			if err != nil && !errors.Is(err, vsql.ErrInjected) && !strings.Contains(err.Error(), vsql.ErrInjected.Error()) {
				c.Failf("read", "%s with a failure at %s: %v", n, ft.at, err)
			}
			return true
		})
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C27", Rule: "every pair of paragraph lengths up to 7 with every chunk size up to 4 and overlap up to 5, through both ingestion paths, re-ingested; every sequence of up to 4 chunks out of 5 with all context limits; every pattern of mentions of 2 entities in 3 chunks with every set of relations and all entity, expansion and lookup queries; every combination of 3 words with all lexical queries; entities and relations with every combination of optional fields; every number of chunks ingested over every other; searches for up to 75 of 71 chunks; a fault at every storage call of every read",
		Assumptions: []string{"entity names are plain words, so that no two share an id"},
		Run: func(w *vk.W) {
			for _, sem := range []bool{false, true} {
				for size := 0; size <= w.Pick(4, 6); size++ {
					for over := -1; over <= w.Pick(5, 7); over++ {
						sem, size, over := sem, size, over
						if size == 0 && over > 1 {
							continue
						}
						w.Case(fmt.Sprintf("chunk|%v|%d|%d", sem, size, over), func(c *vk.C) {
							chunkCase(c, sem, size, over, w.Pick(7, 10))
						})
					}
				}
			}
			for n := 0; n <= 4; n++ {
				for first := 0; first < 5; first++ {
					n, first := n, first
					if n == 0 && first > 0 {
						continue
					}
					for _, mc := range []int{0, 1, 2, 3} {
						mc := mc
						w.Case(fmt.Sprintf("pack|%d|%d|%d", n, first, mc), func(c *vk.C) {
							e := newPackEnv(c)
							total := 1
							for i := 1; i < n; i++ {
								total *= 5
							}
							chars := []int{0, 1, 40, 52, 60, 75, 90, 120}
							if w.Thorough() {
								chars = nil
								for x := 0; x < 140; x += 3 {
									chars = append(chars, x)
								}
							}
							for x := 0; x < total; x++ {
								var ids []string
								if n > 0 {
									ids = append(ids, e.names[first])
								}
								for i, y := 1, x; i < n; i++ {
									ids = append(ids, e.names[y%5])
									y /= 5
								}
								for _, ch := range chars {
									for per := 0; per <= 3; per++ {
										e.check(c, ids, mc, ch, per)
									}
								}
							}
						})
					}
				}
			}
			for mask := 0; mask < 64; mask++ {
				for rel := 0; rel < 4; rel++ {
					mask, rel := mask, rel
					w.Case(fmt.Sprintf("mention|%d|%d", mask, rel), func(c *vk.C) { mentionCase(c, mask, rel, w.Thorough()) })
				}
			}
			for _, coll := range []string{"graphrag_chunks", "other"} {
				coll := coll
				w.Case("text|"+coll, func(c *vk.C) { textCase(c, coll) })
			}
			w.Case("faults", toolFaults)
			w.Case("detail", detailCase)
			w.Case("many", manyCase)
		}})
}
