package checks

import (
	"context"
	"errors"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

// extractMap is an extractor that answers from a table keyed by chunk text; a
// text it does not know has no extraction at all.
type extractMap map[string]*cortexdb.GraphExtraction

var errExtract = errors.New("extractor is down")

func (m extractMap) Extract(_ context.Context, text string) (*cortexdb.GraphExtraction, error) {
	if strings.Contains(text, "unreadable") {
		return nil, errExtract
	}
	return m[text], nil
}

// ------------------------------------------------------------------ ingestion

type ragChunk struct {
	text string
	ex   *cortexdb.GraphExtraction
}

type ragVersion struct {
	doc, title, coll string
	md               map[string]string
	chunks           []ragChunk
	size, overlap    int
	builtin          bool // the library's own extractor
}

func ent(names ...string) *cortexdb.GraphExtraction {
	x := &cortexdb.GraphExtraction{}
	for _, n := range names {
		name, typ, _ := strings.Cut(n, ":")
		x.Entities = append(x.Entities, cortexdb.GraphEntity{Name: name, Type: typ})
	}
	return x
}

func (x ragVersion) content() string {
	var l []string
	for _, ch := range x.chunks {
		l = append(l, ch.text)
	}
	return strings.Join(l, "\n")
}

func (x ragVersion) ingest(db *cortexdb.DB) (*cortexdb.GraphRAGIngestResult, error) {
	o := cortexdb.GraphRAGIngestOptions{Collection: x.coll, ChunkSize: x.size, ChunkOverlap: x.overlap}
	if !x.builtin {
		m := extractMap{}
		for _, ch := range x.chunks {
			if ch.ex != nil {
				m[ch.text] = ch.ex
			}
		}
		o.Extractor = m
	}
	return db.InsertGraphDocument(bg, cortexdb.GraphRAGDocument{ID: x.doc, Title: x.title, Content: x.content(), Metadata: x.md}, o)
}

// ragModel is the reference state: the current version of every document and
// every entity ever extracted.
type ragModel struct {
	emb     *wordEmbedder
	docs    map[string]ragVersion
	version map[string]int
	ents    map[string][2]string // node -> name, type
}

func newRagModel(emb *wordEmbedder) *ragModel {
	return &ragModel{emb: emb, docs: map[string]ragVersion{}, version: map[string]int{}, ents: map[string][2]string{}}
}

func entID(name string) string {
	return "entity:" + strings.ReplaceAll(strings.ToLower(name), " ", "_")
}

// put applies an ingestion; it reports whether it is refused.
func (m *ragModel) put(x ragVersion) bool {
	if x.doc == "" || strings.TrimSpace(x.content()) == "" {
		return false
	}
	add := map[string][2]string{}
	for _, ch := range x.chunks {
		if ch.ex == nil {
			continue
		}
		for _, e := range ch.ex.Entities {
			if strings.TrimSpace(e.Name) != "" {
				t := e.Type
				if t == "" {
					t = "entity"
				}
				add[entID(e.Name)] = [2]string{e.Name, t}
			}
		}
	}
	for _, ch := range x.chunks {
		if ch.ex == nil {
			continue
		}
		for _, r := range ch.ex.Relationships {
			if strings.TrimSpace(r.From) == "" || strings.TrimSpace(r.To) == "" {
				continue
			}
			for _, n := range []string{r.From, r.To} {
				_, a := add[entID(n)]
				_, b := m.ents[entID(n)]
				if !a && !b {
					return false
				}
			}
		}
	}
	for id, e := range add {
		m.ents[id] = e
	}
	if x.coll == "" {
		x.coll = "graphrag_chunks"
	}
	m.docs[x.doc] = x
	m.version[x.doc]++
	return true
}

// lines describes the whole reference state.
func (m *ragModel) lines() []string {
	var l []string
	edge := func(from, typ, to string, w float64) {
		l = append(l, fmt.Sprintf("edge %s -%s-> %s %g", from, typ, to, w))
	}
	for id, e := range m.ents {
		l = append(l, fmt.Sprintf("node %s %s %q %v", id, e[1], e[0], m.emb.vec(e[0])))
	}
	for d, x := range m.docs {
		avg := make([]float32, m.emb.Dim())
		for i, ch := range x.chunks {
			v := m.emb.vec(ch.text)
			for j := range v {
				avg[j] += v[j]
			}
			id := chunkID(d, i)
			md := map[string]string{"graph_kind": "chunk", "document_id": d, "chunk_index": fmt.Sprint(i), "title": x.title}
			for k, y := range x.md {
				md[k] = y
			}
			l = append(l, fmt.Sprintf("row %s %s %s %q %v %v", id, d, x.coll, ch.text, v, md))
			l = append(l, fmt.Sprintf("node %s chunk %q %v", id, ch.text, v))
			edge("doc:"+d, "has_chunk", id, 1)
			if i > 0 {
				edge(chunkID(d, i-1), "next", id, 1)
			}
			if ch.ex == nil {
				continue
			}
			seen := map[string]bool{}
			for _, e := range ch.ex.Entities {
				if strings.TrimSpace(e.Name) != "" && !seen[entID(e.Name)] {
					seen[entID(e.Name)] = true
					edge(id, "mentions", entID(e.Name), 1)
				}
			}
			rels := map[string]float64{}
			for _, r := range ch.ex.Relationships {
				if strings.TrimSpace(r.From) == "" || strings.TrimSpace(r.To) == "" {
					continue
				}
				t, w := r.Type, r.Weight
				if t == "" {
					t = "related_to"
				}
				if w == 0 {
					w = 1
				}
				rels[entID(r.From)+"|"+t+"|"+entID(r.To)] = w
			}
			for k, w := range rels {
				p := strings.Split(k, "|")
				edge(p[0], p[1], p[2], w)
			}
		}
		for j := range avg {
			avg[j] /= float32(len(x.chunks))
		}
		head := x.title
		if head == "" {
			head = x.content()
		}
		l = append(l, fmt.Sprintf("node doc:%s document %q %v", d, head, avg))
		l = append(l, fmt.Sprintf("document %s %q %q version %d", d, x.title, x.content(), m.version[d]))
	}
	sort.Strings(l)
	return l
}

// ragLines describes the whole stored state.
func ragLines(c *vk.C, db *cortexdb.DB, docs []string) []string {
	var l []string
	s := db.Vector().(*core.SQLiteStore)
	total := 0
	for _, d := range docs {
		if x, err := s.GetDocument(bg, d); err == nil {
			l = append(l, fmt.Sprintf("document %s %q %q version %d", d, x.Title, x.Content, x.Version))
		}
		rows, err := s.GetByDocID(bg, d)
		if err != nil {
			c.Failf("read", "GetByDocID(%s): %v", d, err)
		}
		for _, r := range rows {
			l = append(l, fmt.Sprintf("row %s %s %s %q %v %v", r.ID, r.DocID, r.Collection, r.Content, r.Vector, r.Metadata))
			total++
		}
	}
	st, err := s.Stats(bg)
	if err != nil || int(st.Count) != total {
		c.Failf("rows", "the store counts %d rows (%v), the documents have %d", st.Count, err, total)
	}
	nodes, err := db.Graph().GetAllNodes(bg, nil)
	if err != nil {
		if len(l) == 0 {
			return nil // no graph yet
		}
		c.Failf("read", "GetAllNodes: %v", err)
	}
	for _, n := range nodes {
		l = append(l, fmt.Sprintf("node %s %s %q %v", n.ID, n.NodeType, n.Content, n.Vector))
		es, err := db.Graph().GetEdges(bg, n.ID, "out")
		if err != nil {
			c.Failf("read", "GetEdges(%s): %v", n.ID, err)
		}
		for _, e := range es {
			l = append(l, fmt.Sprintf("edge %s -%s-> %s %g", e.FromNodeID, e.EdgeType, e.ToNodeID, e.Weight))
		}
	}
	sort.Strings(l)
	return l
}

func diffLines(got, want []string) string {
	n := map[string]int{}
	for _, x := range want {
		n[x]++
	}
	for _, x := range got {
		n[x]--
	}
	var l []string
	for x, k := range n {
		if k > 0 {
			l = append(l, "missing: "+x)
		}
		if k < 0 {
			l = append(l, "too many: "+x)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n  ")
}

var ragDocs = []string{"d1", "d2", "d1:000"}

func ragVersions() map[string]ragVersion {
	a := ragVersion{doc: "d1", title: "First", chunks: []ragChunk{
		{"apple pear", ent("Zeus")},
		{"plum", &cortexdb.GraphExtraction{Entities: ent("Hera:god", "Zeus", "Hera:god").Entities, Relationships: []cortexdb.GraphRelationship{{From: "Zeus", To: "Hera", Type: "likes", Weight: 0.5}, {From: "", To: "Hera"}, {From: "Hera", To: " "}}}},
		{"kiwi", nil}}}
	b := ragVersion{doc: "d1", chunks: []ragChunk{{"pear", ent("Hera", " ", "")}}}
	cc := ragVersion{doc: "d1", title: "Third", coll: "other", md: map[string]string{"lang": "en", "title": "mine"}, chunks: []ragChunk{
		{"quince", &cortexdb.GraphExtraction{Entities: ent("New York:city").Entities, Relationships: []cortexdb.GraphRelationship{{From: "New York", To: "new york"}}}},
		{"quince plum", &cortexdb.GraphExtraction{Entities: ent("Zeus:god", "New York").Entities, Relationships: []cortexdb.GraphRelationship{{From: "Zeus", To: "New York", Weight: 2}, {From: "New York", To: "Zeus"}}}}}}
	d := ragVersion{doc: "d2", chunks: []ragChunk{
		{"apple", &cortexdb.GraphExtraction{Entities: ent("Zeus").Entities, Relationships: []cortexdb.GraphRelationship{{From: "Zeus", To: "Hera"}}}},
		{"apple apple", &cortexdb.GraphExtraction{Entities: ent("Zeus").Entities, Relationships: []cortexdb.GraphRelationship{{From: "Zeus", To: "Hera", Weight: 0.05}, {From: "Zeus", To: "Zeus", Type: "is", Weight: 3}}}}}}
	f := ragVersion{doc: "d1:000", builtin: true, chunks: []ragChunk{
		{"Meet Zeus and Big Apple", ent("Meet Zeus", "Big Apple")},
		{"pear Zeus, Zeus and hera", ent("Zeus")}}}
	return map[string]ragVersion{"A": a, "B": b, "C": cc, "D": d, "F": f,
		"blank":    {doc: "d1", chunks: []ragChunk{{" \n\t", nil}}},
		"nameless": {doc: "", chunks: []ragChunk{{"apple", nil}}}}
}

var ragOps = []string{"A", "B", "C", "D", "F", "blank", "nameless", "embed1 A", "embed2 C", "extract", "reopen"}

func ragSequence(c *vk.C, seq []string) {
	vs := ragVersions()
	emb := &wordEmbedder{vocab: kVocab}
	path := newCortexPath(c)
	db := openCortex(c, path, emb, core.IndexTypeFlat)
	defer func() { db.Close() }()
	m := newRagModel(emb)
	for i, op := range seq {
		name, arg, _ := strings.Cut(op, " ")
		*emb = wordEmbedder{vocab: kVocab}
		switch name {
		case "reopen":
			if err := db.Close(); err != nil {
				c.Failf("close", "%v", err)
			}
			db = openCortex(c, path, emb, core.IndexTypeFlat)
		case "embed1", "embed2":
			emb.fail, emb.once = 1, true
			if name == "embed2" {
				emb.fail = 2
			}
			if _, err := vs[arg].ingest(db); err == nil {
				c.Failf("swallowed", "%v: the embedder fails and the ingestion does not", seq[:i+1])
			}
		case "extract":
			x := vs["A"]
			x.chunks = append(append([]ragChunk{}, x.chunks[:2]...), ragChunk{"unreadable", nil})
			if _, err := x.ingest(db); !errors.Is(err, errExtract) {
				c.Failf("swallowed", "%v: the extractor fails, the ingestion returns %v", seq[:i+1], err)
			}
		default:
			x := vs[name]
			r, err := x.ingest(db)
			ok := m.put(x)
			if ok != (err == nil) {
				c.Failf("ingest", "%v: error %v, want success %v", seq[:i+1], err, ok)
			}
			if ok {
				var chunks, ents []string
				seen := map[string]bool{}
				for j, ch := range x.chunks {
					chunks = append(chunks, chunkID(x.doc, j))
					if ch.ex != nil {
						for _, e := range ch.ex.Entities {
							if strings.TrimSpace(e.Name) != "" && !seen[entID(e.Name)] {
								seen[entID(e.Name)] = true
								ents = append(ents, entID(e.Name))
							}
						}
					}
				}
				if r.DocumentNodeID != "doc:"+x.doc || fmt.Sprint(r.ChunkNodeIDs) != fmt.Sprint(chunks) || setOf(r.EntityNodeIDs) != setOf(ents) {
					c.Failf("ingest", "%v reports %+v, want chunks %v and entities %v", seq[:i+1], r, chunks, ents)
				}
			}
		}
		c.Trans(1)
		if d := diffLines(ragLines(c, db, ragDocs), m.lines()); d != "" {
			c.Failf("state", "after %v:\n  %s", seq[:i+1], d)
		}
		c.State(fmt.Sprint(m.lines()))
	}
}

// ragRetry fails every storage call of an ingestion in turn: the ingestion
// reports the failure, and repeating it leaves exactly what it would have left.
func ragRetry(c *vk.C, first, second string) {
	vs := ragVersions()
	eachFault(c, 400, func(ft *fault) bool {
		emb := &wordEmbedder{vocab: kVocab}
		db := openCortex(c, newCortexPath(c), emb, core.IndexTypeFlat)
		defer db.Close()
		m := newRagModel(emb)
		for _, v := range []string{"D", first} {
			x := vs[v]
			_, err := x.ingest(db)
			if m.put(x) != (err == nil) {
				c.Failf("ingest", "%s: %v", v, err)
			}
		}
		x := vs[second]
		ft.arm()
		_, err := x.ingest(db)
		vsql.SetHook(nil)
		if err == nil {
			m.put(x)
			if d := diffLines(ragLines(c, db, ragDocs), m.lines()); d != "" {
				c.Failf("swallowed", "ingesting %s over %s with a failure at %s reports success, but:\n  %s", second, first, ft.at, d)
			}
			return true
		}
		got, err := s36version(db, x.doc)
		if err != nil {
			c.Failf("read", "%v", err)
		}
		if _, err := x.ingest(db); err != nil {
			c.Failf("retry", "ingesting %s over %s after a failure at %s: %v", second, first, ft.at, err)
		}
		m.put(x)
		m.version[x.doc] = got + 1
		if d := diffLines(ragLines(c, db, ragDocs), m.lines()); d != "" {
			c.Failf("retry", "ingesting %s over %s again after a failure at %s leaves:\n  %s", second, first, ft.at, d)
		}
		c.Trans(1)
		return true
	})
}

func s36version(db *cortexdb.DB, doc string) (int, error) {
	x, err := db.Vector().(*core.SQLiteStore).GetDocument(bg, doc)
	if errors.Is(err, core.ErrNotFound) {
		return 0, nil
	}
	if err != nil {
		return 0, err
	}
	return x.Version, nil
}

// ------------------------------------------------------------------ retrieval

// ragEnv is a corpus of four chunks and two documents in the searched
// collection, one chunk in another, and two entities (one with a type of its
// own), mentioned as the mask says.
type ragEnv struct {
	db    *cortexdb.DB
	emb   *wordEmbedder
	g     *gmodel
	text  map[string]string
	doc   map[string]string
	coll  map[string]string
	names map[string][]string
}

func newRagEnv(c *vk.C, emb *wordEmbedder, mask, rel int) *ragEnv {
	e := &ragEnv{db: openCortex(c, newCortexPath(c), emb, core.IndexTypeFlat), emb: emb, g: newGModel(), text: map[string]string{}, doc: map[string]string{}, coll: map[string]string{}, names: map[string][]string{}}
	c.Defer(func() { e.db.Close() })
	edge := func(from, to, typ string) {
		id := from + "->" + to + ":" + typ
		e.g.edges[id] = gedge{id: id, from: from, to: to, typ: typ, w: 1}
	}
	node := func(id, typ, content string) { e.g.nodes[id] = gnode{id: id, typ: typ, content: content} }
	ents := []cortexdb.ToolEntityInput{{Name: "Zeus"}, {Name: "Hera", Type: "god"}}
	k := 0
	t := e.db.GraphRAGTools()
	for _, d := range []ragVersion{
		{doc: "d1", chunks: []ragChunk{{"apple", nil}, {"pear pear plum", nil}, {"kiwi", nil}}},
		{doc: "d2", chunks: []ragChunk{{"apple plum plum", nil}}},
		{doc: "d3", coll: "other", chunks: []ragChunk{{"apple kiwi", nil}}},
	} {
		if emb == nil {
			if _, err := t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: d.doc, Content: d.content(), Collection: d.coll}); err != nil {
				c.Failf("ingest", "%v", err)
			}
		} else if _, err := d.ingest(e.db); err != nil {
			c.Failf("ingest", "%v", err)
		}
		node("doc:"+d.doc, "document", d.content())
		for i, ch := range d.chunks {
			id := chunkID(d.doc, i)
			e.text[id], e.doc[id], e.coll[id] = ch.text, d.doc, d.coll
			if d.coll == "" {
				e.coll[id] = "graphrag_chunks"
			}
			node(id, "chunk", ch.text)
			edge("doc:"+d.doc, id, "has_chunk")
			if i > 0 {
				edge(chunkID(d.doc, i-1), id, "next")
			}
			for j := range ents {
				if mask>>k&1 == 1 {
					ents[j].ChunkIDs = append(ents[j].ChunkIDs, id)
					edge(id, entID(ents[j].Name), "mentions")
					e.names[id] = append(e.names[id], ents[j].Name)
				}
				k++
			}
			sort.Strings(e.names[id])
		}
	}
	if _, err := t.UpsertEntities(bg, cortexdb.ToolUpsertEntitiesRequest{Entities: ents}); err != nil {
		c.Failf("entities", "%v", err)
	}
	node("entity:zeus", "entity", "Zeus")
	node("entity:hera", "god", "Hera")
	if rel == 1 {
		if _, err := t.UpsertRelations(bg, cortexdb.ToolUpsertRelationsRequest{Relations: []cortexdb.ToolRelationInput{{From: "Zeus", To: "Hera"}}}); err != nil {
			c.Failf("relations", "%v", err)
		}
		edge("entity:zeus", "entity:hera", "related_to")
	}
	return e
}

type ragHit struct {
	id     string
	score  float64
	rerank float64
	ents   []string
}

func refTokens(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(strings.ToLower(s)) {
		x = strings.TrimFunc(x, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
		if len(x) >= 2 {
			m[x] = true
		}
	}
	return m
}

func refOverlap(a, b map[string]bool) float64 {
	n := 0
	for x := range a {
		if b[x] {
			n++
		}
	}
	if len(a) == 0 || len(b) == 0 {
		return 0
	}
	return float64(n) / float64(max(len(a), len(b)))
}

var capWord = regexp.MustCompile(`\b[A-Z][a-z0-9]+\b`)

// rank is the reference for reranking: relevance is 60% similarity (scaled to
// the candidates), 25% shared words and 15% shared entity names; chunks are
// taken by relevance less redundancy with what is already taken.
func (e *ragEnv) rank(query string, l []ragHit, n int, lambda float64) []ragHit {
	lo, hi := l[0].score, l[0].score
	for _, x := range l {
		lo, hi = math.Min(lo, x.score), math.Max(hi, x.score)
	}
	qt, qe := refTokens(query), refTokens(strings.Join(capWord.FindAllString(query, -1), " "))
	for i := range l {
		base := 1.0
		if hi-lo >= 1e-9 {
			base = (l[i].score - lo) / (hi - lo)
		}
		l[i].rerank = base*0.6 + refOverlap(qt, refTokens(e.text[l[i].id]))*0.25 + refOverlap(qe, refTokens(strings.Join(l[i].ents, " ")))*0.15
	}
	var out []ragHit
	rest := append([]ragHit(nil), l...)
	for len(rest) > 0 && len(out) < n {
		best, bs := 0, math.Inf(-1)
		for i, x := range rest {
			red := 0.0
			for _, y := range out {
				o := refOverlap(refTokens(e.text[x.id]), refTokens(e.text[y.id]))
				if e.doc[x.id] == e.doc[y.id] {
					o = math.Max(o, 0.85)
				}
				red = math.Max(red, o)
			}
			s := lambda*x.rerank - (1-lambda)*red
			if s > bs+1e-12 {
				best, bs = i, s
			}
		}
		out = append(out, rest[best])
		rest = append(append([]ragHit(nil), rest[:best]...), rest[best+1:]...)
	}
	return out
}

func (e *ragEnv) line(id string) string { return "[" + e.doc[id] + "/" + id + "] " + e.text[id] }

// check compares one retrieval with the reference, given the seeds in order.
func (e *ragEnv) check(c *vk.C, what, query string, o cortexdb.GraphRAGQueryOptions, seeds []ragHit, related func(seed ragHit) float64, useGraph bool, r *cortexdb.GraphRAGQueryResult) {
	c.Trans(1)
	coll, k, hops, maxRel, n, chars, per, lambda := o.Collection, o.TopK, o.MaxHops, o.MaxRelatedChunks, o.MaxContextChunks, o.MaxContextChars, o.PerDocumentLimit, o.DiversityLambda
	if coll == "" {
		coll = "graphrag_chunks"
	}
	if k <= 0 {
		k = 4
	}
	if hops <= 0 {
		hops = 2
	}
	if maxRel <= 0 {
		maxRel = k
	}
	if n <= 0 {
		n = k + maxRel
	}
	if chars <= 0 {
		chars = 2400
	}
	if per <= 0 {
		per = 2
	}
	if lambda <= 0 || lambda > 1 {
		lambda = 0.75
	}
	if r.Query != query {
		c.Failf("query", "%s answers query %q", what, r.Query)
	}
	if len(seeds) == 0 {
		if len(r.Chunks) != 0 || r.Context != "" || len(r.Entities) != 0 {
			c.Failf("chunks", "%s returned %+v, nothing matches", what, r)
		}
		return
	}
	all := append([]ragHit(nil), seeds...)
	ents := map[string]bool{}
	if useGraph {
		isSeed := map[string]bool{}
		for _, s := range seeds {
			isSeed[s.id] = true
		}
		rel := map[string]float64{}
		for _, s := range seeds {
			for id, d := range e.g.dists(s.id, "both", nil) {
				if d == 0 || d > hops {
					continue
				}
				switch {
				case strings.HasPrefix(id, "entity:"):
					ents[e.g.nodes[id].content] = true
				case strings.HasPrefix(id, "chunk:") && !isSeed[id] && e.coll[id] == coll:
					sc := related(s)
					if x, ok := rel[id]; !ok || sc > x {
						rel[id] = sc
					}
				}
			}
		}
		var l []ragHit
		for id, sc := range rel {
			l = append(l, ragHit{id: id, score: sc})
			for _, x := range e.names[id] {
				ents[x] = true
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].score > l[j].score || l[i].score == l[j].score && l[i].id < l[j].id })
		all = append(all, l[:min(len(l), maxRel)]...)
		for i := range all {
			all[i].ents = e.names[all[i].id]
			for _, x := range all[i].ents {
				ents[x] = true
			}
		}
	}
	var want []ragHit
	docs := map[string]int{}
	used := 0
	for _, x := range e.rank(query, all, n, lambda) {
		size := len(e.text[x.id]) + len(x.id) + len(e.doc[x.id]) + 8
		if len(want) >= n || docs[e.doc[x.id]] >= per || len(want) > 0 && used+size > chars {
			continue
		}
		want = append(want, x)
		docs[e.doc[x.id]]++
		used += size
	}
	show := func(l []ragHit) string {
		var s []string
		for _, x := range l {
			s = append(s, fmt.Sprintf("%s base %.4f rerank %.4f %v", x.id, x.score, x.rerank, x.ents))
		}
		return strings.Join(s, "; ")
	}
	var got []ragHit
	var lines []string
	for _, x := range r.Chunks {
		if x.Content != e.text[x.ID] || x.DocumentID != e.doc[x.ID] {
			c.Failf("chunks", "%s returned %+v", what, x)
		}
		if math.Abs(x.Score-x.BaseScore) > 1e-9 {
			c.Failf("chunks", "%s: score %g, base score %g of %s", what, x.Score, x.BaseScore, x.ID)
		}
		got = append(got, ragHit{x.ID, x.BaseScore, x.RerankScore, x.Entities})
		lines = append(lines, e.line(x.ID))
	}
	same := len(got) == len(want)
	for i := 0; same && i < len(got); i++ {
		same = got[i].id == want[i].id && math.Abs(got[i].score-want[i].score) < 1e-4 && math.Abs(got[i].rerank-want[i].rerank) < 1e-3 && fmt.Sprint(got[i].ents) == fmt.Sprint(want[i].ents)
	}
	if !same {
		c.Failf("chunks", "%s (mentions %v) returned\n  %s\nwant\n  %s", what, e.names, show(got), show(want))
	}
	if r.Context != strings.Join(lines, "\n") {
		c.Failf("context", "%s: context %q of %v", what, r.Context, lines)
	}
	var el []string
	for x := range ents {
		el = append(el, x)
	}
	sort.Strings(el)
	if fmt.Sprint(r.Entities) != fmt.Sprint(el) {
		c.Failf("entities", "%s (mentions %v) lists entities %v, want %v", what, e.names, r.Entities, el)
	}
	c.Outcome(show(got))
}

func ragUseGraph(o cortexdb.GraphRAGQueryOptions, query string, names []string) bool {
	switch strings.ToLower(strings.TrimSpace(o.RetrievalMode)) {
	case "lexical":
		return false
	case "graph":
		return !o.DisableGraph
	}
	return !o.DisableGraph && (len(names) > 0 || capWord.MatchString(query))
}

// ragQueryOptions lists the options tried: the grid of depth options for
// every mode, and single deviations in the packing options.
func ragQueryOptions(thorough bool) []cortexdb.GraphRAGQueryOptions {
	var l []cortexdb.GraphRAGQueryOptions
	for _, mode := range []string{"", "auto", "lexical", " Graph", "nonsense"} {
		for k := 0; k <= 3; k++ {
			for hops := 0; hops <= 4; hops++ {
				for rel := -1; rel <= 2; rel++ {
					if !thorough && (mode != " Graph" && (hops > 1 || rel > 0 || k > 1) || rel == -1 && hops > 0 || hops == 4 && k != 1) {
						continue
					}
					l = append(l, cortexdb.GraphRAGQueryOptions{TopK: k, MaxHops: hops, MaxRelatedChunks: rel, RetrievalMode: mode})
				}
			}
		}
	}
	base := cortexdb.GraphRAGQueryOptions{RetrievalMode: "graph", TopK: 2, MaxHops: 3}
	for i := 0; i < 14; i++ {
		o := base
		switch i {
		case 0, 1, 2, 3:
			o.MaxContextChunks = i + 1
		case 4, 5, 6:
			o.PerDocumentLimit = i - 3
		case 7, 8, 9, 10:
			o.MaxContextChars = []int{1, 60, 80, 120}[i-7]
		case 11:
			o.DiversityLambda = 1
		case 12:
			o.DiversityLambda = 0.1
		case 13:
			o.DisableGraph = true
		}
		l = append(l, o)
		o.Collection = "other"
		l = append(l, o)
	}
	return l
}

func ragSearchCase(c *vk.C, mask, rel int, thorough bool) {
	e := newRagEnv(c, &wordEmbedder{vocab: kVocab}, mask, rel)
	c.State(fmt.Sprint(e.g.edges))
	queries := []string{"apple apple apple pear kiwi", "Zeus and apple plum", "pear kiwi pear kiwi pear plum Hera", "kiwi kiwi plum plum plum apple?"}
	for _, q := range queries {
		for _, o := range ragQueryOptions(thorough) {
			r, err := e.db.SearchGraphRAG(bg, q, o)
			what := fmt.Sprintf("SearchGraphRAG(%q, %+v)", q, o)
			if err != nil {
				c.Failf("search", "%s: %v", what, err)
			}
			coll := o.Collection
			if coll == "" {
				coll = "graphrag_chunks"
			}
			var seeds []ragHit
			for id, t := range e.text {
				if e.coll[id] == coll {
					seeds = append(seeds, ragHit{id: id, score: core.CosineSimilarity(e.emb.vec(q), e.emb.vec(t))})
				}
			}
			sort.Slice(seeds, func(i, j int) bool { return seeds[i].score > seeds[j].score })
			for i := range seeds {
				if i > 0 && seeds[i-1].score-seeds[i].score < 1e-5 {
					c.Failf("harness", "query %q has a tie: %v", q, seeds)
				}
			}
			k := o.TopK
			if k <= 0 {
				k = 4
			}
			seeds = seeds[:min(k, len(seeds))]
			e.check(c, what, q, o, seeds, func(s ragHit) float64 { return s.score * 0.5 }, ragUseGraph(o, q, nil), r)
		}
	}
	for _, q := range []string{"", " \t"} {
		if _, err := e.db.SearchGraphRAG(bg, q, cortexdb.GraphRAGQueryOptions{}); err == nil {
			c.Failf("blank", "a blank query is accepted")
		}
	}
	if r, err := e.db.SearchGraphRAG(bg, "apple", cortexdb.GraphRAGQueryOptions{Collection: "nosuch"}); err == nil && len(r.Chunks) != 0 {
		c.Failf("collection", "a collection that does not exist returns %v", r.Chunks)
	}
}

// ragLexicalCase does the same without an embedder: the seeds are what the
// text search and the entity search of the same toolbox find.
func ragLexicalCase(c *vk.C, mask, rel int, thorough bool) {
	e := newRagEnv(c, nil, mask, rel)
	c.State(fmt.Sprint(e.g.edges))
	t := e.db.GraphRAGTools()
	type lq struct {
		q     string
		names []string
	}
	for _, x := range []lq{{"apple", nil}, {"Zeus apple", nil}, {"plum", []string{"Hera"}}, {"quince", nil}, {"quince", []string{"Zeus", "Nobody"}}, {"kiwi", []string{"Nobody"}}} {
		for _, o := range ragQueryOptions(thorough) {
			r, err := t.SearchGraphRAGLexical(bg, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: x.q, Collection: o.Collection, TopK: o.TopK, MaxHops: o.MaxHops, MaxRelatedChunks: o.MaxRelatedChunks, MaxContextChunks: o.MaxContextChunks, MaxContextChars: o.MaxContextChars, PerDocumentLimit: o.PerDocumentLimit, DiversityLambda: o.DiversityLambda, EntityNames: x.names, RetrievalMode: o.RetrievalMode, DisableGraph: o.DisableGraph})
			what := fmt.Sprintf("SearchGraphRAGLexical(%q, %v, %+v)", x.q, x.names, o)
			if err != nil {
				c.Failf("search", "%s: %v", what, err)
			}
			k, hops, coll := o.TopK, o.MaxHops, o.Collection
			if k <= 0 {
				k = 4
			}
			if hops <= 0 {
				hops = 2
			}
			if coll == "" {
				coll = "graphrag_chunks"
			}
			st, err := t.SearchText(bg, cortexdb.ToolSearchTextRequest{Query: x.q, Collection: coll, TopK: k})
			if err != nil {
				c.Failf("search", "%v", err)
			}
			var seeds []ragHit
			at := map[string]int{}
			for _, ch := range st.Chunks {
				at[ch.ID] = len(seeds)
				seeds = append(seeds, ragHit{id: ch.ID, score: ch.Score})
			}
			useGraph := ragUseGraph(o, x.q, x.names)
			names := x.names
			if len(names) == 0 {
				names = capWord.FindAllString(x.q, -1)
			}
			if useGraph && len(names) > 0 {
				se, err := t.SearchChunksByEntities(bg, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: names, TopK: k, MaxHops: hops})
				if err != nil {
					c.Failf("search", "%v", err)
				}
				for _, ch := range se.Chunks {
					if e.coll[ch.ID] != coll {
						continue
					}
					sc := math.Max(ch.Score, 0.75)
					if i, ok := at[ch.ID]; ok {
						seeds[i].score = math.Max(seeds[i].score, sc)
					} else {
						at[ch.ID] = len(seeds)
						seeds = append(seeds, ragHit{id: ch.ID, score: sc})
					}
				}
			}
			if useGraph {
				// a seed that another seed reaches is worth at least that
				for i := range seeds {
					for j := range seeds {
						if d, ok := e.g.dists(seeds[j].id, "both", nil)[seeds[i].id]; ok && i != j && d <= hops {
							seeds[i].score = math.Max(seeds[i].score, 0.5)
						}
					}
				}
			}
			e.check(c, what, x.q, o, seeds, func(ragHit) float64 { return 0.5 }, useGraph, r)
		}
	}
}

// ragFaults fails every storage call of the searches in turn.
func ragFaults(c *vk.C, sem bool, mask int) {
	var emb *wordEmbedder
	if sem {
		emb = &wordEmbedder{vocab: kVocab}
	}
	e := newRagEnv(c, emb, mask, 1)
	run := func() (string, error) {
		if sem {
			r, err := e.db.SearchGraphRAG(bg, "Zeus and apple plum", cortexdb.GraphRAGQueryOptions{TopK: 2, RetrievalMode: "graph", PerDocumentLimit: 9})
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("%+v", *r), nil
		}
		r, err := e.db.GraphRAGTools().SearchGraphRAGLexical(bg, cortexdb.ToolSearchGraphRAGLexicalRequest{Query: "apple", TopK: 2, EntityNames: []string{"Zeus"}, PerDocumentLimit: 9, RetrievalMode: "graph"})
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%+v", *r), nil
	}
	want, err := run()
	if err != nil {
		c.Failf("search", "%v", err)
	}
	// The text search tries several wordings and is content if one of them
	// works, so the faults start behind it.
	skip := 0
	if !sem {
		vsql.SetHook(func(vsql.Event) error { skip++; return nil })
		_, err := e.db.GraphRAGTools().SearchText(bg, cortexdb.ToolSearchTextRequest{Query: "apple", Collection: "graphrag_chunks", TopK: 2, RetrievalMode: "graph"})
		vsql.SetHook(nil)
		if err != nil {
			c.Failf("search", "%v", err)
		}
	}
	eachFault(c, 300, func(ft *fault) bool {
		ft.k += skip
		ft.arm()
		got, err := run()
		vsql.SetHook(nil)
		if err == nil && got != want {
			c.Failf("swallowed", "a failure at %s gives %s without an error, want %s", ft.at, got, want)
		}
		c.Trans(1)
		return true
	})
	if sem {
		e.emb.fail = e.emb.calls + 1
		if _, err := run(); err == nil {
			c.Failf("swallowed", "the embedder fails and the search does not")
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C36", Rule: "every sequence of up to 3 (thorough 4) ingestions out of 11 (five document versions with different chunks, entities, relations and collections; refused documents; embedder and extractor failures; reopening), the whole stored state compared after each; a fault at every storage call of an ingestion over another, then repeated; 64 (thorough all 1024) patterns of mentions of two entities in the chunks with and without a relation, all queries and retrieval options, with and without an embedder; a fault at every storage call of the searches",
		Assumptions: []string{"entity names are plain words, so that no two share an id", "the neighbourhoods stay below the traversal limit of 12 nodes per requested chunk"},
		Run: func(w *vk.W) {
			for n := 1; n <= w.Pick(3, 4); n++ {
				seqsOf(w, fmt.Sprintf("ingest%d", n), ragOps, n, func(c *vk.C, seq []int) {
					var l []string
					for _, x := range seq {
						l = append(l, ragOps[x])
					}
					ragSequence(c, l)
				})
			}
			for _, a := range []string{"A", "B", "C", "F"} {
				for _, b := range []string{"A", "B", "C", "F"} {
					a, b := a, b
					if !w.Thorough() && a != "A" && b != "B" {
						continue
					}
					w.Case("retry|"+a+"|"+b, func(c *vk.C) { ragRetry(c, a, b) })
				}
			}
			var masks []int
			for mask := 0; mask < 1024 && w.Thorough(); mask++ {
				masks = append(masks, mask)
			}
			for zeus := 0; zeus < 16 && !w.Thorough(); zeus++ {
				for _, hera := range []int{0, zeus, 15 &^ zeus, 2} {
					mask := 1<<8 | zeus&1<<9
					for i := 0; i < 4; i++ {
						mask |= (zeus>>i&1)<<(2*i) | (hera>>i&1)<<(2*i+1)
					}
					masks = append(masks, mask)
				}
			}
			for i, mask := range masks {
				for rel := 0; rel < 2; rel++ {
					mask, rel := mask, rel
					if !w.Thorough() && i>>2&1 != rel {
						continue
					}
					w.Case(fmt.Sprintf("search|%d|%d", mask, rel), func(c *vk.C) { ragSearchCase(c, mask, rel, w.Thorough()) })
					w.Case(fmt.Sprintf("lexical|%d|%d", mask, rel), func(c *vk.C) { ragLexicalCase(c, mask, rel, w.Thorough()) })
				}
			}
			for _, sem := range []bool{true, false} {
				for _, mask := range []int{0, 1, 0x155, 0x3ff} {
					sem, mask := sem, mask
					w.Case(fmt.Sprintf("faults|%v|%d", sem, mask), func(c *vk.C) { ragFaults(c, sem, mask) })
				}
			}
		}})
}
