package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

var bg = context.Background()

// ---- reference model of the embedding store: a map from id to row ----

type row struct {
	id, coll, doc, content string
	vec                    []float32
	meta                   map[string]string
	acl                    []string
	seq                    int // insertion order of the current version
}

type docRow struct {
	id, title, author, content, url string
	version                         int
	acl                             []string
	meta                            map[string]any
}

type model struct {
	rows  map[string]row
	colls map[string]int
	docs  map[string]docRow
	chat  map[string][]string // session -> "id text" in order
	dim   int
	seq   int
}

func newModel(dim int) *model {
	return &model{rows: map[string]row{}, colls: map[string]int{"default": dim}, docs: map[string]docRow{}, dim: dim}
}

func (m *model) clone() *model {
	n := newModel(m.dim)
	n.seq = m.seq
	n.colls = map[string]int{}
	for k, v := range m.chat {
		if n.chat == nil {
			n.chat = map[string][]string{}
		}
		n.chat[k] = append([]string{}, v...)
	}
	for k, v := range m.rows {
		n.rows[k] = v
	}
	for k, v := range m.colls {
		n.colls[k] = v
	}
	for k, v := range m.docs {
		n.docs[k] = v
	}
	return n
}

func (m *model) ids() []string {
	var l []string
	for k := range m.rows {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (m *model) String() string {
	var b strings.Builder
	for _, id := range m.ids() {
		r := m.rows[id]
		fmt.Fprintf(&b, "%s|%s|%s|%v|%s|%s|%v;", id, r.coll, r.doc, r.vec, r.content, metaStr(r.meta), r.acl)
	}
	var cs, ds []string
	for k, v := range m.colls {
		cs = append(cs, fmt.Sprintf("%s:%d", k, v))
	}
	for k, v := range m.docs {
		ds = append(ds, fmt.Sprintf("%s:%s:%d:%s:%s:%v", k, v.title, v.version, v.author, v.content, v.acl))
	}
	sort.Strings(cs)
	sort.Strings(ds)
	fmt.Fprintf(&b, "C%vD%v", cs, ds)
	for _, k := range []string{"s_1", "s_2"} {
		if l, ok := m.chat[k]; ok {
			fmt.Fprintf(&b, "%s:%q", k, l)
		}
	}
	return b.String()
}

func metaStr(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q,", k, m[k])
	}
	return b.String()
}

func (m *model) put(r row) {
	m.seq++
	r.seq = m.seq
	if r.coll == "" {
		r.coll = "default"
	}
	m.rows[r.id] = r
}

func (m *model) delDoc(doc string) {
	for id, r := range m.rows {
		if r.doc == doc {
			delete(m.rows, id)
		}
	}
}

func (m *model) delColl(c string) {
	for id, r := range m.rows {
		if r.coll == c {
			delete(m.rows, id)
		}
	}
}

// ---- environment: one store under test plus its model ----

type env struct {
	c    *vk.C
	path string
	cfg  core.Config
	s    *core.SQLiteStore
	m    *model
}

type cfgT struct {
	name   string
	dim    int
	mutate func(*core.Config)
}

func baseCfg(path string, dim int) core.Config {
	cfg := core.DefaultConfig()
	cfg.Path = path
	cfg.VectorDim = dim
	cfg.AutoSave.Enabled = false
	cfg.TextSimilarity.Enabled = false
	return cfg
}

var templates = map[string][]byte{}

func newEnv(c *vk.C, ct cfgT) *env {
	dir := c.Dir()
	e := &env{c: c, path: filepath.Join(dir, "t.db"), m: newModel(ct.dim)}
	e.cfg = baseCfg(e.path, ct.dim)
	if ct.mutate != nil {
		ct.mutate(&e.cfg)
	}
	key := fmt.Sprintf("%s/%d", ct.name, ct.dim)
	if t, ok := templates[key]; ok {
		os.WriteFile(e.path, t, 0o644)
		e.open()
	} else {
		e.open()
		if err := e.s.Close(); err != nil {
			c.Failf("close", "close of a fresh store: %v", err)
		}
		if b, err := os.ReadFile(e.path); err == nil {
			templates[key] = b
		}
		e.open()
	}
	c.Defer(func() {
		if e.s != nil {
			e.s.Close()
		}
	})
	return e
}

func (e *env) open() {
	s, err := core.NewWithConfig(e.cfg)
	if err != nil {
		e.c.Failf("open", "NewWithConfig: %v", err)
	}
	if err := s.Init(bg); err != nil {
		e.c.Failf("open", "Init: %v", err)
	}
	e.s = s
}

func (e *env) reopen() {
	if err := e.s.Close(); err != nil {
		e.c.Failf("close", "Close: %v", err)
	}
	e.open()
}

func toEmb(r row) *core.Embedding {
	return &core.Embedding{ID: r.id, Collection: r.coll, Vector: append([]float32(nil), r.vec...), Content: r.content, DocID: r.doc, Metadata: cloneMeta(r.meta), ACL: append([]string(nil), r.acl...)}
}

func cloneMeta(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// op is one transition: it drives the store and the model together.
type op struct {
	name string
	do   func(e *env)
}

func (o op) doIf(e *env, ok bool) {
	if ok {
		o.do(e)
	}
}

func (e *env) wantErr(what string, err error, want bool) {
	if want && err == nil {
		e.c.Failf("accepted:"+what, "%s: succeeded, the operation should have been refused", what)
	}
	if !want && err != nil {
		e.c.Failf("refused:"+what, "%s: %v", what, err)
	}
}

// valid says whether the model accepts the row.
func (m *model) valid(r row) bool {
	if r.coll != "" {
		if _, ok := m.colls[r.coll]; !ok {
			return false
		}
	}
	if r.doc != "" {
		if _, ok := m.docs[r.doc]; !ok {
			return false
		}
	}
	return len(r.vec) == m.dim
}

func opUpsert(name string, r row) op {
	return op{name, func(e *env) {
		err := e.s.Upsert(bg, toEmb(r))
		ok := e.m.valid(r)
		e.wantErr("Upsert("+r.id+")", err, !ok)
		if ok {
			e.m.put(r)
		}
	}}
}

func opBatch(name string, rs ...row) op {
	return op{name, func(e *env) {
		var l []*core.Embedding
		ok := true
		for _, r := range rs {
			l = append(l, toEmb(r))
			ok = ok && e.m.valid(r)
		}
		err := e.s.UpsertBatch(bg, l)
		e.wantErr("UpsertBatch", err, !ok)
		if ok {
			for _, r := range rs {
				e.m.put(r)
			}
		}
	}}
}

func opDelete(id string) op {
	return op{"D(" + id + ")", func(e *env) {
		_, ok := e.m.rows[id]
		err := e.s.Delete(bg, id)
		e.wantErr("Delete("+id+")", err, !ok)
		if !ok && !errors.Is(err, core.ErrNotFound) {
			e.c.Failf("errkind", "Delete of a missing id: %v, want not-found", err)
		}
		delete(e.m.rows, id)
	}}
}

func opDeleteBatch(ids ...string) op {
	return op{"DB(" + strings.Join(ids, "+") + ")", func(e *env) {
		any := false
		for _, id := range ids {
			if _, ok := e.m.rows[id]; ok {
				any = true
			}
		}
		err := e.s.DeleteBatch(bg, ids)
		e.wantErr("DeleteBatch", err, !any)
		for _, id := range ids {
			delete(e.m.rows, id)
		}
	}}
}

func opDeleteByDoc(doc string) op {
	return op{"DBD(" + doc + ")", func(e *env) {
		e.wantErr("DeleteByDocID", e.s.DeleteByDocID(bg, doc), false)
		e.m.delDoc(doc)
	}}
}

func opClearDocs(docs ...string) op {
	return op{"CLD(" + strings.Join(docs, "+") + ")", func(e *env) {
		e.wantErr("ClearByDocID", e.s.ClearByDocID(bg, docs), false)
		for _, d := range docs {
			if d != "" {
				e.m.delDoc(d)
			}
		}
	}}
}

func opDeleteFilter(name string, f func() *core.MetadataFilter, match func(row) bool) op {
	return op{"DF(" + name + ")", func(e *env) {
		e.wantErr("DeleteByFilter("+name+")", e.s.DeleteByFilter(bg, f()), false)
		for id, r := range e.m.rows {
			if match(r) {
				delete(e.m.rows, id)
			}
		}
	}}
}

var opClear = op{"CLR", func(e *env) {
	e.wantErr("Clear", e.s.Clear(bg), false)
	e.m.rows = map[string]row{}
}}

func opCreateColl(n string, dim int) op {
	return op{"CC(" + n + ")", func(e *env) {
		_, exists := e.m.colls[n]
		col, err := e.s.CreateCollection(bg, n, dim)
		e.wantErr("CreateCollection("+n+")", err, exists)
		if !exists {
			if col == nil || col.Name != n || col.Dimensions != dim {
				e.c.Failf("createcoll", "CreateCollection returned %+v", col)
			}
			e.m.colls[n] = dim
		}
	}}
}

func opDropColl(n string) op {
	return op{"DC(" + n + ")", func(e *env) {
		_, exists := e.m.colls[n]
		e.wantErr("DeleteCollection("+n+")", e.s.DeleteCollection(bg, n), !exists)
		if exists {
			e.m.delColl(n)
			delete(e.m.colls, n)
		}
	}}
}

func opCreateDoc(d docRow) op {
	return op{"CD(" + d.id + ")", func(e *env) {
		_, exists := e.m.docs[d.id]
		e.wantErr("CreateDocument("+d.id+")", e.s.CreateDocument(bg, toDoc(d)), exists)
		if !exists {
			e.m.docs[d.id] = d
		}
	}}
}

func opUpdateDoc(d docRow) op {
	return op{"UD(" + d.id + ")", func(e *env) {
		_, exists := e.m.docs[d.id]
		e.wantErr("UpdateDocument("+d.id+")", e.s.UpdateDocument(bg, toDoc(d)), !exists)
		if exists {
			e.m.docs[d.id] = d
		}
	}}
}

func opDropDoc(id string) op {
	return op{"DD(" + id + ")", func(e *env) {
		e.wantErr("DeleteDocument("+id+")", e.s.DeleteDocument(bg, id), false)
		if _, ok := e.m.docs[id]; ok {
			delete(e.m.docs, id)
			e.m.delDoc(id)
		}
	}}
}

var opReopen = op{"REOPEN", func(e *env) { e.reopen() }}

func toDoc(d docRow) *core.Document {
	return &core.Document{ID: d.id, Title: d.title, Author: d.author, Content: d.content, SourceURL: d.url, Version: d.version, ACL: append([]string(nil), d.acl...), Metadata: d.meta}
}

// ---- observers ----

func sameVec(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return false
		}
	}
	return true
}

func sameMeta(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func sameStrs(a, b []string) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// diffEmb compares a returned embedding with the model row.
func diffEmb(g *core.Embedding, r row, coll, acl bool) string {
	var d []string
	if g.ID != r.id {
		d = append(d, fmt.Sprintf("id %q want %q", g.ID, r.id))
	}
	if !sameVec(g.Vector, r.vec) {
		d = append(d, fmt.Sprintf("vector %v want %v", g.Vector, r.vec))
	}
	if g.Content != r.content {
		d = append(d, fmt.Sprintf("content %q want %q", g.Content, r.content))
	}
	if g.DocID != r.doc {
		d = append(d, fmt.Sprintf("doc %q want %q", g.DocID, r.doc))
	}
	if !sameMeta(g.Metadata, r.meta) {
		d = append(d, fmt.Sprintf("metadata %v want %v", g.Metadata, r.meta))
	}
	if coll && g.Collection != r.coll {
		d = append(d, fmt.Sprintf("collection %q want %q", g.Collection, r.coll))
	}
	if acl && !sameStrs(g.ACL, r.acl) {
		d = append(d, fmt.Sprintf("acl %v want %v", g.ACL, r.acl))
	}
	return strings.Join(d, ", ")
}

// observeRows checks every read path against the model.
func (e *env) observeRows(universe []string) {
	c, m, s := e.c, e.m, e.s
	for _, id := range universe {
		g, err := s.GetByID(bg, id)
		r, ok := m.rows[id]
		if !ok {
			if err == nil {
				c.Failf("ghost", "GetByID(%s) returns %+v, which should not exist", id, *g)
			}
			if !errors.Is(err, core.ErrNotFound) {
				c.Failf("errkind", "GetByID(%s) of a missing id: %v", id, err)
			}
			continue
		}
		if err != nil {
			c.Failf("lost", "GetByID(%s): %v, want %+v", id, err, r)
		}
		if d := diffEmb(g, r, true, true); d != "" {
			c.Failf("row", "GetByID(%s): %s", id, d)
		}
	}
	st, err := s.Stats(bg)
	if err != nil || st.Count != int64(len(m.rows)) {
		c.Failf("stats", "Stats count %d err %v, want %d", st.Count, err, len(m.rows))
	}
	// collections
	cl, err := s.ListCollections(bg)
	if err != nil {
		c.Failf("listcoll", "ListCollections: %v", err)
	}
	got := map[string]int{}
	for _, x := range cl {
		if _, dup := got[x.Name]; dup {
			c.Failf("listcoll", "ListCollections repeats %q", x.Name)
		}
		got[x.Name] = x.Dimensions
	}
	if !reflect.DeepEqual(got, m.colls) {
		c.Failf("listcoll", "ListCollections %v want %v", got, m.colls)
	}
	for name := range m.colls {
		cs, err := s.GetCollectionStats(bg, name)
		if err != nil {
			c.Failf("collstats", "GetCollectionStats(%s): %v", name, err)
		}
		n, size := int64(0), int64(0)
		for _, r := range m.rows {
			if r.coll == name {
				n++
				if b, err := encoding.EncodeVector(r.vec); err == nil {
					size += int64(len(b))
				}
			}
		}
		if cs.Size != size {
			c.Failf("collstats", "GetCollectionStats(%s) reports a size of %d, its %d vectors take %d bytes", name, cs.Size, n, size)
		}
		if cs.Count != n || cs.Name != name || cs.Dimensions != m.colls[name] {
			c.Failf("collstats", "GetCollectionStats(%s) = %+v, want count %d", name, cs, n)
		}
		if age := time.Since(cs.LastInsertedAt); cs.LastInsertedAt.IsZero() != (n == 0) || n > 0 && (age < -time.Minute || age > time.Hour) {
			c.Failf("collstats", "GetCollectionStats(%s) reports the last insertion at %v with %d rows", name, cs.LastInsertedAt, n)
		}
	}
	// documents
	docs := map[string][]string{}
	for _, id := range m.ids() {
		r := m.rows[id]
		if r.doc != "" {
			docs[r.doc] = append(docs[r.doc], id)
		}
	}
	var wantDocs []string
	for d := range docs {
		wantDocs = append(wantDocs, d)
	}
	sort.Strings(wantDocs)
	ld, err := s.ListDocuments(bg)
	if err != nil || !sameStrs(ld, wantDocs) {
		c.Failf("listdocs", "ListDocuments %v (%v) want %v", ld, err, wantDocs)
	}
	li, err := s.ListDocumentsWithInfo(bg)
	if err != nil || len(li) != len(wantDocs) {
		c.Failf("listdocs", "ListDocumentsWithInfo %v (%v) want %v", li, err, wantDocs)
	}
	for i, x := range li {
		if x.DocID != wantDocs[i] || x.EmbeddingCount != len(docs[wantDocs[i]]) {
			c.Failf("listdocs", "ListDocumentsWithInfo[%d] = %+v want %s x%d", i, x, wantDocs[i], len(docs[wantDocs[i]]))
		}
	}
	for _, d := range []string{"d_1", "D_1"} {
		l, err := s.GetByDocID(bg, d)
		if err != nil {
			c.Failf("bydoc", "GetByDocID(%s): %v", d, err)
		}
		e.sameSet("GetByDocID("+d+")", l, docs[d])
		g, err := s.GetDocument(bg, d)
		w, ok := m.docs[d]
		if ok != (err == nil) {
			c.Failf("doc", "GetDocument(%s): %v, exists in the model: %v", d, err, ok)
		}
		if ok && !sameDoc(g, w) {
			c.Failf("doc", "GetDocument(%s) = %+v want %+v", d, *g, w)
		}
	}
	for _, author := range []string{"", "au", "a_"} {
		n := 0
		for _, w := range m.docs {
			if author == "" || w.author == author {
				n++
			}
		}
		for _, limit := range []int{1, 2, 1000} {
			l, err := s.ListDocumentsWithFilter(bg, author, limit)
			if err != nil || len(l) != min(n, limit) {
				c.Failf("listdocs", "ListDocumentsWithFilter(%q, %d) returns %d documents (%v), want %d", author, limit, len(l), err, min(n, limit))
			}
			seen := map[string]bool{}
			for i, g := range l {
				w, ok := m.docs[g.ID]
				if !ok || seen[g.ID] || author != "" && w.author != author || !sameDoc(g, w) || i > 0 && g.CreatedAt.After(l[i-1].CreatedAt) {
					c.Failf("listdocs", "ListDocumentsWithFilter(%q, %d)[%d] = %+v want %+v", author, limit, i, *g, w)
				}
				seen[g.ID] = true
			}
		}
	}
	for _, ty := range []string{"x", "y"} {
		l, err := s.GetDocumentsByType(bg, ty)
		if err != nil {
			c.Failf("bytype", "GetDocumentsByType: %v", err)
		}
		var want []string
		for _, id := range m.ids() {
			if m.rows[id].meta["type"] == ty {
				want = append(want, id)
			}
		}
		e.sameSet("GetDocumentsByType("+ty+")", l, want)
	}
}

func sameDoc(g *core.Document, w docRow) bool {
	a, _ := json.Marshal(g.Metadata)
	b, _ := json.Marshal(w.meta)
	return g.Title == w.title && g.Author == w.author && g.Content == w.content && g.Version == w.version && g.SourceURL == w.url && sameStrs(g.ACL, w.acl) &&
		(len(g.Metadata) == 0 && len(w.meta) == 0 || string(a) == string(b))
}

func (e *env) sameSet(what string, l []*core.Embedding, want []string) {
	var ids []string
	for _, g := range l {
		ids = append(ids, g.ID)
		if r, ok := e.m.rows[g.ID]; ok {
			if d := diffEmb(g, r, true, true); d != "" {
				e.c.Failf("row", "%s: %s: %s", what, g.ID, d)
			}
		}
	}
	sort.Strings(ids)
	if !sameStrs(ids, want) {
		e.c.Failf("set", "%s returns %v, want %v", what, ids, want)
	}
}

// runSeqs enumerates every sequence of exactly depth operations; the state is
// observed after each prefix exactly once (when all later choices are the
// first operation), so every sequence up to depth is covered.
func runSeqs(w *vk.W, label string, ops []op, depth int, mk func(c *vk.C) *env, observe func(e *env)) {
	n := len(ops)
	idx := make([]int, depth)
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	for k := 0; k < total; k++ {
		if w.Stop() {
			return
		}
		if !w.Mine() {
			w.Skip(1)
			continue
		}
		x := k
		for i := depth - 1; i >= 0; i-- {
			idx[i] = x % n
			x /= n
		}
		names := make([]string, depth)
		for i, j := range idx {
			names[i] = ops[j].name
		}
		seq := append([]int(nil), idx...)
		w.Case(label+"|"+strings.Join(names, ","), func(c *vk.C) {
			e := mk(c)
			last := depth - 1
			for last > 0 && seq[last] == 0 {
				last--
			}
			for i, j := range seq {
				c.Logf("%d %s", i, ops[j].name)
				ops[j].do(e)
				c.Trans(1)
				c.State(label + e.m.String())
				if i >= last {
					observe(e)
				}
			}
		})
	}
}

func sleepTick() { time.Sleep(time.Millisecond) }

// enumSeqs enumerates every sequence of 1..depth operations.
func enumSeqs(w *vk.W, label string, ops []op, depth int, f func(c *vk.C, seq []op)) {
	for d := 1; d <= depth; d++ {
		total := 1
		for i := 0; i < d; i++ {
			total *= len(ops)
		}
		for k := 0; k < total; k++ {
			if w.Stop() {
				return
			}
			if !w.Mine() {
				w.Skip(1)
				continue
			}
			seq := make([]op, d)
			names := make([]string, d)
			x := k
			for i := d - 1; i >= 0; i-- {
				seq[i] = ops[x%len(ops)]
				names[i] = seq[i].name
				x /= len(ops)
			}
			w.Case(label+"|"+strings.Join(names, ","), func(c *vk.C) { f(c, seq) })
		}
	}
}
