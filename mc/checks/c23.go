package checks

import (
	"context"
	"errors"
	"fmt"
	"math"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
)

// agent memory: retain, recall, reflect, banks, observations, auto-retain

type hmem struct {
	id, bank string
	typ      hindsight.MemoryType
	content  string
	vec      []float32
	ents     []string
	conf     float64
	meta     map[string]any
	created  time.Time
}

type hEnv struct {
	c     *vk.C
	s     *hindsight.System
	path  string
	coll  string
	m     map[string]hmem
	banks map[string]hindsight.Bank
	obs   map[string]hindsight.Observation
	fact  string // content of facts the extractor gives
}

var hReserved = map[string]bool{"bank_id": true, "memory_type": true, "created_at": true, "created_at_ns": true, "confidence": true, "entities": true}

func newHEnv(c *vk.C, coll string) *hEnv {
	e := &hEnv{c: c, path: filepath.Join(c.Dir(), "h.db"), coll: coll, m: map[string]hmem{}, banks: map[string]hindsight.Bank{}, obs: map[string]hindsight.Observation{}}
	e.open()
	c.Defer(func() { e.s.Close() })
	return e
}

func (e *hEnv) open() {
	s, err := hindsight.New(&hindsight.Config{DBPath: e.path, VectorDim: 3, Collection: e.coll})
	if err != nil {
		e.c.Failf("open", "New: %v", err)
	}
	e.s = s
}

func (e *hEnv) reopen() {
	if err := e.s.Close(); err != nil {
		e.c.Failf("close", "Close: %v", err)
	}
	e.open()
}

func (e *hEnv) String() string {
	var l []string
	for _, m := range e.m {
		l = append(l, fmt.Sprintf("%s@%s %s %q %v", m.id, m.bank, m.typ, m.content, m.vec))
	}
	for _, b := range e.banks {
		l = append(l, fmt.Sprintf("bank %s %q %v", b.ID, b.Name, *b.Disposition))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func hUnit(deg float64) []float32 {
	return []float32{float32(math.Cos(deg * math.Pi / 180)), float32(math.Sin(deg * math.Pi / 180)), 0}
}

var hT0 = time.Date(2026, 3, 1, 10, 0, 0, 0, time.UTC)

func hAt(ms int) time.Time { return hT0.Add(time.Duration(ms) * time.Millisecond) }

// what Retain is given, per memory name and version
func hMemory(id, bank string, typ hindsight.MemoryType, content string, deg float64, ms int, conf float64, ents []string, meta map[string]any) hmem {
	return hmem{id: id, bank: bank, typ: typ, content: content, vec: hUnit(deg), ents: ents, conf: conf, meta: meta, created: hAt(ms)}
}

func (m hmem) mem() *hindsight.Memory {
	return &hindsight.Memory{ID: m.id, BankID: m.bank, Type: m.typ, Content: m.content, Vector: append([]float32(nil), m.vec...), Entities: append([]string(nil), m.ents...), Confidence: m.conf, Metadata: m.meta, CreatedAt: m.created}
}

func (e *hEnv) same(what string, g *hindsight.Memory) hmem {
	c := e.c
	w, ok := e.m[g.ID]
	if !ok {
		c.Failf("ghost", "%s returns %s, which was never retained: %+v", what, g.ID, g)
	}
	if g.BankID != w.bank || g.Type != w.typ || g.Content != w.content || !reflect.DeepEqual(g.Vector, w.vec) {
		c.Failf("memory", "%s: %s is %s/%s/%q/%v, retained %s/%s/%q/%v", what, g.ID, g.BankID, g.Type, g.Content, g.Vector, w.bank, w.typ, w.content, w.vec)
	}
	if strings.Join(g.Entities, "|") != strings.Join(w.ents, "|") {
		c.Failf("entities", "%s: %s has entities %q, retained %q", what, g.ID, g.Entities, w.ents)
	}
	if (w.typ == hindsight.OpinionMemory || w.typ == hindsight.ObservationMemory) && math.Abs(g.Confidence-w.conf) > 1e-4 {
		c.Failf("confidence", "%s: %s has confidence %v, retained %v", what, g.ID, g.Confidence, w.conf)
	}
	if !w.created.IsZero() && g.CreatedAt.Unix() != w.created.Unix() {
		c.Failf("created", "%s: %s was created %v, retained %v", what, g.ID, g.CreatedAt, w.created)
	}
	for k, v := range w.meta {
		if !hReserved[k] && fmt.Sprint(g.Metadata[k]) != fmt.Sprint(v) {
			c.Failf("meta", "%s: %s has metadata %v, retained %v", what, g.ID, g.Metadata, w.meta)
		}
	}
	for k := range g.Metadata {
		if _, ok := w.meta[k]; !ok && !hReserved[k] {
			c.Failf("meta", "%s: %s has metadata %v, retained %v", what, g.ID, g.Metadata, w.meta)
		}
	}
	return w
}

func (e *hEnv) recall(what string, r hindsight.RecallRequest) []*hindsight.RecallResult {
	rs, err := e.s.Recall(bg, &r)
	if err != nil {
		e.c.Failf("recall", "%s: %v", what, err)
	}
	seen := map[string]bool{}
	for i, x := range rs {
		if seen[x.ID] {
			e.c.Failf("dup", "%s returns %s twice", what, x.ID)
		}
		seen[x.ID] = true
		if x.BankID != r.BankID {
			e.c.Failf("foreign", "%s in bank %s returns %s of bank %s", what, r.BankID, x.ID, x.BankID)
		}
		e.same(what, x.Memory)
		if i > 0 && x.Score > rs[i-1].Score+eps {
			e.c.Failf("order", "%s: scores %v then %v", what, rs[i-1].Score, x.Score)
		}
	}
	return rs
}

// top checks that rs is a best-k selection by cosine among the memories ok accepts.
func (e *hEnv) top(what string, rs []*hindsight.RecallResult, q []float32, k int, ok func(m hmem) bool) {
	n := 0
	for _, m := range e.m {
		if ok(m) {
			n++
		}
	}
	if n > k {
		n = k
	}
	if len(rs) != n {
		e.c.Failf("count", "%s returns %d of %d memories", what, len(rs), n)
	}
	low := 2.0
	got := map[string]bool{}
	for _, x := range rs {
		m := e.m[x.ID]
		got[x.ID] = true
		if !ok(m) {
			e.c.Failf("unfit", "%s returns %s, which does not qualify", what, x.ID)
		}
		s := refCos(q, m.vec)
		if !near(x.Score, s) {
			e.c.Failf("score", "%s: %s scores %v, want %v", what, x.ID, x.Score, s)
		}
		low = math.Min(low, s)
	}
	for _, m := range e.m {
		if ok(m) && !got[m.id] && refCos(q, m.vec) > low+eps {
			e.c.Failf("rank", "%s misses %s", what, m.id)
		}
	}
}

func (e *hEnv) observe(deep bool) {
	c := e.c
	q := hUnit(7)
	for _, bank := range []string{"b_1", "B_1", "B1"} {
		in := func(m hmem) bool { return m.bank == bank }
		n := 0
		for _, m := range e.m {
			if in(m) {
				n++
			}
		}
		for _, k := range []int{1, 2, 10} {
			e.top(fmt.Sprintf("semantic recall k=%d", k), e.recall("semantic", hindsight.RecallRequest{BankID: bank, QueryVector: q, Strategy: &hindsight.RecallStrategy{Memory: true, TopK: k}}), q, k, in)
		}
		if !deep {
			continue
		}
		e.top("recall limited by the request", e.recall("limited", hindsight.RecallRequest{BankID: bank, QueryVector: q, Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 5}, TopK: 2}), q, 2, in)
		for _, iv := range [][2]int{{0, 10000}, {300, 1000}, {500, 500}, {501, 2000}, {-1, 499}} {
			st, en := hAt(iv[0]), hAt(iv[1])
			tf := &hindsight.TemporalFilter{Start: &st, End: &en}
			if iv[0] < 0 {
				tf.Start = nil
			}
			for _, k := range []int{1, 10} {
				e.top(fmt.Sprintf("temporal recall %v k=%d", iv, k), e.recall("temporal", hindsight.RecallRequest{BankID: bank, QueryVector: q, Strategy: &hindsight.RecallStrategy{Temporal: tf, TopK: k}}), q, k, func(m hmem) bool {
					return in(m) && !m.created.IsZero() && (iv[0] < 0 || !m.created.Before(st)) && !m.created.After(en)
				})
			}
		}
		for _, ents := range [][]string{{"Al"}, {"Alice"}, {"b_1", "Alice"}, {"nobody"}} {
			for _, k := range []int{1, 10} {
				e.top(fmt.Sprintf("entity recall %v k=%d", ents, k), e.recall("entity", hindsight.RecallRequest{BankID: bank, QueryVector: q, Strategy: &hindsight.RecallStrategy{Entity: ents, TopK: k}}), q, k, func(m hmem) bool {
					for _, x := range m.ents {
						if has(ents, x) {
							return in(m)
						}
					}
					return false
				})
			}
		}
		e.fused(bank, q)
		kw := e.recall("keyword", hindsight.RecallRequest{BankID: bank, Query: "tea", Strategy: &hindsight.RecallStrategy{Priming: true, TopK: 10}})
		if len(kw) > n {
			c.Failf("keyword", "keyword recall returns %d of %d memories", len(kw), n)
		}
		kw = e.recall("keyword+vector", hindsight.RecallRequest{BankID: bank, Query: "tea", QueryVector: q, Strategy: &hindsight.RecallStrategy{Priming: true, TopK: 20}})
		if len(kw) != n && (n <= 20 || len(kw) != 20) {
			c.Failf("keyword", "keyword recall with a vector returns %d of %d memories", len(kw), n)
		}
		e.reflect(bank, q)
	}
	for _, bank := range []string{"b_1", "B_1"} {
		os, err := e.s.GetObservations(bg, bank)
		if err != nil {
			c.Failf("observations", "GetObservations: %v", err)
		}
		var g, w []string
		for _, o := range os {
			g = append(g, obsStr(*o))
		}
		for _, o := range e.obs {
			if o.BankID == bank {
				w = append(w, obsStr(o))
			}
		}
		if setOf(g) != setOf(w) {
			c.Failf("observations", "bank %s has observations %s, want %s", bank, setOf(g), setOf(w))
		}
	}
	e.checkBanks()
}

func obsStr(o hindsight.Observation) string {
	return fmt.Sprintf("%s %s %q %v %v %.3f %s %q", o.ID, o.BankID, o.Content, o.Vector, o.SourceMemoryIDs, o.Confidence, o.ObservationType, o.Reasoning)
}

func bankStr(b *hindsight.Bank) string {
	if b.Disposition == nil {
		return fmt.Sprintf("%s %q %q %q without a disposition", b.ID, b.Name, b.Description, b.Background)
	}
	return fmt.Sprintf("%s %q %q %q %d %d %d", b.ID, b.Name, b.Description, b.Background, b.Skepticism, b.Literalism, b.Empathy)
}

func (e *hEnv) checkBanks() {
	c := e.c
	var w []string
	for _, id := range []string{"b_1", "B_1", "Alice"} {
		b, ok := e.s.GetBank(id)
		want, have := e.banks[id]
		if ok != have {
			c.Failf("bank", "GetBank(%s) finds it: %v, want %v", id, ok, have)
		}
		if !ok {
			continue
		}
		w = append(w, bankStr(&want))
		if bankStr(b) != bankStr(&want) {
			c.Failf("bank", "GetBank(%s): %s, created as %s", id, bankStr(b), bankStr(&want))
		}
	}
	var g []string
	for _, b := range e.s.ListBanks() {
		g = append(g, bankStr(b))
	}
	if setOf(g) != setOf(w) {
		c.Failf("bank", "ListBanks: %s, want %s", setOf(g), setOf(w))
	}
}

// fused checks that several strategies together return the union of what each
// returns alone, ranked by reciprocal rank fusion.
func (e *hEnv) fused(bank string, q []float32) {
	c := e.c
	st, en := hAt(300), hAt(1000)
	all := hindsight.RecallStrategy{Memory: true, Priming: true, Entity: []string{"Alice"}, Temporal: &hindsight.TemporalFilter{Start: &st, End: &en}, TopK: 3}
	for mask := 3; mask < 16; mask++ {
		if mask&(mask-1) == 0 {
			continue
		}
		want := map[string]float64{}
		s := hindsight.RecallStrategy{TopK: 3}
		tied := false
		for i := 0; i < 4; i++ {
			if mask>>i&1 == 0 {
				continue
			}
			one := hindsight.RecallStrategy{TopK: 3}
			for _, x := range []*hindsight.RecallStrategy{&one, &s} {
				switch i {
				case 0:
					x.Memory = true
				case 1:
					x.Priming = true
				case 2:
					x.Temporal = all.Temporal
				case 3:
					x.Entity = all.Entity
				}
			}
			rs := e.recall("one strategy", hindsight.RecallRequest{BankID: bank, Query: "tea", QueryVector: q, Strategy: &one})
			for r, x := range rs {
				want[x.ID] += 1 / (60 + float64(r+1))
				if r > 0 && near(rs[r-1].Score, x.Score) {
					tied = true
				}
			}
		}
		req := hindsight.RecallRequest{BankID: bank, Query: "tea", QueryVector: q, Strategy: &s}
		rs := e.recall("fused", req)
		if len(rs) != len(want) {
			c.Failf("fusion", "strategies %04b together return %d memories, separately %d", mask, len(rs), len(want))
		}
		for i, x := range rs {
			w, ok := want[x.ID]
			if !ok || !tied && !near(x.Score, w) {
				c.Failf("fusion", "strategies %04b: %s scores %v, want %v", mask, x.ID, x.Score, w)
			}
			_ = i
		}
		if !tied {
			again := e.recall("fused", req)
			for i := range rs {
				if again[i].ID != rs[i].ID {
					c.Failf("unstable", "strategies %04b return %s then %s at rank %d", mask, rs[i].ID, again[i].ID, i)
				}
			}
		}
	}
}

func (e *hEnv) reflect(bank string, q []float32) {
	c := e.c
	req := hindsight.ContextRequest{BankID: bank, Query: "thé", QueryVector: q, Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 10}, TopK: 3}
	r0 := req
	full, err := e.s.Reflect(bg, &r0)
	if err != nil {
		c.Failf("reflect", "Reflect: %v", err)
	}
	for _, m := range full.Memories {
		w := e.same("Reflect", m)
		if w.bank != bank {
			c.Failf("foreign", "Reflect on %s uses %s of %s", bank, m.ID, w.bank)
		}
		if !strings.Contains(full.Context, w.content) {
			c.Failf("context", "Reflect's context does not hold %q: %q", w.content, full.Context)
		}
	}
	for _, m := range e.m {
		used := false
		for _, x := range full.Memories {
			used = used || x.Content == m.content
		}
		if !used && strings.Contains(full.Context, m.content) {
			c.Failf("context", "Reflect's context holds %q, which is not among its memories", m.content)
		}
	}
	for b := 1; b < 12; b++ {
		r := req
		r.TokenBudget = b
		g, err := e.s.Reflect(bg, &r)
		if err != nil {
			c.Failf("reflect", "Reflect: %v", err)
		}
		if len(g.Context) > 4*b+3 || g.TokenCount > b || !strings.HasPrefix(full.Context, g.Context) {
			c.Failf("budget", "a budget of %d tokens gives %d tokens: %q", b, g.TokenCount, g.Context)
		}
		if !utf8.ValidString(g.Context) {
			c.Failf("utf8", "a budget of %d tokens cuts a character: %q", b, g.Context)
		}
	}
}

type hop struct {
	name string
	do   func(e *hEnv)
}

func hOps() []hop {
	retain := func(name string, m hmem) hop {
		return hop{name, func(e *hEnv) {
			if err := e.s.Retain(bg, m.mem()); err != nil {
				e.c.Failf("retain", "Retain(%s): %v", name, err)
			}
			e.m[m.id] = m
			delete(e.obs, m.id)
		}}
	}
	create := func(name, id, desc string, d *hindsight.Disposition) hop {
		return hop{name, func(e *hEnv) {
			b := &hindsight.Bank{ID: id, Name: "N" + id, Description: desc, Background: "bg " + desc, Disposition: d}
			err := e.s.CreateBank(bg, b)
			if _, ok := e.banks[id]; ok {
				if err == nil {
					e.c.Failf("bank", "CreateBank(%s) of an existing bank succeeds", id)
				}
				return
			}
			if err != nil {
				e.c.Failf("bank", "CreateBank(%s): %v", id, err)
			}
			w := *b
			if d == nil {
				w.Disposition = hindsight.DefaultDisposition()
			} else {
				x := *d
				w.Disposition = &x
			}
			e.banks[id] = w
		}}
	}
	fact := func(name, bank, id, content string, deg float64) hop {
		return hop{name, func(e *hEnv) {
			e.s.SetFactExtractor(func(_ context.Context, b string, msgs []*core.Message) ([]hindsight.ExtractedFact, error) {
				if b != bank || len(msgs) != 1 || msgs[0].Content != "hello" {
					e.c.Failf("extractor", "the extractor is called for bank %s with %d messages", b, len(msgs))
				}
				return []hindsight.ExtractedFact{
					{ID: "", Content: "no id", Vector: hUnit(1)},
					{ID: id, Content: content, Vector: hUnit(deg), Entities: []string{"Alice"}, Metadata: map[string]any{"bank_id": "B_1", "src": "chat"}},
					{ID: "novec", Content: "no vector"},
				}, nil
			})
			r, err := e.s.RetainFromText(bg, bank, []*core.Message{{ID: "x", Content: "hello"}})
			if err != nil || r.Retained != 1 || r.Skipped != 2 || len(r.Errors) != 2 {
				e.c.Failf("facts", "RetainFromText: %+v, %v", r, err)
			}
			// the memory may be kept under any ID of the bank's own
			key := ""
			for k, m := range e.m {
				if m.bank == bank && strings.HasSuffix(k, id) {
					key = k
				}
			}
			rs, err := e.s.Recall(bg, &hindsight.RecallRequest{BankID: bank, QueryVector: hUnit(deg), Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 1}})
			if err != nil || len(rs) != 1 || rs[0].Content != content {
				e.c.Failf("facts", "the fact just retained in bank %s is not recalled: %v, %v", bank, rs, err)
			}
			if key != "" && key != rs[0].ID {
				e.c.Failf("facts", "fact %s of bank %s was %s and is now %s", id, bank, key, rs[0].ID)
			}
			if m, ok := e.m[rs[0].ID]; ok && m.bank != bank {
				e.c.Failf("foreign", "fact %s of bank %s replaced %s of bank %s", id, bank, m.id, m.bank)
			}
			e.m[rs[0].ID] = hmem{id: rs[0].ID, bank: bank, typ: hindsight.WorldMemory, content: content, vec: hUnit(deg), ents: []string{"Alice"}, meta: map[string]any{"src": "chat"}}
			e.s.SetFactExtractor(nil)
		}}
	}
	return []hop{
		retain("m1", hMemory("m1", "b_1", hindsight.WorldMemory, "tea is hot", 10, 0, 0, []string{"Al"}, map[string]any{"lang": "en", "n": 3})),
		retain("m1'", hMemory("m1", "b_1", hindsight.OpinionMemory, "tea may be cold", 50, 1200, 0.123456, []string{"Alice", "b_1"}, map[string]any{"bank_id": "B_1", "memory_type": "world", "created_at": "7", "confidence": "0.9", "entities": "Zed"})),
		retain("m2", hMemory("m2", "b_1", hindsight.BankMemory, "I served 茶 to Alice", 30, 500, 0, []string{"Alice"}, nil)),
		retain("m3", hMemory("m3", "B_1", hindsight.WorldMemory, "tea of another bank", 20, 700, 0, []string{"Alice"}, map[string]any{"bank_id": "b_1"})),
		retain("m4", hMemory("m4", "B1", hindsight.OpinionMemory, "tea 'quoted'", 70, 600, 1, nil, nil)),
		create("bank b1", "b_1", "first", &hindsight.Disposition{Skepticism: 5, Literalism: 1, Empathy: 2}),
		create("bank Alice", "Alice", "", nil),
		{"delete b1", func(e *hEnv) {
			err := e.s.DeleteBank("b_1")
			if _, ok := e.banks["b_1"]; ok != (err == nil) {
				e.c.Failf("bank", "DeleteBank of a bank that exists: %v, gives %v", ok, err)
			}
			delete(e.banks, "b_1")
		}},
		fact("fact b1", "b_1", "lang", "prefers go", 40),
		fact("fact b2", "B_1", "lang", "prefers tea", 60),
		{"observation", func(e *hEnv) {
			o := hindsight.Observation{ID: "o1", BankID: "b_1", Content: "insight", Vector: hUnit(35), SourceMemoryIDs: []string{"m1", "m2"}, Confidence: 0.75, ObservationType: hindsight.CausalObservation, Reasoning: "because, of tea", CreatedAt: hAt(400)}
			x := o
			x.SourceMemoryIDs = append([]string(nil), o.SourceMemoryIDs...)
			if err := e.s.AddObservation(bg, &x); err != nil {
				e.c.Failf("observation", "AddObservation: %v", err)
			}
			e.obs["o1"] = o
			e.m["o1"] = hmem{id: "o1", bank: "b_1", typ: hindsight.ObservationMemory, content: o.Content, vec: o.Vector, conf: o.Confidence, created: o.CreatedAt, meta: map[string]any{"source_memory_ids": "m1,m2", "observation_type": "causal", "reasoning": "because, of tea"}}
		}},
		{"reopen", func(e *hEnv) { e.reopen() }},
	}
}

func hSeqs(w *vk.W) {
	ops := hOps()
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	for _, coll := range []string{"memories", "agent"} {
		coll := coll
		seqsOf(w, "hindsight|"+coll, names, w.Pick(3, 4), func(c *vk.C, seq []int) {
			if coll != "memories" && len(seq) > 2 && seq[0] != 0 {
				return // the other collection: sequences that begin with m1
			}
			e := newHEnv(c, coll)
			for _, i := range seq {
				ops[i].do(e)
				c.Trans(1)
				c.State(e.String())
			}
			e.observe(true)
			e.reopen()
			e.observe(false)
		})
	}
}

// hMany: a bank among many: limits are applied after every other condition.
func hMany(w *vk.W) {
	for mask := 0; mask < 1<<w.Pick(6, 9); mask++ {
		mask := mask
		w.Case(fmt.Sprintf("many|%x", mask), func(c *vk.C) {
			e := newHEnv(c, "memories")
			n := w.Pick(6, 9)
			for i := 0; i < 4*n; i++ {
				j := i / 4
				bank := "B_1"
				if mask>>j&1 == 1 && i%4 == 3 {
					bank = "b_1"
				}
				var ents []string
				if i%4 == 3 {
					ents = []string{"Alice", "x"}
				}
				m := hMemory(fmt.Sprintf("k%02d", i), bank, hindsight.WorldMemory, fmt.Sprintf("tea %d.", i), 1.5*float64(i), 40*i, 0, ents, nil)
				if err := e.s.Retain(bg, m.mem()); err != nil {
					c.Failf("retain", "%v", err)
				}
				e.m[m.id] = m
			}
			e.observe(true)
		})
	}
}

// hRerank: the reranker's order is used as given; its failure leaves the fused one.
func hRerank(w *vk.W) {
	for mode := 0; mode < 6; mode++ {
		for k := 0; k < 5; k++ {
			mode, k := mode, k
			w.Case(fmt.Sprintf("rerank|%d|%d", mode, k), func(c *vk.C) {
				e := newHEnv(c, "memories")
				for i := 0; i < 4; i++ {
					m := hMemory(fmt.Sprintf("r%d", i), "b_1", hindsight.WorldMemory, "tea", float64(11*i), 0, 0, nil, nil)
					if err := e.s.Retain(bg, m.mem()); err != nil {
						c.Failf("retain", "%v", err)
					}
					e.m[m.id] = m
				}
				req := func() *hindsight.RecallRequest {
					return &hindsight.RecallRequest{BankID: "b_1", Query: "tea", QueryVector: hUnit(3), Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 10}}
				}
				base, _ := e.s.Recall(bg, req())
				ids := func(rs []*hindsight.RecallResult) (l []string) {
					for _, x := range rs {
						l = append(l, x.ID)
					}
					return
				}
				want := ids(base)
				var seen []string
				calls := 0
				e.s.SetReranker(func(_ context.Context, q string, cs []*hindsight.RecallResult) ([]*hindsight.RecallResult, error) {
					calls++
					seen = ids(cs)
					out := append([]*hindsight.RecallResult(nil), cs...)
					for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
						out[i], out[j] = out[j], out[i]
					}
					switch mode {
					case 1:
						return nil, errors.New("down")
					case 2:
						return nil, nil
					case 3:
						return out[:1], nil
					case 4:
						return out, errors.New("down")
					}
					return out, nil
				})
				r := req()
				r.TopK = k
				if mode == 5 {
					r.Query = ""
				}
				g, err := e.s.Recall(bg, r)
				if err != nil {
					c.Failf("rerank", "%v", err)
				}
				if mode != 5 && fmt.Sprint(seen) != fmt.Sprint(want) {
					c.Failf("rerank", "the reranker is given %v of %v", seen, want)
				}
				rev := []string{want[3], want[2], want[1], want[0]}
				exp := want
				switch mode {
				case 0:
					exp = rev
				case 3:
					exp = rev[:1]
				}
				if k > 0 && k < len(exp) {
					exp = exp[:k]
				}
				if fmt.Sprint(ids(g)) != fmt.Sprint(exp) {
					c.Failf("rerank", "recall with reranker mode %d and limit %d gives %v, want %v", mode, k, ids(g), exp)
				}
			})
		}
	}
}

// hAuto: messages through AddMessage, with extraction at every n-th of a role.
func hAuto(w *vk.W) {
	type msg struct{ role, sess, bank string }
	kinds := []msg{{"user", "s_1", "b_1"}, {"assistant", "s_1", "b_1"}, {"user", "S_1", "B_1"}}
	names := []string{"u_1", "a1", "U_1", "configure", "off"}
	for trig := 1; trig <= 3; trig++ {
		for win := 1; win <= 3; win++ {
			for flt := 0; flt < 2; flt++ {
				for _, bad := range []bool{false, true} {
					trig, win, flt, bad := trig, win, flt, bad
					if bad && (win != 2 || flt != 0) {
						continue
					}
					seqsOf(w, fmt.Sprintf("auto|%d|%d|%d|%v", trig, win, flt, bad), names, w.Pick(4, 6), func(c *vk.C, seq []int) {
						e := newHEnv(c, "memories")
						type call struct{ bank, msgs string }
						ch := make(chan call, 100)
						var mu sync.Mutex
						n := 0
						e.s.SetFactExtractor(func(_ context.Context, b string, ms []*core.Message) ([]hindsight.ExtractedFact, error) {
							var l []string
							for _, m := range ms {
								l = append(l, m.Content)
							}
							mu.Lock()
							n++
							id := fmt.Sprintf("f%d", n)
							mu.Unlock()
							ch <- call{b, strings.Join(l, ",")}
							if bad {
								return nil, errors.New("extractor is down")
							}
							return []hindsight.ExtractedFact{{ID: id, Content: "fact of " + strings.Join(l, ","), Vector: hUnit(float64(3 * n))}}, nil
						})
						cfg := &hindsight.AutoRetainConfig{Enabled: true, WindowSize: win, TriggerEvery: trig}
						if flt == 1 {
							cfg.RoleFilter = []string{"user"}
						}
						e.s.SetAutoRetain(cfg)
						for _, s := range []string{"s_1", "S_1"} {
							if err := e.s.CreateSession(bg, &core.Session{ID: s, UserID: "u"}); err != nil {
								c.Failf("session", "%v", err)
							}
						}
						hist := map[string][]string{}
						count := 0
						fired := map[string]int{}
						var calls []call
						on := true
						for i, k := range seq {
							if k >= len(kinds) {
								// counting starts again at every configuration
								cf := *cfg
								cf.Enabled = names[k] == "configure"
								e.s.SetAutoRetain(&cf)
								if on = cf.Enabled; on {
									count = 0
								}
								continue
							}
							m := kinds[k]
							text := fmt.Sprintf("%s%d", names[k], i)
							if err := e.s.AddMessage(bg, m.bank, &core.Message{ID: fmt.Sprint("id", i), SessionID: m.sess, Role: m.role, Content: text}); err != nil {
								c.Failf("message", "AddMessage: %v", err)
							}
							c.Trans(1)
							hist[m.sess] = append(hist[m.sess], text)
							if !on || flt == 1 && m.role != "user" {
								continue
							}
							if count++; count < trig {
								continue
							}
							count = 0
							l := hist[m.sess]
							if len(l) > win {
								l = l[len(l)-win:]
							}
							want := call{m.bank, strings.Join(l, ",")}
							select {
							case g := <-ch:
								if g != want {
									c.Failf("window", "after %v the extractor gets %v, want %v", seq[:i+1], g, want)
								}
							case <-time.After(20 * time.Second):
								c.Failf("trigger", "after %v no extraction happens", seq[:i+1])
							}
							fired[m.bank]++
							calls = append(calls, want)
						}
						e.reopen() // waits for what is in flight
						if len(ch) > 0 {
							c.Failf("trigger", "%v: an extraction too many: %v", seq, <-ch)
						}
						for _, s := range []string{"s_1", "S_1"} {
							h, err := e.s.Store().GetSessionHistory(bg, s, 100)
							if err != nil {
								c.Failf("history", "%v", err)
							}
							var g []string
							for _, m := range h {
								g = append(g, m.Content)
							}
							if fmt.Sprint(g) != fmt.Sprint(hist[s]) {
								c.Failf("history", "session %s holds %v, want %v", s, g, hist[s])
							}
						}
						for _, b := range []string{"b_1", "B_1"} {
							rs, err := e.s.Recall(bg, &hindsight.RecallRequest{BankID: b, QueryVector: hUnit(1), Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 50}})
							if err != nil {
								c.Failf("recall", "%v", err)
							}
							var g, want []string
							for _, x := range rs {
								g = append(g, x.Content)
								if x.Type != hindsight.WorldMemory {
									c.Failf("facts", "a fact without a type is of type %q", x.Type)
								}
							}
							for _, k := range calls {
								if k.bank == b && !bad {
									want = append(want, "fact of "+k.msgs)
								}
							}
							if setOf(g) != setOf(want) {
								c.Failf("facts", "%v: bank %s holds %s, want %s", seq, b, setOf(g), setOf(want))
							}
						}
					})
				}
			}
		}
	}
}

// hObserve: what reflection derives is about this bank's memories and is kept.
func hObserve(w *vk.W) {
	texts := []string{"Alice likes green tea", "Alice left because of green tea", "Bob drinks green tea", "nothing"}
	for a := 0; a < len(texts); a++ {
		for b := 0; b < len(texts); b++ {
			for d := 0; d < len(texts); d++ {
				for sk := 0; sk < 4; sk++ {
					a, b, d, sk := a, b, d, sk
					for _, re := range []bool{false, true} {
						re := re
						w.Case(fmt.Sprintf("observe|%d|%d|%d|%d|%v", a, b, d, sk, re), func(c *vk.C) {
							e := newHEnv(c, "memories")
							if sk > 0 {
								bk := &hindsight.Bank{ID: "b_1", Name: "N", Disposition: &hindsight.Disposition{Skepticism: 2*sk - 1, Literalism: 3, Empathy: 3}}
								if err := e.s.CreateBank(bg, bk); err != nil {
									c.Failf("bank", "%v", err)
								}
							}
							for i, k := range []int{a, b, d, 0, 1} {
								bank := "b_1"
								if i > 2 {
									bank = "B_1"
								}
								var ents []string
								if f := strings.Fields(texts[k]); len(f) > 1 {
									ents = f[:1]
								}
								m := hMemory(fmt.Sprintf("t%d", i), bank, hindsight.WorldMemory, texts[k], float64(10*i), 0, 0, ents, nil)
								if err := e.s.Retain(bg, m.mem()); err != nil {
									c.Failf("retain", "%v", err)
								}
								e.m[m.id] = m
							}
							if re {
								e.reopen()
							}
							min := []float64{0.25, 0.2, 0.3}[(a+b+d)%3] // also exactly a confidence
							r, err := e.s.Observe(bg, &hindsight.ReflectRequest{BankID: "b_1", Query: "tea", QueryVector: hUnit(4), TopK: 10, MinConfidence: min})
							if err != nil {
								c.Failf("observe", "Observe: %v", err)
							}
							if len(r.SourceMemories) != 3 {
								c.Failf("observe", "Observe considers %d of 3 memories", len(r.SourceMemories))
							}
							for _, m := range r.SourceMemories {
								if e.same("Observe", m); m.BankID != "b_1" {
									c.Failf("foreign", "Observe considers %s of %s", m.ID, m.BankID)
								}
							}
							var want []string
							factor := 1.0
							switch sk {
							case 1:
								factor = 1.1
							case 3:
								factor = 0.8
							}
							for _, o := range r.Observations {
								if o.BankID != "b_1" || len(o.SourceMemoryIDs) < 2 {
									c.Failf("observe", "observation %+v", o)
								}
								conf := float64(len(o.SourceMemoryIDs)) / 10 * factor
								if !near(o.Confidence, conf) {
									c.Failf("observe", "an observation from %d memories has confidence %v, want %v", len(o.SourceMemoryIDs), o.Confidence, conf)
								}
								for _, id := range o.SourceMemoryIDs {
									if e.m[id].bank != "b_1" {
										c.Failf("foreign", "an observation of b1 rests on %s of %s", id, e.m[id].bank)
									}
								}
								if o.Confidence >= min {
									x := *o
									x.Vector = nil
									want = append(want, obsStr(x))
								}
							}
							e.reopen()
							for _, bank := range []string{"b_1", "B_1"} {
								os, err := e.s.GetObservations(bg, bank)
								if err != nil {
									c.Failf("observe", "GetObservations: %v", err)
								}
								var g []string
								for _, o := range os {
									x := *o
									x.Vector = nil
									g = append(g, obsStr(x))
								}
								if bank == "B_1" {
									want = nil
								}
								if setOf(g) != setOf(want) {
									c.Failf("observe", "bank %s keeps %s, derived %s", bank, setOf(g), setOf(want))
								}
							}
							c.Outcome(fmt.Sprint(len(r.Observations)))
						})
					}
				}
			}
		}
	}
}

// hFaults: an operation whose storage fails reports it and changes nothing.
func hFaults(w *vk.W) {
	ops := hOps()
	type fop struct {
		name string
		pre  []int
		run  func(e *hEnv) error
		post []int
	}
	fops := []fop{
		{"retain new", []int{1}, func(e *hEnv) error {
			return e.s.Retain(bg, hMemory("m2", "b_1", hindsight.BankMemory, "I served 茶 to Alice", 30, 500, 0, []string{"Alice"}, nil).mem())
		}, []int{2}},
		{"retain again", []int{1, 2}, func(e *hEnv) error {
			return e.s.Retain(bg, hMemory("m1", "b_1", hindsight.WorldMemory, "tea is hot", 10, 0, 0, []string{"Al"}, map[string]any{"lang": "en", "n": 3}).mem())
		}, []int{0}},
		{"create bank", []int{6}, func(e *hEnv) error {
			return e.s.CreateBank(bg, &hindsight.Bank{ID: "b_1", Name: "Nb1", Description: "first", Background: "bg first", Disposition: &hindsight.Disposition{Skepticism: 5, Literalism: 1, Empathy: 2}})
		}, []int{5}},
		{"delete bank", []int{5, 6}, func(e *hEnv) error { return e.s.DeleteBank("b_1") }, []int{7}},
		{"observation", []int{0}, func(e *hEnv) error {
			return e.s.AddObservation(bg, &hindsight.Observation{ID: "o1", BankID: "b_1", Content: "insight", Vector: hUnit(35), SourceMemoryIDs: []string{"m1", "m2"}, Confidence: 0.75, ObservationType: hindsight.CausalObservation, Reasoning: "because, of tea", CreatedAt: hAt(400)})
		}, []int{10}},
		{"fact", []int{8}, func(e *hEnv) error {
			e.s.SetFactExtractor(func(context.Context, string, []*core.Message) ([]hindsight.ExtractedFact, error) {
				return []hindsight.ExtractedFact{{ID: "lang", Content: "prefers tea", Vector: hUnit(60), Entities: []string{"Alice"}, Metadata: map[string]any{"src": "chat"}}}, nil
			})
			r, err := e.s.RetainFromText(bg, "B_1", []*core.Message{{ID: "x", Content: "hello"}})
			if err == nil {
				err = r.Err()
			}
			return err
		}, []int{9}},
	}
	for _, f := range fops {
		f := f
		w.Case("fault|"+f.name, func(c *vk.C) {
			eachFault(c, 60, func(ft *fault) bool {
				e := newHEnv(c, "memories")
				for _, i := range f.pre {
					ops[i].do(e)
				}
				ft.arm()
				err := f.run(e)
				vsql.SetHook(nil)
				if err == nil {
					// applied in full: the model takes the same step
					e2 := &hEnv{c: c, s: e.s, m: e.m, banks: e.banks, obs: e.obs}
					applyModel(e2, f.name, f.post, ops)
				} else if !ft.fired {
					c.Failf("error", "%s without a fault: %v", f.name, err)
				}
				if _, ok := c.Try(func() { e.observe(false) }); ok != "" {
					c.Failf("torn", "%s, storage failing at %s, returns %v; then %s", f.name, ft.at, err, ok)
				}
				e.reopen()
				if _, ok := c.Try(func() { e.observe(false) }); ok != "" {
					c.Failf("torn", "%s, storage failing at %s, returns %v; after reopening %s", f.name, ft.at, err, ok)
				}
				e.s.Close()
				return true
			})
		})
	}
	st, en := hAt(-1000), hAt(100000)
	reqs := map[string]hindsight.RecallRequest{
		"semantic": {BankID: "b_1", QueryVector: hUnit(7), Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 2}},
		"temporal": {BankID: "b_1", QueryVector: hUnit(7), Strategy: &hindsight.RecallStrategy{Temporal: &hindsight.TemporalFilter{Start: &st, End: &en}, TopK: 5}},
		"entity":   {BankID: "b_1", QueryVector: hUnit(7), Strategy: &hindsight.RecallStrategy{Entity: []string{"Alice"}, TopK: 5}},
	}
	for name, req := range reqs {
		name, req := name, req
		w.Case("readfault|"+name, func(c *vk.C) {
			e := newHEnv(c, "memories")
			for _, i := range []int{1, 2, 3} {
				ops[i].do(e)
			}
			str := func(rs []*hindsight.RecallResult) string {
				var l []string
				for _, x := range rs {
					l = append(l, fmt.Sprintf("%s:%.6f", x.ID, x.Score))
				}
				return strings.Join(l, ",")
			}
			r0 := req
			base, err := e.s.Recall(bg, &r0)
			if err != nil || len(base) == 0 {
				c.Failf("recall", "%v %v", base, err)
			}
			eachFault(c, 60, func(ft *fault) bool {
				r := req
				ft.arm()
				g, err := e.s.Recall(bg, &r)
				vsql.SetHook(nil)
				if err == nil && str(g) != str(base) {
					c.Failf("silent", "%s recall, storage failing at %s, returns %s without an error; it holds %s", name, ft.at, str(g), str(base))
				}
				return true
			})
		})
	}
}

func applyModel(e *hEnv, name string, post []int, ops []hop) {
	switch name {
	case "retain new":
		e.m["m2"] = hMemory("m2", "b_1", hindsight.BankMemory, "I served 茶 to Alice", 30, 500, 0, []string{"Alice"}, nil)
	case "retain again":
		e.m["m1"] = hMemory("m1", "b_1", hindsight.WorldMemory, "tea is hot", 10, 0, 0, []string{"Al"}, map[string]any{"lang": "en", "n": 3})
	case "create bank":
		e.banks["b_1"] = hindsight.Bank{ID: "b_1", Name: "Nb1", Description: "first", Background: "bg first", Disposition: &hindsight.Disposition{Skepticism: 5, Literalism: 1, Empathy: 2}}
	case "delete bank":
		delete(e.banks, "b_1")
	case "observation":
		o := hindsight.Observation{ID: "o1", BankID: "b_1", Content: "insight", Vector: hUnit(35), SourceMemoryIDs: []string{"m1", "m2"}, Confidence: 0.75, ObservationType: hindsight.CausalObservation, Reasoning: "because, of tea", CreatedAt: hAt(400)}
		e.obs["o1"] = o
		e.m["o1"] = hmem{id: "o1", bank: "b_1", typ: hindsight.ObservationMemory, content: o.Content, vec: o.Vector, conf: o.Confidence, created: o.CreatedAt, meta: map[string]any{"source_memory_ids": "m1,m2", "observation_type": "causal", "reasoning": "because, of tea"}}
	case "fact":
		rs, err := e.s.Recall(bg, &hindsight.RecallRequest{BankID: "B_1", QueryVector: hUnit(60), Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 1}})
		if err != nil || len(rs) != 1 {
			e.c.Failf("facts", "the fact just retained is not recalled: %v %v", rs, err)
		}
		e.m[rs[0].ID] = hmem{id: rs[0].ID, bank: "B_1", typ: hindsight.WorldMemory, content: "prefers tea", vec: hUnit(60), ents: []string{"Alice"}, meta: map[string]any{"src": "chat"}}
	}
}

// hConc: concurrent use of one system.
func hConc(w *vk.W) {
	out := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	type op struct {
		name string
		run  func(e *hEnv) string
	}
	bank := func(id string) *hindsight.Bank { return hindsight.NewBank(id, "N"+id) }
	fact := func(b string) op {
		return op{"facts of " + b, func(e *hEnv) string {
			r, err := e.s.RetainFromText(bg, b, []*core.Message{{ID: "x", Content: "hello"}})
			if err != nil {
				return "error"
			}
			return fmt.Sprint(r.Retained, len(r.Errors))
		}}
	}
	msg := func(id string) op {
		return op{"message " + id, func(e *hEnv) string {
			return out(e.s.AddMessage(bg, "b_1", &core.Message{ID: id, SessionID: "s_1", Role: "user", Content: "c" + id}))
		}}
	}
	ops := []op{
		{"create b1", func(e *hEnv) string { return out(e.s.CreateBank(bg, bank("b_1"))) }},
		{"create b2", func(e *hEnv) string { return out(e.s.CreateBank(bg, bank("B_1"))) }},
		{"delete b2", func(e *hEnv) string { return out(e.s.DeleteBank("B_1")) }},
		{"get b2", func(e *hEnv) string { _, ok := e.s.GetBank("B_1"); return fmt.Sprint(ok) }},
		fact("b_1"), fact("B_1"),
		{"recall", func(e *hEnv) string {
			rs, err := e.s.Recall(bg, &hindsight.RecallRequest{BankID: "b_1", QueryVector: hUnit(1), Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 5}})
			if err != nil {
				return "error"
			}
			var l []string
			for _, x := range rs {
				l = append(l, x.Content)
			}
			return setOf(l)
		}},
		msg("1"), msg("2"),
	}
	var sets [][]int
	for i := range ops {
		for j := i; j < len(ops); j++ {
			if i >= 7 && i == j {
				continue
			}
			sets = append(sets, []int{i, j})
		}
	}
	sets = append(sets, []int{2, 3, 3}, []int{0, 1, 2})
	for _, set := range sets {
		set := set
		var names []string
		for _, i := range set {
			names = append(names, ops[i].name)
		}
		w.Case("conc|"+strings.Join(names, "||"), func(c *vk.C) {
			k := 0
			serializable(c, w.Pick(1, 2), names, func() instance {
				k++
				e := &hEnv{c: c, path: filepath.Join(c.Dir(), fmt.Sprintf("h%d.db", k)), coll: "memories", m: map[string]hmem{}}
				e.open()
				// b2 comes from another system on the same database, so that it is in the
				// database and not in memory
				o := &hEnv{c: c, path: e.path, coll: "memories"}
				o.open()
				if err := o.s.CreateBank(bg, bank("B_1")); err != nil {
					c.Failf("bank", "%v", err)
				}
				o.s.Close()
				if err := e.s.CreateSession(bg, &core.Session{ID: "s_1", UserID: "u"}); err != nil {
					c.Failf("session", "%v", err)
				}
				e.s.SetFactExtractor(func(_ context.Context, b string, ms []*core.Message) ([]hindsight.ExtractedFact, error) {
					var l []string
					for _, m := range ms {
						l = append(l, m.Content)
					}
					return []hindsight.ExtractedFact{{ID: "f", Content: b + " says " + setOf(l), Vector: hUnit(5)}}, nil
				})
				e.s.SetAutoRetain(&hindsight.AutoRetainConfig{Enabled: true, WindowSize: 4, TriggerEvery: 2})
				in := instance{done: func() { e.s.Close() }}
				for _, i := range set {
					i := i
					in.threads = append(in.threads, []func() string{func() string { return ops[i].run(e) }})
				}
				in.snap = func() string {
					e.reopen()
					var l []string
					for _, b := range []string{"b_1", "B_1"} {
						_, ok := e.s.GetBank(b)
						l = append(l, fmt.Sprint(b, ok))
						rs, err := e.s.Recall(bg, &hindsight.RecallRequest{BankID: b, QueryVector: hUnit(1), Strategy: &hindsight.RecallStrategy{Memory: true, TopK: 5}})
						var m []string
						for _, x := range rs {
							m = append(m, x.Content)
						}
						l = append(l, setOf(m), out(err))
					}
					return strings.Join(l, ";")
				}
				return in
			})
		})
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C23",
		Rule: "every sequence of retentions, bank changes, extracted facts, observations and reopenings, every recall strategy alone and every combination of them, every trigger/window/role setting of automatic retention over every short message sequence, every storage fault, and schedules of concurrent use are compared with a model of the banks",
		Assumptions: []string{
			"memory IDs are global and the caller's choice (IDs of extracted facts belong to their bank); entity names hold no comma",
			"temporal and entity recall are given a query vector; keyword recall is checked for its bank and completeness, not for its scores",
		},
		Run: func(w *vk.W) {
			w.Case("disposition", func(c *vk.C) {
				for a := -1; a <= 7; a++ {
					for b := -1; b <= 7; b++ {
						for d := -1; d <= 7; d++ {
							ok := a >= 1 && a <= 5 && b >= 1 && b <= 5 && d >= 1 && d <= 5
							if got := (&hindsight.Disposition{Skepticism: a, Literalism: b, Empathy: d}).Validate(); got != ok {
								c.Failf("disposition", "Validate of %d/%d/%d says %v", a, b, d, got)
							}
							c.Trans(1)
						}
					}
				}
			})
			hConc(w)
			hFaults(w)
			hRerank(w)
			hObserve(w)
			hAuto(w)
			hMany(w)
			hSeqs(w)
		}})
}
