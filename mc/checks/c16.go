package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vrand"
	"github.com/liliang-cn/cortexdb/v2/pkg/index"
)

// C16: the IVF, flat, LSH, multi and hybrid indexes.

var pool16 = map[string][]float32{
	"a1": {1, 0.3}, "a2": {-1, 0.2}, "b1": {0.4, 1}, "b2": {0.5, -0.9}, "c1": {-0.6, -0.7}, "d1": {0.9, 0.25}, "z": {0, 0},
}

func cp(v []float32) []float32 { return append([]float32(nil), v...) }

// ix is an index under test with the vectors it should hold.
type ix struct {
	c    *vk.C
	vecs map[string][]float32
	log  []string
	name string
}

func (x *ix) what() string { return fmt.Sprintf("%s %v", x.name, x.log) }

func (x *ix) note(f string, a ...any) { x.log = append(x.log, fmt.Sprintf(f, a...)) }

func (x *ix) sizeIs(n int) {
	if n != len(x.vecs) {
		x.c.Failf("size", "%s: size %d, want %d", x.what(), n, len(x.vecs))
	}
}

func namesOf[T any](ops []T, f func(T) string) []string {
	var l []string
	for _, o := range ops {
		l = append(l, f(o))
	}
	return l
}

// ---- IVF

type ivfX struct {
	ix
	v       *index.IVFIndex
	trained bool
	nc      int
}

func (x *ivfX) add(id, vec string) {
	x.note("add %s=%s", id, vec)
	w := cp(pool16[vec])
	err := x.v.Add(id, w)
	scribble(w)
	if (err == nil) != x.trained {
		x.c.Failf("add", "%s: error %v", x.what(), err)
	}
	if x.trained {
		x.vecs[id] = pool16[vec]
	}
}

func (x *ivfX) del(id string) {
	x.note("delete %s", id)
	err := x.v.Delete(id)
	if _, ok := x.vecs[id]; (err == nil) != ok {
		x.c.Failf("delete", "%s: error %v, present: %v", x.what(), err, ok)
	}
	delete(x.vecs, id)
}

func (x *ivfX) train(set ...string) {
	x.note("train %v", set)
	var l [][]float32
	for _, s := range set {
		l = append(l, cp(pool16[s]))
	}
	err := x.v.Train(l)
	for _, v := range l {
		scribble(v)
	}
	if (err == nil) != (len(set) >= x.nc) {
		x.c.Failf("train", "%s: error %v", x.what(), err)
		return
	}
	x.trained = x.trained || err == nil
}

func (x *ivfX) reload() {
	x.note("save+load")
	// the number of probed lists is part of what is saved
	for _, probe := range []int{1, 2, 99} {
		x.v.SetNProbe(probe)
		var b bytes.Buffer
		if err := x.v.Save(&b); err != nil {
			x.c.Failf("save", "%s: %v", x.what(), err)
			return
		}
		n := index.NewIVFIndex(2, 4)
		n.Train([][]float32{{1, 1}, {2, 2}, {3, 3}, {4, 5}})
		n.Add("stale", []float32{1, 1})
		if probe == 99 {
			n.SetNProbe(1)
		}
		if err := n.Load(&b); err != nil {
			x.c.Failf("load", "%s: %v", x.what(), err)
			return
		}
		for _, q := range queries15 {
			i1, d1, e1 := x.v.Search(q, 3)
			i2, d2, e2 := n.Search(q, 3)
			if (e1 == nil) != (e2 == nil) || len(i1) != len(i2) || fmt.Sprint(d1) != fmt.Sprint(d2) {
				x.c.Failf("probe", "%s: with %d probed lists Search(%v) gives %v %v %v, and %v %v %v from the loaded index", x.what(), probe, q, i1, d1, e1, i2, d2, e2)
			}
		}
		x.v = n
	}
}

func (x *ivfX) judge() {
	x.sizeIs(x.v.Size())
	for _, q := range queries15 {
		for _, k := range []int{-1, 0, 1, 2, 10} {
			x.v.SetNProbe(99)
			ids, ds, err := x.v.Search(q, k)
			if (err == nil) != x.trained {
				x.c.Failf("error", "%s: search error %v", x.what(), err)
				return
			}
			if !x.trained {
				continue
			}
			if !judgeKNN(x.c, x.what(), ids, ds, x.vecs, q, k, refDist, true) {
				return
			}
			// one probed list: the vectors nearest to the centroid nearest to q
			near := func(v []float32) (int, bool) {
				best, at, tie := math.Inf(1), 0, false
				for i, c := range x.v.Centroids {
					d := refDist(v, c)
					if math.Abs(d-best) < 1e-6 {
						tie = true
					} else if d < best {
						best, at, tie = d, i, false
					}
				}
				return at, tie
			}
			qc, tie := near(q)
			in := map[string][]float32{}
			for id, v := range x.vecs {
				c, t := near(v)
				tie = tie || t
				if c == qc {
					in[id] = v
				}
			}
			if tie {
				continue
			}
			x.v.SetNProbe(1)
			ids, ds, err = x.v.Search(q, k)
			if err != nil {
				x.c.Failf("error", "%s: search error %v", x.what(), err)
				return
			}
			if !judgeKNN(x.c, x.what()+" probing one list", ids, ds, in, q, k, refDist, true) {
				return
			}
		}
	}
	if _, _, err := x.v.Search([]float32{1, 2, 3}, 1); err == nil {
		x.c.Failf("dim", "%s accepts a query of another dimension", x.what())
	}
	if x.trained {
		if err := x.v.Add("wrong", []float32{1}); err == nil {
			x.c.Failf("dim", "%s accepts a vector of another dimension", x.what())
		}
	}
}

func ivfSeqs(w *vk.W) {
	type op struct {
		name string
		do   func(x *ivfX)
	}
	ops := []op{
		{"+a", func(x *ivfX) { x.add("a", "a1") }},
		{"+a'", func(x *ivfX) { x.add("a", "a2") }},
		{"+b", func(x *ivfX) { x.add("b", "b1") }},
		{"+c", func(x *ivfX) { x.add("c", "c1") }},
		{"-a", func(x *ivfX) { x.del("a") }},
		{"-b", func(x *ivfX) { x.del("b") }},
		{"train1", func(x *ivfX) { x.train("a1", "a2", "b1", "b2") }},
		{"train2", func(x *ivfX) { x.train("c1", "d1", "z", "b2", "a2") }},
		{"few", func(x *ivfX) { x.train("c1") }},
		{"clear", func(x *ivfX) { x.note("clear"); x.v.Clear(); x.vecs = map[string][]float32{} }},
		{"reload", func(x *ivfX) { x.reload() }},
	}
	names := namesOf(ops, func(o op) string { return o.name })
	for _, nc := range []int{2, 3} {
		for _, pre := range []bool{false, true} {
			nc, pre := nc, pre
			seqsOf(w, fmt.Sprintf("ivf|%d|%v", nc, pre), names, w.Pick(4, 5), func(c *vk.C, seq []int) {
				vrand.Off()
				x := &ivfX{ix: ix{c: c, vecs: map[string][]float32{}, name: fmt.Sprintf("IVF of %d lists", nc)}, v: index.NewIVFIndex(2, nc), nc: nc}
				if pre {
					x.train("a1", "b1", "c1", "z")
					x.add("a", "a1")
					x.add("d", "d1")
				}
				for _, o := range seq {
					ops[o].do(x)
				}
				c.State(x.what())
				x.judge()
			})
		}
	}
	w.Case("ivf|dims", func(c *vk.C) {
		v := index.NewIVFIndex(2, 2)
		if v.Train([][]float32{{1, 2}, {1}, {3, 4}}) == nil || v.Train([][]float32{{1, 2, 3}, {1, 4, 5}, {3, 4, 4}}) == nil {
			c.Failf("dim", "IVF trains on vectors of another dimension")
		}
		if _, _, err := v.Search([]float32{1, 2}, 1); err == nil {
			c.Failf("dim", "a refused training makes an index trained")
		}
	})
	// every truncation of a snapshot
	v := index.NewIVFIndex(2, 2)
	v.Train([][]float32{{1, 1}, {2, 2}, {-3, 3}})
	v.Add("x", []float32{1, 1})
	v.Add("y", []float32{-2, 2})
	var b bytes.Buffer
	v.Save(&b)
	full := b.Bytes()
	for n := 0; n < len(full); n++ {
		n := n
		w.Case(fmt.Sprintf("ivftorn|%d", n), func(c *vk.C) {
			x := &ivfX{ix: ix{c: c, vecs: map[string][]float32{}, name: "IVF"}, v: index.NewIVFIndex(2, 3), nc: 3}
			x.train("a1", "b1", "c1", "z")
			x.add("a", "a1")
			x.add("d", "d1")
			if err := x.v.Load(bytes.NewReader(full[:n])); err == nil {
				c.Failf("torn", "IVF.Load accepts %d of %d bytes of a snapshot", n, len(full))
			}
			x.note("load of %d of %d bytes failed", n, len(full))
			x.judge()
			x.add("b", "b2")
			x.judge()
		})
	}
}

// ---- flat

func flatSeqs(w *vk.W) {
	type fx struct {
		ix
		f   *index.FlatIndex
		ref func(a, b []float32) float64
		cos bool
	}
	ins := func(id, vec string) func(x *fx) {
		return func(x *fx) {
			x.note("insert %s=%s", id, vec)
			w := cp(pool16[vec])
			if err := x.f.Insert(id, w); err != nil {
				x.c.Failf("insert", "%s: %v", x.what(), err)
			}
			scribble(w)
			x.vecs[id] = pool16[vec]
		}
	}
	del := func(id string) func(x *fx) {
		return func(x *fx) {
			x.note("delete %s", id)
			if _, ok := x.vecs[id]; x.f.Delete(id) != ok {
				x.c.Failf("delete", "%s: wrong answer, present: %v", x.what(), ok)
			}
			delete(x.vecs, id)
		}
	}
	batch := func(ids []string, vs ...string) func(x *fx) {
		return func(x *fx) {
			x.note("batch %v %v", ids, vs)
			var l [][]float32
			bad := len(ids) != len(vs)
			for _, v := range vs {
				if v == "long" {
					l = append(l, []float32{1, 2, 3})
					bad = true
				} else {
					l = append(l, cp(pool16[v]))
				}
			}
			err := x.f.BatchInsert(ids, l)
			for _, v := range l {
				scribble(v)
			}
			if (err != nil) != bad {
				x.c.Failf("batch", "%s: error %v", x.what(), err)
			}
			if !bad {
				for i, id := range ids {
					x.vecs[id] = pool16[vs[i]]
				}
			}
		}
	}
	type op struct {
		name string
		do   func(x *fx)
	}
	ops := []op{
		{"+a", ins("a", "a1")}, {"+a'", ins("a", "a2")}, {"+b", ins("b", "b1")}, {"+z", ins("z", "z")}, {"-a", del("a")}, {"-z", del("z")},
		{"batch", batch([]string{"a", "c", "d"}, "b2", "c1", "d1")},
		{"bad", batch([]string{"a", "c", "d"}, "b1", "c1", "long")},
		{"uneven", batch([]string{"c"}, "a1", "c1")},
		{"clear", func(x *fx) { x.note("clear"); x.f.Clear(); x.vecs = map[string][]float32{} }},
	}
	names := namesOf(ops, func(o op) string { return o.name })
	for kind := 0; kind < 5; kind++ {
		kind := kind
		seqsOf(w, fmt.Sprintf("flat|%d", kind), names, w.Pick(3, 5), func(c *vk.C, seq []int) {
			x := &fx{ix: ix{c: c, vecs: map[string][]float32{}}}
			switch kind {
			case 0, 1, 2:
				x.f, x.ref, x.name = index.NewFlatIndex(2, dists15[kind].f), dists15[kind].ref, "flat "+dists15[kind].name
			case 3:
				x.f, x.ref, x.name = index.NewFlatIndex(2, nil), refDist, "flat default"
			default:
				x.f, x.ref, x.name, x.cos = index.NewFlatIndexCosine(2), dists15[1].ref, "flat cosine", true
			}
			for _, o := range seq {
				ops[o].do(x)
			}
			c.State(x.what())
			x.sizeIs(x.f.Size())
			for id, v := range x.vecs {
				got, ok := x.f.GetVector(id)
				if ok && len(got) == 2 {
					if x.cos {
						ok = math.Abs(1-refCos(got, v)) < eps30 || v[0] == 0 && v[1] == 0 && got[0] == 0 && got[1] == 0
					} else {
						ok = got[0] == v[0] && got[1] == v[1]
					}
				}
				if !ok {
					c.Failf("get", "%s: GetVector(%s) = %v, want %v", x.what(), id, got, v)
					return
				}
				scribble(got)
			}
			if _, ok := x.f.GetVector("none"); ok {
				c.Failf("get", "%s: GetVector finds an id never inserted", x.what())
			}
			for _, q := range queries15 {
				for _, k := range []int{-1, 0, 1, 2, 3, 10} {
					ids, ds := x.f.Search(q, k)
					if !judgeKNN(c, x.what(), ids, ds, x.vecs, q, k, x.ref, true) {
						return
					}
				}
				radii := []float64{-1, 0, 0.31, 0.83, 1.27, 5}
				// the distances of the stored vectors themselves: within the radius
				all, dist := x.f.Search(q, len(x.vecs))
				for i := range all {
					ids, _ := x.f.RangeSearch(q, dist[i])
					if !has(ids, all[i]) {
						c.Failf("range", "%s: the vector %s at distance %v of %v is not within radius %v", x.what(), all[i], dist[i], q, dist[i])
					}
				}
				for _, r := range radii {
					in := map[string][]float32{}
					edge := false
					for id, v := range x.vecs {
						d := x.ref(q, v)
						edge = edge || math.Abs(d-r) < eps30
						if d <= r {
							in[id] = v
						}
					}
					if edge {
						continue
					}
					ids, ds := x.f.RangeSearch(q, float32(r))
					if !judgeKNN(c, fmt.Sprintf("%s range %v", x.what(), r), ids, ds, in, q, len(in), x.ref, true) {
						return
					}
					if len(ids) != len(in) {
						c.Failf("range", "%s: range %v returns %v", x.what(), r, ids)
					}
				}
			}
			if x.f.Insert("w", []float32{1}) == nil {
				c.Failf("dim", "%s accepts a vector of another dimension", x.what())
			}
			if ids, _ := x.f.Search([]float32{1}, 3); len(ids) > 0 {
				c.Failf("dim", "%s answers a query of another dimension", x.what())
			}
			x.sizeIs(x.f.Size())
		})
	}
}

// ---- LSH

func lshSeqs(w *vk.W) {
	type lx struct {
		ix
		l *index.LSHIndex
	}
	ins := func(id, vec string) func(x *lx) {
		return func(x *lx) {
			x.note("insert %s=%s", id, vec)
			w := cp(pool16[vec])
			if err := x.l.Insert(id, w); err != nil {
				x.c.Failf("insert", "%s: %v", x.what(), err)
			}
			scribble(w)
			x.vecs[id] = pool16[vec]
		}
	}
	del := func(id string) func(x *lx) {
		return func(x *lx) {
			x.note("delete %s", id)
			if _, ok := x.vecs[id]; x.l.Delete(id) != ok {
				x.c.Failf("delete", "%s: wrong answer, present: %v", x.what(), ok)
			}
			delete(x.vecs, id)
		}
	}
	type op struct {
		name string
		do   func(x *lx)
	}
	ops := []op{
		{"+a", ins("a", "a1")}, {"+a'", ins("a", "a2")}, {"+b", ins("b", "b1")}, {"+b'", ins("b", "b2")}, {"+c", ins("c", "c1")},
		{"-a", del("a")}, {"-b", del("b")},
		{"clear", func(x *lx) { x.note("clear"); x.l.Clear(); x.vecs = map[string][]float32{} }},
	}
	names := namesOf(ops, func(o op) string { return o.name })
	for _, cf := range []index.LSHConfig{{NumTables: 1, NumHashFuncs: 1, Dimension: 2, Seed: 1}, {NumTables: 2, NumHashFuncs: 3, Dimension: 2, Seed: 2}, {Dimension: 2, Seed: 3}, {NumTables: 1, NumHashFuncs: 12, Dimension: 2, Seed: 4}} {
		cf := cf
		seqsOf(w, fmt.Sprintf("lsh|%d|%d", cf.NumTables, cf.NumHashFuncs), names, w.Pick(4, 5), func(c *vk.C, seq []int) {
			vrand.Off()
			x := &lx{ix: ix{c: c, vecs: map[string][]float32{}, name: fmt.Sprintf("LSH %+v", cf)}, l: index.NewLSHIndex(cf)}
			for _, o := range seq {
				ops[o].do(x)
			}
			c.State(x.what())
			x.sizeIs(x.l.Size())
			// a fresh index with the same projections holding the same vectors
			ref := index.NewLSHIndex(cf)
			for id, v := range x.vecs {
				ref.Insert(id, cp(v))
			}
			a, b := x.l.Stats(), ref.Stats()
			for _, k := range []string{"total_buckets", "avg_bucket_size", "max_bucket_size", "num_vectors"} {
				if fmt.Sprint(a[k]) != fmt.Sprint(b[k]) {
					c.Failf("stats", "%s: %s %v, a fresh index of the same vectors has %v", x.what(), k, a[k], b[k])
				}
			}
			qs := append([][]float32{}, queries15...)
			for _, v := range pool16 {
				qs = append(qs, v)
			}
			check := func(what string, l []index.LSHSearchResult, err error, q []float32, k int, full map[string]bool) map[string]bool {
				got := map[string]bool{}
				if err != nil {
					c.Failf("error", "%s: %v", what, err)
					return nil
				}
				var ids []string
				var ds []float32
				in := map[string][]float32{}
				for _, r := range l {
					ids, ds = append(ids, r.ID), append(ds, r.Distance)
					got[r.ID] = true
				}
				if full == nil {
					full = got
				}
				for id := range full {
					if v, ok := x.vecs[id]; ok {
						in[id] = v
					}
				}
				if !judgeKNN(c, what, ids, ds, in, q, k, refDist, true) {
					return nil
				}
				return got
			}
			for _, q := range qs {
				l, err := x.l.Search(q, 99)
				all := check(x.what()+" all candidates", l, err, q, 99, nil)
				rl, _ := ref.Search(q, 99)
				want := map[string]bool{}
				for _, r := range rl {
					want[r.ID] = true
				}
				if fmt.Sprint(all) != fmt.Sprint(want) {
					c.Failf("history", "%s: candidates of %v are %v, a fresh index of the same vectors has %v", x.what(), q, all, want)
					return
				}
				for id, v := range x.vecs {
					if v[0] == q[0] && v[1] == q[1] && !all[id] {
						c.Failf("self", "%s: searching the vector of %s does not find it", x.what(), id)
						return
					}
				}
				for _, k := range []int{-1, 0, 1, 2} {
					l, err := x.l.Search(q, k)
					check(fmt.Sprintf("%s k=%d", x.what(), k), l, err, q, k, all)
				}
				prev := all
				for p := 0; p <= 13; p++ {
					l, err := x.l.SearchWithMultiProbe(q, 99, p)
					got := check(fmt.Sprintf("%s %d probes", x.what(), p), l, err, q, 99, nil)
					for id := range prev {
						if !got[id] {
							c.Failf("probe", "%s: %d probes lose %s", x.what(), p, id)
							return
						}
					}
					if p == 0 && len(got) != len(all) {
						c.Failf("probe", "%s: no probes give %v, search gives %v", x.what(), got, all)
					}
					if p >= 1 && cf.NumHashFuncs == 1 && len(got) != len(x.vecs) {
						c.Failf("probe", "%s: probing both buckets gives %v of %d vectors", x.what(), got, len(x.vecs))
						return
					}
					l, err = x.l.SearchWithMultiProbe(q, 1, p)
					check(fmt.Sprintf("%s %d probes k=1", x.what(), p), l, err, q, 1, got)
					prev = got
				}
			}
			if x.l.Insert("w", []float32{1}) == nil {
				c.Failf("dim", "%s accepts a vector of another dimension", x.what())
			}
			if _, err := x.l.Search([]float32{1, 2, 3}, 1); err == nil {
				c.Failf("dim", "%s answers a query of another dimension", x.what())
			}
			if _, err := x.l.SearchWithMultiProbe([]float32{1, 2, 3}, 1, 1); err == nil {
				c.Failf("dim", "%s answers a probe of another dimension", x.what())
			}
		})
	}
}

// ---- multi and hybrid

// partial is an exact index that may refuse ids, know only some, or fail.
type partial struct {
	vecs    map[string][]float32
	refuse  map[string]bool
	failDel bool
}

func (p *partial) Insert(id string, v []float32) error {
	if p.refuse[id] {
		return errors.New("refused")
	}
	p.vecs[id] = cp(v)
	return nil
}
func (p *partial) Delete(id string) error {
	if p.failDel {
		return errors.New("cannot delete")
	}
	if _, ok := p.vecs[id]; !ok {
		return errors.New("not there")
	}
	delete(p.vecs, id)
	return nil
}
func (p *partial) Size() int { return len(p.vecs) }
func (p *partial) Search(q []float32, k int) ([]string, []float32) {
	var ids []string
	for id := range p.vecs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return refDist(q, p.vecs[ids[i]]) < refDist(q, p.vecs[ids[j]]) })
	ids = ids[:min(max(k, 0), len(ids))]
	var ds []float32
	for _, id := range ids {
		ds = append(ds, float32(refDist(q, p.vecs[id])))
	}
	return ids, ds
}

func multiSeqs(w *vk.W) {
	type mx struct {
		ix
		m       *index.MultiIndex
		members []index.VectorIndex
		extra   *partial
		strict  bool
	}
	ins := func(id, vec string) func(x *mx) {
		return func(x *mx) {
			x.note("insert %s=%s", id, vec)
			height(len(x.log) % 3)
			v := cp(pool16[vec])
			err := x.m.Insert(id, v)
			scribble(v)
			refused := x.extra != nil && x.extra.refuse[id]
			if (err != nil) != refused {
				x.c.Failf("insert", "%s: error %v", x.what(), err)
			}
			if !refused {
				x.vecs[id] = pool16[vec]
			}
		}
	}
	del := func(id string) func(x *mx) {
		return func(x *mx) {
			x.note("delete %s", id)
			err := x.m.Delete(id)
			if _, ok := x.vecs[id]; ok && err != nil && !(x.extra != nil && x.extra.failDel) {
				x.c.Failf("delete", "%s: %v", x.what(), err)
			}
			delete(x.vecs, id)
		}
	}
	type op struct {
		name string
		do   func(x *mx)
	}
	ops := []op{
		{"+a", ins("a", "a1")}, {"+a'", ins("a", "a2")}, {"+b", ins("b", "b1")}, {"+c", ins("c", "c1")}, {"+r", ins("r", "b2")}, {"-a", del("a")}, {"-c", del("c")},
	}
	names := namesOf(ops, func(o op) string { return o.name })
	strategies := []index.CombineStrategy{index.StrategyPrimaryOnly, index.StrategyMergeAll, index.StrategyRerank, index.StrategyVoting, ""}
	for _, par := range []bool{false, true} {
		for _, primary := range []index.IndexType{index.IndexTypeHNSW, index.IndexTypeIVF} {
			for extra := 0; extra < 3; extra++ { // none, one that refuses r, one that cannot delete
				par, primary, extra := par, primary, extra
				seqsOf(w, fmt.Sprintf("multi|%v|%s|%d", par, primary, extra), names, w.Pick(4, 5), func(c *vk.C, seq []int) {
					defer vrand.Off()
					vrand.Off()
					for si, st := range strategies {
						if si > 0 && par && !w.Thorough() {
							break
						}
						secondary := []index.IndexType{index.IndexTypeIVF, index.IndexTypeHNSW}
						if primary == index.IndexTypeIVF {
							secondary = secondary[1:]
						} else {
							secondary = secondary[:1]
						}
						cfg := index.MultiIndexConfig{PrimaryIndex: primary, SecondaryIndices: secondary, CombineStrategy: st, Parallel: par, RerankTopK: []int{0, 1, 3}[len(seq)%3]}
						x := &mx{ix: ix{c: c, vecs: map[string][]float32{}, name: fmt.Sprintf("MultiIndex %+v", cfg)}, m: index.NewMultiIndex(cfg)}
						ha := index.NewHNSWAdapter(2, 8, index.EuclideanDistance)
						iv := index.NewIVFAdapter(2, 2)
						iv.Train([][]float32{{1, 1}, {-1, 1}, {0, -1}})
						x.m.AddIndex(index.IndexTypeHNSW, ha)
						x.m.AddIndex(index.IndexTypeIVF, iv)
						x.members = []index.VectorIndex{ha, iv}
						if extra > 0 {
							x.extra = &partial{vecs: map[string][]float32{}, refuse: map[string]bool{"r": extra == 1}, failDel: extra == 2}
							x.m.AddIndex(index.IndexTypeFlat, x.extra)
						}
						for _, o := range seq {
							ops[o].do(x)
						}
						c.State(x.what())
						// every member holds the same vectors
						for i, mem := range x.members {
							x.sizeIs(mem.Size())
							for _, q := range queries15 {
								ids, ds := mem.Search(q, 9)
								if !judgeKNN(c, fmt.Sprintf("%s member %d", x.what(), i), ids, ds, x.vecs, q, 9, refDist, true) {
									return
								}
							}
						}
						x.sizeIs(x.m.Size())
						if extra == 2 && (st == index.StrategyMergeAll || st == index.StrategyVoting) {
							continue // the member that cannot delete answers too
						}
						for _, q := range queries15 {
							for _, k := range []int{-1, 0, 1, 2, 3, 9} {
								ids, ds := x.m.Search(q, k)
								if st == index.StrategyVoting { // scores are votes; the order is judged
									for i, id := range ids {
										if v, ok := x.vecs[id]; ok {
											ds[i] = float32(refDist(q, v))
										}
									}
								}
								if !judgeKNN(c, x.what(), ids, ds, x.vecs, q, k, refDist, true) {
									return
								}
							}
						}
					}
				})
			}
		}
	}
	// reranking with secondaries that know only some of the vectors
	for known := 0; known < 1<<5; known++ {
		for top := 0; top < 7; top++ {
			known, top := known, top
			w.Case(fmt.Sprintf("rerank|%02x|%d", known, top), func(c *vk.C) {
				all := &partial{vecs: map[string][]float32{}}
				some := &partial{vecs: map[string][]float32{}}
				for i, n := range []string{"a1", "b1", "c1", "d1", "b2"} {
					all.vecs[n] = pool16[n]
					if known>>i&1 == 1 {
						some.vecs[n] = pool16[n]
					}
				}
				m := index.NewMultiIndex(index.MultiIndexConfig{PrimaryIndex: index.IndexTypeHNSW, SecondaryIndices: []index.IndexType{index.IndexTypeFlat, index.IndexTypeHybrid}, CombineStrategy: index.StrategyRerank, RerankTopK: top})
				m.AddIndex(index.IndexTypeHNSW, all)
				m.AddIndex(index.IndexTypeFlat, some)
				for _, q := range queries15 {
					for k := 1; k <= 5; k++ {
						ids, ds := m.Search(q, k)
						c.Trans(1)
						what := fmt.Sprintf("rerank of 5 vectors, %d known to the secondary, RerankTopK %d: search(%v, %d) = %v %v", len(some.vecs), top, q, k, ids, ds)
						if len(ids) != k {
							c.Failf("rerank", "%s: too few", what)
							return
						}
						seen := map[string]bool{}
						unknown := false
						for i, id := range ids {
							v, ok := all.vecs[id]
							if !ok || seen[id] || math.Abs(float64(ds[i])-refDist(q, v)) > eps30 {
								c.Failf("rerank", "%s: wrong entry %s", what, id)
								return
							}
							seen[id] = true
							_, kn := some.vecs[id]
							if kn && unknown {
								c.Failf("rerank", "%s: %s is confirmed but comes after one that is not", what, id)
								return
							}
							if i > 0 && kn != unknown && ds[i] < ds[i-1]-1e-6 {
								c.Failf("rerank", "%s: not in order", what)
								return
							}
							unknown = unknown || !kn
						}
					}
				}
			})
		}
	}
	// no primary: nothing to answer with
	w.Case("multi|empty", func(c *vk.C) {
		for _, st := range strategies {
			m := index.NewMultiIndex(index.MultiIndexConfig{PrimaryIndex: index.IndexTypeHNSW, CombineStrategy: st})
			if ids, ds := m.Search([]float32{1, 1}, 3); len(ids) != 0 || len(ds) != 0 || m.Size() != 0 {
				c.Failf("empty", "an empty MultiIndex answers %v", ids)
			}
		}
	})
}

func hybridSeqs(w *vk.W) {
	type yx struct {
		ix
		h       *index.HybridIndex
		trained bool
	}
	ins := func(id, vec string) func(x *yx) {
		return func(x *yx) {
			x.note("insert %s=%s", id, vec)
			height(len(x.log) % 3)
			v := cp(pool16[vec])
			err := x.h.Insert(id, v)
			scribble(v)
			_, dup := x.vecs[id]
			if !x.trained && err == nil || x.trained && !dup && err != nil {
				x.c.Failf("insert", "%s: error %v", x.what(), err)
			}
			if err == nil {
				x.vecs[id] = pool16[vec]
			}
		}
	}
	del := func(id string) func(x *yx) {
		return func(x *yx) {
			x.note("delete %s", id)
			if err := x.h.Delete(id); err != nil {
				if _, ok := x.vecs[id]; ok {
					x.c.Failf("delete", "%s: %v", x.what(), err)
				}
			}
			delete(x.vecs, id)
		}
	}
	type op struct {
		name string
		do   func(x *yx)
	}
	train := func(l ...[]float32) func(x *yx) {
		return func(x *yx) {
			x.note("train %v", l)
			if err := x.h.Train(l); err != nil {
				x.c.Failf("train", "%s: %v", x.what(), err)
			}
			x.trained = true
		}
	}
	ops := []op{
		{"+a", ins("a", "a1")}, {"+a'", ins("a", "a2")}, {"+b", ins("b", "b1")}, {"+c", ins("c", "c1")}, {"-a", del("a")}, {"-b", del("b")},
		{"train", train([]float32{1, 1}, []float32{-1, 0.5}, []float32{0, -1})}, {"train'", train([]float32{0.2, 1}, []float32{-1, -1}, []float32{0.5, -1})},
		{"alpha", func(x *yx) { x.h.SetAlpha(0.9) }},
	}
	names := namesOf(ops, func(o op) string { return o.name })
	seqsOf(w, "hybrid", names, w.Pick(5, 6), func(c *vk.C, seq []int) {
		defer vrand.Off()
		vrand.Off()
		x := &yx{ix: ix{c: c, vecs: map[string][]float32{}, name: "HybridIndex"}, h: index.NewHybridIndex(2, 8, 3)}
		for _, o := range seq {
			ops[o].do(x)
		}
		c.State(x.what())
		x.sizeIs(x.h.Size())
		for _, q := range queries15 {
			for _, k := range []int{-1, 0, 1, 2, 9} {
				ids, ds := x.h.Search(q, k)
				if !judgeKNN(c, x.what(), ids, ds, x.vecs, q, k, refDist, true) {
					return
				}
			}
		}
	})
}

// manyVectors: indexes with more vectors, lists and results than any page.
func manyVectors(w *vk.W) {
	for _, n := range []int{20, 101, 300} {
		for _, shape := range []string{"spread", "close"} {
			n, shape := n, shape
			w.Case(fmt.Sprintf("many|%s|%d", shape, n), func(c *vk.C) {
				vrand.Off()
				vecs := map[string][]float32{}
				var ids []string
				var l [][]float32
				for i := 0; i < n; i++ {
					a, r := 6.28*float64(i*37%n)/float64(n), 1+0.0003*float64(i*11%n)
					if shape == "spread" {
						r = 0.2 + 3*float64(i*7%n)/float64(n)
					}
					v := []float32{float32(r * math.Cos(a)), float32(r * math.Sin(a))}
					ids, l = append(ids, fmt.Sprintf("m%d", i)), append(l, v)
					vecs[ids[i]] = v
				}
				f := index.NewFlatIndex(2, index.EuclideanDistance)
				if err := f.BatchInsert(ids[:n/2], l[:n/2]); err != nil {
					c.Failf("batch", "BatchInsert of %d: %v", n/2, err)
				}
				iv := index.NewIVFIndex(2, 12)
				if err := iv.Train(l); err != nil {
					c.Failf("train", "Train with %d vectors: %v", n, err)
				}
				lsh := index.NewLSHIndex(index.LSHConfig{NumTables: 3, NumHashFuncs: 2, Dimension: 2, Seed: 5})
				for i, id := range ids {
					if i >= n/2 {
						f.Insert(id, l[i])
					}
					if err := iv.Add(id, l[i]); err != nil {
						c.Failf("add", "IVF.Add: %v", err)
					}
					lsh.Insert(id, l[i])
				}
				for i := 0; i < n; i += 7 {
					f.Delete(ids[i])
					iv.Delete(ids[i])
					lsh.Delete(ids[i])
					delete(vecs, ids[i])
				}
				c.State(fmt.Sprint(shape, n))
				for _, q := range append(queries15, l[n-1], l[n/2]) {
					for _, k := range []int{1, 9, 10, 11, 64, 65, 100, 101, 400} {
						what := fmt.Sprintf("%d vectors (%s)", len(vecs), shape)
						i1, d1 := f.Search(q, k)
						if !judgeKNN(c, "flat index of "+what, i1, d1, vecs, q, k, refDist, true) {
							return
						}
						// the first k by radius: every vector as near as the k-th
						if len(d1) > 0 && k <= len(vecs) {
							in := map[string][]float32{}
							r := d1[len(d1)-1]
							for id, v := range vecs {
								if index.EuclideanDistance(q, v) <= r {
									in[id] = v
								}
							}
							ri, rd := f.RangeSearch(q, r)
							if !judgeKNN(c, fmt.Sprintf("range %v of flat index of %s", r, what), ri, rd, in, q, len(in), refDist, true) {
								return
							}
						}
						iv.SetNProbe(99)
						i2, d2, err := iv.Search(q, k)
						if err != nil || !judgeKNN(c, "IVF index of "+what, i2, d2, vecs, q, k, refDist, true) {
							c.Failf("ivf", "IVF index of %s: %v", what, err)
							return
						}
						for probe := 1; probe < 12; probe++ {
							iv.SetNProbe(probe)
							i3, d3, err := iv.Search(q, k)
							in := map[string][]float32{}
							for _, id := range i3 {
								if v, ok := vecs[id]; ok {
									in[id] = v
								}
							}
							if err != nil || !judgeKNN(c, fmt.Sprintf("IVF index of %s, %d lists probed", what, probe), i3, d3, in, q, len(i3), refDist, true) {
								c.Failf("ivf", "IVF index of %s: %v", what, err)
								return
							}
						}
						got, err := lsh.Search(q, k)
						in := map[string][]float32{}
						var i4 []string
						var d4 []float32
						for _, r := range got {
							i4, d4 = append(i4, r.ID), append(d4, r.Distance)
							if v, ok := vecs[r.ID]; ok {
								in[r.ID] = v
							}
						}
						if err != nil || len(got) > k || !judgeKNN(c, "LSH index of "+what, i4, d4, in, q, len(got), refDist, true) {
							c.Failf("lsh", "LSH index of %s: %d of %d, %v", what, len(got), k, err)
							return
						}
						// a search for more finds at least as many, the best first
						more, _ := lsh.Search(q, k+1)
						for i := range got {
							if i >= len(more) || more[i].Distance != got[i].Distance {
								c.Failf("lsh", "LSH index of %s: Search(%v, %d) is not the head of Search(%v, %d)", what, q, k, q, k+1)
								return
							}
						}
					}
				}
			})
		}
	}
	// merging and voting over members of which one knows only some vectors
	for known := 0; known < 1<<5; known++ {
		known := known
		w.Case(fmt.Sprintf("merge|%02x", known), func(c *vk.C) {
			vecs := map[string][]float32{}
			for _, n := range []string{"a1", "b1", "c1", "d1", "b2"} {
				vecs[n] = pool16[n]
			}
			for _, st := range []index.CombineStrategy{index.StrategyMergeAll, index.StrategyVoting} {
				all, some := &partial{vecs: map[string][]float32{}}, &partial{vecs: map[string][]float32{}}
				for i, n := range []string{"a1", "b1", "c1", "d1", "b2"} {
					if st == index.StrategyVoting || known>>i&1 == 0 {
						all.vecs[n] = pool16[n]
					}
					if known>>i&1 == 1 {
						some.vecs[n] = pool16[n]
					}
				}
				m := index.NewMultiIndex(index.MultiIndexConfig{PrimaryIndex: index.IndexTypeHNSW, SecondaryIndices: []index.IndexType{index.IndexTypeFlat}, CombineStrategy: st})
				m.AddIndex(index.IndexTypeHNSW, all)
				m.AddIndex(index.IndexTypeFlat, some)
				for _, q := range queries15 {
					for k := 1; k <= 6; k++ {
						ids, ds := m.Search(q, k)
						if st == index.StrategyMergeAll {
							if !judgeKNN(c, fmt.Sprintf("merge of %v and %v", all.vecs, some.vecs), ids, ds, vecs, q, k, refDist, true) {
								return
							}
							continue
						}
						c.Trans(1)
						if 2*k < 5 {
							continue // members answer with part of what they hold
						}
						seen := map[string]bool{}
						bad := len(ids) != min(k, 5)
						for i := range ids {
							_, kn := some.vecs[ids[i]]
							bad = bad || seen[ids[i]] || vecs[ids[i]] == nil
							seen[ids[i]] = true
							if i > 0 {
								_, was := some.vecs[ids[i-1]]
								bad = bad || kn && !was || kn == was && refDist(q, vecs[ids[i]]) < refDist(q, vecs[ids[i-1]])-eps30
							}
						}
						if bad {
							c.Failf("vote", "voting over %v and %v: search(%v, %d) = %v; those both know come first, then by distance", vecStr(all.vecs, q, refDist), vecStr(some.vecs, q, refDist), q, k, ids)
						}
					}
				}
			}
		})
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C16",
		Rule: "every sequence of operations on the IVF, flat, LSH, multi and hybrid indexes over a handful of ids, then every query, k, probe count and radius against brute force; LSH also against a fresh index of the same vectors; every truncation of an IVF snapshot; every subset of vectors known to a reranking, merging or voting member; indexes of 20, 101 and 300 vectors, near-equal distances included, with every page size around 10, 64 and 100",
		Assumptions: []string{
			"IVF is exact when every list is probed; with one list probed it is exact within the list of the centroid nearest to the query",
			"an LSH index of a given seed uses the same projections each time",
			"HybridIndex.Insert may refuse or replace an id that is present",
		},
		Run: func(w *vk.W) {
			flatSeqs(w)
			ivfSeqs(w)
			lshSeqs(w)
			multiSeqs(w)
			hybridSeqs(w)
			manyVectors(w)
		}})
}
