package checks

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vrand"
	"github.com/liliang-cn/cortexdb/v2/pkg/index"
	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
)

// C15: the HNSW index is exact on small sets and survives its history.

type distT struct {
	name string
	f    func(a, b []float32) float32
	ref  func(a, b []float32) float64
}

var dists15 = []distT{
	{"l2", index.EuclideanDistance, refDist},
	{"cos", index.CosineDistance, func(a, b []float32) float64 { return 1 - refCos(a, b) }},
	{"dot", index.DotProductDistance, func(a, b []float32) float64 { return -refDot(a, b) }},
}

func refDist(a, b []float32) float64 {
	var d float64
	for i := range a {
		x := float64(a[i]) - float64(b[i])
		d += x * x
	}
	return math.Sqrt(d)
}

var queries15 = [][]float32{{1, 0.1}, {-0.7, 0.4}, {0.05, -1}}

// levels15 assigns a tower height to the n-th node created.
var levels15 = [][]int{{0, 0, 0, 0, 0}, {2, 1, 0, 0, 1}, {0, 1, 2, 3, 0}, {1, 0, 1, 0, 2}, {0, 3, 0, 1, 1}}

func height(n int) {
	c := make([]bool, n+1)
	for i := 0; i < n; i++ {
		c[i] = true
	}
	vrand.SetCoins(c)
}

// judgeKNN checks one answer against the vectors an index should hold. exact
// tells that the nearest k are required; otherwise any k with true distances.
func judgeKNN(c *vk.C, what string, ids []string, ds []float32, vecs map[string][]float32, q []float32, k int, ref func(a, b []float32) float64, exact bool) bool {
	c.Trans(1)
	k = max(k, 0)
	var l []float64
	for _, v := range vecs {
		l = append(l, ref(q, v))
	}
	sort.Float64s(l)
	bad := len(ids) != len(ds) || len(ids) != min(k, len(l))
	seen := map[string]bool{}
	for i := 0; i < len(ids) && !bad; i++ {
		v, ok := vecs[ids[i]]
		switch {
		case !ok, seen[ids[i]], math.Abs(float64(ds[i])-ref(q, v)) > eps30, i > 0 && ds[i] < ds[i-1]:
			bad = true
		case exact && math.Abs(float64(ds[i])-l[i]) > eps30:
			bad = true
		}
		seen[ids[i]] = true
	}
	if bad {
		c.Failf("knn", "%s: search(%v, k=%d) = %v %.4v, want the %d nearest of %s", what, q, k, ids, ds, k, vecStr(vecs, q, ref))
	}
	return !bad
}

func vecStr(vecs map[string][]float32, q []float32, ref func(a, b []float32) float64) string {
	m := map[string]float64{}
	for id, v := range vecs {
		m[id] = ref(q, v)
	}
	return scoreStr(m)
}

type hx struct {
	c     *vk.C
	h     *index.HNSW
	d     distT
	vecs  map[string][]float32 // what a node measures as: quantized when so inserted
	made  map[string]bool
	lv    []int
	q     *quantization.ScalarQuantizer
	m, ef int
	log   []string
}

func newHx(c *vk.C, d distT, m, ef int, lv []int) *hx {
	x := &hx{c: c, d: d, vecs: map[string][]float32{}, made: map[string]bool{}, lv: lv, m: m, ef: ef}
	x.h = index.NewHNSW(m, ef, d.f)
	return x
}

func (x *hx) what() string { return fmt.Sprintf("HNSW %s %v", x.d.name, x.log) }

func (x *hx) level(id string) {
	if !x.made[id] {
		height(x.lv[len(x.made)%len(x.lv)])
		x.made[id] = true
	}
}

func (x *hx) stored(v []float32) []float32 {
	if x.q == nil {
		return v
	}
	b, err := x.q.Encode(v)
	if err != nil {
		x.c.Fatal("encode: %v", err)
	}
	w, err := x.q.Decode(b)
	if err != nil {
		x.c.Fatal("decode: %v", err)
	}
	return w
}

func scribble(v []float32) {
	for i := range v {
		v[i] = 1e9
	}
}

func (x *hx) insert(id string, v []float32) {
	x.log = append(x.log, fmt.Sprintf("insert %s%v", id, v))
	_, live := x.vecs[id]
	x.level(id)
	w := append([]float32(nil), v...)
	err := x.h.Insert(id, w)
	scribble(w)
	if (err != nil) != live {
		x.c.Failf("dup", "%s: error %v, present before: %v", x.what(), err, live)
	}
	if !live {
		x.vecs[id] = x.stored(v)
	}
}

func (x *hx) upsert(id string, v []float32) {
	x.log = append(x.log, fmt.Sprintf("upsert %s%v", id, v))
	x.level(id)
	w := append([]float32(nil), v...)
	x.h.Upsert(id, w)
	scribble(w)
	x.vecs[id] = x.stored(v)
}

func (x *hx) del(id string) {
	x.log = append(x.log, "delete "+id)
	err := x.h.Delete(id)
	if _, live := x.vecs[id]; live && err != nil || !x.made[id] && err == nil {
		x.c.Failf("delete", "%s: error %v", x.what(), err)
	}
	delete(x.vecs, id)
}

type hvec = struct {
	ID     string
	Vector []float32
}

func (x *hx) batch(workers int, l ...hvec) {
	x.log = append(x.log, fmt.Sprintf("batch%d of %d", workers, len(l)))
	var in []hvec
	for _, v := range l {
		in = append(in, hvec{v.ID, append([]float32(nil), v.Vector...)})
		if !x.made[v.ID] && workers == 0 {
			x.made[v.ID] = true
		}
	}
	vrand.SetCoins([]bool{false, true, false, true, true, false, false, true, false})
	var err error
	if workers == 0 {
		err = x.h.InsertBatch(in)
	} else {
		err = x.h.InsertBatchParallel(in, workers)
	}
	for _, v := range in {
		scribble(v.Vector)
	}
	if err != nil {
		x.c.Failf("batch", "%s: %v", x.what(), err)
	}
	for _, v := range l {
		x.made[v.ID] = true
		if _, ok := x.vecs[v.ID]; !ok {
			x.vecs[v.ID] = x.stored(v.Vector)
		}
	}
}

// reload saves the index and loads it into one that already holds something.
func (x *hx) reload() {
	x.log = append(x.log, "save+load")
	var b bytes.Buffer
	if err := x.h.Save(&b); err != nil {
		x.c.Failf("save", "%s: %v", x.what(), err)
		return
	}
	h := index.NewHNSW(7, 9, x.d.f)
	height(1)
	h.Insert("stale", []float32{9, 9})
	if x.q != nil {
		h.SetQuantizer(x.q)
	}
	if err := h.Load(&b); err != nil {
		x.c.Failf("load", "%s: %v", x.what(), err)
		return
	}
	x.h = h
}

func (x *hx) judge(exact bool) {
	if n := x.h.Size(); n != len(x.vecs) {
		x.c.Failf("size", "%s: size %d, want %d", x.what(), n, len(x.vecs))
		return
	}
	for _, q := range queries15 {
		for _, k := range []int{-1, 0, 1, 2, 10, 70} {
			for _, ef := range []int{0, 1, 3, 80} {
				ids, ds := x.h.Search(q, k, ef)
				if !judgeKNN(x.c, fmt.Sprintf("%s ef=%d", x.what(), ef), ids, ds, x.vecs, q, k, x.d.ref, exact && max(ef, k) >= len(x.vecs)) {
					return
				}
			}
			ids, ds := x.h.SearchVectorIndex(q, k)
			if !judgeKNN(x.c, x.what()+" default ef", ids, ds, x.vecs, q, k, x.d.ref, exact && max(50, k) >= len(x.vecs)) {
				return
			}
		}
	}
}

func hnswSeqs(w *vk.W) {
	type hop struct {
		name string
		do   func(x *hx)
	}
	a1, a2, b1, b2, c1, d1, e1 := []float32{1, 0.3}, []float32{-1, 0.2}, []float32{0.4, 1}, []float32{0.5, -0.9}, []float32{-0.6, -0.7}, []float32{0.9, 0.25}, []float32{0.2, 0.2}
	ops := []hop{
		{"+a", func(x *hx) { x.insert("a", a1) }},
		{"+b", func(x *hx) { x.insert("b", b1) }},
		{"+c", func(x *hx) { x.insert("c", c1) }},
		{"=a", func(x *hx) { x.upsert("a", a2) }},
		{"=b", func(x *hx) { x.upsert("b", b2) }},
		{"-a", func(x *hx) { x.del("a") }},
		{"-b", func(x *hx) { x.del("b") }},
		{"-c", func(x *hx) { x.del("c") }},
		{"batch", func(x *hx) { x.batch(0, hvec{"a", a2}, hvec{"d", d1}, hvec{"e", e1}, hvec{"d", e1}) }},
		{"reload", func(x *hx) { x.reload() }},
	}
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	sq, _ := quantization.NewScalarQuantizer(2, 8)
	sq.Train([][]float32{{-1, -1}, {1, 1}})
	depth := w.Pick(4, 5)
	for di, d := range dists15 {
		for li, lv := range levels15 {
			if di > 0 && (li == 0 || li > 2) && !w.Thorough() {
				continue
			}
			d, lv := d, lv
			for _, quant := range []int{0, 1, 2} { // none, from the start, from the third step on
				quant := quant
				if quant > 0 && (di > 0 || li != 1) {
					continue
				}
				dep := depth
				if li > 1 && quant == 0 && w.Thorough() {
					dep--
				}
				seqsOf(w, fmt.Sprintf("%s|%d|q%d", d.name, li, quant), names, dep, func(c *vk.C, seq []int) {
					defer vrand.Off()
					x := newHx(c, d, 2, 3, lv)
					for i, o := range seq {
						if quant == 1 && i == 0 || quant == 2 && i == 2 {
							x.q = sq
							x.h.SetQuantizer(sq)
						}
						ops[o].do(x)
					}
					c.State(fmt.Sprint(x.d.name, li, x.log))
					x.judge(true)
				})
			}
		}
	}
}

// hnswBig: parallel construction, many deletions, k beyond ef.
func hnswBig(w *vk.W) {
	pt := func(i int) []float32 {
		a := float64(i) * 0.37
		return []float32{float32(math.Cos(a) * (1 + float64(i)*0.05)), float32(math.Sin(a) * (1 + float64(i)*0.05))}
	}
	for _, d := range dists15 {
		for _, n := range []int{20, 24, 31, 40} {
			for _, workers := range []int{1, 2, 3, 4} {
				for pre := 0; pre < 4; pre++ {
					if w.Stop() {
						return
					}
					d, n, workers, pre := d, n, workers, pre
					w.Case(fmt.Sprintf("par|%s|%d|%d|%d", d.name, n, workers, pre), func(c *vk.C) {
						defer vrand.Off()
						x := newHx(c, d, 32, 40, levels15[pre])
						if pre > 0 { // something is there already, some of it deleted
							x.insert("p0", pt(50))
							x.insert("p1", pt(51))
							x.insert("v003", pt(52))
							if pre > 1 {
								x.del("p0")
								x.insert("v015", pt(53))
								x.del("v015")
							}
							if pre > 2 {
								x.del("p1")
								x.del("v003")
							}
						}
						var l []hvec
						for i := 0; i < n; i++ {
							l = append(l, hvec{fmt.Sprintf("v%03d", i), pt(i)})
						}
						l[n-1] = hvec{"v000", pt(60)} // twice, in different parts
						x.batch(workers, l...)
						c.State(fmt.Sprint(d.name, n, workers, pre))
						x.judge(true)
						x.reload()
						x.del("v001")
						x.upsert("v002", pt(61))
						x.insert("z", pt(62))
						x.judge(true)
					})
				}
			}
		}
		for first := 0; first < 60; first += 6 {
			for cnt := 0; cnt <= 60-first; cnt += w.Pick(9, 3) {
				if w.Stop() {
					return
				}
				d, first, cnt := d, first, cnt
				w.Case(fmt.Sprintf("del|%s|%d|%d", d.name, first, cnt), func(c *vk.C) {
					defer vrand.Off()
					x := newHx(c, d, 32, 64, levels15[2])
					for i := 0; i < 60; i++ {
						x.insert(fmt.Sprintf("v%03d", i), pt(i))
					}
					// the ones nearest to the first query go first
					var ids []string
					for id := range x.vecs {
						ids = append(ids, id)
					}
					sort.Slice(ids, func(i, j int) bool {
						a, b := d.ref(queries15[0], x.vecs[ids[i]]), d.ref(queries15[0], x.vecs[ids[j]])
						return a < b || a == b && ids[i] < ids[j]
					})
					for _, id := range ids[first : first+cnt] {
						x.del(id)
					}
					c.State(fmt.Sprint(d.name, first, cnt))
					x.log = []string{fmt.Sprintf("60 vectors, the %d nearest after the first %d to %v deleted", cnt, first, queries15[0])}
					x.judge(true)
				})
			}
		}
	}
}

// hnswTorn: no truncated snapshot harms an index.
func hnswTorn(w *vk.W) {
	for variant := 0; variant < 2; variant++ {
		variant := variant
		var full []byte
		build := func(c *vk.C) *hx {
			x := newHx(c, dists15[0], 4, 10, levels15[1])
			x.insert("a", []float32{1, 0.3})
			x.insert("b", []float32{0.4, 1})
			if variant == 1 {
				x.del("a")
			}
			return x
		}
		size := 0
		w.Case(fmt.Sprintf("snapshot|%d", variant), func(c *vk.C) {})
		{
			h := index.NewHNSW(2, 3, index.EuclideanDistance)
			height(1)
			h.Insert("x", []float32{2, 2})
			h.Insert("y", []float32{3, 1})
			var b bytes.Buffer
			if h.Save(&b) == nil {
				full = b.Bytes()
				size = len(full)
			}
			vrand.Off()
		}
		for n := 0; n < size; n++ {
			n := n
			w.Case(fmt.Sprintf("torn|%d|%d", variant, n), func(c *vk.C) {
				defer vrand.Off()
				x := build(c)
				if err := x.h.Load(bytes.NewReader(full[:n])); err == nil {
					c.Failf("torn", "HNSW.Load accepts %d of %d bytes of a snapshot", n, size)
				}
				x.log = append(x.log, fmt.Sprintf("load of %d of %d bytes failed", n, size))
				x.judge(true)
				x.insert("c", []float32{-1, 1})
				x.judge(true)
			})
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C15",
		Rule: "every sequence of inserts, upserts, deletes, batches and snapshots over five ids, for each metric, tower-height pattern and quantizer, then every query, k and ef against brute force; parallel construction for every size, worker count and prior content; every deleted stretch of 60 vectors; every truncation of a snapshot",
		Assumptions: []string{
			"exactness is claimed while every vector, deleted ones included, fits the link lists (at most 2M+1) and max(ef, k) covers the live vectors; with smaller ef only count, distances and order are claimed",
			"vectors of one index have one dimension (the store guarantees it)",
		},
		Run: func(w *vk.W) {
			hnswTorn(w)
			hnswBig(w)
			hnswSeqs(w)
		}})
}
