package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vrand"
	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
)

// C17: quantizers.

var grid17 = []float32{-2, -0.75, 0, 0.4, 1, 3}

// vecs17 calls f with every vector of dimension d over vals.
func vecs17(d int, vals []float32, f func(v []float32)) {
	v := make([]float32, d)
	var rec func(i int)
	rec = func(i int) {
		if i == d {
			f(append([]float32(nil), v...))
			return
		}
		for _, x := range vals {
			v[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

func scalarQuant(w *vk.W) {
	wide := append([]float32{-9, 2.9, 7}, grid17...)
	for d := 1; d <= w.Pick(2, 3); d++ {
		var pts [][]float32
		vecs17(d, grid17, func(v []float32) { pts = append(pts, v) })
		for bits := 1; bits <= 8; bits++ {
			for i := range pts {
				if w.Stop() {
					return
				}
				if d == 3 && i%7 != 0 {
					continue
				}
				d, bits, i := d, bits, i
				w.Case(fmt.Sprintf("sq|%d|%d|%d", d, bits, i), func(c *vk.C) {
					for j := i; j < len(pts); j++ {
						if d == 3 && j%5 != 0 {
							continue
						}
						c.State(fmt.Sprint(d, bits, i, j))
						judgeScalar(c, d, bits, [][]float32{pts[i], pts[j]}, wide)
					}
				})
			}
		}
	}
	w.Case("sq|config", func(c *vk.C) {
		for b := -2; b <= 20; b++ {
			if _, err := quantization.NewScalarQuantizer(2, b); (err == nil) != (b >= 1 && b <= 8) {
				c.Failf("bits", "NewScalarQuantizer(2, %d): %v", b, err)
			}
		}
	})
}

func judgeScalar(c *vk.C, d, bits int, train [][]float32, vals []float32) {
	q, err := quantization.NewScalarQuantizer(d, bits)
	what := fmt.Sprintf("%d-bit scalar quantizer trained on %v", bits, train)
	if err != nil {
		c.Failf("new", "%s: %v", what, err)
		return
	}
	if _, err := q.Encode(train[0]); err == nil {
		c.Failf("untrained", "an untrained quantizer encodes")
	}
	if _, err := q.Decode(make([]byte, 9)); err == nil {
		c.Failf("untrained", "an untrained quantizer decodes")
	}
	if q.Train(nil) == nil || q.Train([][]float32{make([]float32, d+1)}) == nil || d > 1 && q.Train([][]float32{make([]float32, d-1)}) == nil {
		c.Failf("train", "a quantizer accepts no vectors or vectors of another dimension")
	}
	if _, err := q.Encode(train[0]); err == nil {
		c.Failf("untrained", "a refused training makes a quantizer trained")
	}
	if err := q.Train(train); err != nil {
		c.Failf("train", "%s: %v", what, err)
		return
	}
	// training again replaces what an earlier training learned
	if err := q.Train([][]float32{train[0], train[0]}); err == nil {
		if err := q.Train(train); err != nil {
			c.Failf("train", "%s: trained again: %v", what, err)
		}
	}
	// a refused retraining changes nothing
	if q.Train([][]float32{make([]float32, d), make([]float32, d+1)}) == nil {
		c.Failf("train", "%s retrains on vectors of another dimension", what)
	}
	var b bytes.Buffer
	if err := q.Save(&b); err != nil {
		c.Failf("save", "%s: %v", what, err)
		return
	}
	full := b.Bytes()
	l, _ := quantization.NewScalarQuantizer(5, 3)
	l.Train([][]float32{{9, 9, 9, 9, 9}, {1, 1, 1, 1, 1}})
	if err := l.Load(bytes.NewReader(full)); err != nil {
		c.Failf("load", "%s: %v", what, err)
		return
	}
	n := (d*bits + 7) / 8
	levels := float64(int(1)<<bits - 1)
	vecs17(d, vals, func(v []float32) {
		c.Trans(1)
		code, err := q.Encode(v)
		if err != nil || len(code) != n {
			c.Failf("encode", "%s: Encode(%v) = %v %v, want %d bytes", what, v, code, err, n)
			return
		}
		code2, err := l.Encode(v)
		if err != nil || !bytes.Equal(code, code2) {
			c.Failf("load", "%s: Encode(%v) = %v, after save and load %v %v", what, v, code, code2, err)
			return
		}
		got, err := q.Decode(code)
		got2, err2 := l.Decode(code)
		if err != nil || err2 != nil || len(got) != d || fmt.Sprint(got) != fmt.Sprint(got2) {
			c.Failf("decode", "%s: Decode = %v %v, after save and load %v %v", what, got, err, got2, err2)
			return
		}
		for i := range v {
			lo := math.Min(float64(train[0][i]), float64(train[1][i]))
			hi := math.Max(float64(train[0][i]), float64(train[1][i]))
			x := math.Max(lo, math.Min(hi, float64(v[i])))
			if math.Abs(float64(got[i])-x) > (hi-lo)/levels/2+1e-5 {
				c.Failf("error", "%s: %v comes back as %v, component %d off by more than half a step of %v", what, v, got, i, (hi-lo)/levels)
				return
			}
		}
		again, err := q.Encode(got)
		if err != nil || !bytes.Equal(again, code) {
			c.Failf("stable", "%s: %v encodes to %v, which decodes to %v and encodes to %v", what, v, code, got, again)
			return
		}
		for k := 0; k < n; k++ {
			if _, err := q.Decode(code[:k]); err == nil {
				c.Failf("short", "%s decodes %d of %d bytes", what, k, n)
			}
		}
	})
	for _, k := range []int{d - 1, d + 1} {
		if _, err := q.Encode(make([]float32, k)); err == nil {
			c.Failf("dim", "%s encodes a vector of dimension %d", what, k)
		}
	}
	// a truncated snapshot is refused and changes nothing
	ref, _ := q.Encode(train[0])
	for k := 0; k < len(full); k += 5 {
		if q.Load(bytes.NewReader(full[:k])) == nil {
			c.Failf("torn", "%s: Load accepts %d of %d bytes", what, k, len(full))
		}
	}
	if now, err := q.Encode(train[0]); err != nil || !bytes.Equal(now, ref) {
		c.Failf("torn", "%s: refused loads change the quantizer", what)
	}
	// loading an untrained quantizer gives an untrained one
	u, _ := quantization.NewScalarQuantizer(d, bits)
	var ub bytes.Buffer
	u.Save(&ub)
	if err := q.Load(&ub); err != nil {
		c.Failf("load", "loading an untrained quantizer: %v", err)
	} else if _, err := q.Encode(train[0]); err == nil {
		c.Failf("load", "%s: after loading an untrained quantizer it still encodes", what)
	}
}

// largeQuant: full code books, long lists of codes, tiny ranges and values
// that are exactly the mean.
func largeQuant(w *vk.W) {
	for _, span := range []float32{1e-8, 3e-7, 9e-7, 2e-6, 1e-3, 1, 1e6} {
		for bits := 1; bits <= 8; bits++ {
			span, bits := span, bits
			w.Case(fmt.Sprintf("span|%v|%d", span, bits), func(c *vk.C) {
				q, err := quantization.NewScalarQuantizer(1, bits)
				if err != nil || q.Train([][]float32{{0}, {span}}) != nil {
					c.Failf("train", "training on 0 and %v fails", span)
					return
				}
				step := float64(span) / float64(int(1)<<bits-1)
				for i := -10; i <= 110; i++ {
					c.Trans(1)
					v := span * float32(i) / 100
					code, _ := q.Encode([]float32{v})
					got, err := q.Decode(code)
					x := math.Max(0, math.Min(float64(span), float64(v)))
					if err != nil || math.Abs(float64(got[0])-x) > step/2*1.001 {
						c.Failf("error", "%d-bit scalar quantizer trained on 0 and %v: %v comes back as %v %v", bits, span, v, got, err)
						return
					}
				}
			})
		}
	}
	for _, d := range []int{1, 7, 8, 9, 17, 64} {
		d := d
		w.Case(fmt.Sprintf("mean|%d", d), func(c *vk.C) {
			q := quantization.NewBinaryQuantizer(d)
			lo, hi, mean := make([]float32, d), make([]float32, d), make([]float32, d)
			for i := range lo {
				mean[i] = float32(i) - 4
				lo[i], hi[i] = mean[i]-2, mean[i]+2
			}
			q.Train([][]float32{lo, hi, mean, mean})
			for i := -1; i < d; i++ {
				v := append([]float32(nil), mean...)
				if i >= 0 {
					v[i] += 0.25
				}
				code, err := q.Encode(v)
				c.Trans(1)
				for j := 0; j < d && err == nil; j++ {
					if code[j/8]>>(j%8)&1 == 1 != (j == i) {
						c.Failf("mean", "binary quantizer of %d components: only component %d of %v exceeds the mean, the code is %v", d, i, v, code)
						return
					}
				}
			}
		})
	}
	for _, n := range []int{60, 130, 300} {
		n := n
		w.Case(fmt.Sprintf("list|%d", n), func(c *vk.C) {
			q := quantization.NewBinaryQuantizer(16)
			var db [][]byte
			for i := 0; i < n; i++ {
				db = append(db, []byte{byte((n - i) * 7), byte((n - i) >> 3)})
			}
			for _, query := range [][]byte{{0, 0}, {255, 255}, {0x5a, 3}} {
				for _, k := range []int{1, 10, 64, 65, 100, 299, 1000} {
					ids, ds := q.SearchBinary(query, db, k)
					c.Trans(1)
					var want []int
					for _, e := range db {
						want = append(want, q.HammingDistance(query, e))
					}
					all := append([]int(nil), want...)
					sort.Ints(want)
					seen := map[int]bool{}
					bad := len(ids) != min(k, n) || len(ds) != len(ids)
					for i := 0; i < len(ids) && !bad; i++ {
						bad = seen[ids[i]] || ds[i] != want[i] || all[ids[i]] != ds[i]
						seen[ids[i]] = true
					}
					if bad {
						c.Failf("search", "SearchBinary(%v, %d codes, %d) = %v %v", query, n, k, ids, ds)
						return
					}
				}
			}
		})
	}
	for _, k := range []int{17, 128, 255, 256} {
		for _, m := range []int{1, 2} {
			k, m := k, m
			w.Case(fmt.Sprintf("book|%d|%d", k, m), func(c *vk.C) {
				vrand.Off()
				q, err := quantization.NewProductQuantizer(2*m, m, k)
				if err != nil {
					c.Failf("new", "NewProductQuantizer(%d, %d, %d): %v", 2*m, m, k, err)
					return
				}
				var train [][]float32
				for i := 0; i < k*m; i++ {
					v := make([]float32, 2*m)
					for j := range v {
						v[j] = float32((i*(j+3)+j*j)%(k*m)) / 8
					}
					train = append(train, v)
				}
				if err := q.Train(train); err != nil {
					c.Failf("train", "%v", err)
					return
				}
				l, _ := quantization.NewProductQuantizer(2, 1, 2)
				if err := l.DeserializeCodebooks(q.SerializeCodebooks()); err != nil {
					c.Failf("load", "a code book of %d entries cannot be loaded: %v", k, err)
					return
				}
				var codes [][]byte
				var dec [][]float32
				dist := func(a, b []float32) float64 {
					s := 0.0
					for i := range a {
						s += (float64(a[i]) - float64(b[i])) * (float64(a[i]) - float64(b[i]))
					}
					return math.Sqrt(s)
				}
				for _, v := range append(train, make([]float32, 2*m)) {
					code, err := q.Encode(v)
					code2, err2 := l.Encode(v)
					c.Trans(1)
					if err != nil || err2 != nil || len(code) != m || !bytes.Equal(code, code2) {
						c.Failf("encode", "Encode(%v) with %d codewords = %v %v, loaded %v %v", v, k, code, err, code2, err2)
						return
					}
					got, err := q.Decode(code)
					if err != nil {
						c.Failf("decode", "%v", err)
						return
					}
					codes, dec = append(codes, code), append(dec, got)
					// every part takes its nearest codeword
					for p := 0; p < m; p++ {
						best := math.Inf(1)
						for j := 0; j < k; j++ {
							one := make([]byte, m)
							one[p] = byte(j)
							w, _ := q.Decode(one)
							best = math.Min(best, dist(v[2*p:2*p+2], w[2*p:2*p+2]))
						}
						if dist(v[2*p:2*p+2], got[2*p:2*p+2]) > best+1e-4 {
							c.Failf("nearest", "part %d of %v is coded as %v, a codeword at distance %v is nearer (%d codewords)", p, v, got, best, k)
							return
						}
					}
				}
				for _, query := range [][]float32{train[0], train[k-1], make([]float32, 2*m)} {
					for _, top := range []int{1, 10, 100, 2000} {
						ids, ds := l.SearchPQ(query, codes, top)
						c.Trans(1)
						var want []float64
						for _, v := range dec {
							want = append(want, dist(query, v))
						}
						all := append([]float64(nil), want...)
						sort.Float64s(want)
						bad := len(ids) != min(top, len(codes)) || len(ds) != len(ids)
						seen := map[int]bool{}
						for i := 0; i < len(ids) && !bad; i++ {
							bad = seen[ids[i]] || math.Abs(float64(ds[i])-want[i]) > 1e-2 || math.Abs(all[ids[i]]-float64(ds[i])) > 1e-2
							seen[ids[i]] = true
						}
						if bad {
							c.Failf("search", "SearchPQ(%v, %d codes, %d) = %v %v", query, len(codes), top, ids, ds)
							return
						}
						if ids, _ := l.SearchPQ(append(append([]float32(nil), query...), 1), codes, top); len(ids) > 0 {
							c.Failf("dim", "SearchPQ answers a query of another dimension")
						}
						if _, err := l.ComputeDistance(codes[0], append(append([]float32(nil), query...), 1)); err == nil {
							c.Failf("dim", "ComputeDistance answers a query of another dimension")
						}
					}
				}
			})
		}
	}
}

func binaryQuant(w *vk.W) {
	for _, d := range []int{1, 2, 8, 9} {
		for n := 0; n < 72; n++ {
			d, t, again := d, n%36, n >= 36
			w.Case(fmt.Sprintf("bq|%d|%d|%v", d, t, again), func(c *vk.C) {
				x, y := grid17[t/6], grid17[t%6]
				mk := func(s float32) []float32 {
					v := make([]float32, d)
					for i := range v {
						v[i] = s * float32(1+i%3)
					}
					return v
				}
				q := quantization.NewBinaryQuantizer(d)
				train := [][]float32{mk(x), mk(y)}
				what := fmt.Sprintf("binary quantizer trained on %v", train)
				if _, err := q.Encode(train[0]); err == nil {
					c.Failf("untrained", "an untrained quantizer encodes")
				}
				if q.Train(nil) == nil || q.Train([][]float32{train[0], make([]float32, d+1)}) == nil {
					c.Failf("train", "a quantizer accepts no vectors or vectors of another dimension")
				}
				for _, first := range []float32{-40, 3} { // replaced by the last training
					if again {
						q.Train([][]float32{mk(first)})
					}
				}
				if err := q.Train(train); err != nil {
					c.Failf("train", "%s: %v", what, err)
					return
				}
				c.State(what)
				var b bytes.Buffer
				l := quantization.NewBinaryQuantizer(3)
				l.Train([][]float32{{5, 5, 5}})
				if q.Save(&b) != nil || l.Load(&b) != nil {
					c.Failf("load", "%s: save and load fail", what)
					return
				}
				n := (d + 7) / 8
				for _, s := range append([]float32{-9, 0.1, 9}, grid17...) {
					for flip := -1; flip < d; flip++ {
						v := mk(s)
						if flip >= 0 {
							v[flip] = -v[flip] + 0.3
						}
						c.Trans(1)
						code, err := q.Encode(v)
						code2, err2 := l.Encode(v)
						if err != nil || err2 != nil || len(code) != n || !bytes.Equal(code, code2) {
							c.Failf("encode", "%s: Encode(%v) = %v %v, loaded %v %v", what, v, code, err, code2, err2)
							return
						}
						for i := 0; i < n*8; i++ {
							bit := code[i/8]>>(i%8)&1 == 1
							want := false
							if i < d {
								th := (float64(train[0][i]) + float64(train[1][i])) / 2
								if math.Abs(float64(v[i])-th) < 1e-5 {
									continue
								}
								want = float64(v[i]) > th
							}
							if bit != want {
								c.Failf("bit", "%s: bit %d of %v is %v", what, i, v, bit)
								return
							}
						}
						got, err := q.Decode(code)
						if err != nil || len(got) != d {
							c.Failf("decode", "%s: Decode = %v %v", what, got, err)
							return
						}
						again, _ := q.Encode(got)
						if !bytes.Equal(again, code) {
							c.Failf("stable", "%s: %v decodes to %v, which encodes to %v", what, code, got, again)
							return
						}
						if _, err := q.Decode(code[:n-1]); err == nil {
							c.Failf("short", "%s decodes too few bytes", what)
						}
						if _, err := q.Decode(append(cpb(code), 0)); err == nil {
							c.Failf("long", "%s decodes too many bytes", what)
						}
					}
				}
				if _, err := q.Encode(make([]float32, d+1)); err == nil {
					c.Failf("dim", "%s encodes a vector of another dimension", what)
				}
			})
		}
	}
	// every small database searched
	q := quantization.NewBinaryQuantizer(3)
	pop := func(x byte) int {
		n := 0
		for ; x != 0; x &= x - 1 {
			n++
		}
		return n
	}
	for qq := 0; qq < 256; qq += 5 {
		qq := byte(qq)
		w.Case(fmt.Sprintf("hamming|%d", qq), func(c *vk.C) {
			codes := []byte{0, 1, 7, 0x80, 0xff, 0x55}
			for a := 0; a < 256; a++ {
				if n := q.HammingDistance([]byte{qq, 3}, []byte{byte(a), 1}); n != pop(qq^byte(a))+1 {
					c.Failf("hamming", "HammingDistance(%d, %d) = %d", qq, a, n)
					return
				}
			}
			if q.HammingDistance([]byte{1}, []byte{1, 2}) >= 0 {
				c.Failf("hamming", "codes of different length have a distance")
			}
			for m := 0; m < 216; m++ {
				db := [][]byte{{codes[m%6]}, {codes[m/6%6]}, {codes[m/36]}}
				for k := -1; k <= 4; k++ {
					for _, odd := range []bool{false, true} {
						d := db
						if odd { // an entry that cannot be compared
							d = append([][]byte{{1, 2}}, db...)
						}
						ids, ds := q.SearchBinary([]byte{qq}, d, k)
						c.Trans(1)
						var want []int
						for _, e := range db {
							want = append(want, pop(e[0]^qq))
						}
						sort.Ints(want)
						bad := len(ids) != len(ds) || len(ids) != min(max(k, 0), 3)
						seen := map[int]bool{}
						for i := 0; i < len(ids) && !bad; i++ {
							e := d[ids[i]]
							bad = seen[ids[i]] || len(e) != 1 || ds[i] != pop(e[0]^qq) || ds[i] != want[i]
							seen[ids[i]] = true
						}
						if bad {
							c.Failf("search", "SearchBinary(%d, %v, %d) = %v %v", qq, d, k, ids, ds)
							return
						}
					}
				}
			}
		})
	}
	w.Case("projection", func(c *vk.C) {
		for in := 1; in <= 4; in++ {
			for out := 1; out <= 9; out++ {
				o := quantization.NewOptimizedBinaryQuantizer(in, out)
				vecs17(in, []float32{-1, 0, 2}, func(v []float32) {
					p := o.Project(v)
					c.Trans(1)
					if len(p) != out {
						c.Failf("project", "Project gives %d values, want %d", len(p), out)
						return
					}
					for i := range p {
						if math.Abs(float64(p[i])-refDot(v, o.Projections[i])) > 1e-4 {
							c.Failf("project", "Project(%v)[%d] = %v, want %v", v, i, p[i], refDot(v, o.Projections[i]))
						}
					}
				})
			}
		}
	})
}

func cpb(b []byte) []byte { return append([]byte(nil), b...) }

func productQuant(w *vk.W) {
	pts := func(d, n, salt int) [][]float32 {
		var l [][]float32
		for i := 0; i < n; i++ {
			v := make([]float32, d)
			for j := range v {
				v[j] = grid17[(i*7+j*5+salt*i*j+salt)%6] + float32(i%4)*0.13
			}
			l = append(l, v)
		}
		return l
	}
	for _, cf := range [][3]int{{2, 1, 1}, {2, 1, 3}, {2, 2, 2}, {4, 2, 2}, {4, 2, 3}, {4, 4, 2}, {6, 3, 3}, {3, 1, 4}} {
		for salt := 0; salt < w.Pick(12, 60); salt++ {
			if w.Stop() {
				return
			}
			cf, salt := cf, salt
			w.Case(fmt.Sprintf("pq|%v|%d", cf, salt), func(c *vk.C) {
				vrand.Off()
				d, m, k := cf[0], cf[1], cf[2]
				q, err := quantization.NewProductQuantizer(d, m, k)
				if err != nil {
					c.Failf("new", "NewProductQuantizer(%v): %v", cf, err)
					return
				}
				if _, err := q.Encode(make([]float32, d)); err == nil {
					c.Failf("untrained", "an untrained quantizer encodes")
				}
				if _, err := q.ComputeDistance(make([]byte, m), make([]float32, d)); err == nil {
					c.Failf("untrained", "an untrained quantizer measures")
				}
				train := pts(d, k*m+3, salt)
				if q.Train(train[:k*m-1]) == nil {
					c.Failf("train", "PQ %v trains on too few vectors", cf)
				}
				bad := pts(d, k*m+3, salt)
				bad[1] = bad[1][:d-1]
				if q.Train(bad) == nil {
					c.Failf("train", "PQ %v trains on vectors of another dimension", cf)
				}
				if err := q.Train(train); err != nil {
					c.Failf("train", "PQ %v: %v", cf, err)
					return
				}
				what := fmt.Sprintf("PQ %v trained on %v", cf, train)
				c.State(what)
				judgePQ(c, what, q, d, m, k, pts(d, 12, salt+1))
				// trained again, on other vectors
				if err := q.Train(pts(d, k*m+3, salt+2)); err != nil {
					c.Failf("train", "PQ %v trained again: %v", cf, err)
					return
				}
				judgePQ(c, what+" and again", q, d, m, k, pts(d, 12, salt+1))
				// stored and loaded again, over one of another shape
				data := q.SerializeCodebooks()
				o, _ := quantization.NewProductQuantizer(6, 3, 2)
				o.Train(pts(6, 9, 1))
				before := o.SerializeCodebooks()
				for n := 0; n < len(data); n++ {
					if o.DeserializeCodebooks(data[:n]) == nil {
						c.Failf("torn", "%s: %d of %d bytes of codebooks are accepted", what, n, len(data))
					}
				}
				for at := 0; at < 16; at += 4 {
					for _, x := range []uint32{0, 1, 7, 300, 1 << 31, math.MaxUint32} {
						b := cpb(data)
						if binary.LittleEndian.Uint32(b[at:]) == x {
							continue
						}
						binary.LittleEndian.PutUint32(b[at:], x)
						if o.DeserializeCodebooks(b) == nil {
							c.Failf("corrupt", "%s: codebooks with header word %d changed to %d are accepted", what, at/4, x)
						}
					}
				}
				// every header over a body of the size it describes, too
				for _, hm := range []uint32{0, 1, 2} {
					for _, hk := range []uint32{0, 1, 256, 257} {
						for _, hs := range []uint32{0, 1, 2} {
							for _, hd := range []uint32{hm * hs, 0, 3} {
								if hm > 0 && hs > 0 && hk > 0 && hk <= 256 && hd == hm*hs {
									continue // a valid header
								}
								b := make([]byte, 16+4*int(hd*hk))
								for i, x := range []uint32{hm, hk, hd, hs} {
									binary.LittleEndian.PutUint32(b[4*i:], x)
								}
								if o.DeserializeCodebooks(b) == nil {
									c.Failf("corrupt", "%s: codebooks with M=%d K=%d D=%d SubDim=%d are accepted", what, hm, hk, hd, hs)
								}
							}
						}
					}
				}
				if !bytes.Equal(o.SerializeCodebooks(), before) {
					c.Failf("torn", "%s: refused codebooks change the quantizer", what)
				}
				if err := o.DeserializeCodebooks(data); err != nil {
					c.Failf("load", "%s: %v", what, err)
					return
				}
				if !bytes.Equal(o.SerializeCodebooks(), data) {
					c.Failf("load", "%s: codebooks change on the way", what)
				}
				judgePQ(c, what+" (loaded)", o, d, m, k, pts(d, 12, salt+2))
			})
		}
	}
	w.Case("pq|config", func(c *vk.C) {
		for d := -1; d <= 6; d++ {
			for m := -1; m <= 4; m++ {
				for _, k := range []int{-1, 0, 1, 256, 257} {
					_, err := quantization.NewProductQuantizer(d, m, k)
					ok := d > 0 && m > 0 && k > 0 && k <= 256 && d%m == 0
					if (err == nil) != ok {
						c.Failf("new", "NewProductQuantizer(%d, %d, %d): %v", d, m, k, err)
					}
				}
			}
		}
	})
}

func judgePQ(c *vk.C, what string, q *quantization.ProductQuantizer, d, m, k int, vs [][]float32) {
	sub := d / m
	var codes [][]byte
	for _, v := range vs {
		c.Trans(1)
		code, err := q.Encode(v)
		if err != nil || len(code) != m {
			c.Failf("encode", "%s: Encode(%v) = %v %v", what, v, code, err)
			return
		}
		got, err := q.Decode(code)
		if err != nil || len(got) != d {
			c.Failf("decode", "%s: Decode(%v) = %v %v", what, code, got, err)
			return
		}
		for j := 0; j < m; j++ {
			s := v[j*sub : (j+1)*sub]
			if int(code[j]) >= k {
				c.Failf("encode", "%s: code %v", what, code)
				return
			}
			best := math.Inf(1)
			for _, cen := range q.Codebooks[j] {
				best = math.Min(best, refDist(s, cen))
			}
			if refDist(s, got[j*sub:(j+1)*sub]) > best+1e-5 {
				c.Failf("nearest", "%s: part %d of %v comes back as %v, not the nearest codeword", what, j, v, got)
				return
			}
		}
		again, _ := q.Encode(got)
		back, _ := q.Decode(again)
		if fmt.Sprint(back) != fmt.Sprint(got) {
			c.Failf("stable", "%s: %v comes back as %v, then as %v", what, v, got, back)
			return
		}
		codes = append(codes, code)
	}
	for _, v := range vs[:4] {
		var want []float64
		for _, code := range codes {
			dec, _ := q.Decode(code)
			ref := refDist(v, dec)
			got, err := q.ComputeDistance(code, v)
			if err != nil || math.Abs(float64(got)-ref) > 1e-4*(1+ref) {
				c.Failf("distance", "%s: ComputeDistance(%v, %v) = %v %v, the decoded vector is at %v", what, code, v, got, err, ref)
				return
			}
			want = append(want, ref)
		}
		sorted := append([]float64(nil), want...)
		sort.Float64s(sorted)
		for _, top := range []int{-1, 0, 1, 3, 50} {
			ids, ds := q.SearchPQ(v, codes, top)
			bad := len(ids) != len(ds) || len(ids) != min(max(top, 0), len(codes))
			seen := map[int]bool{}
			for i := 0; i < len(ids) && !bad; i++ {
				bad = seen[ids[i]] || math.Abs(float64(ds[i])-want[ids[i]]) > 1e-3 || math.Abs(float64(ds[i])-sorted[i]) > 1e-3
				seen[ids[i]] = true
			}
			if bad {
				c.Failf("search", "%s: SearchPQ(%v, %d) = %v %v, distances %v", what, v, top, ids, ds, want)
				return
			}
		}
	}
	if ids, _ := q.SearchPQ(vs[0], nil, 3); len(ids) != 0 {
		c.Failf("search", "%s: SearchPQ of nothing finds %v", what, ids)
	}
	if _, err := q.Encode(make([]float32, d+1)); err == nil {
		c.Failf("dim", "%s encodes a vector of another dimension", what)
	}
	if _, err := q.Decode(make([]byte, m+1)); err == nil {
		c.Failf("dim", "%s decodes a code of another length", what)
	}
	if _, err := q.ComputeDistance(make([]byte, m), make([]float32, d-1)); err == nil {
		c.Failf("dim", "%s measures a query of another dimension", what)
	}
	if _, err := q.ComputeDistance(make([]byte, m-1), make([]float32, d)); err == nil {
		c.Failf("dim", "%s measures a code of another length", what)
	}
	bad := make([]byte, m)
	bad[m-1] = byte(k)
	if _, err := q.Decode(bad); err == nil {
		c.Failf("code", "%s decodes the code %v", what, bad)
	}
	if _, err := q.ComputeDistance(bad, make([]float32, d)); err == nil {
		c.Failf("code", "%s measures the code %v", what, bad)
	}
}

// C18: encodings.

var bits18 = []uint32{0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x3f800000, 0xbf800001, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffffffff, 0x01020304}

func encodings(w *vk.W) {
	for d := 0; d <= w.Pick(3, 4); d++ {
		for first := 0; first < len(bits18); first++ {
			if w.Stop() {
				return
			}
			d, first := d, first
			w.Case(fmt.Sprintf("vec|%d|%d", d, first), func(c *vk.C) {
				idx := make([]int, d)
				if d > 0 {
					idx[0] = first
				}
				for {
					v := make([]float32, d)
					for i, k := range idx {
						v[i] = math.Float32frombits(bits18[k])
					}
					judgeVector(c, v)
					i := d - 1
					for ; i > 0; i-- {
						if idx[i]++; idx[i] < len(bits18) {
							break
						}
						idx[i] = 0
					}
					if i <= 0 {
						return
					}
				}
			})
		}
	}
	for _, n := range []int{5, 16, 100, 1536, 4097} {
		n := n
		w.Case(fmt.Sprintf("long|%d", n), func(c *vk.C) {
			v := make([]float32, n)
			for i := range v {
				v[i] = math.Float32frombits(bits18[(i*7+i/11)%len(bits18)])
			}
			judgeVector(c, v)
		})
	}
	w.Case("nil", func(c *vk.C) {
		if _, err := encoding.EncodeVector(nil); err == nil {
			c.Failf("nil", "a nil vector is encoded")
		}
	})
	// any short string of bytes is decoded or refused
	alpha := []byte{0, 1, 2, 0x7f, 0x80, 0xff}
	maxLen := w.Pick(6, 8)
	for n := 0; n <= maxLen; n++ {
		for first := range alpha {
			n, first := n, first
			w.Case(fmt.Sprintf("bytes|%d|%d", n, first), func(c *vk.C) {
				idx := make([]int, n)
				if n > 0 {
					idx[0] = first
				}
				b := make([]byte, n)
				for {
					for i, k := range idx {
						b[i] = alpha[k]
					}
					judgeBytes(c, b)
					i := n - 1
					for ; i > 0; i-- {
						if idx[i]++; idx[i] < len(alpha) {
							break
						}
						idx[i] = 0
					}
					if i <= 0 {
						return
					}
				}
			})
		}
	}
	strs := []string{"", "a", "null", "{}", `"`, `\`, "\x00", "\u2028", "<&>", "日本", "😀", "a b", "\n\t\r", "1", "true", `{"a":1}`, "\ufffd", "\x7f"}
	for i := range strs {
		i := i
		w.Case(fmt.Sprintf("meta|%d", i), func(c *vk.C) {
			for j := range strs {
				for k := range strs {
					for l := 0; l < len(strs); l++ {
						m := map[string]string{strs[i]: strs[j], strs[k]: strs[l]}
						judgeMeta(c, m)
						if k >= i && !w.Thorough() {
							break
						}
					}
				}
			}
		})
	}
	w.Case("meta|edge", func(c *vk.C) {
		judgeMeta(c, nil)
		judgeMeta(c, map[string]string{})
		for _, s := range []string{"{", "[]", `"x"`, "1", "{\"a\":}", "{\"a\":\"b\"", "nul", "{}x"} {
			if _, err := encoding.DecodeMetadata(s); err == nil {
				c.Failf("malformed", "DecodeMetadata(%q) is accepted", s)
			}
		}
	})
}

func judgeVector(c *vk.C, v []float32) {
	c.Trans(1)
	keep := append([]float32(nil), v...)
	c.State(fmt.Sprint(len(keep), keep))
	b, err := encoding.EncodeVector(v)
	if err != nil {
		c.Failf("encode", "EncodeVector(%v): %v", v, err)
		return
	}
	got, err := encoding.DecodeVector(b)
	ok := err == nil && len(got) == len(keep) && len(v) == len(keep)
	for i := 0; ok && i < len(keep); i++ {
		ok = math.Float32bits(got[i]) == math.Float32bits(keep[i]) && math.Float32bits(v[i]) == math.Float32bits(keep[i])
	}
	if !ok {
		c.Failf("roundtrip", "vector %v comes back as %v (%v)", keep, got, err)
		return
	}
	step := 1
	if len(b) > 64 {
		step = len(b) / 61
	}
	for n := 0; n < len(b); n += step {
		if _, err := encoding.DecodeVector(b[:n]); err == nil {
			c.Failf("torn", "%d of %d bytes of %v are accepted", n, len(b), keep)
			return
		}
	}
	// the stored form is the documented one: a little-endian count, then the values
	want := binary.LittleEndian.AppendUint32(nil, uint32(len(keep)))
	for _, x := range keep {
		want = binary.LittleEndian.AppendUint32(want, math.Float32bits(x))
	}
	if !bytes.Equal(want, b) {
		c.Failf("format", "vector %v is stored as %x, files written before hold %x", keep, b, want)
	}
	valid := len(keep) > 0
	for _, x := range keep {
		valid = valid && !math.IsNaN(float64(x)) && !math.IsInf(float64(x), 0)
	}
	if (encoding.ValidateVector(v) == nil) != valid {
		c.Failf("valid", "ValidateVector(%v) = %v", keep, encoding.ValidateVector(v))
	}
}

func judgeBytes(c *vk.C, b []byte) {
	c.Trans(1)
	keep := cpb(b)
	v, err := encoding.DecodeVector(b)
	if err != nil {
		return
	}
	e, err := encoding.EncodeVector(v)
	if err != nil || !bytes.HasPrefix(keep, e) {
		c.Failf("bytes", "DecodeVector(%x) = %v, which is stored as %x", keep, v, e)
	}
}

func judgeMeta(c *vk.C, m map[string]string) {
	c.Trans(1)
	s, err := encoding.EncodeMetadata(m)
	if err != nil {
		c.Failf("meta", "EncodeMetadata(%q): %v", m, err)
		return
	}
	got, err := encoding.DecodeMetadata(s)
	if err != nil || len(got) != len(m) || (got == nil) != (m == nil) {
		c.Failf("meta", "metadata %q comes back as %q (%v)", m, got, err)
		return
	}
	for k, v := range m {
		if g, ok := got[k]; !ok || g != v {
			c.Failf("meta", "metadata %q comes back as %q", m, got)
			return
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C17",
		Rule: "every pair of training vectors and every vector over a grid of values for each bit width and dimension; every small database of codes; product quantizers of every small shape trained on many sets, with every truncation and header corruption of their stored form; code books of up to 256 entries, lists of up to 300 codes, ranges from 1e-8 to 1e6, values equal to the mean",
		Assumptions: []string{
			"values are finite",
			"k-means starts from the instrumented random source",
		},
		Run: func(w *vk.W) {
			productQuant(w)
			binaryQuant(w)
			largeQuant(w)
			scalarQuant(w)
		}})
	vk.Register(&vk.Check{ID: "C18",
		Rule: "every vector of up to 3/4 components over 16 float bit patterns, every truncation of its stored form; every byte string of up to 6/8 bytes over 6 values; every pair of metadata entries over 18 strings",
		Assumptions: []string{
			"metadata strings are valid UTF-8 (JSON replaces other bytes)",
		},
		Run: encodings})
}
