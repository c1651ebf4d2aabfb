package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/geo"
)

// C28: the geo index.

// gcDist is the great-circle distance in km by the angle between the two unit
// vectors.
func gcDist(a, b geo.Coordinate) float64 {
	v := func(p geo.Coordinate) [3]float64 {
		la, ln := p.Lat*math.Pi/180, p.Lng*math.Pi/180
		return [3]float64{math.Cos(la) * math.Cos(ln), math.Cos(la) * math.Sin(ln), math.Sin(la)}
	}
	x, y := v(a), v(b)
	cr := [3]float64{x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]}
	dot := x[0]*y[0] + x[1]*y[1] + x[2]*y[2]
	return 6371 * math.Atan2(math.Sqrt(cr[0]*cr[0]+cr[1]*cr[1]+cr[2]*cr[2]), dot)
}

const geoTol = 1e-3 // km

type geoModel map[string]geo.GeoPoint

func geoPointStr(p geo.GeoPoint) string {
	return fmt.Sprintf("%s@%v,%v%v", p.ID, p.Coordinate.Lat, p.Coordinate.Lng, p.Metadata)
}

var geoUnits = []struct {
	u  geo.DistanceUnit
	km float64
}{{geo.Kilometers, 1}, {geo.Miles, 1.60934}, {geo.Meters, 0.001}}

// radius judges one radius search.
func (m geoModel) radius(c *vk.C, g *geo.GeoIndex, ctr geo.Coordinate, km float64, ui int) {
	u := geoUnits[ui]
	res, err := g.SearchRadius(ctr, km/u.km, u.u)
	c.Trans(1)
	what := func() string {
		return fmt.Sprintf("SearchRadius(%v, %v %s) of %s", ctr, km/u.km, u.u, m)
	}
	if err != nil {
		c.Failf("error", "%s: %v", what(), err)
		return
	}
	seen := map[string]bool{}
	prev := math.Inf(-1)
	for _, r := range res {
		p, ok := m[r.Point.ID]
		if !ok || geoPointStr(p) != geoPointStr(r.Point) {
			c.Failf("row", "%s returns %s", what(), geoPointStr(r.Point))
			return
		}
		if seen[p.ID] {
			c.Failf("dup", "%s returns %s twice", what(), p.ID)
			return
		}
		seen[p.ID] = true
		d := gcDist(ctr, p.Coordinate)
		if !(math.Abs(r.Distance*u.km-d) <= geoTol) {
			c.Failf("dist", "%s returns %s at %v km, want %v", what(), p.ID, r.Distance*u.km, d)
			return
		}
		if d > km+geoTol {
			c.Failf("far", "%s returns %s at distance %v km", what(), p.ID, d)
			return
		}
		if r.Distance < prev-1e-9 {
			c.Failf("order", "%s is not sorted by distance", what())
			return
		}
		prev = r.Distance
	}
	for id, p := range m {
		if d := gcDist(ctr, p.Coordinate); !seen[id] && d < km-geoTol {
			c.Failf("missed", "%s misses %s at distance %v km", what(), id, d)
			return
		}
	}
}

func (m geoModel) String() string {
	var l []string
	for _, p := range m {
		l = append(l, geoPointStr(p))
	}
	sort.Strings(l)
	if len(l) > 8 {
		return fmt.Sprintf("%d points", len(l))
	}
	return "{" + strings.Join(l, " ") + "}"
}

func (m geoModel) knn(c *vk.C, g *geo.GeoIndex, ctr geo.Coordinate, k int) {
	res, err := g.SearchKNN(ctr, k)
	c.Trans(1)
	var d []float64
	for _, p := range m {
		d = append(d, gcDist(ctr, p.Coordinate))
	}
	sort.Float64s(d)
	want := min(k, len(d))
	if err != nil || len(res) != want {
		c.Failf("knn", "SearchKNN(%v, %d) of %s returns %d results (%v), want %d", ctr, k, m, len(res), err, want)
		return
	}
	seen := map[string]bool{}
	for i, r := range res {
		p, ok := m[r.Point.ID]
		if !ok || seen[p.ID] || geoPointStr(p) != geoPointStr(r.Point) {
			c.Failf("knn", "SearchKNN(%v, %d) of %s returns %s (again: %v)", ctr, k, m, geoPointStr(r.Point), seen[p.ID])
			return
		}
		seen[p.ID] = true
		if !(math.Abs(r.Distance-gcDist(ctr, p.Coordinate)) <= geoTol) || math.Abs(r.Distance-d[i]) > geoTol {
			c.Failf("knn", "SearchKNN(%v, %d) of %s has %s at %v km at rank %d, whose distance is %v; rank %d has %v", ctr, k, m, p.ID, r.Distance, i, gcDist(ctr, p.Coordinate), i, d[i])
			return
		}
	}
}

func (m geoModel) same(c *vk.C, what string, res []geo.GeoPoint, err error, in func(p geo.Coordinate) (inside, sure bool)) {
	c.Trans(1)
	if err != nil {
		c.Failf("error", "%s of %s: %v", what, m, err)
		return
	}
	seen := map[string]bool{}
	for _, p := range res {
		q, ok := m[p.ID]
		if !ok || seen[p.ID] || geoPointStr(p) != geoPointStr(q) {
			c.Failf("row", "%s of %s returns %s (again: %v)", what, m, geoPointStr(p), seen[p.ID])
			return
		}
		seen[p.ID] = true
	}
	for id, p := range m {
		if w, sure := in(p.Coordinate); sure && w != seen[id] {
			c.Failf("area", "%s of %s: %s returned: %v, want %v", what, m, geoPointStr(p), seen[id], w)
			return
		}
	}
}

func (m geoModel) box(c *vk.C, g *geo.GeoIndex, b geo.BoundingBox) {
	res, err := g.SearchBoundingBox(b)
	m.same(c, fmt.Sprintf("SearchBoundingBox(%+v)", b), res, err, func(p geo.Coordinate) (bool, bool) {
		return p.Lat >= b.MinLat && p.Lat <= b.MaxLat && p.Lng >= b.MinLng && p.Lng <= b.MaxLng, true
	})
}

// winding is the winding number of the polygon around p; on reports a point on
// an edge.
func winding(p geo.Coordinate, poly []geo.Coordinate) (in, on bool) {
	w := 0
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		cr := (b.Lng-a.Lng)*(p.Lat-a.Lat) - (p.Lng-a.Lng)*(b.Lat-a.Lat)
		if math.Abs(cr) < 1e-9 && p.Lng >= math.Min(a.Lng, b.Lng)-1e-9 && p.Lng <= math.Max(a.Lng, b.Lng)+1e-9 &&
			p.Lat >= math.Min(a.Lat, b.Lat)-1e-9 && p.Lat <= math.Max(a.Lat, b.Lat)+1e-9 {
			return false, true
		}
		if a.Lat <= p.Lat && b.Lat > p.Lat && cr > 0 {
			w++
		}
		if a.Lat > p.Lat && b.Lat <= p.Lat && cr < 0 {
			w--
		}
	}
	return w != 0, false
}

func (m geoModel) polygon(c *vk.C, g *geo.GeoIndex, poly []geo.Coordinate) {
	res, err := g.SearchPolygon(poly)
	m.same(c, fmt.Sprintf("SearchPolygon(%v)", poly), res, err, func(p geo.Coordinate) (bool, bool) {
		in, on := winding(p, poly)
		return in, !on
	})
}

func (m geoModel) lookup(c *vk.C, g *geo.GeoIndex, ids []string) {
	if g.Size() != len(m) {
		c.Failf("size", "Size() is %d for %s", g.Size(), m)
	}
	for _, id := range ids {
		p, ok := g.GetPoint(id)
		q, want := m[id]
		if ok != want || ok && geoPointStr(*p) != geoPointStr(q) {
			c.Failf("get", "GetPoint(%s) = %v, %v for %s", id, p, ok, m)
		}
	}
}

var geoPlaces = []geo.Coordinate{
	{Lat: 0.04, Lng: -0.03}, {Lat: -0.05, Lng: 0.02}, {Lat: 0.11, Lng: 0.3},
	{Lat: 60, Lng: 179.95}, {Lat: 60.02, Lng: -179.98}, {Lat: 89.9, Lng: 10},
}

type geoOp struct {
	name string
	run  func(c *vk.C, g *geo.GeoIndex, m geoModel)
}

func geoOps() []geoOp {
	var ops []geoOp
	for _, x := range []struct {
		id string
		pl []int
	}{{"p", []int{0, 1, 2, 3}}, {"q", []int{0, 4, 5}}} {
		for _, k := range x.pl {
			id, k := x.id, k
			ops = append(ops, geoOp{fmt.Sprintf("+%s%d", id, k), func(c *vk.C, g *geo.GeoIndex, m geoModel) {
				p := geo.GeoPoint{ID: id, Coordinate: geoPlaces[k], Metadata: map[string]interface{}{"at": k}}
				if err := g.Insert(p); err != nil {
					c.Failf("error", "Insert(%s): %v", geoPointStr(p), err)
				}
				m[id] = p
			}})
		}
		id := x.id
		ops = append(ops, geoOp{"-" + id, func(c *vk.C, g *geo.GeoIndex, m geoModel) {
			_, want := m[id]
			if got := g.Delete(id); got != want {
				c.Failf("delete", "Delete(%s) of %s = %v", id, m, got)
			}
			delete(m, id)
		}})
	}
	ops = append(ops, geoOp{"clear", func(c *vk.C, g *geo.GeoIndex, m geoModel) {
		g.Clear()
		clear(m)
	}}, geoOp{"bad", func(c *vk.C, g *geo.GeoIndex, m geoModel) {
		nan, inf := math.NaN(), math.Inf(1)
		for _, x := range []geo.Coordinate{{Lat: 90.001}, {Lat: -90.001}, {Lng: 180.001}, {Lng: -180.001}, {Lat: nan}, {Lng: nan}, {Lat: inf}, {Lng: -inf}} {
			if g.Insert(geo.GeoPoint{ID: "p", Coordinate: x}) == nil {
				c.Failf("refuse", "Insert accepts the coordinate %v", x)
			}
			if _, err := g.SearchRadius(x, 5, geo.Kilometers); err == nil {
				c.Failf("refuse", "SearchRadius accepts the coordinate %v", x)
			}
			if _, err := g.SearchKNN(x, 5); err == nil {
				c.Failf("refuse", "SearchKNN accepts the coordinate %v", x)
			}
		}
		if g.Insert(geo.GeoPoint{Coordinate: geoPlaces[0]}) == nil {
			c.Failf("refuse", "Insert accepts an empty id")
		}
		for _, r := range []float64{0, -1} {
			if _, err := g.SearchRadius(geoPlaces[0], r, geo.Kilometers); err == nil {
				c.Failf("refuse", "SearchRadius accepts the radius %v", r)
			}
			if _, err := g.SearchKNN(geoPlaces[0], int(r)); err == nil {
				c.Failf("refuse", "SearchKNN accepts k=%v", r)
			}
		}
		for _, b := range []geo.BoundingBox{{MinLat: -91}, {MaxLat: 91}, {MinLng: -181}, {MaxLng: 181}, {MinLat: 1}, {MinLng: 1}, {MinLat: nan}, {MaxLng: nan}} {
			if _, err := g.SearchBoundingBox(b); err == nil {
				c.Failf("refuse", "SearchBoundingBox accepts %+v", b)
			}
		}
		for n := 0; n < 3; n++ {
			if _, err := g.SearchPolygon(geoPlaces[:n]); err == nil {
				c.Failf("refuse", "SearchPolygon accepts %d corners", n)
			}
		}
	}})
	return ops
}

func geoSeqs(w *vk.W) {
	ops := geoOps()
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	sq := func(la0, la1, ln0, ln1 float64) []geo.Coordinate {
		return []geo.Coordinate{{Lat: la0, Lng: ln0}, {Lat: la0, Lng: ln1}, {Lat: la1, Lng: ln1}, {Lat: la1, Lng: ln0}}
	}
	seqsOf(w, "seq", names, w.Pick(5, 6), func(c *vk.C, seq []int) {
		g, m := geo.NewGeoIndex(), geoModel{}
		for i, o := range seq {
			c.Logf("op %d: %s", i, names[o])
			ops[o].run(c, g, m)
		}
		c.State(m.String())
		m.lookup(c, g, []string{"p", "q", "r", ""})
		for i, ctr := range []geo.Coordinate{geoPlaces[0], geoPlaces[2], geoPlaces[3], {Lat: 89.9, Lng: -170}} {
			for j, km := range []float64{0.001, 12, 40, 20037, 1e6} {
				m.radius(c, g, ctr, km, (i+j)%3)
			}
			for k := 1; k <= 3; k++ {
				m.knn(c, g, ctr, k)
			}
		}
		for _, b := range []geo.BoundingBox{{-0.1, 0.1, -0.1, 0.1}, {0, 0.2, -0.05, 0.35}, {-0.06, -0.01, 0, 0.1}, {59.95, 60.05, 179.9, 180}, {59.95, 60.05, -180, -179.9}, {89.8, 90, 9, 11}} {
			m.box(c, g, b)
			m.polygon(c, g, sq(b.MinLat, b.MaxLat, b.MinLng, b.MaxLng))
		}
	})
}

// geoGrid: every centre and every point of a grid of critical coordinates.
func geoGrid(w *vk.W) {
	lats := []float64{-90, -89.97, -75.55, -60, -0.15, -0.1, -0.05, 0, 0.05, 0.1, 0.3, 29.999, 45, 60.05, 80, 88.95, 89.4, 90}
	lngs := []float64{-180, -179.96, -120.2, -90, -0.15, -0.1, -0.05, 0, 0.05, 0.1, 0.3, 12.34, 90, 120.3, 179.92, 180}
	var all []geo.Coordinate
	for _, la := range lats {
		for _, ln := range lngs {
			all = append(all, geo.Coordinate{Lat: la, Lng: ln})
		}
	}
	whole, mw := geo.NewGeoIndex(), geoModel{}
	for i, p := range all {
		q := geo.GeoPoint{ID: fmt.Sprintf("n%d", i), Coordinate: p}
		mw[q.ID] = q
		if err := whole.Insert(q); err != nil {
			panic(err)
		}
	}
	for _, ctr := range all {
		ctr := ctr
		w.Case(fmt.Sprintf("grid|%v,%v", ctr.Lat, ctr.Lng), func(c *vk.C) {
			for i, km := range []float64{0.5, 3, 11.05, 11.2, 25, 60, 112, 300, 1200, 3500, 9000, 20016} {
				mw.radius(c, whole, ctr, km, i%3)
			}
			for _, k := range []int{1, 2, 7, len(all), len(all) + 1} {
				mw.knn(c, whole, ctr, k)
			}
			// each point alone, with radii just below and above its distance
			for _, p := range all {
				q := geo.GeoPoint{ID: "x", Coordinate: p}
				m := geoModel{"x": q}
				g := geo.NewGeoIndex()
				if err := g.Insert(q); err != nil {
					c.Failf("error", "Insert(%v): %v", p, err)
					return
				}
				d := gcDist(ctr, p)
				if d > 4000 && !w.Thorough() {
					continue
				}
				m.radius(c, g, ctr, d*1.000001+2*geoTol, 0)
				if d > 0.1 {
					m.radius(c, g, ctr, d*0.999999-2*geoTol, 1)
				}
			}
		})
	}
	// a fine lattice around a centre, in every direction
	for _, ctr := range []geo.Coordinate{{0, 0}, {0.05, -0.05}, {45.03, 7.77}, {-70.01, -33.31}, {84.5, 20}, {-12.3, 179.99}, {52.52, 13.4}, {-89.5, 0}} {
		ctr := ctr
		for _, step := range []float64{0.013, 0.05, 0.1, 0.37} {
			step := step
			w.Case(fmt.Sprintf("lattice|%v,%v|%v", ctr.Lat, ctr.Lng, step), func(c *vk.C) {
				g, m := geo.NewGeoIndex(), geoModel{}
				for i := -9; i <= 9; i++ {
					for j := -9; j <= 9; j++ {
						x := geo.Coordinate{Lat: ctr.Lat + float64(i)*step, Lng: ctr.Lng + float64(j)*step/math.Max(0.05, math.Cos(ctr.Lat*math.Pi/180))}
						if x.Lng > 180 {
							x.Lng -= 360
						}
						if x.Lat < -90 || x.Lat > 90 || x.Lng < -180 {
							continue
						}
						q := geo.GeoPoint{ID: fmt.Sprintf("l%d,%d", i, j), Coordinate: x}
						m[q.ID] = q
						if err := g.Insert(q); err != nil {
							c.Failf("error", "%v", err)
							return
						}
					}
				}
				for k := 1; k <= 60; k++ {
					m.radius(c, g, ctr, float64(k)*step*111/4, k%3)
				}
				for k := 1; k < len(m); k += 7 {
					m.knn(c, g, ctr, k)
				}
				// remove every other point
				n := 0
				for i := -9; i <= 9; i++ {
					for j := -9; j <= 9; j++ {
						id := fmt.Sprintf("l%d,%d", i, j)
						if _, ok := m[id]; ok {
							if n++; n%2 == 0 {
								if !g.Delete(id) {
									c.Failf("delete", "Delete(%s) = false", id)
								}
								delete(m, id)
							}
						}
					}
				}
				for k := 1; k <= 60; k += 5 {
					m.radius(c, g, ctr, float64(k)*step*111/4, k%3)
				}
			})
		}
	}
	// boxes
	bl := []float64{-90, -60.01, -0.15, -0.1, -0.05, 0, 0.05, 0.1, 0.3, 29.999, 45, 90}
	bn := []float64{-180, -179.95, -0.15, -0.1, -0.05, 0, 0.05, 0.1, 0.3, 12.34, 179.9, 180}
	for i := range bl {
		for j := i; j < len(bl); j++ {
			i, j := i, j
			w.Case(fmt.Sprintf("box|%v|%v", bl[i], bl[j]), func(c *vk.C) {
				for x := range bn {
					for y := x; y < len(bn); y++ {
						if (bl[j]-bl[i])*(bn[y]-bn[x]) > 3000 && !w.Thorough() {
							continue
						}
						mw.box(c, whole, geo.BoundingBox{MinLat: bl[i], MaxLat: bl[j], MinLng: bn[x], MaxLng: bn[y]})
					}
				}
			})
		}
	}
}

// geoPolygons: every simple polygon with corners on a small grid.
func geoPolygons(w *vk.W) {
	for _, off := range []geo.Coordinate{{10, 20}, {-1.5, -1.5}} {
		off := off
		var corners []geo.Coordinate
		n := w.Pick(3, 4)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				corners = append(corners, geo.Coordinate{Lat: off.Lat + float64(i), Lng: off.Lng + float64(j)})
			}
		}
		g, m := geo.NewGeoIndex(), geoModel{}
		for i := -1; i <= 3*n; i++ {
			for j := -1; j <= 3*n; j++ {
				q := geo.GeoPoint{ID: fmt.Sprintf("t%d,%d", i, j), Coordinate: geo.Coordinate{Lat: off.Lat + float64(i)/3, Lng: off.Lng + float64(j)/3}}
				m[q.ID] = q
				g.Insert(q)
			}
		}
		cross := func(o, a, b geo.Coordinate) float64 {
			return (a.Lng-o.Lng)*(b.Lat-o.Lat) - (a.Lat-o.Lat)*(b.Lng-o.Lng)
		}
		onSeg := func(p, a, b geo.Coordinate) bool {
			return cross(a, b, p) == 0 && p.Lng >= math.Min(a.Lng, b.Lng) && p.Lng <= math.Max(a.Lng, b.Lng) && p.Lat >= math.Min(a.Lat, b.Lat) && p.Lat <= math.Max(a.Lat, b.Lat)
		}
		meet := func(a, b, x, y geo.Coordinate) bool {
			s := func(v float64) int {
				if v > 0 {
					return 1
				} else if v < 0 {
					return -1
				}
				return 0
			}
			return s(cross(a, b, x))*s(cross(a, b, y)) < 0 && s(cross(x, y, a))*s(cross(x, y, b)) < 0 ||
				onSeg(x, a, b) || onSeg(y, a, b) || onSeg(a, x, y) || onSeg(b, x, y)
		}
		simple := func(p []geo.Coordinate) bool {
			k := len(p)
			for i := 0; i < k; i++ {
				a, b := p[i], p[(i+1)%k]
				if onSeg(p[(i+2)%k], a, b) || onSeg(a, b, p[(i+2)%k]) {
					return false
				}
				for j := i + 2; j < k; j++ {
					if (j+1)%k == i {
						continue
					}
					if meet(a, b, p[j], p[(j+1)%k]) {
						return false
					}
				}
			}
			return true
		}
		for first := range corners {
			for second := range corners {
				if first == second {
					continue
				}
				first, second := first, second
				w.Case(fmt.Sprintf("polygon|%v|%d|%d", off.Lat, first, second), func(c *vk.C) {
					used := make([]bool, len(corners))
					used[first], used[second] = true, true
					var rec func(p []geo.Coordinate)
					rec = func(p []geo.Coordinate) {
						if len(p) >= 3 && simple(p) {
							c.Count("polygons", 1)
							m.polygon(c, g, p)
							if len(p) == 4 {
								// closed explicitly
								m.polygon(c, g, append(append([]geo.Coordinate(nil), p...), p[0]))
							}
						}
						if len(p) == 5 {
							return
						}
						for i, x := range corners {
							if !used[i] {
								used[i] = true
								rec(append(p, x))
								used[i] = false
							}
						}
					}
					rec([]geo.Coordinate{corners[first], corners[second]})
				})
			}
		}
	}
}

func geoConc(w *vk.W) {
	ops := geoOps()
	all := func(g *geo.GeoIndex) string {
		var l []string
		r, err := g.SearchRadius(geo.Coordinate{}, 1000, geo.Kilometers)
		for _, x := range r {
			l = append(l, fmt.Sprintf("%s %.3f", geoPointStr(x.Point), x.Distance))
		}
		b, err2 := g.SearchBoundingBox(geo.BoundingBox{-90, 90, -180, -179})
		for _, x := range b {
			l = append(l, "B"+geoPointStr(x))
		}
		k, _ := g.SearchKNN(geo.Coordinate{}, 5)
		for _, x := range k {
			l = append(l, "K"+x.Point.ID)
		}
		sort.Strings(l)
		return fmt.Sprint(l, err, err2, g.Size())
	}
	calls := map[string]func(g *geo.GeoIndex) string{
		"radius": func(g *geo.GeoIndex) string {
			r, err := g.SearchRadius(geo.Coordinate{}, 1000, geo.Kilometers)
			var l []string
			for _, x := range r {
				l = append(l, geoPointStr(x.Point))
			}
			sort.Strings(l)
			return fmt.Sprint(l, err)
		},
		"size+get": func(g *geo.GeoIndex) string {
			p, ok := g.GetPoint("p")
			if ok {
				return geoPointStr(*p)
			}
			return "none"
		},
	}
	var names []string
	for _, o := range ops {
		o := o
		if o.name == "bad" || o.name == "+p3" || o.name == "+q5" {
			continue
		}
		calls[o.name] = func(g *geo.GeoIndex) string {
			switch {
			case o.name == "clear":
				g.Clear()
				return ""
			case o.name[0] == '-':
				return fmt.Sprint(g.Delete(o.name[1:]))
			}
			k := int(o.name[2] - '0')
			return fmt.Sprint(g.Insert(geo.GeoPoint{ID: o.name[1:2], Coordinate: geoPlaces[k]}))
		}
	}
	for n := range calls {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := range names {
		for j := i; j < len(names); j++ {
			a, b := names[i], names[j]
			w.Case("conc|"+a+"||"+b, func(c *vk.C) {
				serializable(c, w.Pick(2, 3), []string{a, b}, func() instance {
					g := geo.NewGeoIndex()
					g.Insert(geo.GeoPoint{ID: "p", Coordinate: geoPlaces[1]})
					return instance{threads: [][]func() string{
						{func() string { return calls[a](g) }, func() string { return calls["radius"](g) }},
						{func() string { return calls[b](g) }},
					}, snap: func() string { return all(g) }, done: func() {}}
				})
			})
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C28",
		Rule: "every sequence of geo index operations, every centre/point/radius combination of a grid of critical coordinates (poles, antimeridian, cell borders), every bounding box of the grid, every simple polygon with up to 5 corners on a small lattice, and schedules of concurrent use are compared with brute force over the current points",
		Assumptions: []string{
			"points within 1 m of a radius or on the border of a polygon are not judged",
			"polygons are simple and do not cross the antimeridian",
		},
		Run: func(w *vk.W) {
			geoConc(w)
			geoPolygons(w)
			geoGrid(w)
			geoSeqs(w)
		}})
}
