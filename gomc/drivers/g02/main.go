// G02: the kilometrage of an element leads to its node on the line.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	find "transform-osm/db-utils/find-nodes"
	osm "transform-osm/osm-utils"
	"verif/lines"
	"verif/mc"
)

type point struct{ lat, lon float64 }

// a piece of track: its nodes in the order of their ways
type track struct {
	at   map[string]point
	ways [][]string
}

func (t *track) osm() *osm.Osm {
	o := &osm.Osm{}
	var ids []string
	for k := range t.at {
		ids = append(ids, k)
	}
	for i := 1; i <= len(ids); i++ {
		id := strconv.Itoa(i)
		o.Node = append(o.Node, lines.Node(id, t.at[id].lat, t.at[id].lon))
	}
	for i, w := range t.ways {
		o.Way = append(o.Way, lines.Way("w"+strconv.Itoa(i), w))
	}
	return o
}

func (t *track) waysOf(n string) []int {
	var r []int
	for i, w := range t.ways {
		for _, x := range w {
			if x == n {
				r = append(r, i)
				break
			}
		}
	}
	return r
}

func (t *track) dist(a, b string) float64 {
	p, q := t.at[a], t.at[b]
	return lines.Dist(p.lat, p.lon, q.lat, q.lon)
}

type stop struct {
	node string
	dist float64
}

// decisions closer than this are not judged
const margin = 1e-7

type undecided struct{}

func above(a, b float64) bool {
	if math.Abs(a-b) < margin {
		panic(undecided{})
	}
	return a > b
}

// walk goes along the way from its i-th node, one step being d, until it has
// gone the distance or comes to an end or a junction; false: where two ways
// meet they do not continue each other.
func (t *track) walk(way, i, d int, dist float64) (stop, bool) {
	w := t.ways[way]
	gone := 0.0
	for above(dist, gone) {
		if i+d < 0 || i+d == len(w) {
			of := t.waysOf(w[i])
			if len(of) != 2 {
				return stop{w[i], gone}, true
			}
			next := of[0] + of[1] - way
			n := t.ways[next]
			switch w[i] {
			case n[0]:
				way, w, i, d = next, n, 0, 1
			case n[len(n)-1]:
				way, w, i, d = next, n, len(n)-1, -1
			default:
				return stop{}, false
			}
		}
		gone += t.dist(w[i], w[i+d])
		i += d
	}
	return stop{w[i], gone}, true
}

// where the walks from an anchor to both sides end
func (t *track) both(anchor string, dist float64) ([2]stop, bool) {
	of := t.waysOf(anchor)
	var r [2]stop
	var ok, ok2 bool
	switch len(of) {
	case 1:
		w := t.ways[of[0]]
		i := 0
		for w[i] != anchor {
			i++
		}
		r[0], ok = t.walk(of[0], i, -1, dist)
		r[1], ok2 = t.walk(of[0], i, 1, dist)
	case 2:
		a, b := t.ways[of[0]], t.ways[of[1]]
		switch anchor {
		case a[0] + "":
			if b[len(b)-1] != anchor {
				return r, false
			}
			r[0], ok = t.walk(of[1], len(b)-1, -1, dist)
			r[1], ok2 = t.walk(of[0], 0, 1, dist)
		case b[0]:
			if a[len(a)-1] != anchor {
				return r, false
			}
			r[0], ok = t.walk(of[0], len(a)-1, -1, dist)
			r[1], ok2 = t.walk(of[1], 0, 1, dist)
		default:
			return r, false
		}
	default:
		return r, false
	}
	return r, ok && ok2
}

// the node both anchors lead to, with the distances that fit best
func (t *track) meet(a, b [2]stop, da, db float64) string {
	common, off := "", math.Inf(1)
	for _, x := range a {
		for _, y := range b {
			if x.node != y.node {
				continue
			}
			o := math.Abs(x.dist-da) + math.Abs(y.dist-db)
			if common == x.node {
				off = math.Min(off, o)
			} else if common == "" || above(off, o) {
				common, off = x.node, o
			}
		}
	}
	if common != "" {
		return common
	}
	// or else of the two nearest ones the one that fits its distance better
	best, r := math.Inf(1), ""
	for _, x := range a {
		for _, y := range b {
			d := t.dist(x.node, y.node)
			if best < math.Inf(1) && !above(best, d) {
				continue
			}
			best = d
			if above(math.Abs(x.dist-da), math.Abs(y.dist-db)) {
				r = y.node
			} else {
				r = x.node
			}
		}
	}
	return r
}

type anchor struct {
	km   float64
	node string
}

// the node for a kilometrage, "" if the anchors do not lead anywhere
func (t *track) place(anchors []anchor, km float64) string {
	l := append([]anchor{}, anchors...)
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if above(math.Abs(l[i].km-km), math.Abs(l[j].km-km)) {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	a, b := l[0], l[1]
	for next := 2; ; next++ {
		da, db := math.Abs(a.km-km), math.Abs(b.km-km)
		if da == 0 {
			return a.node
		}
		x, okx := t.both(a.node, da)
		y, oky := t.both(b.node, db)
		if okx && oky {
			return t.meet(x, y, da, db)
		}
		if next == len(l) {
			return ""
		}
		if !okx {
			a = l[next]
		} else {
			b = l[next]
		}
	}
}

func check(t *track, anchors []anchor, km float64) (want string, judged bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
			want, judged = "", false
			mc.Counter("undecided")
		}
	}()
	want = t.place(anchors, km)
	o := t.osm()
	m := map[float64][]*osm.Node{}
	for _, a := range anchors {
		n, _ := osm.GetNodeById(o, a.node)
		m[a.km] = append(m[a.km], n)
	}
	got, err := find.FindBestOSMNode(o, m, km)
	mc.Step(1)
	if want == "" {
		mc.Require(err != nil && strings.Contains(err.Error(), find.ErrNoSuitableAnchors.Error()), "a place without suitable anchors", err, anchors, km)
		mc.State("none")
		return want, true
	}
	mc.Require(err == nil, "no place found", err, "want", want, anchors, km)
	mc.Require(got.Id == want, "place of a kilometrage", "got", got.Id, "want", want, anchors, km)
	mc.State(t.ways, anchors, km, want)
	return want, true
}

// distances in km between the nodes, no two sums alike
var gaps = []float64{0.31, 0.52, 0.17, 0.83, 0.41, 0.29}

func chain(n int) (map[string]point, []float64) {
	at := map[string]point{}
	km := []float64{0}
	const perKm = 1 / 111.19492664455873
	for i := 0; i < n; i++ {
		// along a meridian, a few metres to the sides
		at[strconv.Itoa(i+1)] = point{49 + km[i]*perKm, 8 + float64(i%2)*1e-7}
		km = append(km, km[i]+gaps[i%len(gaps)])
	}
	return at, km[:n]
}

// all ways to cut 1..n into ways that share their ends, each in either
// direction and order
func cuts(n int, fn func([][]string)) {
	for mask := 0; mask < 1<<(n-2); mask++ {
		var w [][]string
		cur := []string{"1"}
		for i := 2; i <= n; i++ {
			cur = append(cur, strconv.Itoa(i))
			if i == n || mask>>(i-2)&1 == 1 {
				w = append(w, cur)
				cur = []string{strconv.Itoa(i)}
			}
		}
		for turn := 0; turn < 1<<len(w); turn++ {
			r := make([][]string, len(w))
			for i, x := range w {
				y := append([]string{}, x...)
				if turn>>i&1 == 1 {
					for a, b := 0, len(y)-1; a < b; a, b = a+1, b-1 {
						y[a], y[b] = y[b], y[a]
					}
				}
				r[i] = y
			}
			fn(r)
			if len(r) > 1 {
				for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
					r[a], r[b] = r[b], r[a]
				}
				fn(r)
			}
		}
	}
}

func subsets(n, lo, hi int, fn func([]int)) {
	for m := 0; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) >= lo && len(s) <= hi {
			fn(s)
		}
	}
}

// kilometrages to ask for: at every node, between and beyond them
func asked(km []float64) []float64 {
	r := []float64{km[0] - 0.4, km[len(km)-1] + 0.6}
	for i, k := range km {
		r = append(r, k)
		if i > 0 {
			r = append(r, km[i-1]+(k-km[i-1])*0.37)
		}
	}
	return r
}

func show(t *track, km []float64) func() string {
	return func() string { return fmt.Sprint("ways ", t.ways, " at ", km) }
}

func along() {
	mc.Group("one track")
	n := mc.Tier(5, 6)
	mc.Bound("one track", "all ways to cut a track of 3..", n, " nodes into ways, in both directions and orders; all sets of 2..", mc.Tier(3, 4), " anchors; kilometrage at, between and beyond the nodes, 0.1 % shorter or 2 % longer than the track, exact and offset")
	for l := 3; l <= n; l++ {
		at, km := chain(l)
		cuts(l, func(ways [][]string) {
			w := append([][]string{}, ways...)
			t := &track{at, w}
			mc.Run(show(t, km), func() {
				subsets(l, 2, mc.Tier(3, 4), func(s []int) {
					for _, scale := range []float64{0.999, 1.02} {
						var a []anchor
						used := map[int]bool{}
						for _, i := range s {
							a = append(a, anchor{10 + km[i]*scale, strconv.Itoa(i + 1)})
							used[i] = true
						}
						for _, k := range asked(km) {
							want, ok := check(t, a, 10+k*scale)
							// what it is all about: the node of that kilometrage
							if ok && scale < 1 && len(w) == 1 {
								for i, x := range km {
									if x == k {
										mc.Eq(want, strconv.Itoa(i+1), "node of the kilometrage", a, k)
									}
								}
							}
						}
					}
				})
			})
		})
	}
}

// a second track leaving at a node, or two ways joining in the middle of one
func branches() {
	mc.Group("branches")
	n := mc.Tier(5, 6)
	mc.Bound("branches", "tracks of ", n, " nodes in up to two ways with a branch of one or two nodes at every node, in both directions")
	for b := 0; b < n; b++ {
		for _, long := range []int{1, 2} {
			for _, cut := range []int{-1, 0, 1, 2, 3} {
				for turn := 0; turn < 8; turn++ {
					at, km := chain(n)
					var all []string
					for i := 1; i <= n; i++ {
						all = append(all, strconv.Itoa(i))
					}
					ways := [][]string{all}
					if cut >= 0 {
						if cut == 0 || cut >= n-1 {
							continue
						}
						ways = [][]string{all[:cut+1], all[cut:]}
					}
					br := []string{strconv.Itoa(b + 1)}
					for i := 0; i < long; i++ {
						id := strconv.Itoa(n + i + 1)
						p := at[strconv.Itoa(b+1)]
						at[id] = point{p.lat + 0.0023*float64(i+1), p.lon + 0.0061*float64(i+1)}
						br = append(br, id)
					}
					ways = append(ways, br)
					for i, w := range ways {
						y := append([]string{}, w...)
						if turn>>i&1 == 1 {
							for a, b := 0, len(y)-1; a < b; a, b = a+1, b-1 {
								y[a], y[b] = y[b], y[a]
							}
						}
						ways[i] = y
					}
					if len(ways) == 2 && turn > 3 {
						continue
					}
					t := &track{at, ways}
					mc.Run(show(t, km), func() {
						subsets(n+long, 2, 3, func(s []int) {
							var a []anchor
							for _, i := range s {
								if i < n {
									a = append(a, anchor{10 + km[i]*0.999, strconv.Itoa(i + 1)})
								} else {
									a = append(a, anchor{10 + km[b]*0.999 + 0.5037*float64(i-n+1), strconv.Itoa(i + 1)})
								}
							}
							for _, k := range asked(km) {
								check(t, a, 10+k*0.999)
							}
						})
					})
				}
			}
		}
	}
}

// two ways that join into a ring
func rings() {
	mc.Group("rings")
	n := 5
	for cut := 1; cut < n-1; cut++ {
		for turn := 0; turn < 4; turn++ {
			at, km := chain(n)
			for i := 0; i < n; i++ {
				at[strconv.Itoa(i+1)] = point{49 + 0.004*math.Cos(float64(i)*1.2+0.1*float64(i*i)), 8 + 0.006*math.Sin(float64(i)*1.2+0.1*float64(i*i))}
			}
			ring := []string{"1", "2", "3", "4", "5", "1"}
			ways := [][]string{append([]string{}, ring[:cut+1]...), append([]string{}, ring[cut:]...)}
			for i, w := range ways {
				if turn>>i&1 == 1 {
					for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
						w[a], w[b] = w[b], w[a]
					}
				}
			}
			t := &track{at, ways}
			mc.Run(show(t, km), func() {
				subsets(n, 2, 3, func(s []int) {
					var a []anchor
					for _, i := range s {
						a = append(a, anchor{10 + km[i], strconv.Itoa(i + 1)})
					}
					for _, k := range asked(km) {
						check(t, a, 10+k)
					}
				})
			})
		}
	}
}

func kilometrage() {
	mc.Group("kilometrage")
	digits := "0123456789"
	parts := []string{"0,0", "1,5", "12,034", "104,999", "-0,25", "7", "3,"}
	mc.Bound("kilometrage", "all numbers d,ddd; sums of up to three parts out of ", parts)
	for _, a := range digits {
		for _, b := range digits {
			mc.Run(func() string { return string(a) + "," + string(b) }, func() {
				for c := 0; c < 100; c++ {
					s := fmt.Sprintf("%c,%c%02d", a, b, c)
					got, err := find.FormatKilometrageStringInFloat(s)
					want := float64(a-'0') + float64(int(b-'0')*100+c)/1000
					mc.Require(err == nil && math.Abs(got-want) < 1e-9, "kilometrage", s, got, err)
					mc.State(got)
					mc.Step(1)
				}
			})
		}
	}
	value := map[string]float64{"0,0": 0, "1,5": 1.5, "12,034": 12.034, "104,999": 104.999, "-0,25": -0.25, "7": 7, "3,": 3}
	mc.Sequences(len(parts), 1, 3, func(d []int) {
		f := append([]int{}, d...)
		mc.Run(func() string { return fmt.Sprint("parts ", f) }, func() {
			var p []string
			sum := 0.0
			for _, i := range f {
				p = append(p, parts[i])
				sum += value[parts[i]]
			}
			got, err := find.FormatKilometrageStringInFloat(strings.Join(p, "+"))
			mc.Require(err == nil && math.Abs(got-sum) < 1e-9, "kilometrage", p, got, err)
			for i := range p {
				q := append([]string{}, p...)
				q[i] = "x"
				_, err := find.FormatKilometrageStringInFloat(strings.Join(q, "+"))
				mc.Require(err != nil, "no kilometrage", q)
			}
			mc.State(got)
			mc.Step(1)
		})
	})
}

func distances() {
	mc.Group("distances")
	at := []point{{0, 0}, {0, 90}, {90, 0}, {-90, 0}, {49.8, 8.6}, {50.1, 8.7}, {50.1, -8.7}, {-33.9, 151.2}, {49.8, 8.60001}, {0, 179.9}, {0, -179.9}}
	mc.Bound("distances", "all pairs of ", len(at), " places")
	for i, p := range at {
		for j, q := range at {
			mc.Run(func() string { return fmt.Sprint(p, q) }, func() {
				got := find.ComputeHaversineDistance(p.lat, q.lat, p.lon, q.lon)
				mc.Require(math.Abs(got-lines.Dist(p.lat, p.lon, q.lat, q.lon)) < 1e-6, "distance", got)
				mc.Require(i != j || got == 0, "distance to itself", got)
				mc.State(got)
				mc.Step(1)
			})
		}
	}
	mc.Group("order of anchors")
	km := []float64{1, 2.5, 2.7, 4, 9}
	subsets(len(km), 1, 5, func(s []int) {
		mc.Run(func() string { return fmt.Sprint(s) }, func() {
			m := map[float64][]*osm.Node{}
			for _, i := range s {
				m[km[i]] = []*osm.Node{{Id: strconv.Itoa(i)}}
			}
			for _, at := range []float64{0, 1, 2.1, 2.61, 3, 8, 100} {
				got := find.SortAnchors(m, at)
				mc.Eq(len(got), len(s), "number of anchors")
				seen := map[float64]bool{}
				for i, g := range got {
					mc.Require(m[g] != nil && !seen[g], "an anchor", g)
					seen[g] = true
					mc.Require(i == 0 || math.Abs(got[i-1]-at) <= math.Abs(g-at), "order of anchors", got, at)
				}
				mc.State(got)
				mc.Step(1)
			}
		})
	})
}

func main() {
	mc.Init()
	kilometrage()
	distances()
	along()
	branches()
	rings()
	mc.Finish()
}
