// G01: OSM data that is put together stays complete, ordered and free of
// duplicates.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	combine "transform-osm/combine-lines"
	osm "transform-osm/osm-utils"
	"verif/lines"
	"verif/mc"
)

var ids = []string{"5", "10", "9", "100000000001", "11", "2147483650"}

func number(s string) int { n, _ := strconv.Atoi(s); return n }

// the first of each id, in ascending order
func merged(seq []int) []string {
	seen := map[int]bool{}
	type item struct{ id, at int }
	var r []item
	for at, i := range seq {
		if !seen[i] {
			seen[i] = true
			r = append(r, item{number(ids[i]), at})
		}
	}
	sort.Slice(r, func(a, b int) bool { return r[a].id < r[b].id })
	var s []string
	for _, x := range r {
		s = append(s, fmt.Sprintf("%d@%d", x.id, x.at))
	}
	return s
}

func build(n, w, r []int) *osm.Osm {
	o := &osm.Osm{}
	for at, i := range n {
		o.Node = append(o.Node, &osm.Node{Id: ids[i], Lat: strconv.Itoa(at)})
	}
	for at, i := range w {
		o.Way = append(o.Way, &osm.Way{Id: ids[i], Tag: lines.Tags("at", strconv.Itoa(at))})
	}
	for at, i := range r {
		o.Relation = append(o.Relation, &osm.Relation{Id: ids[i], Tag: lines.Tags("at", strconv.Itoa(at))})
	}
	return o
}

func checkMerged(o *osm.Osm, n, w, r []int) {
	var gn, gw, gr []string
	for _, x := range o.Node {
		gn = append(gn, x.Id+"@"+x.Lat)
	}
	for _, x := range o.Way {
		gw = append(gw, x.Id+"@"+x.Tag[0].V)
	}
	for _, x := range o.Relation {
		gr = append(gr, x.Id+"@"+x.Tag[0].V)
	}
	for _, c := range []struct {
		kind      string
		got, want []string
	}{{"nodes", gn, merged(n)}, {"ways", gw, merged(w)}, {"relations", gr, merged(r)}} {
		mc.Require(strings.Join(c.got, " ") == strings.Join(c.want, " "), c.kind+" after sorting", c.got, "want", c.want)
	}
	mc.State(gn, gw, gr)
	mc.Step(len(n) + len(w) + len(r))
}

func sorting() {
	mc.Group("sorting")
	k := mc.Tier(4, 6)
	mc.Bound("sorting", "all lists of up to ", mc.Tier(5, 6), " ids out of ", k, " for each of nodes, ways and relations, and all pairs of lists of up to 3 for two of them")
	mc.Sequences(k, 0, mc.Tier(5, 6), func(d []int) {
		seq := append([]int{}, d...)
		mc.Run(func() string { return fmt.Sprint("ids ", seq) }, func() {
			for kind := 0; kind < 3; kind++ {
				l := [3][]int{}
				l[kind] = seq
				o := build(l[0], l[1], l[2])
				osm.SortAndRemoveDuplicatesOsm(o)
				checkMerged(o, l[0], l[1], l[2])
				osm.SortAndRemoveDuplicatesOsm(o)
				var again []string
				for _, x := range o.Node {
					again = append(again, x.Id+"@"+x.Lat)
				}
				if kind == 0 {
					mc.Require(strings.Join(again, " ") == strings.Join(merged(seq), " "), "sorting twice", again)
				}
			}
		})
	})
	// longer lists are sorted in other ways
	long := mc.Tier(13, 16)
	mc.Bound("long lists", "all lists of 13..", long, " out of two ids; lists of 13..60 ids a, a+d, a+2d ... modulo 2..6 for all d")
	one := func(seq []int) {
		mc.Run(func() string { return fmt.Sprint("ids ", seq) }, func() {
			for kind := 0; kind < 3; kind++ {
				l := [3][]int{}
				l[kind] = seq
				o := build(l[0], l[1], l[2])
				osm.SortAndRemoveDuplicatesOsm(o)
				checkMerged(o, l[0], l[1], l[2])
			}
		})
	}
	mc.Sequences(2, 13, long, func(d []int) { one(append([]int{}, d...)) })
	for n := 13; n <= 60; n++ {
		for k := 2; k <= len(ids); k++ {
			for d := 0; d < k; d++ {
				for a := 0; a < k; a++ {
					seq := make([]int, n)
					for i := range seq {
						seq[i] = (a + i*d + i/k) % k
					}
					one(seq)
				}
			}
		}
	}
	mc.Sequences(3, 0, 3, func(d []int) {
		a := append([]int{}, d...)
		mc.Sequences(3, 0, 3, func(e []int) {
			b := append([]int{}, e...)
			mc.Run(func() string { return fmt.Sprint("ids ", a, " and ", b) }, func() {
				for kind := 0; kind < 3; kind++ {
					l := [3][]int{}
					l[kind], l[(kind+1)%3] = a, b
					o := build(l[0], l[1], l[2])
					osm.SortAndRemoveDuplicatesOsm(o)
					checkMerged(o, l[0], l[1], l[2])
				}
			})
		})
	})
}

func names(d []int) []string {
	var r []string
	for _, x := range d {
		r = append(r, strconv.Itoa(x+1))
	}
	return r
}

func index(l []string, x string) int {
	for i, y := range l {
		if y == x {
			return i
		}
	}
	return -1
}

func insertion() {
	mc.Group("insertion")
	mc.Bound("insertion", "all pairs of ways of up to ", mc.Tier(3, 4), " nodes out of four, every reference node, two insertions")
	var ways [][]string
	mc.Sequences(4, 1, mc.Tier(3, 4), func(d []int) { ways = append(ways, names(d)) })
	for _, a := range ways {
		for _, b := range ways {
			a, b := a, b
			if len(a)+len(b) > mc.Tier(6, 7) {
				continue
			}
			mc.Run(func() string { return fmt.Sprint("ways ", a, b) }, func() {
				for r := 1; r <= 4; r++ {
					for second := 0; second < 3; second++ {
						o := &osm.Osm{}
						for i := 1; i <= 4; i++ {
							o.Node = append(o.Node, lines.Node(strconv.Itoa(i), float64(i), float64(i)))
						}
						o.Way = []*osm.Way{lines.Way("1", a), lines.Way("2", b)}
						before := [][]string{a, b}
						insert := func(id string, ref *osm.Node) {
							osm.InsertNewNodeWithReferenceNode(o, &osm.Node{Id: id}, ref)
							mc.Step(1)
							for k := range before {
								got := lines.Refs(o.Way[k])
								at := index(got, id)
								if index(before[k], ref.Id) < 0 {
									mc.Require(at < 0 && reflect.DeepEqual(got, before[k]), "a way without the node", got, "before", before[k])
									continue
								}
								mc.Require(at >= 0, "a way with the node did not get the new one", got, "before", before[k], "at", ref.Id)
								rest := append(append([]string{}, got[:at]...), got[at+1:]...)
								mc.Require(reflect.DeepEqual(rest, before[k]), "nodes of a way", got, "before", before[k])
								behind := at > 0 && got[at-1] == ref.Id
								// in front only where the node is the last one of the way
								in_front := at+2 == len(got) && got[at+1] == ref.Id
								mc.Require(behind || in_front, "place of the new node", got, "at", ref.Id)
								if behind && at == len(got)-1 {
									mc.Fail("a way ends at the new node", got, "at", ref.Id)
								}
								before[k] = got
							}
							n, err := osm.GetNodeById(o, id)
							mc.Require(err == nil && n.Id == id, "the new node is missing", id)
							mc.State(before)
						}
						insert("10", o.Node[r-1])
						count := 5
						if second == 1 {
							insert("11", o.Node[r-1])
							count++
						} else if second == 2 {
							insert("11", o.Node[4])
							count++
						}
						mc.Eq(len(o.Node), count, "number of nodes")
					}
				}
			})
		}
	}
}

func lookup() {
	mc.Group("lookup")
	mc.Sequences(3, 0, 4, func(d []int) {
		l := names(d)
		mc.Run(func() string { return fmt.Sprint("ids, keys and refs ", l) }, func() {
			o := &osm.Osm{}
			var kv []string
			for i, x := range l {
				o.Node = append(o.Node, &osm.Node{Id: x, Lat: strconv.Itoa(i)})
				o.Way = append(o.Way, lines.Way("w"+strconv.Itoa(i), l[i:]))
				kv = append(kv, x, "v"+strconv.Itoa(i))
			}
			n := &osm.Node{Tag: lines.Tags(kv...)}
			w := lines.Way("1", l)
			for x := 1; x <= 4; x++ {
				id := strconv.Itoa(x)
				first := index(l, id)
				v, err := osm.FindTagOnNode(n, id)
				mc.Require((err == nil) == (first >= 0), "finding a tag", id)
				node, nerr := osm.GetNodeById(o, id)
				mc.Require((nerr == nil) == (first >= 0), "finding a node", id)
				at, aerr := osm.GetNodeIndexInWay(w, id)
				mc.Require((aerr == nil) == (first >= 0), "finding a node of a way", id)
				if first >= 0 {
					mc.Eq(v, "v"+strconv.Itoa(first), "value of a tag")
					mc.Require(node == o.Node[first], "node of an id", id)
					mc.Eq(at, first, "index in a way")
				}
				var want, got []string
				for i := range l {
					if index(l[i:], id) >= 0 {
						want = append(want, "w"+strconv.Itoa(i))
					}
				}
				ways, werr := osm.FindWaysByNodeId(o, id)
				for _, y := range ways {
					got = append(got, y.Id)
				}
				mc.Require((werr == nil) == (len(want) > 0) && reflect.DeepEqual(got, want), "ways of a node", got, "want", want)
				mc.Step(4)
			}
			mc.State(l)
		})
	})
}

var colour = regexp.MustCompile("^#[0-9a-f]{6}$")

// bright and saturated: one channel full, one channel empty
func bright(c string) bool {
	if !colour.MatchString(c) {
		return false
	}
	ch := []string{c[1:3], c[3:5], c[5:7]}
	return index(ch, "ff") >= 0 && index(ch, "00") >= 0
}

func combining() {
	mc.Group("combining lines")
	mc.Bound("combining", "up to three files, each with any of 0..2 nodes, ways and relations, shared ids included")
	mc.Sequences(mc.Tier(12, 27), 0, mc.Tier(2, 3), func(d []int) {
		f := append([]int{}, d...)
		mc.Run(func() string { return fmt.Sprint("files ", f) }, func() {
			dir := lines.Scratch("lines")
			var want []string
			var tags []string
			for i, x := range f {
				o := &osm.Osm{}
				for k := 0; k < x%3; k++ {
					o.Node = append(o.Node, lines.Node(strconv.Itoa(k+i), 49+float64(k)/7, 8+float64(i)/3, "name", "n"+strconv.Itoa(i)))
				}
				for k := 0; k < x/3%3; k++ {
					o.Way = append(o.Way, lines.Way(strconv.Itoa(k+i), []string{"1", "2"}, "ref", "110"+strconv.Itoa(i)))
				}
				for k := 0; k < x/9%3; k++ {
					o.Relation = append(o.Relation, lines.Relation(strconv.Itoa(k+i), "route", "tracks"))
				}
				lines.Write(filepath.Join(dir, "110"+strconv.Itoa(i)+".xml"), o)
				for _, n := range o.Node {
					want = append(want, "n"+n.Id+lines.ShowTags(n.Tag)+n.Lat+"/"+n.Lon)
				}
				for _, w := range o.Way {
					tags = append(tags, "w"+w.Id+lines.ShowTags(w.Tag)+strings.Join(lines.Refs(w), ","))
				}
				for _, r := range o.Relation {
					want = append(want, "r"+r.Id+lines.ShowTags(r.Tag))
				}
			}
			o, err := combine.CombineAllLines(dir)
			mc.Require(err == nil, "combining", err)
			mc.Step(len(f))
			var got, gway []string
			for _, n := range o.Node {
				got = append(got, "n"+n.Id+lines.ShowTags(n.Tag)+n.Lat+"/"+n.Lon)
			}
			for _, r := range o.Relation {
				got = append(got, "r"+r.Id+lines.ShowTags(r.Tag))
			}
			of := map[string]string{}
			for _, w := range o.Way {
				mc.Require(len(w.Tag) == 2 && w.Tag[1].K == "color", "tags of a way", lines.ShowTags(w.Tag))
				mc.Require(bright(w.Tag[1].V), "colour of a line", w.Tag[1].V)
				line := w.Tag[0].V
				mc.Require(of[line] == "" || of[line] == w.Tag[1].V, "a line has two colours", line)
				of[line] = w.Tag[1].V
				w.Tag = w.Tag[:1]
				gway = append(gway, "w"+w.Id+lines.ShowTags(w.Tag)+strings.Join(lines.Refs(w), ","))
			}
			sort.Strings(got)
			sort.Strings(want)
			sort.Strings(gway)
			sort.Strings(tags)
			mc.Require(reflect.DeepEqual(got, want), "nodes and relations of all lines", got, "want", want)
			mc.Require(reflect.DeepEqual(gway, tags), "ways of all lines", gway, "want", tags)
			mc.State(got, gway)
		})
	})
	// the colours are drawn by chance: all numbers the generator can start with
	// to give each of the 360 hues
	hues := map[int]int64{}
	for s := int64(0); len(hues) < 360; s++ {
		h := rand.New(rand.NewSource(s)).Intn(360)
		if _, ok := hues[h]; !ok {
			hues[h] = s
		}
	}
	for h := 0; h < 360; h++ {
		h := h
		mc.Run(func() string { return fmt.Sprint("hue ", h) }, func() {
			dir := lines.Scratch("lines")
			lines.Write(filepath.Join(dir, "1.xml"), &osm.Osm{Way: []*osm.Way{lines.Way("1", []string{"1", "2"})}})
			rand.Seed(hues[h])
			o, err := combine.CombineAllLines(dir)
			mc.Require(err == nil && len(o.Way) == 1 && len(o.Way[0].Tag) == 1, "a line of one way")
			mc.Require(o.Way[0].Tag[0].K == "color" && bright(o.Way[0].Tag[0].V), "colour of a line", o.Way[0].Tag[0].V)
			mc.State(o.Way[0].Tag[0].V)
		})
	}
	mc.Run(func() string { return "no directory, and a file that is no OSM data" }, func() {
		dir := lines.Scratch("lines")
		_, err := combine.CombineAllLines(filepath.Join(dir, "missing"))
		mc.Require(err != nil && strings.Contains(err.Error(), combine.ErrLinesDirNotFound.Error()), "a missing directory", err)
		os.WriteFile(filepath.Join(dir, "1.xml"), []byte("nothing"), 0644)
		_, err = combine.CombineAllLines(dir)
		mc.Require(err != nil, "a file that is no OSM data")
	})
}

func refs() {
	mc.Group("lines of the tracks")
	kinds := []string{"1100", "110", "11000", "1a00", "1200", "abcd", "", "0099"}
	mc.Bound("refs", "all sequences of up to 3 relations with refs out of ", kinds, ", tracks or not")
	mc.Sequences(len(kinds)*2, 0, mc.Tier(2, 3), func(d []int) {
		f := append([]int{}, d...)
		mc.Run(func() string { return fmt.Sprint("relations ", f) }, func() {
			dir := lines.Scratch("refs")
			o := &osm.Osm{}
			var want []string
			for i, x := range f {
				ref, route := kinds[x/2], []string{"tracks", "bus"}[x%2]
				if i%2 == 1 && x%2 == 0 {
					route = "railway"
				}
				r := lines.Relation(strconv.Itoa(i), "name", "x", "route", route, "ref", ref, "note", "1300")
				if ref == "" {
					r = lines.Relation(strconv.Itoa(i), "route", route)
				}
				o.Relation = append(o.Relation, r)
				if _, err := strconv.Atoi(ref); err == nil && len(ref) == 4 && x%2 == 0 {
					want = append(want, ref)
				}
			}
			in := filepath.Join(dir, "in.osm.pbf")
			lines.Write(in, o)
			got, err := osm.GenerateOsmTrackRefs(in, dir)
			mc.Require(err == nil, "reading the lines", err)
			mc.Require(strings.Join(got, " ") == strings.Join(want, " "), "lines", got, "want", want)
			mc.State(got)
			mc.Step(len(f))
		})
	})
}

func failing() {
	mc.Group("osmium fails")
	for k := 0; k < 2; k++ {
		k := k
		mc.Run(func() string { return fmt.Sprint("input is there: ", k == 1) }, func() {
			dir := lines.Scratch("failing")
			in, out := filepath.Join(dir, "in.osm.pbf"), filepath.Join(dir, "out.xml")
			if k == 1 {
				lines.Write(in, &osm.Osm{})
			}
			err := osm.ExecuteOsmFilterCommand([]string{in, "-o", out, "r/route=tracks", "--overwrite"})
			mc.Require((err == nil) == (k == 1), "failure of osmium is reported", err)
			lines.Write(filepath.Join(dir, "refs.xml"), &osm.Osm{Relation: []*osm.Relation{lines.Relation("1", "ref", "1100", "route", "tracks")}})
			refs, err := osm.GenerateOsmTrackRefs(in, dir)
			mc.Require((err == nil) == (k == 1) && len(refs) == 0, "old results are not used", err, refs)
		})
	}
}

func stations() {
	mc.Group("stations")
	type kind struct{ railway, name, more string }
	kinds := []kind{{"station", "A", ""}, {"halt", "B", ""}, {"facility", "C", ""}, {"station", "", ""}, {"station", "D", "subway"}, {"halt", "E", "monorail"}, {"signal", "F", ""}, {"", "G", ""}}
	mc.Bound("stations", "all sequences of up to 3 nodes out of ", len(kinds), " kinds")
	mc.Sequences(len(kinds), 0, mc.Tier(2, 3), func(d []int) {
		f := append([]int{}, d...)
		mc.Run(func() string { return fmt.Sprint("nodes ", f) }, func() {
			dir := lines.Scratch("stations")
			o := &osm.Osm{}
			var want, list []string
			for i, x := range f {
				k := kinds[x]
				kv := []string{"wheelchair", "yes"}
				if k.railway != "" {
					kv = append(kv, "railway", k.railway)
				}
				if k.name != "" {
					kv = append(kv, "name", k.name+strconv.Itoa(i))
				}
				if k.more != "" {
					kv = append(kv, k.more, "yes")
				}
				n := lines.Node(strconv.Itoa(i+7), 49+float64(i)/8, 8.5, kv...)
				o.Node = append(o.Node, n)
				if x >= 3 {
					continue
				}
				s := n.Id + " " + n.Lat + "/" + n.Lon + " " + lines.ShowTags(n.Tag)
				if x < 2 {
					s += " type=station"
					list = append(list, n.Id+" "+k.name+strconv.Itoa(i)+" "+n.Lat+"/"+n.Lon)
				}
				want = append(want, s)
			}
			in := filepath.Join(dir, "in.osm.pbf")
			lines.Write(in, o)
			st, so, err := osm.GenerateStations(in, dir)
			mc.Require(err == nil, "reading the stations", err)
			var got, glist []string
			for _, n := range so.Node {
				got = append(got, n.Id+" "+n.Lat+"/"+n.Lon+" "+lines.ShowTags(n.Tag))
			}
			for id, s := range st {
				glist = append(glist, id+" "+s.Name+" "+s.Lat+"/"+s.Lon)
			}
			sort.Strings(glist)
			sort.Strings(list)
			mc.Require(reflect.DeepEqual(got, want), "nodes of the stations", got, "want", want)
			mc.Require(reflect.DeepEqual(glist, list), "list of the stations", glist, "want", list)
			mc.State(got)
			mc.Step(len(f))
		})
	})
}

func main() {
	mc.Init()
	exe, _ := os.Executable()
	os.Setenv("PATH", filepath.Dir(exe)+":"+os.Getenv("PATH"))
	sorting()
	insertion()
	lookup()
	combining()
	refs()
	failing()
	stations()
	mc.Finish()
}
