// G03: the elements of the DB data are drawn on their lines.
package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	db "transform-osm/db-utils"
	"transform-osm/db-utils/mapper"
	osm "transform-osm/osm-utils"
	"verif/lines"
	"verif/mc"
)

func write(path, s string) {
	if err := os.WriteFile(path, []byte(s), 0644); err != nil {
		panic(err)
	}
}

type entry struct{ id, name, lat, lon string }

// the list has exactly the expected entries; new ones by the id of a node
// with this name
func judgeList(what string, ls []*line, which string, got []entry, ids map[string]string) {
	var g, w []string
	for _, e := range got {
		id := e.id
		if isNew(id) {
			mc.Require(ids[id] == e.name, what+": entry of a node of another name", id, e.name)
			id = "new"
		}
		g = append(g, id+" "+e.name+" "+e.lat+"/"+e.lon)
	}
	for _, l := range ls {
		w = append(w, l.listed(which)...)
	}
	sort.Strings(g)
	sort.Strings(w)
	mc.Require(strings.Join(g, "\n") == strings.Join(w, "\n"), what, g, "expected", w)
}

// mapLines writes the files of the lines and has the DB data drawn
func mapLines(ls []*line) {
	dir := lines.Scratch("map")
	od, dd := filepath.Join(dir, "lines"), filepath.Join(dir, "db")
	os.Mkdir(od, 0755)
	os.Mkdir(dd, 0755)
	var refs []string
	for _, l := range ls {
		lines.Write(filepath.Join(od, l.no+".xml"), l.osm())
		write(filepath.Join(dd, l.no+"_DB.xml"), file(l.db()))
		refs = append(refs, l.no)
	}
	h, m, o, last, err := db.MapDB(refs, od, dd)
	mc.Require(err == nil, "drawing the elements", err)
	ids := map[string]string{}
	for _, l := range ls {
		got := lines.Read(filepath.Join(od, l.no+".xml"))
		l.judge(&got, ids)
		mc.Step(len(l.anchors) + len(l.elems))
	}
	for id := range ids {
		n, _ := strconv.Atoi(id)
		mc.Require(n <= last, "a new id is larger than the largest one", n, last)
	}
	var halts, mains, others []entry
	for id, x := range h {
		halts = append(halts, entry{id, x.Name, x.Lat, x.Lon})
	}
	for id, x := range m {
		mains = append(mains, entry{id, x.Name, x.Lat, x.Lon})
	}
	for id, x := range o {
		others = append(others, entry{id, x.Name, x.Lat, x.Lon})
	}
	judgeList("list of the halts", ls, "halt", halts, ids)
	judgeList("list of the main signals", ls, "main", mains, ids)
	judgeList("list of the other signals", ls, "other", others, ids)
	var s []string
	for _, l := range ls {
		s = append(s, l.drawn()...)
	}
	mc.State(s)
}

type shape struct {
	cuts []int
	flip []bool
	back bool
}

func shapes() []shape {
	var r []shape
	for _, c := range [][]int{nil, {3}, {2, 4}} {
		for f := 0; f < 1<<(len(c)+1); f++ {
			for b := 0; b < 2; b++ {
				if b == 1 && len(c) == 0 {
					continue
				}
				s := shape{cuts: c, back: b == 1}
				for i := 0; i <= len(c); i++ {
					s.flip = append(s.flip, f>>i&1 == 1)
				}
				r = append(r, s)
			}
		}
	}
	return r
}

func (s shape) line() *line {
	return &line{no: "1100", base: 1000, n: 6, cuts: s.cuts, flip: s.flip, back: s.back}
}

var anchorPairs = [][2]int{{sigF, sigS}, {sigS, switchRef}, {switchName, sigF}, {stem, left}, {right, sigF}, {switchRef, switchName}, {sigS, sigS}, {sigF, sigF}}

func oneKind() {
	mc.Group("elements of one kind")
	all := shapes()
	mc.Bound("elements of one kind", "lines of 6 nodes in ", len(all), " arrangements of 1 to 3 ways x every 2 nodes with anchors (not where ways meet) x ", len(anchorPairs), " pairs of anchors x ", len(kinds), " kinds and main signals named like two nodes, one at every node")
	for _, s := range all {
		for a := 0; a < 6; a++ {
			for b := 0; b < 6; b++ {
				for ai, ap := range anchorPairs {
					l0 := s.line()
					if a == b || l0.joint(a) || l0.joint(b) || (!mc.Thorough() && ai%2 == 1) != (a > b) && !mc.Thorough() {
						continue
					}
					for k := 0; k < len(kinds)+2; k++ {
						s, a, b, ap, k, ai := s, a, b, ap, k, ai
						make := func() *line {
							l := s.line()
							l.desc = ai%3 == 1
							l.anchors = []anchor{{ap[0], a}, {ap[1], b}}
							for p := 0; p < l.n; p++ {
								e := elem{kind: k, name: "E" + strconv.Itoa(p), pos: p}
								if k >= len(kinds) {
									e.kind, e.many = k-len(kinds), true
								}
								l.elems = append(l.elems, e)
							}
							return l
						}
						mc.Run(func() string { return make().String() }, func() { mapLines([]*line{make()}) })
					}
				}
			}
		}
	}
}

func twoKinds() {
	mc.Group("two elements")
	all := shapes()
	pick := []shape{all[0], all[2], all[5], all[17]}
	if mc.Thorough() {
		pick = all
	}
	mc.Bound("two elements", len(pick), " arrangements x every 2 kinds at every 2 nodes, three anchors")
	for _, s := range pick {
		for k1 := range kinds {
			for k2 := range kinds {
				if k2 > k1 && !mc.Thorough() {
					continue
				}
				for p := 0; p < 36; p++ {
					s, k1, k2, p := s, k1, k2, p
					make := func() *line {
						l := s.line()
						l.desc = p%2 == 1
						l.spread = [3]int{1 + p%2, 1, 1 + p/2%2}
						l.anchors = []anchor{{sigS, 5}, {switchRef, 1}, {sigF, 0}}
						l.elems = []elem{{kind: k1, name: "D", pos: p % 6}, {kind: k2, name: "E", pos: p / 6}}
						return l
					}
					mc.Run(func() string { return make().String() }, func() { mapLines([]*line{make()}) })
				}
			}
		}
	}
}

func spreads() {
	mc.Group("all kinds together")
	n := mc.Tier(3, 4)
	mc.Bound("all kinds together", "one or two elements of every kind, spread over 1 to ", n, " stations, sections and nodes, in every rotation over the nodes of the line and every arrangement of ways")
	for _, s := range shapes() {
		mc.Odometer([]int{n, n, n, 6, 2}, func(d []int) {
			s, d := s, append([]int{}, d...)
			make := func() *line {
				l := s.line()
				l.desc = d[3]%2 == 1
				l.spread = [3]int{d[0] + 1, d[1] + 1, d[2] + 1}
				l.anchors = []anchor{{sigF, 1}, {switchName, 5}, {sigS, 0}}
				for k := 0; k < len(kinds)*(d[4]+1); k++ {
					l.elems = append(l.elems, elem{kind: k % len(kinds), name: "E" + strconv.Itoa(k), pos: (k*5 + k/6 + d[3]) % 6})
				}
				return l
			}
			mc.Run(func() string { return make().String() }, func() { mapLines([]*line{make()}) })
		})
	}
}

// a line with so many anchors
func typed(no string, base, typ int) *line {
	l := &line{no: no, base: base, n: 6, cuts: []int{3}, flip: []bool{false, typ%2 == 1}, desc: typ == 2}
	switch typ {
	case 0:
	case 1:
		l.anchors = []anchor{{sigF, 2}}
	case 2:
		l.anchors = []anchor{{stem, 4}}
	case 3:
		l.anchors = []anchor{{sigS, 1}, {switchRef, 5}}
	case 4:
		l.anchors = []anchor{{sigF, 2}, {sigS, 0}, {right, 4}}
	}
	for i, k := range []int{0, 3, 6, 9, 16, 23, 24} {
		l.elems = append(l.elems, elem{kind: k, name: no + "E" + strconv.Itoa(k), pos: i % 6})
	}
	return l
}

const types = 5

func several() {
	mc.Group("several lines")
	mc.Bound("several lines", "all sequences of up to 3 lines with none, one or more anchors")
	mc.Sequences(types, 0, mc.Tier(3, 4), func(d []int) {
		d = append([]int{}, d...)
		make := func() []*line {
			var ls []*line
			for i, t := range d {
				ls = append(ls, typed([]string{"3600", "1100", "2650", "4000"}[i], 1000*(i+1), t))
			}
			return ls
		}
		mc.Run(func() string { return fmt.Sprint("lines ", d) }, func() { mapLines(make()) })
	})
}

// the DB data is sorted by lines
func parse() {
	mc.Group("DB data by lines")
	no := []string{"1100", "1200", "1300", "9999"}
	max := mc.Tier(4, 5)
	mc.Bound("DB data by lines", "all sequences of up to ", max, " sections of 4 lines, one of them unknown, cut into stations and files in every way")
	mc.Sequences(len(no), 0, max, func(d []int) {
		n := len(d)
		cuts := 1
		for i := 1; i < n; i++ {
			cuts *= 3
		}
		d = append([]int{}, d...)
		for c := 0; c < cuts; c++ {
			c := c
			mc.Run(func() string {
				return fmt.Sprint("sections of lines ", d, ", cuts ", c, " (base 3: same station, next station, next file)")
			}, func() {
				dir := lines.Scratch("parse")
				src, dst := filepath.Join(dir, "in"), filepath.Join(dir, "out")
				os.Mkdir(src, 0755)
				var files [][][]string
				want := map[string][]string{}
				st, last := 0, map[string]int{}
				names := 0
				for i, x := range d {
					cut := 2
					if i > 0 {
						cut = c
						for j := 1; j < i; j++ {
							cut /= 3
						}
						cut %= 3
					}
					if cut == 2 {
						files = append(files, nil)
						names = 0
					}
					f := &files[len(files)-1]
					if cut > 0 {
						*f = append(*f, nil)
						st++
						names++
					}
					k := kinds[i]
					e := elem{kind: i, name: "N" + strconv.Itoa(i)}
					sec := "<Spurplanabschnitt><Strecke>" + no[x] + "</Strecke><Spurplanknoten>" + e.xml("1,"+strconv.Itoa(i)) + "</Spurplanknoten></Spurplanabschnitt>"
					(*f)[len(*f)-1] = append((*f)[len(*f)-1], sec)
					if x < 3 {
						if last[no[x]] != st {
							want[no[x]] = append(want[no[x]], "S"+strconv.Itoa(names-1)+":")
							last[no[x]] = st
						}
						w := want[no[x]]
						w[len(w)-1] += fmt.Sprintf(" %s %s 1,%d", k.xml, e.name, i)
					}
				}
				for i, f := range files {
					write(filepath.Join(src, fmt.Sprintf("f%d.xml", i)), file(f))
				}
				got, err := db.Parse([]string{"1300", "1100", "1200", "1100", "1400"}, dst, src)
				mc.Require(err == nil, "reading the DB data", err)
				sort.Strings(got)
				var exp []string
				for l := range want {
					exp = append(exp, l)
				}
				sort.Strings(exp)
				mc.Require(strings.Join(got, " ") == strings.Join(exp, " "), "lines with DB data", got, "expected", exp)
				fs, _ := os.ReadDir(dst)
				mc.Require(len(fs) == len(exp), "files of the lines", len(fs))
				for _, l := range exp {
					b, err := os.ReadFile(filepath.Join(dst, l+"_DB.xml"))
					mc.Require(err == nil, "file of a line", err)
					var iss mapper.XmlIssDaten
					mc.Require(xml.Unmarshal(b, &iss) == nil, "file of a line")
					var sts []string
					for _, s := range iss.Betriebsstellen {
						t := ":"
						for _, n := range s.Name {
							t = n.Name + t
						}
						for _, a := range s.Abschnitte {
							mc.Require(a.StreckenNr.Nummer == l, "a section is in the file of another line", a.StreckenNr.Nummer, l)
							for _, k := range a.Knoten {
								for _, e := range []struct {
									n string
									l []*mapper.NamedSimpleElement
								}{{"HauptsignalF", k.HauptsigF}, {"HauptsignalS", k.HauptsigS}, {"VorsignalF", k.VorsigF}, {"VorsignalS", k.VorsigS}, {"SchutzsignalF", k.SchutzsigF}} {
									for _, x := range e.l {
										t += " " + e.n + " " + x.Name.Value + " " + x.Kilometrierung.Value
									}
								}
							}
						}
						sts = append(sts, t)
					}
					mc.Require(strings.Join(sts, "\n") == strings.Join(want[l], "\n"), "sections of a line", sts, "expected", want[l])
				}
				mc.Step(n)
				mc.State(d, c)
			})
		}
	})
	mc.Run(func() string { return "no directory, and a file that is no DB data" }, func() {
		dir := lines.Scratch("parse")
		_, err := db.Parse([]string{"1100"}, filepath.Join(dir, "out"), filepath.Join(dir, "none"))
		mc.Require(err != nil, "a missing directory")
		os.Mkdir(filepath.Join(dir, "in"), 0755)
		write(filepath.Join(dir, "in", "x.xml"), "nothing")
		_, err = db.Parse([]string{"1100"}, filepath.Join(dir, "out"), filepath.Join(dir, "in"))
		mc.Require(err != nil, "a file that is no DB data")
	})
}

// the whole program
type program struct {
	types   []int // of the lines; types = without DB data
	place   int   // which nodes are halts
	add     int   // 0: none, 1: the same data and more, 2: without the first line
	outFile string
}

func (p program) String() string { return fmt.Sprintf("%+v", struct{ program }{p}.program.types) + fmt.Sprintf(" halts %d additional data %d", p.place, p.add) }

var haltSets = [][]int{nil, {0}, {5}, {0, 1}, {4, 5}, {2, 3, 4}, {0, 1, 2, 3, 4, 5}}

func (p program) run() {
	dir := lines.Scratch("program")
	temp := filepath.Join(dir, "temp")
	os.MkdirAll(filepath.Join(temp, "DBResources"), 0755)
	var ls []*line
	var all [][]string
	base := osm.Osm{Version: "0.6"}
	for i, t := range p.types {
		l := typed([]string{"3600", "1100", "2650"}[i], 1000*(i+1), t%types)
		if i == len(p.types)-1 {
			used := map[int]bool{}
			for _, a := range l.anchors {
				used[a.pos] = true
			}
			for _, h := range haltSets[p.place] {
				if !used[h] {
					l.halts = append(l.halts, h)
				}
			}
		}
		if t < types {
			all = append(all, l.db()...)
		} else {
			l.anchors, l.elems = nil, nil
		}
		ls = append(ls, l)
		o := l.osm()
		base.Node = append(base.Node, o.Node...)
		base.Way = append(base.Way, o.Way...)
		base.Relation = append(base.Relation, o.Relation...)
	}
	// beside the tracks
	base.Node = append(base.Node,
		lines.Node("9001", 52, 9, "railway", "station", "name", "Großstadt"),
		lines.Node("9002", 52.5, 9, "railway", "station", "name", "U", "subway", "yes"),
		lines.Node("9003", 53, 9, "railway", "facility", "name", "Abzw"),
		lines.Node("9004", 53.5, 9, "amenity", "bench"))
	base.Way = append(base.Way, lines.Way("9005", []string{"9001", "9004"}, "highway", "path"))
	base.Relation = append(base.Relation, lines.Relation("9006", "ref", "7700", "route", "bus"))
	lines.Write(filepath.Join(dir, "in.osm.pbf"), &base)
	write(filepath.Join(temp, "DBResources", "all.xml"), file(all))
	args := []string{"--mdb", "-i", "in.osm.pbf", "-o", "out.xml"}
	if p.add > 0 {
		add := base
		if p.add == 2 {
			add.Way = nil
			for _, w := range base.Way {
				if n, _ := strconv.Atoi(w.Id); n >= 2000 {
					add.Way = append(add.Way, w)
				}
			}
		}
		lines.Write(filepath.Join(dir, "more.xml"), &add)
		args = append(args, "--addOsm", "more.xml")
	}
	exe, _ := os.Executable()
	cmd := exec.Command(filepath.Join(filepath.Dir(exe), "transform-osm.exe"), args...)
	cmd.Dir = dir
	msg, err := cmd.CombinedOutput()
	mc.Require(err == nil, "the program fails", err, string(msg))

	got := lines.Read(filepath.Join(dir, "out.xml"))
	// in order, nothing twice
	prev := -1
	up := func(what, id string) {
		n, e := strconv.Atoi(id)
		mc.Require(e == nil && n > prev, what+" are in order, each once", id)
		prev = n
	}
	nodes := map[string]*osm.Node{}
	for _, n := range got.Node {
		up("nodes", n.Id)
		nodes[n.Id] = n
	}
	prev = -1
	ways := map[string]*osm.Way{}
	for _, w := range got.Way {
		up("ways", w.Id)
		ways[w.Id] = w
		for _, r := range w.Nd {
			mc.Require(nodes[r.Ref] != nil, "a way leads over a node that is not there", w.Id, r.Ref)
		}
	}
	prev = -1
	rels := map[string]*osm.Relation{}
	for _, r := range got.Relation {
		up("relations", r.Id)
		rels[r.Id] = r
	}
	// the lines, with what the program adds taken off again
	ids := map[string]string{}
	total := 0
	for i, l := range ls {
		var o osm.Osm
		want := l.osm()
		colour := ""
		missing := p.add == 2 && i == 0
		for _, w := range want.Way {
			x := ways[w.Id]
			if missing {
				mc.Require(x == nil, "a way that is not in the additional data", w.Id)
				continue
			}
			mc.Require(x != nil, "a way of a line is missing", w.Id)
			y := *x
			c := ""
			y.Tag = nil
			for _, t := range x.Tag {
				if t.K == "color" {
					c += t.V
				} else {
					y.Tag = append(y.Tag, t)
				}
			}
			mc.Require(len(c) == 7 && (colour == "" || c == colour), "colour of a way", lines.ShowTags(x.Tag))
			colour = c
			o.Way = append(o.Way, &y)
		}
		if missing {
			continue
		}
		halt := map[string]bool{}
		for _, h := range l.halts {
			halt[l.id(h)] = true
		}
		for _, n := range want.Node {
			x := nodes[n.Id]
			mc.Require(x != nil, "a node of a line is missing", n.Id)
			y := *x
			if halt[n.Id] {
				mc.Require(lines.ShowTags(x.Tag) == lines.ShowTags(n.Tag)+" type=station", "tags of a halt", n.Id, lines.ShowTags(x.Tag))
				y.Tag = n.Tag
			}
			o.Node = append(o.Node, &y)
		}
		here := map[string]bool{}
		for _, w := range o.Way {
			for _, r := range w.Nd {
				if isNew(r.Ref) && !here[r.Ref] {
					here[r.Ref] = true
					o.Node = append(o.Node, nodes[r.Ref])
				}
			}
		}
		total += len(o.Node) + len(o.Way)
		for _, r := range want.Relation {
			mc.Require(rels[r.Id] != nil, "a relation is missing", r.Id)
			o.Relation = append(o.Relation, rels[r.Id])
		}
		l.judge(&o, ids)
	}
	// and the rest
	mc.Require(nodes["9001"] != nil && lines.ShowTags(nodes["9001"].Tag) == "railway=station name=Großstadt type=station", "a station")
	mc.Require(nodes["9003"] != nil && lines.ShowTags(nodes["9003"].Tag) == "railway=facility name=Abzw", "a facility")
	if p.add == 0 {
		mc.Require(len(got.Node)+len(got.Way) == total+2, "there is more than the lines and the stations", len(got.Node)+len(got.Way), total+2)
		mc.Require(len(rels) == len(ls), "relations of the lines")
	} else {
		mc.Require(nodes["9004"] != nil && ways["9005"] != nil && lines.ShowTags(ways["9005"].Tag) == "highway=path" && rels["9006"] != nil, "the additional data is complete")
	}
	// what can be searched for
	type item struct{ Name, Lat, Lon string }
	var search struct {
		Stations, Halts map[string]item
		Main            map[string]item `json:"main_signals"`
		Other           map[string]item `json:"other_signals"`
	}
	b, err := os.ReadFile(filepath.Join(dir, "out.json"))
	mc.Require(err == nil && json.Unmarshal(b, &search) == nil, "the search file", err)
	list := func(m map[string]item) (r []entry) {
		for id, x := range m {
			r = append(r, entry{id, x.Name, x.Lat, x.Lon})
		}
		return r
	}
	if p.add < 2 {
		judgeList("list of the halts", ls, "halt", list(search.Halts), ids)
		judgeList("list of the main signals", ls, "main", list(search.Main), ids)
		judgeList("list of the other signals", ls, "other", list(search.Other), ids)
	}
	want := map[string]item{"9001": {"Großstadt", "52", "9"}}
	for _, l := range ls {
		for _, h := range l.halts {
			a, b := l.at(h)
			n := lines.Node("", a, b)
			want[l.id(h)] = item{"Halt " + l.id(h), n.Lat, n.Lon}
		}
	}
	mc.Require(fmt.Sprint(search.Stations) == fmt.Sprint(want), "list of the stations", search.Stations, "expected", want)
	var s []string
	for _, l := range ls {
		s = append(s, l.drawn()...)
	}
	mc.State(s, p.place, p.add)
	mc.Step(total)
}

func whole() {
	mc.Group("whole program")
	max := mc.Tier(2, 3)
	mc.Bound("whole program", "1 to ", max, " lines without DB data or with none, one or more anchors x ", len(haltSets), " sets of nodes that are halts x no, more or less additional data")
	mc.Sequences(types+1, 1, max, func(d []int) {
		for h := range haltSets {
			for a := 0; a < 3; a++ {
				p := program{types: append([]int{}, d...), place: h, add: a}
				mc.Run(p.String, p.run)
			}
		}
	})
}

func main() {
	mc.Init()
	exe, _ := os.Executable()
	os.Setenv("PATH", filepath.Dir(exe)+":"+os.Getenv("PATH"))
	parse()
	oneKind()
	twoKinds()
	spreads()
	several()
	whole()
	mc.Finish()
}
