package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	osm "transform-osm/osm-utils"
	"verif/lines"
	"verif/mc"
)

// the elements of the DB data and what is drawn for them
type kind struct {
	xml, subtype, dir, list string
	named                   bool
	value                   string // further content of the XML element
	tags                    []string
}

var kinds = []kind{
	{xml: "HauptsignalF", subtype: "ms", dir: "falling", list: "main", named: true},
	{xml: "HauptsignalS", subtype: "ms", dir: "rising", list: "main", named: true},
	{xml: "VorsignalF", subtype: "as", dir: "falling", list: "other", named: true},
	{xml: "VorsignalS", subtype: "as", dir: "rising", list: "other", named: true},
	{xml: "SchutzsignalF", subtype: "ps", dir: "falling", list: "other", named: true},
	{xml: "SchutzsignalS", subtype: "ps", dir: "rising", list: "other", named: true},
	{xml: "HalteplatzGzF", subtype: "hlt", dir: "falling", list: "halt", named: true},
	{xml: "HalteplatzGzS", subtype: "hlt", dir: "rising", list: "halt", named: true},
	{xml: "HalteplatzRzF", subtype: "hlt", dir: "falling", list: "halt", named: true},
	{xml: "HalteplatzRzS", subtype: "hlt", dir: "rising", list: "halt", named: true},
	{xml: "GeschwZulaessigF", subtype: "spl", dir: "falling", value: "<Geschw>80</Geschw>", tags: []string{"speed=80"}},
	{xml: "GeschwZulaessigS", subtype: "spl", dir: "rising", value: "<Geschw>90</Geschw>", tags: []string{"speed=90"}},
	{xml: "SignalZugschlussstelleF", subtype: "eotd", dir: "falling"},
	{xml: "SignalZugschlussstelleS", subtype: "eotd", dir: "rising"},
	{xml: "FstrZugschlussstelleF", subtype: "eotd", dir: "falling"},
	{xml: "FstrZugschlussstelleS", subtype: "eotd", dir: "rising"},
	{xml: "Neigung", subtype: "slope", value: "<Steigend>1,5</Steigend><Fallend>-2,5</Fallend>", tags: []string{"rising=1,5", "falling=-2,5"}},
	{xml: "Streckenwechsel0", subtype: "line_switch"},
	{xml: "KmSprungAnfang", subtype: "km_jump"},
	{xml: "Betriebsstellengrenze", subtype: "border"},
	{xml: "Prellbock", subtype: "bumper"},
	{xml: "Tunnel", subtype: "tunnel", named: true},
	{xml: "Gleisende", subtype: "track_end", named: true},
	{xml: "Weichenanfang", subtype: "simple_switch", named: true},
	{xml: "KreuzungsweicheAnfangLinks", subtype: "cross", named: true},
}

const ambiguous = 1000 // a main signal that two nodes of the OSM data are named after

type elem struct {
	kind int
	name string
	pos  int
	many bool // two nodes have its name
}

// the ways to tie an element of the DB data to a node of the OSM data
const (
	sigF = iota
	sigS
	switchRef
	switchName
	stem
	left
	right
	anchorKinds
)

type anchor struct {
	kind, pos int
}

// a line: nodes 0..n-1 in a row, cut into ways
type line struct {
	no      string
	base    int // ids
	n       int
	cuts    []int
	flip    []bool
	back    bool // the order of the ways in the data
	desc    bool // the kilometrage falls along the nodes
	anchors []anchor
	elems   []elem
	// how the elements are spread over stations, sections and nodes
	spread [3]int
	halts  []int // nodes that are halts of the passengers
}

var gaps = []float64{0.0031, 0.0053, 0.0042, 0.0067, 0.0029, 0.0059, 0.0047}

func (l *line) at(i int) (float64, float64) {
	lat := 50.0 + float64(l.base)*1e-5
	for j := 0; j < i; j++ {
		lat += gaps[j%len(gaps)]
	}
	lat = math.Round(lat*1e7) / 1e7
	return lat, 8.5 + float64(i%2)*0.0001
}

func (l *line) id(i int) string { return strconv.Itoa(l.base + i) }

// what is printed in the DB data: a bit less than the track is long, so that
// a walk of this length stops at the node and not behind it
func (l *line) km(i int) string {
	d := 0.0
	for j := 1; j <= i; j++ {
		a, b := l.at(j - 1)
		c, e := l.at(j)
		d += lines.Dist(a, b, c, e)
	}
	if l.desc {
		return strings.ReplaceAll(fmt.Sprintf("%.3f", 57.5-0.99*d), ".", ",")
	}
	s := fmt.Sprintf("%.3f", 12.25+0.99*d)
	if i%3 == 1 {
		// the other notation: a point of the line and the rest
		s = fmt.Sprintf("%.3f+%.3f", 12.0, 0.25+0.99*d)
	}
	return strings.ReplaceAll(s, ".", ",")
}

func (l *line) joint(i int) bool {
	for _, c := range l.cuts {
		if c == i {
			return true
		}
	}
	return false
}

func (l *line) ways() [][]string {
	var r [][]string
	at := 0
	for i, c := range append(append([]int{}, l.cuts...), l.n-1) {
		var w []string
		for j := at; j <= c; j++ {
			w = append(w, l.id(j))
		}
		if i < len(l.flip) && l.flip[i] {
			for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
				w[a], w[b] = w[b], w[a]
			}
		}
		r = append(r, w)
		at = c
	}
	if l.back {
		for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
			r[a], r[b] = r[b], r[a]
		}
	}
	return r
}

func anchorName(i int) string { return []string{"A", "N1", "22", "P", "W7", "3", "X5"}[i] }

// the OSM data of the line
func (l *line) osm() *osm.Osm {
	o := &osm.Osm{Version: "0.6", Generator: "osmium/1.14.0"}
	tags := make([][]string, l.n)
	for i, a := range l.anchors {
		name := anchorName(i)
		switch a.kind {
		case sigF:
			tags[a.pos] = append(tags[a.pos], "railway", "signal", "ref", strings.Join(strings.Split(name, ""), " "))
		case sigS:
			tags[a.pos] = append(tags[a.pos], "ref", name, "railway", "signal")
		case switchName:
			tags[a.pos] = append(tags[a.pos], "railway", "switch", "name", name)
		default:
			tags[a.pos] = append(tags[a.pos], "railway", "switch", "ref", name, "name", "Weiche "+name)
		}
	}
	for _, h := range l.halts {
		tags[h] = append(tags[h], "railway", "halt", "name", "Halt "+l.id(h))
	}
	for i := 0; i < l.n; i++ {
		lat, lon := l.at(i)
		o.Node = append(o.Node, lines.Node(l.id(i), lat, lon, tags[i]...))
	}
	// nodes beside the line
	more := 0
	beside := func(kv ...string) {
		o.Node = append(o.Node, lines.Node(strconv.Itoa(l.base+50+more), 51, 9, kv...))
		more++
	}
	for _, e := range l.elems {
		if e.many {
			beside("railway", "signal", "ref", e.name)
			beside("railway", "signal", "ref", e.name)
		} else if e.named() {
			beside("railway", "milestone", "ref", e.name, "name", e.name)
		}
	}
	for i, w := range l.ways() {
		o.Way = append(o.Way, lines.Way(strconv.Itoa(l.base+i+1), w, "railway", "rail"))
	}
	r := lines.Relation(strconv.Itoa(l.base), "ref", l.no, "route", "tracks", "name", "line "+l.no)
	for _, w := range o.Way {
		r.Member = append(r.Member, &osm.Member{Type: "way", Ref: w.Id})
	}
	for _, x := range o.Node[l.n:] {
		r.Member = append(r.Member, &osm.Member{Type: "node", Ref: x.Id, Role: "beside"})
	}
	o.Relation = append(o.Relation, r)
	return o
}

func (e elem) named() bool { return kinds[e.kind].named }

func (e elem) xml(km string) string {
	k := kinds[e.kind]
	s := "<" + k.xml + "><ID>7</ID><Kilometrierung>" + km + "</Kilometrierung>"
	if k.named {
		n := "Name"
		if k.xml == "KreuzungsweicheAnfangLinks" {
			n = "NameAnfang"
		}
		s += "<" + n + ">" + e.name + "</" + n + ">"
	}
	return s + k.value + "</" + k.xml + ">"
}

func (a anchor) xml(name, km string) string {
	head := "<ID>8</ID><Kilometrierung>" + km + "</Kilometrierung>"
	switch a.kind {
	case sigF:
		return "<HauptsignalF>" + head + "<Name>" + name + "</Name></HauptsignalF>"
	case sigS:
		return "<HauptsignalS>" + head + "<Name>" + name + "</Name></HauptsignalS>"
	case switchRef, switchName:
		return "<Weichenanfang>" + head + "<Name>" + name + "</Name></Weichenanfang>"
	}
	k := []string{"Weichenstamm", "WeichenabzweigLinks", "WeichenabzweigRechts"}[a.kind-stem]
	return "<" + k + ">" + head + "<Partner ID=\"3\">" + name + "</Partner></" + k + ">"
}

// the DB data: for each station its sections
func (l *line) db() [][]string {
	sp := l.spread
	for i := range sp {
		if sp[i] == 0 {
			sp[i] = 1
		}
	}
	cell := make([][][]string, sp[0])
	for i := range cell {
		cell[i] = make([][]string, sp[1])
		for j := range cell[i] {
			cell[i][j] = make([]string, sp[2])
		}
	}
	at := 0
	put := func(s string) {
		i := at
		at++
		n := i % sp[2]
		i /= sp[2]
		a := i % sp[1]
		cell[i/sp[1]%sp[0]][a][n] += s
	}
	for i, a := range l.anchors {
		put(a.xml(anchorName(i), l.km(a.pos)))
	}
	for _, e := range l.elems {
		put(e.xml(l.km(e.pos)))
	}
	var r [][]string
	for _, st := range cell {
		var secs []string
		for _, sec := range st {
			s := "<Spurplanabschnitt><Strecke>" + l.no + "</Strecke>"
			for _, n := range sec {
				s += "<Spurplanknoten>" + n + "</Spurplanknoten>"
			}
			secs = append(secs, s+"</Spurplanabschnitt>")
		}
		r = append(r, secs)
	}
	return r
}

// a DB file with the given stations
func file(stations [][]string) string {
	s := "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<XmlIssDaten><Spurplanbetriebsstellen>"
	for i, st := range stations {
		s += "<Spurplanbetriebsstelle><Betriebsstelle>S" + strconv.Itoa(i) + "</Betriebsstelle><Spurplanabschnitte>" + strings.Join(st, "") + "</Spurplanabschnitte></Spurplanbetriebsstelle>"
	}
	return s + "</Spurplanbetriebsstellen></XmlIssDaten>"
}

// the number of different places (kilometrages) with an anchor
func (l *line) places() int {
	p := map[int]bool{}
	for _, a := range l.anchors {
		p[a.pos] = true
	}
	return len(p)
}

// what has to be drawn: "subtype tags @ node"
func (l *line) drawn() []string {
	var r []string
	for i, a := range l.anchors {
		switch a.kind {
		case sigF:
			r = append(r, show("ms", []string{"direction=falling", "id=" + anchorName(i)}, a.pos))
		case sigS:
			r = append(r, show("ms", []string{"direction=rising", "id=" + anchorName(i)}, a.pos))
		case switchRef, switchName:
			r = append(r, show("simple_switch", []string{"id=" + anchorName(i)}, a.pos))
		}
	}
	if l.places() < 2 {
		return r
	}
	for _, e := range l.elems {
		k := kinds[e.kind]
		t := append([]string{}, k.tags...)
		if k.dir != "" {
			t = append(t, "direction="+k.dir)
		}
		if k.named {
			t = append(t, "id="+e.name)
		}
		r = append(r, show(k.subtype, t, e.pos))
	}
	return r
}

func show(subtype string, tags []string, pos int) string {
	sort.Strings(tags)
	return subtype + " " + strings.Join(tags, " ") + " @" + strconv.Itoa(pos)
}

// the lists for the search: "name lat/lon", by the node with this id, or
// any of the new ones
func (l *line) listed(which string) []string {
	var r []string
	at := func(i int) string {
		a, b := l.at(i)
		n := lines.Node("", a, b)
		return n.Lat + "/" + n.Lon
	}
	if which == "main" && l.places() > 0 {
		for i, a := range l.anchors {
			if a.kind == sigF || a.kind == sigS {
				r = append(r, l.id(a.pos)+" "+anchorName(i)+" "+at(a.pos))
			}
		}
	}
	if l.places() < 2 {
		return r
	}
	for _, e := range l.elems {
		if kinds[e.kind].list == which {
			r = append(r, "new "+e.name+" "+at(e.pos))
		}
	}
	return r
}

const firstNew = 100000000001

func isNew(id string) bool { n, _ := strconv.Atoi(id); return n >= firstNew }

// judge compares the data of the line with what has to be drawn; ids gets the
// new ids, names the name of each.
func (l *line) judge(got *osm.Osm, ids map[string]string) {
	want := l.osm()
	if l.places() == 0 {
		mc.Require(len(got.Node) == len(want.Node), "a line without anchors is left alone")
	}
	place := map[string]int{}
	for i := 0; i < l.n; i++ {
		n := want.Node[i]
		place[n.Lat+"/"+n.Lon] = i
	}
	old := map[string]*osm.Node{}
	var drawn []string
	at := map[string]int{}
	for _, n := range got.Node {
		if !isNew(n.Id) {
			mc.Require(old[n.Id] == nil, "a node is there twice", n.Id)
			old[n.Id] = n
			continue
		}
		_, dup := ids[n.Id]
		mc.Require(!dup, "a new node has the id of another one", n.Id)
		pos, ok := place[n.Lat+"/"+n.Lon]
		mc.Require(ok, "a new node is not at a node of the track", lines.ShowTags(n.Tag), n.Lat, n.Lon)
		at[n.Id] = pos
		sub, typ := "", ""
		var t []string
		for _, x := range n.Tag {
			switch x.K {
			case "type":
				typ += x.V
			case "subtype":
				sub += x.V
			default:
				t = append(t, x.K+"="+x.V)
			}
			if x.K == "id" {
				ids[n.Id] = x.V
			}
		}
		if _, ok := ids[n.Id]; !ok {
			ids[n.Id] = ""
		}
		mc.Require(typ == "element", "type of a new node", lines.ShowTags(n.Tag))
		drawn = append(drawn, show(sub, t, pos))
	}
	exp := l.drawn()
	sort.Strings(drawn)
	sort.Strings(exp)
	mc.Require(strings.Join(drawn, "\n") == strings.Join(exp, "\n"), "elements drawn", "\n ", strings.Join(drawn, "\n  "), "\nexpected\n ", strings.Join(exp, "\n  "))
	for _, n := range want.Node {
		g := old[n.Id]
		mc.Require(g != nil && g.Lat == n.Lat && g.Lon == n.Lon && lines.ShowTags(g.Tag) == lines.ShowTags(n.Tag), "a node of the line", n.Id)
	}
	mc.Require(len(old) == len(want.Node), "number of nodes")
	mc.Require(len(got.Way) == len(want.Way), "number of ways")
	for i, w := range got.Way {
		l.judgeWay(w, want.Way[i], at)
	}
	mc.Require(len(got.Relation) == 1 && got.Relation[0].Id == want.Relation[0].Id && lines.ShowTags(got.Relation[0].Tag) == lines.ShowTags(want.Relation[0].Tag) && len(got.Relation[0].Member) == len(want.Relation[0].Member), "the relation of the line")
}

// the way leads over the same nodes as before, and over each new one of their
// places once, next to it
func (l *line) judgeWay(got, want *osm.Way, at map[string]int) {
	mc.Require(got.Id == want.Id, "order of the ways", got.Id, want.Id)
	refs := lines.Refs(want)
	has := map[int]int{}
	for _, r := range refs {
		n, _ := strconv.Atoi(r)
		has[n-l.base] = 0
	}
	total := 0
	for _, p := range at {
		if _, ok := has[p]; ok {
			total++
		}
	}
	i, cur := 0, -1
	seen := map[string]bool{}
	var order []int
	for _, r := range lines.Refs(got) {
		p, ok := at[r]
		if !ok {
			mc.Require(i < len(refs) && refs[i] == r, "nodes of a way", lines.Refs(got), "want", refs, "and the new ones")
			i++
			n, _ := strconv.Atoi(r)
			p = n - l.base
		} else {
			mc.Require(!seen[r], "a new node is in the way twice", r)
			seen[r] = true
		}
		if p != cur {
			order = append(order, p)
			cur = p
		}
	}
	mc.Require(i == len(refs), "nodes of a way", lines.Refs(got), "want", refs, "and the new ones")
	mc.Require(len(seen) == total, "new nodes of a way", len(seen), total)
	mc.Require(len(order) == len(refs), "a new node is not next to its place in the way", lines.Refs(got), "places", order)
	mc.Require(lines.ShowTags(got.Tag) == lines.ShowTags(want.Tag), "tags of a way", lines.ShowTags(got.Tag))
}

func (l *line) String() string {
	s := fmt.Sprintf("line %s of %d nodes, ways %v, kilometrage falls: %v, spread %v, halts %v; anchors", l.no, l.n, l.ways(), l.desc, l.spread, l.halts)
	for i, a := range l.anchors {
		s += fmt.Sprintf(" %s (%s) at node %d;", anchorName(i), []string{"falling signal", "rising signal", "switch", "switch by name", "stem", "left branch", "right branch"}[a.kind], a.pos)
	}
	s += " elements"
	for _, e := range l.elems {
		s += fmt.Sprintf(" %s %s at node %d;", kinds[e.kind].xml, e.name, e.pos)
	}
	return s
}
