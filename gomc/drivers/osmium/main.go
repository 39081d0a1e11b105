// osmium stands in for the program of that name: its tags-filter command on
// OSM XML, whatever the file is called.
package main

import (
	"encoding/xml"
	"os"
	"strings"

	osm "transform-osm/osm-utils"
)

type filter struct {
	kinds, key string
	values     []string
}

func parse(s string) filter {
	f := filter{kinds: "nwr"}
	if i := strings.Index(s, "/"); i >= 0 {
		f.kinds, s = s[:i], s[i+1:]
	}
	if i := strings.Index(s, "="); i >= 0 {
		f.values = strings.Split(s[i+1:], ",")
		s = s[:i]
	}
	f.key = s
	return f
}

func (f filter) matches(kind string, tags []*osm.Tag) bool {
	if !strings.Contains(f.kinds, kind) {
		return false
	}
	for _, t := range tags {
		if t.K != f.key {
			continue
		}
		if f.values == nil {
			return true
		}
		for _, v := range f.values {
			if v == t.V {
				return true
			}
		}
	}
	return false
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "tags-filter" {
		os.Exit(2)
	}
	refs, invert := true, false
	var in, out string
	var filters []filter
	for i := 2; i < len(os.Args); i++ {
		switch a := os.Args[i]; {
		case a == "-R":
			refs = false
		case a == "-i":
			invert = true
		case a == "--overwrite":
		case a == "-o":
			i++
			out = os.Args[i]
		case in == "":
			in = a
		default:
			filters = append(filters, parse(a))
		}
	}
	data, err := os.ReadFile(in)
	if err != nil {
		os.Exit(1)
	}
	var d osm.Osm
	if xml.Unmarshal(data, &d) != nil {
		os.Exit(1)
	}
	wanted := func(kind string, tags []*osm.Tag) bool {
		for _, f := range filters {
			if f.matches(kind, tags) {
				return !invert
			}
		}
		return invert
	}
	n, w, r := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, x := range d.Node {
		n[x.Id] = wanted("n", x.Tag)
	}
	for _, x := range d.Relation {
		r[x.Id] = wanted("r", x.Tag)
		if r[x.Id] && refs {
			for _, m := range x.Member {
				switch m.Type {
				case "node":
					n[m.Ref] = true
				case "way":
					w[m.Ref] = true
				}
			}
		}
	}
	for _, x := range d.Way {
		w[x.Id] = w[x.Id] || wanted("w", x.Tag)
		if w[x.Id] && refs {
			for _, y := range x.Nd {
				n[y.Ref] = true
			}
		}
	}
	o := osm.Osm{Version: "0.6", Generator: "osmium/1.14.0"}
	for _, x := range d.Node {
		if n[x.Id] {
			o.Node = append(o.Node, x)
		}
	}
	for _, x := range d.Way {
		if w[x.Id] {
			o.Way = append(o.Way, x)
		}
	}
	for _, x := range d.Relation {
		if r[x.Id] {
			o.Relation = append(o.Relation, x)
		}
	}
	b, err := xml.MarshalIndent(o, "", " ")
	if err != nil || os.WriteFile(out, append([]byte(xml.Header), b...), 0644) != nil {
		os.Exit(1)
	}
}
