// Package lines holds what the drivers share: OSM data in short.
package lines

import (
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	osm "transform-osm/osm-utils"
)

// Tags makes tags from key, value, key, value ...
func Tags(kv ...string) []*osm.Tag {
	var r []*osm.Tag
	for i := 0; i+1 < len(kv); i += 2 {
		r = append(r, &osm.Tag{K: kv[i], V: kv[i+1]})
	}
	return r
}

func Node(id string, lat, lon float64, kv ...string) *osm.Node {
	return &osm.Node{Id: id, Lat: strconv.FormatFloat(lat, 'f', -1, 64), Lon: strconv.FormatFloat(lon, 'f', -1, 64), Tag: Tags(kv...)}
}

func Way(id string, nodes []string, kv ...string) *osm.Way {
	w := &osm.Way{Id: id, Tag: Tags(kv...)}
	for _, n := range nodes {
		w.Nd = append(w.Nd, &osm.Nd{Ref: n})
	}
	return w
}

func Relation(id string, kv ...string) *osm.Relation { return &osm.Relation{Id: id, Tag: Tags(kv...)} }

func Refs(w *osm.Way) []string {
	var r []string
	for _, n := range w.Nd {
		r = append(r, n.Ref)
	}
	return r
}

func ShowTags(t []*osm.Tag) string {
	var s []string
	for _, x := range t {
		s = append(s, x.K+"="+x.V)
	}
	return strings.Join(s, " ")
}

func Show(o *osm.Osm) string {
	var s []string
	for _, n := range o.Node {
		s = append(s, fmt.Sprintf("node %s at %s/%s [%s]", n.Id, n.Lat, n.Lon, ShowTags(n.Tag)))
	}
	for _, w := range o.Way {
		s = append(s, fmt.Sprintf("way %s %v [%s]", w.Id, Refs(w), ShowTags(w.Tag)))
	}
	for _, r := range o.Relation {
		s = append(s, fmt.Sprintf("relation %s [%s]", r.Id, ShowTags(r.Tag)))
	}
	return strings.Join(s, "\n  ")
}

// Write puts the data into a file.
func Write(path string, o *osm.Osm) {
	b, err := xml.MarshalIndent(o, "", " ")
	if err == nil {
		err = os.WriteFile(path, append([]byte(xml.Header), b...), 0644)
	}
	if err != nil {
		panic(err)
	}
}

func Read(path string) osm.Osm {
	var o osm.Osm
	b, err := os.ReadFile(path)
	if err == nil {
		err = xml.Unmarshal(b, &o)
	}
	if err != nil {
		panic(err)
	}
	return o
}

// Scratch returns an empty directory of the given name.
func Scratch(name string) string {
	d := filepath.Join(os.Getenv("MC_SCRATCH"), name)
	if os.Getenv("MC_SCRATCH") == "" || os.RemoveAll(d) != nil || os.MkdirAll(d, 0755) != nil {
		panic("no scratch directory")
	}
	return d
}

// Dist is the distance in km on the sphere.
func Dist(lat1, lon1, lat2, lon2 float64) float64 {
	r := math.Pi / 180
	x := func(lat, lon float64) (float64, float64, float64) {
		return math.Cos(lat*r) * math.Cos(lon*r), math.Cos(lat*r) * math.Sin(lon*r), math.Sin(lat * r)
	}
	x1, y1, z1 := x(lat1, lon1)
	x2, y2, z2 := x(lat2, lon2)
	c := math.Sqrt((x1-x2)*(x1-x2) + (y1-y2)*(y1-y2) + (z1-z2)*(z1-z2))
	return 2 * 6371.0 * math.Asin(math.Min(1, c/2))
}
