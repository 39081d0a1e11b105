PROPERTY = "G02"
GO = True
NEEDS = "an element whose second nearest anchor leads nowhere (it lies where two ways of opposite direction meet) and a third anchor"
BREAKS = "the replacing anchor is asked for the distance of the one it replaces; the element is drawn at another node"
EDITS = {"tools/generate-osm/db-utils/find-nodes/find-best-osm-node.go": [("""			secondNearest = sortedAnchors[newAnchorCounter]
			anchor2 = (anchors[secondNearest])[0]
			distance2 = math.Abs(secondNearest - kilometrage)
""", """			anchor2 = (anchors[sortedAnchors[newAnchorCounter]])[0]
			distance2 = math.Abs(secondNearest - kilometrage)
""")]}
DEMO = r'''package main

import (
	"fmt"
	"os"
	"strconv"

	find "transform-osm/db-utils/find-nodes"
	osm "transform-osm/osm-utils"
)

func main() {
	o := &osm.Osm{}
	lat := []float64{50, 50.010, 50.014, 50.025, 50.031, 50.048, 50.057, 50.068}
	for i, x := range lat {
		o.Node = append(o.Node, &osm.Node{Id: strconv.Itoa(i + 1), Lat: fmt.Sprint(x), Lon: "8"})
	}
	way := func(id string, refs ...string) {
		w := &osm.Way{Id: id}
		for _, r := range refs {
			w.Nd = append(w.Nd, &osm.Nd{Ref: r})
		}
		o.Way = append(o.Way, w)
	}
	// the ways meet at node 3, both ending there
	way("1", "1", "2", "3")
	way("2", "8", "7", "6", "5", "4", "3")
	km := func(i int) float64 {
		return 0.999 * find.ComputeHaversineDistance(lat[0], lat[i-1], 8, 8)
	}
	anchors := map[float64][]*osm.Node{km(2): {o.Node[1]}, km(3): {o.Node[2]}, km(8): {o.Node[7]}}
	bad := 0
	for _, i := range []int{1, 2, 4, 5, 6, 7} {
		n, err := find.FindBestOSMNode(o, anchors, km(i))
		if err != nil || n.Id != strconv.Itoa(i) {
			got := "none"
			if n != nil {
				got = n.Id
			}
			fmt.Println("element at node", i, "found at", got)
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
'''
