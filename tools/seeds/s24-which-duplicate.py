PROPERTY = "G01"
GO = True
NEEDS = "more than twelve nodes, some of them with the same id"
BREAKS = "sorting no longer keeps the order of nodes with the same id, so that a later one than the first can be kept"
EDITS = {"tools/generate-osm/osm-utils/sort-osm.go": [("""	sort.SliceStable(osmData.Node, func""", """	sort.Slice(osmData.Node, func""")]}
DEMO = r'''package main

import (
	"fmt"
	"os"
	"strconv"

	osm "transform-osm/osm-utils"
)

func main() {
	for n := 2; n < 60; n++ {
		for k := 1; k < 7; k++ {
			o := &osm.Osm{}
			for i := 0; i < n; i++ {
				o.Node = append(o.Node, &osm.Node{Id: strconv.Itoa(i * 5 % k), Lat: strconv.Itoa(i)})
			}
			first := map[string]string{}
			for _, x := range o.Node {
				if _, ok := first[x.Id]; !ok {
					first[x.Id] = x.Lat
				}
			}
			osm.SortAndRemoveDuplicatesOsm(o)
			for _, x := range o.Node {
				if first[x.Id] != x.Lat {
					fmt.Println("of", n, "nodes not the first with id", x.Id, "is kept")
					os.Exit(1)
				}
			}
		}
	}
}
'''
