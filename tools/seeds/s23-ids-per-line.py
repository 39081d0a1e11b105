PROPERTY = "G03"
GO = True
NEEDS = "two lines with anchors"
BREAKS = "the ids of new nodes start anew on every line, so that elements of different lines share ids and all but one are lost in the output"
EDITS = {"tools/generate-osm/db-utils/db-mapper.go": [("""	newNodeIdCounter := 100000000000
""", """	const firstNodeId = 100000000000
	newNodeIdCounter := firstNodeId
"""), ("""		var dbIss mapper.XmlIssDaten

""", """		var dbIss mapper.XmlIssDaten
		newNodeIdCounter = firstNodeId

""")]}
DEMO = r'''package main

import (
	"encoding/xml"
	"fmt"
	"os"
	"strings"

	db "transform-osm/db-utils"
	osm "transform-osm/osm-utils"
)

func main() {
	os.Mkdir("osm", 0755)
	os.Mkdir("db", 0755)
	for i, l := range []string{"1100", "1200"} {
		s := "<osm>"
		for n := 1; n <= 3; n++ {
			tag := ""
			if n != 2 {
				tag = fmt.Sprintf("<tag k=\"railway\" v=\"signal\"/><tag k=\"ref\" v=\"S%d\"/>", n)
			}
			s += fmt.Sprintf("<node id=\"%d\" lat=\"5%d.0%d\" lon=\"8\">%s</node>", 10*i+n, i, n, tag)
		}
		s += fmt.Sprintf("<way id=\"%d\"><nd ref=\"%d\"/><nd ref=\"%d\"/><nd ref=\"%d\"/></way></osm>", 10*i+5, 10*i+1, 10*i+2, 10*i+3)
		os.WriteFile("osm/"+l+".xml", []byte(s), 0644)
		k := "<Spurplanknoten>"
		for n := 1; n <= 3; n++ {
			k += fmt.Sprintf("<HauptsignalF><Kilometrierung>%s</Kilometrierung><Name>S%d</Name></HauptsignalF>", strings.ReplaceAll(fmt.Sprintf("%.3f", 1.1*float64(n)), ".", ","), n)
		}
		os.WriteFile("db/"+l+"_DB.xml", []byte("<XmlIssDaten><Spurplanbetriebsstellen><Spurplanbetriebsstelle><Spurplanabschnitte><Spurplanabschnitt><Strecke>"+l+"</Strecke>"+k+"</Spurplanknoten></Spurplanabschnitt></Spurplanabschnitte></Spurplanbetriebsstelle></Spurplanbetriebsstellen></XmlIssDaten>"), 0644)
	}
	_, signals, _, _, err := db.MapDB([]string{"1100", "1200"}, "osm", "db")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	seen := map[string]bool{}
	for _, l := range []string{"1100", "1200"} {
		var o osm.Osm
		b, _ := os.ReadFile("osm/" + l + ".xml")
		xml.Unmarshal(b, &o)
		n := 0
		for _, x := range o.Node {
			if seen[x.Id] {
				fmt.Println("node", x.Id, "is there twice")
				os.Exit(1)
			}
			seen[x.Id] = true
			n++
		}
		if n != 6 {
			fmt.Println(n, "nodes on line", l)
			os.Exit(1)
		}
	}
	if len(signals) != 6 {
		fmt.Println(len(signals), "signals can be searched for")
		os.Exit(1)
	}
}
'''
