H = "include/soro/utls/"

P("U01", "Lazy sequences deliver exactly what their producers yield",
  "A lazily produced sequence, however deeply producers are nested, hands its consumer every produced value once and in "
  "production order, ends after the last one, and can be abandoned at any point. An exception thrown by a producer reaches "
  "the enclosing producer or the consumer at the point where it was thrown, and a producer that catches it continues. "
  "Every producer's state is destroyed exactly once, whether the sequence is consumed completely, in part, or not at all.",
  ["programs", "histories"],
  "every producer program up to a size built from yields, nested producers, guarded nested producers and throws, and for each "
  "every point at which the consumer stops",
  "The tests run a handful of fixed generators to the end; abandonment points, exceptions and nesting shapes are not varied.",
  [H+"coroutine/generator.h", H+"coroutine/recursive_generator.h", H+"coroutine/iterator.h", H+"coroutine/collect.h", H+"coroutine/coro_map.h"],
  [("generator promise and frame ownership", H+"coroutine/generator.h"), ("stack of nested frames, exception relay", H+"coroutine/recursive_generator.h")],
  ["values seen by a consumer", "count of live producer frames"],
  "exhaustive enumeration of producer programs x consumer stop points on the real coroutines, with sanitizers",
  "All programs within the bounds are run on the real coroutine types under ASan/UBSan and compared with an interpreter.")

P("U02", "Range algorithms agree with their mathematical definition",
  "The range helpers (membership, counting, searching, position, sorting, reversing, accumulating, slicing, removing, "
  "intersecting, merging of sorted sets, interval overlap) return for every input what their definition says, also for empty, "
  "one-element and duplicate-laden ranges. They do not touch their input where they are not meant to.",
  ["inputs"], "every short range over several small alphabets, every pair of such ranges, every family of up to a few sets",
  "Tests use one or two hand-written ranges per helper.",
  [H+"algo/multi_set_merge.h", H+"algo/overlap.h", H+"algo/slice.h", H+"algo/sort_and_intersect.h", H+"algo/merge_unique.h", H+"std_wrapper/find_if_position.h"],
  [("k-way merge", H+"algo/multi_set_merge.h"), ("interval overlap", H+"algo/overlap.h"), ("slices", H+"algo/slice.h")],
  ["return values and resulting ranges"],
  "exhaustive enumeration of small input ranges on the real templates against naive references",
  "Complete up to the stated lengths and alphabets, under ASan/UBSan.")

P("U03", "Number and string parsing accepts exactly its grammar",
  "Parsing a number from text yields the value the text denotes when the text is a number that fits the requested type, and the "
  "documented failure otherwise; it reads nothing outside the given text. Splitting, joining and comparing text is exact for every string.",
  ["inputs"], "every string up to a length over the significant characters, passed without terminator, for every target type and error mode",
  "Tests parse a few well-formed numbers; malformed, overflowing and unterminated text is not explored.",
  [H+"parse_int.h", H+"parse_fp.h", H+"string.h"],
  [("integer parser", H+"parse_int.h"), ("floating point parser", H+"parse_fp.h"), ("split/join", H+"string.h")],
  ["parsed value, reported error, memory accessed"],
  "exhaustive enumeration of strings on the real parsers against a grammar reference, under ASan",
  "Complete up to the stated text length and alphabet.")

P("U04", "Containers behave as the data type they implement",
  "Optional values, sorted vectors, priority queues, offset containers, constant maps and id ranges behave, under every sequence of "
  "operations, like the abstract type they implement: they hold what was put in, in the promised order, and report size and "
  "membership correctly. No operation disturbs elements it does not name.",
  ["histories"], "every sequence of operations up to a depth",
  "Tests run short scripts on one or two instances.",
  [H+"container/optional.h", H+"container/priority_queue.h", H+"container/sorted_vector.h", H+"container/offset_container.h", H+"container/id_iterator.h", H+"container/constexpr_map.h", H+"container/it_range.h"],
  [("optional storage", H+"container/optional.h"), ("heap", H+"container/priority_queue.h"), ("id iteration", H+"container/id_iterator.h")],
  ["contents after each operation"],
  "exhaustive enumeration of operation sequences, implementation and abstract model in lockstep",
  "All operation sequences up to the depth, compared after every operation, under ASan/UBSan.")

P("U05", "Graph traversal visits what is reachable, once, and cycles are found",
  "Breadth-first and depth-first traversal visit exactly the nodes reachable from the start, each once, in their respective order, and "
  "stop when told to. Cycle detection says yes exactly for graphs that contain a directed cycle.",
  ["inputs"], "every directed graph up to a node count, with self loops and parallel edges, every start node and every early stop",
  "Tests use a few hand-drawn graphs.",
  [H+"graph/traversal.h", H+"graph/has_cycle.h"],
  [("work list traversal", H+"graph/traversal.h"), ("colouring", H+"graph/has_cycle.h")],
  ["visit sequence, verdict"],
  "exhaustive enumeration of all small directed graphs, reachability model against real traversal",
  "All graphs within the bound.")

P("U06", "Calendar and clock arithmetic is exact",
  "Conversions between instants, dates, midnights, clock times and their text form agree with the proleptic Gregorian calendar for "
  "every representable instant. Adding and subtracting durations, rounding to midnight and comparing instants are consistent with it.",
  ["inputs"], "every day of the representable range at sampled clock times, all pairs of boundary instants",
  "Tests convert a few dates.",
  [H+"unixtime.h", "src/utls/unixtime.cc", "include/soro/base/time.h"],
  [("instant type", H+"unixtime.h"), ("duration aliases", "include/soro/base/time.h")],
  ["converted values and strings"],
  "exhaustive enumeration of all representable days against an independent calendar model",
  "All days of the range, sampled seconds within the day.")

P("U07", "Type lists, tuples and strong types compute correctly",
  "Operations on compile-time type lists and tuples (size, position, membership, slices, iteration, search, application at an index) give the same "
  "result as on an ordinary sequence. Arithmetic and comparison of strongly typed values equals that of the underlying values and leaves "
  "the operands unchanged.",
  ["programs", "inputs"], "every type list up to a length over a few types, every tuple slice, every small value pair",
  "Tests instantiate a few lists.",
  [H+"strong_types/type_list.h", H+"strong_types/strong_type.h", H+"tuple/slice.h", H+"tuple/find_if.h", H+"tuple/for_each.h", H+"tuple/apply_at.h"],
  [("type list operations", H+"strong_types/type_list.h"), ("strong type operators", H+"strong_types/strong_type.h")],
  ["values read back from the computed types"],
  "exhaustive enumeration of type programs by template instantiation against vector operations",
  "All lists up to the length are instantiated from the real headers.")

P("U08", "Geographic positions, distances and moves are consistent",
  "Distance between two positions is zero exactly for equal positions, symmetric, and the great-circle distance; moving a position by a "
  "distance along a bearing ends at that distance and bearing. Conversions between spherical, cartesian and polar form are inverse, and a bounding "
  "box is the smallest one around its positions.",
  ["inputs"], "all ordered pairs over a grid of positions and all moves over a grid of bearings and distances",
  "Tests check a couple of city pairs.",
  [H+"coordinates/gps.h", "src/utls/coordinates/gps.cc", "src/utls/coordinates/cartesian.cc", H+"coordinates/polar.h", H+"coordinates/angle.h"],
  [("haversine, bearing, move", "src/utls/coordinates/gps.cc")],
  ["computed coordinates"],
  "exhaustive enumeration of a position/bearing/distance grid against vector geometry",
  "Complete over the grid; tolerances allow for the low-precision circle constant the code uses.")

P("U09", "Physical quantities compute with the right dimension and value",
  "Multiplying, dividing, raising and adding quantities yields the value of the plain numbers and the dimension physics "
  "prescribes; quantities of different dimension do not mix, and each is shown with its value and unit. Unit conversions, polynomials and piecewise functions evaluate to "
  "their mathematical value over their whole domain, including piece borders, and reject arguments past its end.",
  ["programs", "inputs"], "all pairs of dimensions up to an exponent, all coefficient and argument grids, all piece layouts",
  "Tests multiply a few fixed units.",
  [H+"strong_types/fraction.h", "include/soro/si/units.h", H+"math/polynomial.h", H+"math/piecewise_function.h", "include/soro/base/fp_precision.h"],
  [("unit fractions", H+"strong_types/fraction.h"), ("conversions", "include/soro/si/units.h"), ("piece lookup", H+"math/piecewise_function.h")],
  ["value and dimension"],
  "exhaustive enumeration of dimension pairs by instantiation and of value grids",
  "All dimension pairs within the exponent bound are instantiated from the real headers.")

P("U10", "Files are read back exactly as written",
  "Writing a buffer to a file and reading it by any of the readers gives back exactly the written bytes, whatever the file held before. "
  "Reading a file that does not exist yields nothing and creates nothing.",
  ["inputs", "histories"], "all contents up to a length, all histories of overwriting, sizes around buffer boundaries",
  "Tests do not exercise file helpers.",
  [H+"file/loaded_file.h", H+"file/binary_buffer_to_file.h", H+"file/file_to_binary_buffer.h"],
  [("buffer readers and writers", H+"file/loaded_file.h")],
  ["bytes read"],
  "exhaustive enumeration of contents and write histories in a scratch directory",
  "Complete within the bounds on a real file system.")

P("U11", "Checked integer conversion never changes a value silently",
  "A checked conversion between integer types returns the same mathematical value, and when the value does not fit the target it fails "
  "instead of returning another number.",
  ["inputs"], "all values of the 8 and 16 bit types and all values around powers of two of the wider ones, all type pairs",
  "Tests check a few literal conversions.",
  [H+"narrow.h"], [("range test", H+"narrow.h")], ["value or failure"],
  "exhaustive enumeration of values for all integer type pairs",
  "Complete for 8/16 bit types; boundary values for 32/64 bit.")

P("U12", "Errors stay distinguishable and are counted exactly",
  "Every error the system can report is a distinct code with a message of its own, is never mistaken for success, and survives being passed on. "
  "Error and event statistics count every occurrence exactly once and report every count.",
  ["inputs", "histories"], "every error of every category, all sequences of counted events up to a depth",
  "Tests look at single errors only.",
  [H+"result.h", H+"statistics.h", "include/soro/base/error.h", "src/timetable/parsers/kss/kss_error.cc", "src/rolling_stock/rolling_stock_error.cc", "src/timetable/timetable_error.cc", "src/timetable/parsers/route_transform_error.cc"],
  [("error categories", "include/soro/base/error.h"), ("counters", H+"statistics.h")],
  ["code identity, messages, counters"],
  "exhaustive enumeration of all error values and of counting histories",
  "Complete over the error enumerations.")

P("T01", "Service-day sets behave as sets of days",
  "A set of service days answers for every day whether it is in the set, and its size, emptiness, iteration, first day, union, "
  "intersection, difference and comparison are those of the mathematical set, whatever the anchor days of the operands. "
  "Updates change exactly the named day.",
  ["inputs", "histories"], "all day sets over a few days, all update histories, all pairs at all relative offsets, sets up to full width",
  "Tests use a handful of bit patterns with equal anchors.",
  ["include/soro/timetable/bitfield.h", "src/timetable/bitfield.cc"],
  [("anchored bit set operations", "src/timetable/bitfield.cc")],
  ["membership and iteration results"],
  "exhaustive enumeration of day sets, offsets and update sequences against std::set",
  "Complete within the width and depth bounds, under ASan/UBSan.")

P("T02", "Departures in an interval are exactly the trips that touch it",
  "For every train and time interval the enumerated trips are exactly those service days whose running time, from first departure to last "
  "arrival across midnights, overlaps the interval, each once and in order. Nothing is listed for days without service.",
  ["inputs"], "all service-day sets over a few days, departure and arrival offsets across midnights, all intervals over a grid of instants",
  "Tests take one train and whole-timetable intervals.",
  ["include/soro/timetable/train.h", "src/timetable/train.cc", "include/soro/timetable/interval.h", "include/soro/timetable/bitfield.h"],
  [("trip enumeration", "src/timetable/train.cc"), ("interval overlap", "include/soro/timetable/interval.h")],
  ["sequence of enumerated trips"],
  "exhaustive enumeration of service days, offsets and intervals against a naive filter",
  "Complete over the grid.")

I = "include/soro/infrastructure/"
SI = "src/infrastructure/"

P("I01", "Exclusion sets behave as sets of route ids",
  "A set of mutually exclusive routes answers for every id whether it is in the set, and setting, resetting, uniting, "
  "intersecting, subtracting, shifting, comparing, counting and enumerating are those of the mathematical set, whatever value ranges the "
  "operands were created with. An update changes exactly the named id and leaves the identity of the set alone.",
  ["inputs", "histories"], "all sets over a few block positions, all pairs at all relative ranges, all update histories up to a depth",
  "Tests use a few sets with equal ranges.",
  [I+"exclusion/exclusion_set.h", SI+"exclusion/exclusion_set.cc"],
  [("offset bit blocks", SI+"exclusion/exclusion_set.cc")],
  ["membership, counts, enumeration order"],
  "exhaustive enumeration of sets, pairs and update sequences against std::set",
  "Complete within the width and depth bounds, under ASan/UBSan.")

TOPO = "every topology of a bounded family: single sections with up to three elements of every type in every order, line switches and km jumps, switches and crossings in every orientation and line assignment, rows of two and three stations on one or two tracks, passing loops, crossovers, turning loops; each written as ISS data and read by the real parser"

P("I02", "The parsed track graph is the track",
  "Following successors in the graph read from infrastructure files, a train meets exactly the elements that lie on the described track in the "
  "direction of travel, in order of kilometrage, and leaves every switch, crossing, jump and border through the ports the track gives it: stem and branch, "
  "straight and diverging, into the neighbouring station. Reverse edges are exactly the inverse of the successor edges, every element has exactly the nodes for its directions, and "
  "running backwards retraces the straight track. Nothing is reachable that the track does not connect.",
  ["inputs"], TOPO,
  "Tests count elements of two fixed infrastructures.",
  [SI+"parsers/iss/parse_iss.cc", SI+"graph/element.cc", I+"graph/node.h"],
  [("element construction and neighbour wiring", SI+"parsers/iss/parse_iss.cc"), ("successor nodes", I+"graph/node.h")],
  ["node successors, branch successors, reverse edges"],
  "exhaustive enumeration of track topologies; each is parsed by the real code and walked in lockstep with a geometric model (conformance of every model transition)",
  "Complete over the topology family, under ASan/UBSan.")

P("I03", "Sections, stations and distances match the described layout",
  "Each section holds exactly its elements, rising and falling orders being each other's mirror up to coincident elements, with the right line, length and ends; iterating, slicing "
  "and measuring along it gives the elements and distances of the description. Each element belongs to exactly one station, stations list exactly their sections and elements, and joined borders "
  "name each other's station, element, line and track and are connected by one empty section. The result is the same whether the data comes in one file or in several.",
  ["inputs"], TOPO + "; in one file and spread over two",
  "Tests look up single kilometrages of fixed data.",
  [SI+"parsers/iss/parse_iss.cc", SI+"parsers/iss/parse_station_route.cc", I+"graph/section.h", I+"station/station.h", I+"path/is_path.h", I+"path/length.h"],
  [("section order", I+"graph/section.h"), ("border completion", SI+"parsers/iss/parse_iss.cc"), ("path length", I+"path/length.h")],
  ["section element lists, station membership, borders, kilometrages, lengths"],
  "exhaustive enumeration of track topologies; section and station views of the parsed result compared with the description",
  "Complete over the topology family, under ASan/UBSan.")

P("I04", "Station routes follow the described course and carry their described data",
  "A station route runs from its first to its last element along the described branch decisions and nowhere else. Its length, origin and destination station, kind (through, in, out, contained), "
  "attributes, signals in force, omitted nodes, halts and runtime checkpoint are those of the description. Iterating any part of it yields exactly those nodes "
  "in order, marks exactly the omitted ones, and attaches each extra speed limit to its own node only. Routes for publication only do not exist.",
  ["inputs"], TOPO + "; every walk through every station as a station route; on single sections every set of omitted nodes with every set of extra limits; every iteration range",
  "Tests look at the routes of fixed data sets without extra limits on inner nodes.",
  [SI+"parsers/iss/parse_station_route.cc", SI+"parsers/iss/parse_iss.cc", SI+"station/station_route.cc", I+"station/station_route.h", I+"path/length.h"],
  [("path construction and route data", SI+"parsers/iss/parse_iss.cc"), ("route iteration", SI+"station/station_route.cc")],
  ["nodes, flags and limits yielded by every iteration range", "route data"],
  "exhaustive enumeration of topologies, walks, omission and limit sets and iteration ranges against a geometric model",
  "Complete over the topology family, under ASan/UBSan.")

IRTOPO = "rows of two to four stations on one line with every set of station routes (with and without signals in force), stretches without signals (ETCS), passing loops, crossovers and switch-cross layouts with all walks as station routes; all written as ISS data and read by the real parser"

P("I05", "The interlocking holds exactly the signal-to-signal routes",
  "Station routes are joined exactly where one ends at the border at which the next begins. The interlocking holds one route for every way from a signal in force to the next one "
  "along joined station routes, the open end of the network replacing a missing signal, none twice, none through a signal, and none over stretches that need ETCS. Each "
  "interlocking route lists its nodes over any range in order, marks the omitted ones, and knows its ends and station routes; the indexes of routes starting, ending, halting at a node, using a station route "
  "or visiting a station are exactly those.",
  ["inputs"], IRTOPO + "; every iteration range of every interlocking route",
  "Tests compare counts on two fixed infrastructures.",
  [SI+"interlocking/get_interlocking.cc", SI+"interlocking/interlocking_route.cc", SI+"station/station_route_graph.cc", SI+"station/station_route.cc"],
  [("route construction", SI+"interlocking/get_interlocking.cc"), ("route iteration", SI+"interlocking/interlocking_route.cc"), ("station route graph", SI+"station/station_route_graph.cc")],
  ["set of interlocking routes", "nodes yielded by every range", "index contents"],
  "exhaustive enumeration of station route sets over bounded layouts; real interlocking compared with a model built from the geometry",
  "Complete over the family, under ASan/UBSan.")

P("I06", "Routes exclude each other exactly when they share a conflict element",
  "Two interlocking routes exclude each other exactly when they share a switch, crossing, signal, halt, border, bumper or track end on the track they cover in either direction, "
  "unless one directly follows the other. Exclusion is mutual, a route excludes itself, and the inner elements of a route are all but its two ends. The result is the same for every number "
  "of processors and every order in which the work is done, and nothing is computed that was not asked for.",
  ["inputs", "schedules"], IRTOPO + "; 0 to 64 processors, every order of up to three (thorough: four) tasks",
  "Tests run one infrastructure on whatever processors the machine has.",
  [SI+"exclusion/exclusion_elements.cc", SI+"exclusion/get_exclusion_graph.cc", SI+"exclusion/get_exclusion.cc"],
  [("elements covered by a route", SI+"exclusion/exclusion_elements.cc"), ("exclusion graph", SI+"exclusion/get_exclusion_graph.cc"), ("work distribution", SI+"exclusion/get_exclusion.cc")],
  ["closed and open elements per route", "exclusion graph"],
  "exhaustive enumeration of layouts, processor counts and task orders under a controlled thread start; result compared with the geometry",
  "Complete over the family, under ASan/UBSan.")

P("I07", "Exclusion sets read from a file map to exactly their routes",
  "The exclusion sets of an infrastructure are those its exclusion set file lists, each sorted by route id and all in ascending order, whatever order the file has and whether or not its last line ends in "
  "a newline. The mapping from routes to exclusion sets is the exact inverse: a route lists precisely the sets it is a member of, in ascending order, and a route in no set lists none. Without a file there are no sets.",
  ["inputs"], "all files of up to three lines of up to two (thorough: three) of four routes in every order, ids with up to three digits; long lines up to 5000 routes",
  "No test reads an exclusion set file.",
  [SI+"exclusion/read_cliques.cc", SI+"exclusion/get_exclusion.cc"],
  [("reading the sets", SI+"exclusion/read_cliques.cc"), ("inverse mapping", SI+"exclusion/get_exclusion.cc")],
  ["exclusion sets", "route to set mapping"],
  "exhaustive enumeration of files within bounds against a set model",
  "Complete within the bounds, under ASan/UBSan.")

P("I08", "Infrastructure data is reported as the files state it",
  "Every element read from the files has the type, direction, line, kilometrage and data (signal, switch and halt names, halt kind and side, slopes, end of train detectors, speed limits with value, length, place of action and affected trains) "
  "its description gives, and no data that belongs to another; what a speed limit is for is never guessed from an unknown word. Lines have the described segments and answer for signalling and ETCS at any kilometrage by the segment that covers it, the first description of a line counting. "
  "Station names, version, defaults, the files of an index (given by directory or by Index.xml) and element statistics are those of the files.",
  ["inputs"], "every element type in both directions on rising and falling sections with every value of each of its data fields; all pairs of neighbouring types; all line segmentations up to three segments over all segment types; all selections and orders of index files up to four; statistics over the topology family",
  "Tests spot-check a few elements of fixed data sets.",
  [SI+"parsers/iss/parse_track_element.cc", SI+"parsers/iss/parse_helpers.cc", SI+"graph/type.cc", SI+"regulatory_data.cc", SI+"line.cc", SI+"parsers/iss/iss_files.cc", SI+"parsers/iss/get_infra_stats.cc", SI+"parsers/iss/parse_iss.cc"],
  [("element data", SI+"parsers/iss/parse_track_element.cc"), ("types", SI+"graph/type.cc"), ("lines", SI+"regulatory_data.cc"), ("segment lookup", SI+"line.cc"), ("file list", SI+"parsers/iss/iss_files.cc"), ("statistics", SI+"parsers/iss/get_infra_stats.cc")],
  ["element data", "lines", "station names", "statistics"],
  "exhaustive enumeration of element descriptions, line descriptions and file lists; each is written as ISS data and read by the real parser",
  "Complete within the bounds, under ASan/UBSan.")

TRTOPO = "rows of three and four stations from seven layouts with halts, checkpoints and signals, both directions, with one or two station routes per station; station routes that end at halts"

P("T03", "A stop sequence becomes a path of interlocking routes that runs exactly it",
  "The path of a train described by the station routes it takes and where it stops is a sequence of interlocking routes that follow each other, runs along exactly the described station routes in order and no others, "
  "covers the first and the last stop, or reaches the first or last node of the described station routes where the train breaks in or out, and is found whenever such a sequence exists. Its choice does not depend on anything but the stop sequence; each halt and passing time lies on the path, "
  "and a sequence that no interlocking routes cover is reported as having none, without a crash.",
  ["inputs"], TRTOPO + "; every way to stop, pass and pass with a time over all chains of up to four (thorough: five) station routes, linked or not, as passenger and freight",
  "Tests look up the paths of the trains of one data set.",
  ["src/timetable/parsers/station_route_to_interlocking_route.cc", "include/soro/timetable/stop_sequence.h", "src/timetable/sequence_point.cc"],
  [("path search", "src/timetable/parsers/station_route_to_interlocking_route.cc"), ("stop sequence", "include/soro/timetable/stop_sequence.h")],
  ["path returned for a stop sequence"],
  "exhaustive enumeration of stop sequences over bounded layouts; the real path compared with every tiling of the chain by interlocking routes",
  "Complete over the family, under ASan/UBSan.")

P("T04", "A train meets every node of its path once, in order, with its stops in place",
  "Iterating a train yields the nodes of its path from its first stop (from the start of the path if it breaks in) to its last stop (to the end of the path if it breaks out), each once and in order, the shared signals of following routes once. "
  "Each stop and passing time is attached to the node it belongs to and each is met once, halts where the train does not stop and nodes not in force are omitted. Length, start node, first and last routes, number of halts, first departure and kind of the train agree with that.",
  ["inputs"], TRTOPO + "; every way to stop and pass along chains of up to four station routes, every path of interlocking routes along them, with and without breaking in and out",
  "Tests iterate the trains of one data set.",
  ["src/timetable/train.cc", "src/timetable/sequence_point.cc", "include/soro/timetable/train.h"],
  [("train iteration", "src/timetable/train.cc")],
  ["nodes, sequence points and omission yielded by the iteration", "derived data of a train"],
  "exhaustive enumeration of trains over bounded layouts; the real iteration compared with a model built from the geometry",
  "Complete over the family, under ASan/UBSan.")

P("S02", "Algorithms on ordering graphs keep exactly what orders trains",
  "Removing implied edges from an acyclic ordering graph leaves exactly its transitive reduction: reachability is unchanged and no edge that others imply remains. A cycle is reported exactly when there is one, "
  "and the reported nodes form one. The check of exclusion paths succeeds exactly when any two usages of excluding routes are ordered by the graph. Ingoing and outgoing edges always mirror each other.",
  ["inputs"], "all acyclic graphs on up to 6 (thorough: 7) ordered nodes, all directed graphs with self loops on up to 4 (5) nodes, all graphs on 3 (4) nodes with three routes and all families of exclusion sets",
  "Tests run the algorithms on one real graph each.",
  ["src/simulation/ordering/remove_transitive_edges.cc", "src/simulation/ordering/get_cycle.cc", "src/simulation/ordering/check_exclusion_paths.cc", "include/soro/simulation/ordering/ordering_graph.h"],
  [("removing implied edges", "src/simulation/ordering/remove_transitive_edges.cc"), ("cycle search", "src/simulation/ordering/get_cycle.cc"), ("exclusion paths", "src/simulation/ordering/check_exclusion_paths.cc")],
  ["edges after reduction", "reported cycle", "verdict on exclusion paths"],
  "exhaustive enumeration of all graphs up to a size; the real algorithms compared with the definitions",
  "Complete within the bounds, under ASan/UBSan.")

P("S01", "The ordering graph orders excluding route usages by time and nothing else",
  "The ordering graph of a timetable has one node for every usage of an interlocking route by a trip in the chosen interval and of the chosen trains, the nodes of a trip following each other as its path does. "
  "One usage reaches another through the graph exactly when that follows from the order of usages within trips and, by starting time, within each exclusion set; usages starting at the same time have one order everywhere, so the graph has no cycle. "
  "Usages of excluding routes are always ordered. The result does not depend on how the parallel phases are scheduled.",
  ["inputs", "schedules"], "rows of three stations with all their interlocking routes; one to three trips over up to three days at departure times before, at and after each other and around midnight; five families of exclusion sets; all train filters and several intervals; up to 18 (thorough: 33) trips at once; tasks in order and in reverse",
  "Tests build the graph of one data set and count nodes.",
  ["src/simulation/ordering/ordering_graph.cc", "include/soro/simulation/ordering/ordering_graph.h"],
  [("graph construction", "src/simulation/ordering/ordering_graph.cc"), ("node and edge types", "include/soro/simulation/ordering/ordering_graph.h")],
  ["nodes, edges, reachability, cycle verdict"],
  "exhaustive enumeration of small timetables and exclusion sets; the real ordering graph compared with the order of route usages",
  "Complete over the family, under ASan/UBSan.")

P("S03", "Probability distributions add up what was put in",
  "A discrete distribution over time, over speed, or over both holds for every value, rounded to its granularity, the sum of the probabilities inserted for it, whatever the order of the insertions. "
  "Its sum is the sum of all insertions; iterating it yields its values in ascending order with their probabilities; sizes, first and last value, and distances of iterators agree with that. "
  "The distributions of disturbances the simulation comes with (delays at a halt; delays and speeds of a running train) have no value outside of 0 to 1, a total of one, geometric delays, and every speed within the variance equally often.",
  ["histories"], "all sequences of up to 4 (thorough: 6) insertions at ten times, of up to 3 (4) at ten times x four speeds; the disturbances for arrivals at 3 (13) times and 41 (301) speeds",
  "Tests insert a few values in ascending order.",
  ["include/soro/simulation/dpd.h", "include/soro/simulation/disruption.h"],
  [("distribution", "include/soro/simulation/dpd.h"), ("disturbances", "include/soro/simulation/disruption.h")],
  ["values and probabilities of a distribution"],
  "exhaustive enumeration of insertion sequences, the real distribution and a map in lockstep",
  "All sequences within the bounds, compared after every insertion, under ASan/UBSan.")

P("R01", "Running times respect every limit and physics along the path",
  "The running time of a train follows its path from its first to its last stop: every stretch between borders has the lowest limit in force there (from speed limits concerning the train, limits of its station routes, defaults and the train itself, each acting from where it stands or from the last signal on). "
  "The train stands at each stop for its minimum stopping time and not before its planned departure, never exceeds a limit, its length, engine and brake permit the motion, and it is not slower than such a train has to be. "
  "Reported time stamps are those of its stops, signals and passing points, in order. Braking, coasting and accelerating phases obey the equations of motion.",
  ["inputs"], "lines of three stations; all middle stations of up to three places from eight (thorough: twelve) kinds, shared places, limits of station routes; places 40, 300 and 2500 m apart; three engines; all stop sequences; three ways of timing",
  "Tests compute the running times of one data set and check that they finish.",
  ["src/runtime/runtime.cc", "src/runtime/runtime_physics.cc", "src/runtime/interval.cc", "include/soro/runtime/interval.h", "src/rolling_stock/train_physics.cc"],
  [("intervals", "src/runtime/interval.cc"), ("running time", "src/runtime/runtime.cc"), ("phases", "src/runtime/runtime_physics.cc")],
  ["intervals and their limits", "time stamps", "phases"],
  "exhaustive enumeration of lines, trains and stop sequences; real intervals and time stamps compared with a limit model and finely integrated motion",
  "Complete over the family up to the stated tolerance of the integration step, under ASan/UBSan.")

P("T05", "A timetable read has exactly the trains it describes, or says why not",
  "Reading KSS timetables yields one train for every released construction train whose vehicles and path exist: its number, days of operation (masks and single days more or less), stops and passing points with times over midnight and minimum stopping times, path of interlocking routes, breaking in and out, vehicles, length, weight and protection are those described. "
  "Trains that are not supported or do not fit the infrastructure are left out and do no harm to others. Ids follow the order of trains, the interval covers exactly what runs. A timetable for another infrastructure version, no timetable, and an unknown source are refused with their error.",
  ["inputs"], "lines of three stations; service masks of up to three days with up to 1 (thorough: 2) further services; every stop sequence and stop mode, times before and after midnight, all durations; all vehicle combinations and flaws; up to two (three) files of up to three trains, in both orders of reading",
  "Tests read one timetable and count its trains.",
  ["src/timetable/parsers/kss/parse_kss_timetable.cc", "src/timetable/timetable.cc", "src/timetable/parsers/kss/kss_error.cc", "src/timetable/timetable_error.cc"],
  [("KSS parser", "src/timetable/parsers/kss/parse_kss_timetable.cc"), ("source detection and errors", "src/timetable/timetable.cc")],
  ["trains of a timetable", "its interval and source", "error codes"],
  "exhaustive enumeration of timetable files; the trains read by the real parser compared with their descriptions",
  "Complete over the family, under ASan/UBSan.")

P("R02", "Vehicles are found and move as their data says",
  "Every traction vehicle of the core data is found by its series, owner and variant, and nothing else is; a vehicle with a gap in its tractive curve is left out. "
  "At every speed a vehicle's tractive force is that of the piece of its curve in force, zero beyond it, and its resistance that of its polynomial. "
  "A train's forces are the sum over its vehicles, its highest speed the lowest of its vehicles and itself, its length, weight, kind and braking as given.",
  ["inputs"], "all sets of up to 2 (thorough: 3) series and variants with every name looked up; all lists of up to 3 pieces between five speeds, five kinds of factors, points and commas; all trains of up to three of three vehicles",
  "Tests compare one vehicle at a few speeds.",
  ["src/rolling_stock/rolling_stock.cc", "src/rolling_stock/parse_train_series.cc", "src/rolling_stock/train_physics.cc", "include/soro/rolling_stock/train_physics.h"],
  [("vehicle lookup", "src/rolling_stock/rolling_stock.cc"), ("core data", "src/rolling_stock/parse_train_series.cc"), ("physics of a train", "src/rolling_stock/train_physics.cc")],
  ["result of a lookup", "forces and limits of vehicles and trains"],
  "exhaustive enumeration of core data; vehicles and trains of the real parser compared with the data at all sampled speeds",
  "Complete over the family, under ASan/UBSan.")

P("X01", "Parallel phases are free of races and their result does not depend on timing",
  "Exclusion elements and graph, the ordering graph, and timetables are computed in parallel. Whatever the number of processors, the order of the jobs and their interleaving, no two of them touch the same memory unordered when one writes, none deadlocks, and the result is the same.",
  ["schedules"], "rows of one to three stations; 0 to 8 (thorough: 16) processors; up to three trains; up to 3 (4) files with readable and unreadable trains; per input all schedules of up to 3 (5) preemptions at mutexes, atomics and static initialisation, up to 4 (5) jobs in every order",
  "Tests see the one schedule that happens; a race seldom shows.",
  ["src/infrastructure/exclusion/get_exclusion.cc", "src/infrastructure/exclusion/get_exclusion_graph.cc", "src/simulation/ordering/ordering_graph.cc", "src/timetable/parsers/kss/parse_kss_timetable.cc"],
  [("threads and loops of the exclusion", "src/infrastructure/exclusion/get_exclusion.cc"), ("loop over exclusion graph nodes", "src/infrastructure/exclusion/get_exclusion_graph.cc"), ("loop over orderings", "src/simulation/ordering/ordering_graph.cc"), ("loop over files", "src/timetable/parsers/kss/parse_kss_timetable.cc")],
  ["unordered conflicting accesses", "deadlock", "result per schedule"],
  "stateless exploration of all schedules of the real code under a controlled scheduler up to a preemption bound, with happens-before race detection on every access",
  "All schedules within the bounds; between preemption points race freedom is checked on every access, so that other interleavings are equivalent. pugixml and libstdc++'s compiled part are not instrumented.")

P("I09", "Stations and their elements have one place each on the map",
  "After laying out an infrastructure every station and every element has exactly one valid place. Stations of the coordinate list are exactly where it says (its last row counts; unknown stations and blank values are ignored; without a list none is known). "
  "Others lie at the mean of the known stations reached through unknown ones, weighted by how near these are and doubled for more than four common borders with a direct neighbour, one step west of the only known one, or at a fixed place if none is known. "
  "Drawn elements lie around their station at ten metres per unit of the drawing, the station turned as a whole such that its borders face its neighbours. Track elements lie in order, evenly spaced, between the ends of their section.",
  ["inputs"], "all networks of up to 4 (thorough: 5) stations with all subsets of known places, one to six common borders; coordinate lists of all kinds; drawings of stations on a grid; all directions of neighbours",
  "Tests lay out one network and look at nothing but a picture.",
  ["src/infrastructure/layout/layout.cc", "src/infrastructure/layout/layout_to_gps.cc", "src/infrastructure/parsers/parse_station_coords.cc"],
  [("layout of stations", "src/infrastructure/layout/layout.cc"), ("coordinate list", "src/infrastructure/parsers/parse_station_coords.cc")],
  ["positions of stations and elements"],
  "exhaustive enumeration of networks, drawings and coordinate lists; the positions computed by the real code compared with a model of the drawing",
  "Complete over the family, under ASan/UBSan.")

P("I10", "The exclusion graph survives its export",
  "The exporter of the exclusion graph writes one line per interlocking route, in order, with exactly the routes of lower id it excludes in ascending order, so that every pair of routes that exclude each other is named once; whatever the file held before is gone. "
  "The cliques of what was exported, given as the infrastructure's exclusion sets, bring back exactly that relation: two routes have an exclusion set in common if and only if they exclude each other, and every route has at least one. "
  "Without an infrastructure directory or with arguments missing the exporter reports failure and writes nothing.",
  ["inputs", "schedules"], "rows of two to four stations on one line with every set of station routes, passing loops, crossovers, switch-cross layouts and rings with all walks as station routes; 0 to 3 processors, two orders of the tasks; all sets and orders of arguments",
  "No test runs the exporter.",
  ["tools/export_exclusion_graph/src/export_exclusion_graph.cc", SI+"exclusion/get_exclusion.cc", SI+"exclusion/get_exclusion_graph.cc", SI+"exclusion/read_cliques.cc"],
  [("exporter", "tools/export_exclusion_graph/src/export_exclusion_graph.cc"), ("what is computed", SI+"exclusion/get_exclusion.cc"), ("reading the sets", SI+"exclusion/read_cliques.cc")],
  ["exported file", "exclusion sets of routes", "exit code"],
  "exhaustive enumeration of infrastructures and arguments; the whole program runs on each, its file is compared with the graph and, as cliques, read back by the real parser",
  "Complete over the family, under ASan/UBSan. The command line library is a stand-in.")

P("W01", "The web server answers what is so, and 404 for what is not there",
  "Every request about an infrastructure (bounding box, stations, routes, exclusion sets, elements with their data, search), its timetables and their ordering graphs is answered with the data of that infrastructure and timetable, as JSON. Unknown infrastructures, timetables and ids of any size give 404, filters that make no sense 400; no request does harm. "
  "A timetable belongs to exactly the infrastructures it was made for. On a start the map and tiles of an infrastructure are made anew exactly if they are missing, out of date, or asked for, and every infrastructure's tiles are served under its name.",
  ["inputs", "histories"], "all branching layouts, all element types with all states of their data; three infrastructures and two timetables present, absent, of two versions or broken; small timetables with all filters over boundary times and trains; all histories of up to 2 (thorough: 3) restarts over eight events",
  "Tests do not cover the server.",
  ["web/server/src/soro_server.cc", "web/server/src/modules/infrastructure/infrastructure_module.cc", "web/server/src/modules/infrastructure/serve_element.cc", "web/server/src/modules/infrastructure/serve_station.cc", "web/server/src/modules/search/search_module.cc", "web/server/src/modules/timetable/timetable_module.cc", "web/server/src/modules/ordering/serve_ordering_graph.cc", "web/server/src/modules/tiles/tiles_module.cc"],
  [("routes", "web/server/src/soro_server.cc"), ("search", "web/server/src/modules/search/search_module.cc"), ("ordering graphs", "web/server/src/modules/ordering/serve_ordering_graph.cc"), ("maps and tiles", "web/server/src/modules/tiles/tiles_module.cc")],
  ["status, type and content of answers", "files made at start"],
  "exhaustive enumeration of server contents, requests and restart histories; the answers of the real handlers compared with the infrastructure, timetable and ordering graph they are about",
  "Complete over the family, under ASan/UBSan; the network transport and the tile renderer are stand-ins.")

P("W02", "The map made for the tiles shows the infrastructure",
  "The exported map has exactly one node per station and one per element, with its place and tags (type, id, name; kind and direction), one way for each pair of neighbouring elements of a station, and for neighbours in different stations a chain of fifty points along a smooth curve that leaves both borders along their tracks and is the same in both directions. "
  "Ids are unique, every point is finite, and nothing else is on the map. The map does not depend on the number of processors or the order of the export tasks, and its file contains it unchanged.",
  ["inputs", "schedules"], "all track topologies of the infrastructure checks; borders at eight places x 49 (thorough: 144) offsets x 45^2 (90^2) directions of the tracks, both ways; 0 to 64 processors and all orders of up to 2 (3) tasks",
  "Tests do not cover the export.",
  ["web/server/src/modules/tiles/osm_export/osm_export.cc", "web/server/src/modules/tiles/osm_export/interpolation.cc"],
  [("export", "web/server/src/modules/tiles/osm_export/osm_export.cc"), ("curves between stations", "web/server/src/modules/tiles/osm_export/interpolation.cc")],
  ["nodes and ways of the map", "points of connections"],
  "exhaustive enumeration of topologies, border positions and task orders; the map written by the real export read back and compared with the infrastructure",
  "Complete over the family, under ASan/UBSan.")

G = "tools/generate-osm/"

P("W03", "The server starts exactly when it can, and as it was told",
  "The server program starts if and only if its resource directory with the coordinate list and the map profile, the infrastructure sources and the timetable sources are there; otherwise, or if an argument lacks its value, it ends with an error code, without an exception, and leaves every file as it is. "
  "Once started it has its five working directories (what was in them stays), listens at the address and port it was told or the usual ones, offers every infrastructure of the sources, serves the files of the web client, and answers 404 for the rest; asking for help only prints it. "
  "Over any sequence of starts the map and tiles of an infrastructure are made once, and again for all when regeneration is asked for in either of its forms.",
  ["inputs", "histories"], "every directory there, missing, or a file, with no to two infrastructures, earlier working directories or none, places told in two orders or the usual ones; every argument without its value; all sequences of 3 (thorough: 4) starts of five kinds",
  "Tests do not start the server.",
  ["web/server/src/main.cc", "web/server/include/soro/server/server_settings.h", "web/server/src/soro_server.cc", "web/server/src/modules/infrastructure/infrastructure_module.cc", "web/server/src/modules/tiles/tiles_module.cc"],
  [("start", "web/server/src/main.cc"), ("settings", "web/server/include/soro/server/server_settings.h"), ("routes", "web/server/src/soro_server.cc")],
  ["exit code", "files", "address and port", "answers"],
  "exhaustive enumeration of directory states, arguments and sequences of starts; the whole program runs on each, what it does compared with a model of the directories",
  "Complete over the family, under ASan/UBSan; the network transport, the command line library and the tile renderer are stand-ins.")

P("G01", "Generated OSM data is complete, ordered and free of duplicates",
  "Putting the lines together keeps every node, way and relation and gives all ways of a line one bright colour. Sorting orders nodes, ways and relations by number and keeps exactly the first of each id. "
  "A new node is put next to its reference node in every way that leads over this and in no other, everything else staying as it is. Nodes, tags and ways are found exactly if they are there. "
  "The lines are those of the track relations with four-digit numbers; the stations those with a name that are neither subway nor monorail. A failing osmium is reported and old results are not used.",
  ["inputs"], "all sequences of up to 5 (thorough: 6) objects over six ids; all pairs of ways of up to 3 (4) nodes; all sets of up to three line files; all sequences of relations and stations of every kind",
  "Tests look at one data set per function; sorting and lookups are never combined.",
  [G+"osm-utils/sort-osm.go", G+"osm-utils/osm-toolbox.go", G+"osm-utils/get-refs.go", G+"osm-utils/generate-stations.go", G+"combine-lines/combine-lines.go"],
  [("sorting", G+"osm-utils/sort-osm.go"), ("inserting nodes", G+"osm-utils/osm-toolbox.go"), ("combining lines", G+"combine-lines/combine-lines.go")],
  ["returned data and files"],
  "exhaustive enumeration of OSM data; the real functions' results compared with their definition",
  "Complete over the family; errors and panics of the Go run time are violations.")

P("G02", "The kilometrage of an element leads to its node of the track",
  "The place of an element is found by walking its distance from the two nearest anchors along the ways, across their joints whatever the direction of the ways, up to the ends and junctions of the track: "
  "the node both walks lead to (with the distances that fit best), or else of the two nearest nodes reached the one whose distance fits better; an anchor that leads nowhere is replaced by the next nearest, and without any the element counts as not found. "
  "Kilometrages are read in all notations; distances are those on the sphere.",
  ["inputs"], "tracks of up to 5 (thorough: 6) nodes in all cuts into ways and all directions, branches and rings; all sets of up to 3 (4) anchors; a grid of kilometrages on and between nodes; all kilometrage texts up to a length",
  "Tests walk a few given tracks.",
  [G+"db-utils/find-nodes/find-best-osm-node.go", G+"db-utils/find-nodes/find-new-node.go", G+"db-utils/find-nodes/find-closest-match.go", G+"db-utils/find-nodes/find-nodes.go", G+"db-utils/find-nodes/find-next-way.go", G+"db-utils/find-nodes/go-direction.go", G+"db-utils/find-nodes/find-nodes-toolbox.go"],
  [("choice of anchors", G+"db-utils/find-nodes/find-best-osm-node.go"), ("walk along the ways", G+"db-utils/find-nodes/go-direction.go"), ("joints of ways", G+"db-utils/find-nodes/find-next-way.go")],
  ["node found for a kilometrage"],
  "exhaustive enumeration of tracks, anchors and kilometrages; the node found by the real search compared with an independent walk",
  "Complete over the family; decisions closer than 0.1 mm are not judged.")

P("G03", "The DB elements are drawn on the OSM lines, each once, where they are",
  "DB data is sorted into the lines it belongs to, nothing lost, doubled or changed. On a line with at least two anchored signals or switches every element is drawn exactly once, at the node its kilometrage says, with its kind, direction, name and values, next to that node in every way; with one anchor only the anchored ones are drawn, with none the line is left alone. Nothing else of the line changes. "
  "New nodes have ids of their own, and the search lists name exactly the drawn halts and signals. The program's output has all lines and stations in order, each once, all ways over nodes that are there; additional OSM data stays complete and gets the elements.",
  ["inputs", "histories"], "lines of six nodes in all arrangements of up to three ways and directions; anchors of seven kinds at all pairs of nodes; all 25 kinds of elements, alone, in pairs and together, in all spreads over stations and sections; up to three lines with none, one or more anchors; whole runs with all sets of halts and additional data",
  "Tests map single elements on data made for them; the program as a whole is not tested.",
  [G+"main.go", G+"db-utils/db-parser.go", G+"db-utils/db-mapper.go", G+"db-utils/mapper/map-signals.go", G+"db-utils/mapper/map-switches.go", G+"db-utils/mapper/map-misc.go", G+"db-utils/mapper/map-halts.go", G+"db-utils/mapper/node-creation.go"],
  [("sorting DB data by lines", G+"db-utils/db-parser.go"), ("anchors and elements of a line", G+"db-utils/db-mapper.go"), ("program", G+"main.go")],
  ["files of the lines", "search lists", "output of the program"],
  "exhaustive enumeration of lines and DB data; what the real mapper and the real program draw compared with the description of the line",
  "Complete over the family; osmium is a stand-in that filters OSM XML. Anchors that contradict each other are outside.")

C = "web/client/src/"
P("C01", "The web client shows what belongs to what is selected, however answers arrive",
  "Whatever the user selects, in whatever order the answers of the server arrive and also if one of them is an error: the timetables, routes and time range offered and shown are those of the infrastructure and timetable selected last, and never a mixture. "
  "The routes highlighted are those switched on, each once, with the data of the current infrastructure. The ordering graph shows the graph asked for last as a whole. The search shows the results of the text entered last in the current infrastructure, or none. "
  "The station shown is the one selected last, in the sidebar that is brought up for it (for every id). The map shows the current infrastructure, goes to its bounding box and to no other's, and is not used once it is gone. Nothing throws.",
  ["histories", "schedules"], "all sequences of up to 4 (thorough: 5) user actions in each of six parts of the client, interleaved with all orders in which the server's answers arrive, in most of them also with any one answer failing",
  "The client's tests call single actions and answer at once; orders of answers are never varied.",
  [C+"stores/sidebar-store.ts", C+"components/ordering/ordering-graph.vue", C+"components/sidebar/search/extended-search.vue", C+"components/sidebar/station/station.vue", C+"components/sidebar/sidebar.vue", C+"components/infrastructure/infrastructure-map.vue", C+"components/sidebar/menu/menu.vue"],
  [("selection and routes", C+"stores/sidebar-store.ts"), ("ordering graph", C+"components/ordering/ordering-graph.vue"), ("map", C+"components/infrastructure/infrastructure-map.vue")],
  ["state of the stores", "contents of the components", "what the map and the graph are told to show"],
  "stateless exploration of the real client code under a controlled event loop: all interleavings of user actions and server answers",
  "All interleavings within the bounds are run on the real scripts of the components; Vue, Vuex, maplibre, sigma and graphology are stand-ins and templates are not rendered.")

P("C02", "The client's settings and the map's legend are what the user chose, also later",
  "The theme is the one the user chose, or that of the operating system as long as the user leaves it to this, at every moment; the primary colour is the chosen one in both themes. Both are there again when the page is loaded again. "
  "A map shows exactly the layers ticked in its legend, and elements of a direction exactly if this is ticked; resetting gives the initial choice. The choice of each tab is its own and is there again after a reload, in another map, after a change of the theme and when the tab is opened again; the highlighted routes are drawn.",
  ["histories"], "all sequences of up to 5 (thorough: 6) choices of mode and colour, changes of the system's mode and reloads; all sequences of up to 5 (6) switches of the legend, resets, reloads, changes of tab and of the infrastructure",
  "Tests set one value and look at one call of the mocked theme or map.",
  [C+"stores/settings-store.ts", C+"vuetify.ts", C+"components/sidebar/menu/settings.vue", C+"components/infrastructure/infrastructure-legend.vue", C+"components/infrastructure/infrastructure-map.vue", C+"components/infrastructure/map-style.ts"],
  [("settings", C+"stores/settings-store.ts"), ("legend and map", C+"components/infrastructure/infrastructure-map.vue"), ("legend", C+"components/infrastructure/infrastructure-legend.vue")],
  ["theme", "visibility and filters of the map's layers", "local storage"],
  "exhaustive enumeration of user histories on the real stores and component scripts, compared with the history's meaning after every step",
  "Complete within the bounds; map, themes and storage are stand-ins.")

P("C03", "Every tab of the client has a component of its own, of its kind",
  "However tabs are opened, closed, moved and restored: every tab shows a component of its own of the kind that was asked for, bound to this tab and placed and hidden with it, no component is left without a tab, and the same tabs in the same order are there again when the page is loaded again.",
  ["histories"], "all sequences of up to 5 (thorough: 6) openings of two kinds of tabs (also at once), closings of the first, second and last tab, moves and reloads",
  "Tests open tabs one after the other in a new layout.",
  [C+"golden-layout/golden-layout-adapter.vue", C+"stores/golden-layout-store.ts", C+"App.vue", C+"components/sidebar/menu/menu.vue"],
  [("tabs and components", C+"golden-layout/golden-layout-adapter.vue"), ("requests for tabs", C+"stores/golden-layout-store.ts"), ("stored layout", C+"App.vue")],
  ["components and their tabs", "stored layout"],
  "exhaustive enumeration of histories of tabs on the real adapter, store and application scripts",
  "Complete within the bounds; golden-layout is a stand-in.")

P("C04", "The client asks for what the server serves and reports what is no answer",
  "Every request of the client is one of the server's, for exactly the infrastructure, timetable, id, interval and trains meant; a text searched for arrives at the server as it is, whatever its characters. An answer becomes its JSON value; an error status, a lost connection and an answer that is no JSON become an error. "
  "Headers and credentials set on the client are sent with each request from then on. Train ids are taken exactly if they are numbers separated by commas; a time range is given on when it has both ends, in seconds; selections and switches tell what was chosen, once.",
  ["inputs", "histories"], "all requests for names and ids of every kind; all search texts up to 3 (thorough: 4) characters of nine kinds; all methods, statuses and contents; all sequences of up to 4 (5) changes of headers; all texts of up to 5 (6) characters as train ids; all sequences of entered and given values",
  "Tests use a mocked client; its requests are not compared with the server's.",
  [C+"util/SoroClient.ts", C+"util/HttpClient.ts", C+"components/base/soro-id-input.vue", C+"components/base/soro-datetimerange.vue", C+"components/base/soro-select.vue", C+"components/base/soro-switch.vue"],
  [("requests", C+"util/SoroClient.ts"), ("answers", C+"util/HttpClient.ts"), ("controls", C+"components/base/soro-id-input.vue")],
  ["requests sent", "values and errors given to the caller", "events of the controls"],
  "exhaustive enumeration of requests, answers and inputs on the real client code",
  "Complete within the bounds; the server's routes are given as patterns.")
