#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long text stays editable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A geometry's computed end pose is the end of the curve it emits",
     "For every line, arc, spiral and paramPoly3 geometry (built with any of its documented length/angle/cdot/pRange options, angle or cdot fitting the curvatures) and every start pose, the end position, end heading and length it computes are those of the OpenDRIVE curve described by its own emitted attributes: constant heading for a line, constant curvature for an arc, linearly varying curvature for a spiral, the rotated (u,v) polynomial for a paramPoly3 (whose normalized length is the arc length of the curve over p in [0,1]).",
     ["inputs"], "all start poses, curvatures of either sign (incl. equal/zero spiral curvatures), lengths/angles, polynomial coefficients",
     "The tests check about 40 concrete poses with tolerance; sign/branch combinations (negative curvature by length vs angle, equal non-zero spiral curvatures, arcLength/normalized polynomials with curvature) are unsampled, and nothing ties the pose to the emitted attributes.",
     ["pyodrx/geometry.py"],
     [("Line/Arc/Spiral/ParamPoly3.get_end_data", "pyodrx/geometry.py"), ("EulerSpiral.calc (Fresnel closed form)", "pyodrx/geometry.py")],
     ["get_end_data", "get_attributes/get_element"])

prop("C02", "Reverse traversal of a geometry is the exact inverse of forward traversal",
     "For every line, arc, spiral and paramPoly3, computing the start from the end pose with heading turned by pi returns the original start position, the original heading turned by pi (modulo 2*pi) and the same length. The answer does not depend on which forward or backward computations were made on the geometry object before, and neither computation changes what the geometry later emits or computes.",
     ["inputs", "histories"], "all poses and parameters; every sequence of up to three earlier forward/backward computations on the same object",
     "Tests do one forward-then-backward pair on a handful of poses, always in that order; paramPoly3 is never reversed; heading tolerance for lines is 0.1.",
     ["pyodrx/geometry.py"],
     [("get_start_data of each geometry", "pyodrx/geometry.py"), ("cached length/angle on Arc and ParamPoly3", "pyodrx/geometry.py")],
     ["get_start_data", "get_end_data"])

prop("C03", "A plan view laid out from its start is one continuous, gap-free chain",
     "After a plan view with any sequence of geometries is adjusted from its start pose (or from explicitly given headings), it emits exactly the added geometries in order: the first at the start pose, s starting at 0 and growing by the length of each, each geometry starting at the position and heading where the previous one's curve ends. The reported total length is the sum of the lengths, and the reported start and end points are the start pose and the end of the last curve. The same holds each time it is laid out again: in the same place, after its start pose was set anew, with further geometries.",
     ["inputs"], "all start poses and all sequences of lines, arcs, spirals and paramPoly3 of bounded length, all parameters",
     "No test looks at the emitted chain of a multi-geometry plan view at all.",
     ["pyodrx/geometry.py", "pyodrx/opendrive.py"],
     [("PlanView.adjust_geometries forward branch", "pyodrx/geometry.py"), ("_Geometry", "pyodrx/geometry.py")],
     ["PlanView.get_element", "get_start_point/get_end_point/get_total_length"])

prop("C04", "A plan view laid out from its end is the same continuous chain",
     "When a plan view with any sequence of geometries (without explicitly given headings) is placed by its end pose instead of its start (as for a road positioned by its successor), it still emits the added geometries in their original order with s from 0, numeric s, x, y, heading and length for each, consecutive pieces joined in position and heading, and the last curve ending exactly in the given pose. Its reported start point, end point and total length agree with the emitted chain, also through the owning road's end point. The same holds each time it is placed again by an end pose, in the same place or another, after it was laid out from either side, with further geometries.",
     ["inputs"], "all end poses and all sequences of geometries of bounded length, all parameters",
     "End-anchored placement is never exercised with more than one geometry, and its emitted chain is never inspected.",
     ["pyodrx/geometry.py", "pyodrx/opendrive.py"],
     [("PlanView.adjust_geometries from_end branch", "pyodrx/geometry.py"), ("_Geometry.get_start_data/set_s", "pyodrx/geometry.py"), ("Road.get_end_point", "pyodrx/opendrive.py")],
     ["PlanView.get_element", "Road.get_end_point"])

prop("C05", "Linked roads meet: same point and compatible heading at every declared contact",
     "After adjusting a network whose road links form no cycle, every declared link between two roads is realised geometrically: the contact ends of the two roads coincide, with equal heading when an end meets a start and opposite heading when start meets start or end meets end, whichever single road is pinned (or none) and in whatever order roads were added. A connecting road linked with a lane offset n lies, seen in its own direction, n lanes (3 m each) to the left of the neighbouring road's reference line at that contact (right for negative n), also if it is the normal road that is placed from the connecting road.",
     ["inputs", "configurations", "histories"], "all chains and junction trees of bounded size, all contact-point combinations, all insertion orders, all pinned start poses, all geometry parameters, lane offsets",
     "The link tests only look at lane ids; no test asserts any road position after adjusting.",
     ["pyodrx/opendrive.py", "pyodrx/geometry.py"],
     [("OpenDrive.adjust_startpoints", "pyodrx/opendrive.py"), ("OpenDrive.adjust_road_wrt_neighbour", "pyodrx/opendrive.py")],
     ["emitted planView geometry of every road"])

prop("C06", "Adjusting a network places every road exactly once or reports it as undefined",
     "Adjusting terminates for every network of consistently linked roads: if every road can be reached over road links from a road with a given start position (or from the first road when none has one), every road is placed exactly once and roads with a given start position keep it; otherwise UndefinedRoadNetwork is raised and nothing else. Identifiers of junctions and roads, as integers or strings, coinciding or not, never influence the outcome.",
     ["configurations", "inputs", "histories"], "all link structures over a bounded number of roads, any set of pinned roads, all identifier values including 0, any insertion order",
     "Tests run three-road chains whose junction id happens to equal an existing road id; no disconnected network and no pinned road is ever tested.",
     ["pyodrx/opendrive.py"],
     [("OpenDrive.adjust_startpoints", "pyodrx/opendrive.py"), ("UndefinedRoadNetwork", "pyodrx/exceptions.py")],
     ["planview.adjusted", "emitted geometries", "raised exception"])

prop("C07", "Lane numbering: left lanes count up from 1, right lanes down from -1",
     "In every lane section, whatever the order in which left and right lanes are added, the center lane has id 0, the k-th left lane id k and the k-th right lane id -k, each lane is emitted once under the proper side in the order added with its own type and width coefficients, sides without lanes are omitted, and every lane section is emitted in order with its own s. A lane that was never put in a section cannot be emitted (ValueError).",
     ["inputs", "histories"], "all interleavings of left/right additions of bounded length, all widths, types and section offsets",
     "The lane tests only print one section and assert nothing.",
     ["pyodrx/lane.py"],
     [("LaneSection.add_left_lane/add_right_lane", "pyodrx/lane.py"), ("Lane.get_element", "pyodrx/lane.py")],
     ["laneSection element"])

prop("C08", "Consecutive roads get mutual, in-range lane links or a lane-count error",
     "After adjusting, when one road's successor and another road's predecessor name each other (end to start), each left and right lane of the last lane section of the first is linked as successor to the same-side, same-index lane of the first lane section of the second, and back as predecessor, each exactly once and no other lane is touched, however many lane sections the roads have and in whatever order they were added. If those two sections differ in their number of lanes on a side, NotSameAmountOfLanesError is raised; roads that do not name each other in this way (not at all, only one of them, or a junction with the same number) get no lane links. Ids may be numbers or texts, in roads and links alike or not (1 and '1' are one id).",
     ["inputs", "configurations"], "all lane counts, lane section counts and insertion orders within bounds, all road ids",
     "One test with a single lane per side and a single section per road; the count check and the multi-section choice are never exercised.",
     ["pyodrx/links.py", "pyodrx/opendrive.py"],
     [("create_lane_links/_create_links_roads", "pyodrx/links.py"), ("are_roads_consecutive", "pyodrx/links.py")],
     ["lane link elements"])

prop("C09", "Connecting-road lane links name the lane of the incoming road they touch",
     "For every connecting road in a junction - between two roads, from a road back to the same one, or one of several connecting roads in a row - adjusting links each of its lanes (predecessor side in its first lane section, successor side in its last) exactly once to the lane of the neighbouring road at that contact: lane k with declared lane offset n is linked to lane k+n when predecessor-at-end or successor-at-start, to -(k+n) when the contact is reversed. Lanes of the normal roads get no link of their own, and neither the number of lane sections, nor unequal left/right lane counts, nor ids given as numbers in one place and as texts in another change this.",
     ["inputs", "configurations"], "all contact point combinations, lane counts per side, lane section counts, lane offsets, road ids and insertion orders within bounds",
     "Four tests cover the contact combinations with exactly one lane per side, one section and no offset.",
     ["pyodrx/links.py"],
     [("_create_links_connecting_road", "pyodrx/links.py"), ("_get_related_lanesection", "pyodrx/links.py")],
     ["lane link elements of connecting roads"])

prop("C10", "Junction connections agree with the connecting roads' own lane links",
     "The junction built from a set of connecting roads, each between two roads or from a road back to itself, has, for each connecting road, one connection at its end for its successor road and one at its start for its predecessor road, with the right incoming road, connecting road and contact point. Its lane links pair exactly every lane of the connecting road (at that end) with the lane of the incoming road that adjusting links it to, including reversed contacts and lane offsets: 'from' is the incoming road's lane and 'to' the connecting road's lane.",
     ["inputs", "configurations"], "all contact combinations, lane counts per side, lane offsets, ids within bounds",
     "create_junction is never called by a test.",
     ["pyodrx/generators.py", "pyodrx/links.py"],
     [("create_junction/_create_junction_links", "pyodrx/generators.py"), ("_get_related_lanesection", "pyodrx/links.py")],
     ["junction element"])

prop("C11", "A lane linker applies each of its links exactly once, in both directions",
     "For every set of lane links (no pair of lanes twice) given to one or several lane linkers, and however often and with whichever lane sections those linkers are passed (alone or in lists), each link makes the successor lane's id the successor link of the predecessor lane and the predecessor lane's id the predecessor link of the successor lane exactly once, no other lane gets a link, and all added lane sections are emitted in the order added.",
     ["inputs", "histories"], "all sequences of add_lanesection calls and all link sets within bounds",
     "No test passes a lane linker to add_lanesection.",
     ["pyodrx/lane.py", "pyodrx/links.py"],
     [("Lanes.add_lanesection", "pyodrx/lane.py"), ("LaneLinker/_lanelink.used", "pyodrx/links.py")],
     ["lane link elements"])

prop("C12", "Object and signal ids are unique after any history of additions",
     "After any sequence of adding distinct objects and signals, singly or in lists, to any roads, with user-chosen ids (strings or numbers, possibly clashing) or none, all objects have pairwise different emitted ids and so do all signals; an id that was free when its owner was added is kept as chosen, objects and signals do not affect each other's ids, and each added item is emitted exactly once, in order, on its road.",
     ["histories", "inputs"], "all sequences of additions of bounded length with symbolic ids",
     "One test adds two objects with the same id but asserts nothing.",
     ["pyodrx/signals_objects.py", "pyodrx/opendrive.py"],
     [("_SignalObjectBase._update_id", "pyodrx/signals_objects.py"), ("Road.add_object/add_signal", "pyodrx/opendrive.py")],
     ["objects/signals elements"],
     [{"name": "_usedIDs/_IDCounter", "meaning": "process-wide id registry per class", "where": "pyodrx/signals_objects.py"}])

prop("C13", "Connection ids inside a junction are unique and explicit ids are kept",
     "For any sequence of connections added to a junction, some with an explicitly chosen id (pairwise different and, when added, not in use) and some without, every emitted connection id is different, explicitly chosen ids are emitted unchanged, and connections and their lane links are emitted in the order added with the values given.",
     ["histories", "inputs"], "all sequences of additions of bounded length with symbolic ids, roads and lanes",
     "Tests add two id-less connections and assert nothing.",
     ["pyodrx/links.py"],
     [("Junction.add_connection", "pyodrx/links.py"), ("Connection._set_id", "pyodrx/links.py")],
     ["junction element"])

prop("C14", "Roadside objects line the outer road edge from their start to the road end",
     "Adding a roadside object to an adjusted road creates, for every lane section and every requested side, one independent copy of the prototype whose t is plus (left) or minus (right) the summed lane widths of that side plus the t offset, whose s is the section start plus the s offset, whose heading is pi on the left and 0 on the right, and whose repeat has the requested distance and reaches exactly to the end of the road; the prototype itself is unchanged. On a road that was not adjusted RoadsAndLanesNotAdjusted is raised and nothing is added.",
     ["inputs", "configurations"], "all lane widths, lane counts, section offsets, side selections, s and t offsets, repeat distances, prototypes with or without ids",
     "One test adds one roadside object and asserts nothing.",
     ["pyodrx/opendrive.py", "pyodrx/signals_objects.py"],
     [("Road.add_object_roadside", "pyodrx/opendrive.py")],
     ["objects element"])

prop("C15", "An object emits exactly what it was given, with documented fallbacks",
     "Every object emits its position, type, orientation sign, offsets and angles as given; a radius suppresses width and length, a lone width or length is completed with 0 for the other, and unset optional values are omitted. Each repeat call adds one repeat entry, in call order, with the given values, using the object's own s, t, zOffset and height for those not given, and every emitted numeric attribute is a number (never the text 'None').",
     ["inputs"], "all values and all subsets of given/omitted optional arguments, also explicit zeros",
     "The object tests only print; explicit zeros, radius conflicts and omitted heights are not sampled.",
     ["pyodrx/signals_objects.py"],
     [("Object.__init__/repeat/get_attributes", "pyodrx/signals_objects.py"), ("get_common_attributes", "pyodrx/signals_objects.py")],
     ["object element"])

prop("C16", "A signal emits exactly what it was given",
     "Every signal emits its s, t, zOffset, id, type, subtype, dynamic flag, orientation sign and upper-cased country as given, its name, width, height, pitch, roll, heading offset exactly when they were given (zero angles may be left out), and value together with unit exactly when a value, also 0, was given with a unit. A dependency emits the given id and type.",
     ["inputs"], "all values and all subsets of given/omitted optional arguments, also explicit zeros",
     "The signal test only prints two signals.",
     ["pyodrx/signals_objects.py"],
     [("Signal.get_attributes", "pyodrx/signals_objects.py"), ("get_common_attributes", "pyodrx/signals_objects.py")],
     ["signal element"])

prop("C17", "Road marks and road lines emit the given values and the stated defaults",
     "A road mark emits its type (underscores as spaces), weight, color, s offset, height and, when given, width and lane change as given. When any non-zero length, space, t offset or a rule is given it has one line whose given non-zero length, space, t offset and width, rule and s offset are emitted unchanged, with missing ones defaulted (broken: length 3 and space 3; solid: length 3 and space 0; others 0; width 0.2, t offset 0, rule none); otherwise it has none.",
     ["inputs"], "all road mark types, rules, colors, weights and all subsets and values of the numeric arguments",
     "Two positional constructions are printed; the values of the line child are never asserted.",
     ["pyodrx/lane.py", "pyodrx/helpers.py"],
     [("RoadMark.__init__/get_attributes/get_element", "pyodrx/lane.py"), ("RoadLine.get_attributes", "pyodrx/lane.py"), ("enum2str", "pyodrx/helpers.py")],
     ["roadMark element"])

prop("C18", "Road links: one successor, one predecessor, two neighbors, emitted as set",
     "For any sequence of successor, predecessor and neighbor additions on a road, the first successor, first predecessor and first two neighbors are accepted and every further one raises ValueError and leaves the road as it was (an omitted neighbor direction also raises ValueError). The road emits exactly the accepted links in order with the given element type, element id (also 0) and contact point or direction, and its id, name, rule, junction and length attributes as set; the queries of its links (id, type, contact point of successor and predecessor) answer the same.",
     ["histories", "inputs"], "all sequences of link additions of bounded length, all ids, element types, contact points, directions",
     "One test adds one predecessor and asserts nothing; limits are never hit.",
     ["pyodrx/opendrive.py", "pyodrx/links.py"],
     [("Road.add_successor/add_predecessor/add_neighbor", "pyodrx/opendrive.py"), ("_Link.get_attributes", "pyodrx/links.py")],
     ["road element"])

prop("C19", "Under- or over-defined geometry is rejected, well-defined input accepted",
     "A spiral given none of length, angle and cdot, or more than one, an arc given neither or both of length and angle, an arc of zero curvature, an arcLength paramPoly3 without length, and a plan view given only part of a start pose raise their documented errors; every input with exactly one (or a full or absent start pose) that describes a curve is accepted, whatever the values, also zero start coordinates and headings.",
     ["inputs"], "all subsets of the optional arguments and all values",
     "No test provokes any of these errors.",
     ["pyodrx/geometry.py", "pyodrx/exceptions.py"],
     [("Spiral/Arc/ParamPoly3/PlanView constructors", "pyodrx/geometry.py")],
     ["raised exception"])

prop("C20", "Road generators build the requested lanes, marks and curve",
     "create_road and create_straight_road give a road with the requested id, junction, geometry sequence and one lane section with the requested number of left and right lanes of the requested width (create_road: broken marks except a solid outermost one and the given center mark). create_cloth_arc_cloth gives spiral, arc, spiral with matching curvature at the joints whose headings change in total by the requested arc angle plus twice the spiral angle, with the requested lanes, turning right for negative angles.",
     ["inputs"], "all lane counts within bounds, all widths, lengths, curvatures, angles and ids",
     "Only create_straight_road is tested, on six inputs.",
     ["pyodrx/generators.py"],
     [("create_road/create_straight_road/create_cloth_arc_cloth/standard_lane", "pyodrx/generators.py")],
     ["road element"])

prop("C21", "Generated junctions connect every pair of roads with the right turn",
     "For two to four incoming roads with increasing angles and equal symmetric lanes, create_junction_roads gives exactly one connecting road per pair of roads, with consecutive ids from the start number, the junction id, the roads' lane count and width, linked from the end of the first road (start for the others) to the start of the other, turning by angle_j - angle_i - pi, and links every incoming road to the junction (roads with different lane counts raise NotSameAmountOfLanesError). For the documented 3-way T, 120-degree and 4-way crossings the adjusted network closes: every connecting road meets both its roads.",
     ["inputs", "configurations"], "number of roads, angles, radius, ids, junction id, lane counts and widths, spiral/arc parts",
     "create_junction_roads is never called by a test; examples use one radius.",
     ["pyodrx/generators.py"],
     [("create_junction_roads/get_lanes_offset", "pyodrx/generators.py"), ("create_cloth_arc_cloth", "pyodrx/generators.py")],
     ["road elements"])

prop("C22", "The document contains every road and junction added, once, in order",
     "The OpenDRIVE document has one header with the given name and format version 1.5, then every added road in the order first added and every added junction in the order added, each exactly once; each road has its link, planView and lanes sections in that order followed by signals and objects only when it has any, and its length attribute is the sum of its geometry lengths.",
     ["inputs", "histories"], "all sequences of additions of bounded length, all ids",
     "No test inspects the produced document.",
     ["pyodrx/opendrive.py"],
     [("OpenDrive.get_element/add_road/add_junction", "pyodrx/opendrive.py"), ("Road.get_element", "pyodrx/opendrive.py"), ("_Header", "pyodrx/opendrive.py")],
     ["OpenDRIVE element"])

prop("C23", "Producing the document does not change it",
     "Asking a network, or any of its parts, for its document or attributes any number of times, before or after adjusting, yields the same content each time (the header date aside) and does not change any later document, placement or lane link.",
     ["histories", "inputs"], "all interleavings of reads with adjust and add operations within bounds",
     "Tests produce each element at most twice and compare nothing.",
     ["pyodrx/opendrive.py", "pyodrx/geometry.py", "pyodrx/lane.py", "pyodrx/links.py", "pyodrx/signals_objects.py"],
     [("get_element/get_attributes of all classes", "pyodrx/*.py")],
     ["OpenDRIVE element"])

prop("C24", "Adjusting an adjusted network again changes nothing",
     "Running the adjustment a second time on a network, with no or with further roads added in between, leaves the emitted geometries, lengths, positions and lane links of the already adjusted roads unchanged and without duplicates, and places only the new roads.",
     ["histories", "inputs"], "all bounded networks (pinned or not) and parameters, one or two further adjustments",
     "No test adjusts twice.",
     ["pyodrx/opendrive.py", "pyodrx/geometry.py", "pyodrx/links.py"],
     [("OpenDrive.adjust_roads_and_lanes", "pyodrx/opendrive.py"), ("PlanView.adjusted", "pyodrx/geometry.py")],
     ["OpenDRIVE element"])

prop("C25", "Written files parse back to the document",
     "For every network, write_xml writes a well-formed file, pretty-printed or not, under the given name (default: the network name plus .xodr) whose parsed elements and attributes equal those of the document, whatever XML characters its names, ids and other texts contain (also line breaks, tabs, markup and non-ASCII) and whatever the system's default text encoding is. Nothing else is written. prettyprint prints a well-formed document with the elements and attributes of its element and leaves the element as it is.",
     ["inputs"], "all documents, all attribute strings",
     "No test writes a file.",
     ["pyodrx/helpers.py", "pyodrx/opendrive.py"],
     [("printToFile", "pyodrx/helpers.py"), ("prettyprint", "pyodrx/helpers.py"), ("OpenDrive.write_xml", "pyodrx/opendrive.py")],
     ["written file"])

prop("C26", "Networks and roads built in one program do not influence each other",
     "Building, changing, adjusting or producing one network, road, lane, junction or connection never changes what another one made by other calls emits, however the calls are interleaved and whatever ids, names and parameters they share; building the same network again gives the same document (ids of objects and signals aside). Lists given to the library are left as they are, and changing them or a roadside prototype afterwards has no effect.",
     ["histories", "inputs"], "all interleavings of two constructions at the stages and changes listed in the bounds, all parameters",
     "Every test builds one network and throws it away; state shared between instances (class attributes, default arguments, module caches) shows only in histories with two.",
     ["pyodrx/opendrive.py", "pyodrx/generators.py", "pyodrx/lane.py", "pyodrx/links.py", "pyodrx/geometry.py", "pyodrx/signals_objects.py"],
     [("instance state set in __init__ of every class", "pyodrx/*.py"), ("STD_ROADMARK_SOLID/STD_ROADMARK_BROKEN shared by the generators", "pyodrx/generators.py"), ("add_object/add_signal list handling", "pyodrx/opendrive.py")],
     ["OpenDRIVE element"])

prop("C27", "run_road starts the viewer on the file it wrote",
     "run_road(odr, esmini, density) writes the document once, into resources/xodr of the given esmini, and then starts exactly one program: the viewer in bin of that same esmini, with --odr naming the file just written and --density the given density (15 if not given), whatever characters the names of the folders contain.",
     ["inputs", "configurations"], "all folder names of the bounded length, relative and absolute, and all densities",
     "No test starts the viewer, and the examples only comment the call out.",
     ["pyodrx/helpers.py"],
     [("run_road", "pyodrx/helpers.py")],
     ["started command"])

prop("C28", "Produced documents are consistent: references resolve and linked lanes meet",
     "In the document of an adjusted network, built by hand or with the generators, every road, junction and lane that a link or connection names exists, ids are unique and links between two ends are mutual. The middles of any two lanes that the document links, in a road or in a junction, coincide at the contact, and traffic arriving on one continues on the other. All lanes of connecting roads are linked, each once per end.",
     ["inputs", "configurations"], "all networks of the bounded kinds, all geometry parameters, poses, lane widths, lane counts, contact ends and lane offsets (lanes of 3 m that stay on their side of the reference line)",
     "Tests look at single links of single roads and never at positions; whether the pieces of a document agree with each other is not tested at all.",
     ["pyodrx/opendrive.py", "pyodrx/links.py", "pyodrx/generators.py", "pyodrx/geometry.py", "pyodrx/lane.py"],
     [("OpenDrive.adjust_roads_and_lanes", "pyodrx/opendrive.py"), ("create_lane_links", "pyodrx/links.py"), ("create_junction", "pyodrx/generators.py"), ("create_junction_roads", "pyodrx/generators.py")],
     ["OpenDRIVE element: road links, lane links, connections, geometry, lane widths"])

prop("C29", "The layout does not depend on names, order of construction or coordinate frame",
     "Giving other ids to the roads and junctions of a network (numbers or texts, alike in roads and links or not) changes only the ids in the document. Adding the roads in another order, declaring the links in another order or anchoring another road leaves the layout and the links of every road the same when an anchor is given. Anchoring a road at another pose moves every road by that same rigid motion and changes nothing else.",
     ["inputs", "configurations", "histories"], "all ids, orders of construction, anchors and poses, all geometry parameters and lane widths of the bounded kinds of networks",
     "Tests build each network once, with ids 0,1,2.. in order, anchored at the origin; that ids, order and frame do not matter can only be said by comparing a network with all its variants.",
     ["pyodrx/opendrive.py", "pyodrx/links.py", "pyodrx/generators.py", "pyodrx/geometry.py"],
     [("OpenDrive.adjust_startpoints", "pyodrx/opendrive.py"), ("create_lane_links", "pyodrx/links.py"), ("create_junction", "pyodrx/generators.py"), ("PlanView.adjust_geometries", "pyodrx/geometry.py")],
     ["OpenDRIVE element of two variants of one network"])

prop("C30", "A rejected call leaves nothing behind",
     "A call rejected with one of the documented errors changes no document: an excess successor, predecessor or neighbour (ValueError), a roadside object before adjusting (RoadsAndLanesNotAdjusted), create_junction_roads with fitting arguments over roads that differ in their lanes or whose end is taken (NotSameAmountOfLanesError, ValueError), and adjusting a network whose linked roads differ in their lanes (NotSameAmountOfLanesError) or that has unreachable roads (UndefinedRoadNetwork). Whatever was rejected, and however often, what is emitted once the network is made whole and adjusted is what it would have been without the rejected calls (adjusting keeps the roads it could place; the order of the link elements of a lane is free).",
     ["inputs", "histories"], "all of these rejections at any point of building and adjusting networks of a bounded number of roads, once or twice, with the defect repaired afterwards; all geometry parameters, poses, lane widths and lane counts within bounds",
     "Tests check at most that an error is raised; what the rejected call left behind, and whether the objects still work afterwards, needs a comparison of two histories over all inputs.",
     ["pyodrx/opendrive.py", "pyodrx/links.py", "pyodrx/generators.py", "pyodrx/geometry.py"],
     [("Road.add_successor/add_predecessor/add_neighbor", "pyodrx/opendrive.py"), ("OpenDrive.adjust_roads_and_lanes", "pyodrx/opendrive.py"), ("_create_links_connecting_road/_create_links_roads", "pyodrx/links.py"), ("create_junction_roads", "pyodrx/generators.py")],
     ["OpenDRIVE element after a history with and without the rejected calls"])

prop("C31", "The public helpers answer as documented",
     "standard_lane(offset, rm) gives a new driving lane of that constant width (3 if not given) with that road mark (broken, 0.2 wide, if not given). get_road_by_id(roads, id) returns the road of the list whose id is that number or text, None if there is none. are_roads_consecutive(road1, road2) is True exactly when road1's successor is the road road2 and road2's predecessor is the road road1 (links to junctions never count), False otherwise. get_lanes_offset(road1, road2, contact) returns the number of left lanes and the lane width road1 has in the section at that contact, and raises NotSameAmountOfLanesError when road2 starts with other lane counts. get_end_point() of an adjusted road is the end of its geometry in the document. create_lane_links(road1, road2) called by hand gives the lanes of two linked roads the links that adjusting gives them, in whichever order the roads are named and however often it is called, and none to roads that are not linked.",
     ["inputs", "histories"], "all widths, ids (numbers or texts), links, lane counts, positions in the list and geometry parameters of the bounded kinds",
     "Tests do not call these helpers at all or with one or two small numeric ids; the answer for ids that differ in kind, coincide with those of junctions or share digits needs all values.",
     ["pyodrx/generators.py", "pyodrx/links.py", "pyodrx/opendrive.py", "pyodrx/geometry.py"],
     [("standard_lane/get_road_by_id/get_lanes_offset", "pyodrx/generators.py"), ("are_roads_consecutive/create_lane_links", "pyodrx/links.py"), ("Road.get_end_point", "pyodrx/opendrive.py")],
     ["returned value", "lane links of the OpenDRIVE element"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
