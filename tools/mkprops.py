#!/usr/bin/env python3
# Generates /verif/properties.jsonl from the table below (kept as code so that long texts stay readable).
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
SI="src/gearimpl/"; SX="src/gearxml/"; SS="src/gearsurf/"; I="include/gear/"

prop("C01","A TPC written to XML and read back is the same TPC",
 "For every TPC description the library can hold (any mixture of the supported pad layouts, one or several modules with any offset, angle, border width, z position, readout frequency and named parameters, Cartesian or polar end plate) writing it to a file and reading the file back yields a TPC that answers every geometry query the same to the written precision. Writing the re-read description again yields a byte-identical file.",
 ["configurations"],"every combination of pad-layout type and small parameter values, module placement attributes and optional items in the configured grid",
 "The existing copy test only writes a file and checks that the program exits 0; it never reads the written file back, and its example files use one or two layouts only.",
 [SX+"TPCParametersXML.cc",SX+"TPCModuleXML.cc",SX+"FixedPadSizeDiskLayoutXML.cc",SX+"FixedPadAngleDiskLayoutXML.cc",SX+"RectangularPadRowLayoutXML.cc",SX+"VersatileDiskRowLayoutXML.cc",SX+"PadRowLayout2DXML.cc",SX+"GearXML.cc"],
 [("writer/reader pair per pad layout","src/gearxml/*LayoutXML.cc toXML/fromXML"),("module placement attributes",SX+"TPCModuleXML.cc")])
prop("C02","Calorimeters written to XML and read back are the same calorimeters",
 "For every calorimeter description (barrel, endcap, ring and plug variants, with any symmetry order, phi offset, inner radii and any sequence of layer thicknesses, absorbers, cell sizes and repetitions) writing and reading back preserves which calorimeter it is, its extent, symmetry and the exact per-layer thickness, absorber thickness, cell sizes and distance. Writing the re-read description again yields a byte-identical file.",
 ["configurations"],"all layer sequences up to a length over a small alphabet of layer kinds, for each calorimeter slot and layout type",
 "The writer merges equal neighbouring layers into repeated groups; only particular sequences expose a wrong grouping, and no test reads a written file back.",
 [SX+"CalorimeterParametersXML.cc",SI+"CalorimeterParametersImpl.cc",SI+"LayerLayoutImpl.cc",SX+"GearXML.cc"],
 [("run-length grouping of layers",SX+"CalorimeterParametersXML.cc toXML"),("calorimeter slot from detector name",SX+"CalorimeterParametersXML.cc fromXML")])
prop("C03","Planar silicon barrels (VXD, SIT, SET) survive an XML round trip",
 "For every layered planar silicon detector (any technology type, support shell and any list of layers with their number of ladders, angles and ladder and sensitive dimensions, offsets and radiation lengths, and any named parameters) writing and reading back preserves every value, the number of layers and the detector slot it belongs to. Writing the re-read description again yields a byte-identical file.",
 ["configurations"],"all combinations of slot, type, shell, strip angle and layer lists in the configured grid",
 "No test reads a written file back; optional attributes are absent or zero in the example files.",
 [SX+"ZPlanarParametersXML.cc",SI+"ZPlanarParametersImpl.cc",SI+"ZPlanarLayerLayout.cc"],
 [("ladder/sensitive elements",SX+"ZPlanarParametersXML.cc toXML/fromXML")])
prop("C04","Forward tracking disks survive an XML round trip",
 "For every forward-tracking-disk description (any number of disks, petals, sensors, sensor type, double-sidedness, offsets, tilt and support and sensitive dimensions) writing and reading back preserves every value on both the positive and the mirrored negative side. Writing the re-read description again yields a byte-identical file.",
 ["configurations"],"all disk lists up to a length over a small alphabet of disk kinds",
 "No test reads a written file back and the shipped example has exactly seven disks.",
 [SX+"FTDParametersXML.cc",SI+"FTDLayerLayoutImpl.cc",I+"gearimpl/FTDParametersImpl.h"],
 [("disk elements",SX+"FTDParametersXML.cc toXML/fromXML")])
prop("C05","Beam telescopes survive an XML round trip",
 "For every beam-telescope description (fixed-plane telescope with or without device under test, and multi-layer tracker-plane telescope with any ladders, positions, rotations, materials, pixel pitches, resolutions and orientation values; a missing or negative x or y resolution in a file stands for the common one) writing and reading back preserves the set-up type, identifiers and every value of every plane. Writing the re-read description again yields a byte-identical file.",
 ["configurations"],"all plane lists up to a length over a small alphabet of planes whose attributes are all distinct and non-default",
 "No test reads a written file back, so attributes dropped by the writer or read from the wrong name go unnoticed.",
 [SX+"SiPlanesParametersXML.cc",SX+"TrackerPlanesParametersXML.cc",SI+"SiPlanesLayerLayout.cc",I+"gearimpl/TrackerPlanesLayerLayoutImpl.h"],
 [("telescope writer/reader",SX+"SiPlanesParametersXML.cc, "+SX+"TrackerPlanesParametersXML.cc")])
prop("C06","Global items and named parameters survive an XML round trip",
 "The detector name, magnetic field, registered materials and every named integer, real, text and vector parameter attached to a detector or to a user section are the same after writing a description and reading it back, for every combination of present and absent items (a detector without a name is written as 'Unknown'). Writing the re-read description again yields a byte-identical file.",
 ["configurations","inputs"],"all subsets of present items and all parameter values in the alphabet, including empty text, text with blanks and XML special characters, empty vectors and extreme numbers",
 "The tests never read a written file back and use short alphanumeric names and values only.",
 [SX+"GearXML.cc",SX+"GearParametersXML.cc",SX+"ConstantBFieldXML.cc",SX+"SimpleMaterialXML.cc",SX+"tinyxml.cc"],
 [("parameter elements",SX+"GearParametersXML.cc"),("top-level assembly",SX+"GearXML.cc")])
prop("C07","Pad numbering is a bijection in every pad layout",
 "In every pad layout and module, the pads listed row by row are exactly the valid pad indices, each once and in increasing column order; converting an index to row and column and back gives the same index, and the advertised numbers of rows and pads match what is listed. Row and column numbers outside the layout are never turned into a pad index but rejected with an exception, and listing an unknown row yields no pads. Every layout that is accepted is numbered this way however large it is; one with more rows or pads in a row than a pad index can hold is refused.",
 ["configurations","inputs"],"every layout in a grid of small configurations of all four types and every row and column number from below to above the valid range",
 "Tests visit one layout each with in-range values.",
 [SI+"FixedPadSizeDiskLayout.cc",SI+"FixedPadAngleDiskLayout.cc",SI+"RectangularPadRowLayout.cc",SI+"VersatileDiskRowLayout.cc",SI+"FixedDiskLayoutBase.cc",SI+"TPCModuleImpl.cc"],
 [("index packing","getPadIndex/getRowNumber/getPadNumber/getPadsInRow of each layout")])
prop("C08","The nearest pad is the pad with the smallest distance",
 "For every point of the plane and every pad layout, the pad reported as nearest is a valid pad of the layout (the search always ends), is the pad containing the point whenever one does, and no other pad has a smaller distance to the point (in rectangular layouts: the row is chosen by the distance in y to the pad rows, then the nearest pad of that row). In particular the centre of a pad is always nearest to that pad, however the azimuth of the point is expressed (shifted by full turns).",
 ["configurations","inputs"],"every layout configuration in the grid and every point of a mesh with cell corners (to the last bit), edges, centres, points outside all four sides and azimuths shifted by whole turns",
 "Tests check a handful of points in one or two layouts and never the wrap-around or outside region.",
 [SI+"FixedPadSizeDiskLayout.cc",SI+"FixedPadAngleDiskLayout.cc",SI+"RectangularPadRowLayout.cc",SI+"VersatileDiskRowLayout.cc"],
 [("nearest pad search","getNearestPad of each layout")])
prop("C09","Inside-pad tests and pad distances agree with the pad geometry",
 "In every pad layout a point is inside a pad exactly when it lies within the pad's metal area (fixed-size and rectangular layouts) or effective cell (fixed-angle and versatile layouts); the distance to a pad is zero inside its effective area (pitch times row height) and otherwise the Euclidean distance to the boundary of that area. A point is inside some pad exactly when it is inside at least one individual pad, and pads do not overlap.",
 ["configurations","inputs"],"every layout configuration in the grid, every pad and every point of the mesh",
 "Tests check a handful of points against single pads.",
 [SI+"FixedPadSizeDiskLayout.cc",SI+"FixedPadAngleDiskLayout.cc",SI+"RectangularPadRowLayout.cc",SI+"VersatileDiskRowLayout.cc",SI+"FixedDiskLayoutBase.cc"],
 [("containment and distance","isInsidePad/getDistanceToPad of each layout")])
prop("C10","Left and right pad neighbours are mutual and geometrically adjacent",
 "In every pad layout, the right neighbour of the left neighbour of a pad (and vice versa) is the pad itself, neighbours lie in the same row one pitch apart, and following one direction visits every pad of the row. At the ends of a row that does not close on itself asking for the missing neighbour raises an exception, while in rows that form a full circle the ends are neighbours of each other.",
 ["configurations"],"every pad of every layout configuration in the grid, including full-circle and partial rows and single-pad rows",
 "Tests do not follow neighbours at row ends or around full circles.",
 [SI+"FixedPadSizeDiskLayout.cc",SI+"FixedPadAngleDiskLayout.cc",SI+"RectangularPadRowLayout.cc",SI+"VersatileDiskRowLayout.cc",SI+"FixedDiskLayoutBase.cc"],
 [("neighbour computation","getLeftNeighbour/getRightNeighbour of each layout")])
prop("C11","Plane and module extents enclose all pads",
 "The plane extent reported by a pad layout or module encloses every point of every pad in the coordinate system it is reported in, and is tight for the pad layout's own coordinates; the module extent additionally encloses the border. The extent of the whole TPC is the envelope of its modules' extents.",
 ["configurations"],"every layout configuration, module offset, rotation angle, border and coordinate type in the grid, and every set of up to three modules",
 "The tests print extents of one set-up without comparing them with the pads.",
 [SI+"TPCModuleImpl.cc",SI+"TPCParametersImpl.cc",SI+"RectangularPadRowLayout.cc",SI+"VersatileDiskRowLayout.cc"],
 [("extent conversion",SI+"TPCModuleImpl.cc"),("envelope",SI+"TPCParametersImpl.cc")])
prop("C12","Copies are equal to and independent of their originals",
 "A copy, clone or assignment (including chained, repeated and self-assignment) of any pad layout, module, TPC or layer description answers every query like the original and carries its named parameters. Changing or destroying either of the two never affects the other, in any order of operations.",
 ["histories"],"all sequences of copy, clone, assign, modify and destroy operations up to the depth bound over two or three objects",
 "No test copies, assigns or destroys these objects in more than one order.",
 [SI+"TPCModuleImpl.cc",SI+"TPCParametersImpl.cc",SI+"RectangularPadRowLayout.cc",SI+"VersatileDiskRowLayout.cc",SI+"FixedPadAngleDiskLayout.cc",I+"gearimpl/TPCModuleImpl.h"],
 [("copy constructors and assignment","copy_and_assign/cleanup/clone in TPCModuleImpl, TPCParametersImpl and the pad layouts")])
prop("C13","Module coordinate transforms are exact inverse rigid motions",
 "For every module placement (offset, angle, coordinate types, positive or negative half TPC) converting a point from local to global coordinates and back returns the point, and distances between points are preserved. The transform is the rotation by the module angle followed by the offset, with x mirrored exactly for modules on the side with negative drift direction, and all geometry queries of the module equal those of its pad layout seen through this transform.",
 ["configurations","inputs"],"every placement in the grid of offsets, angles, z positions, coordinate types and layouts, and every point of the mesh",
 "The tests use two placements and positive offsets.",
 [SI+"TPCModuleImpl.cc"],
 [("coordinate conversion",SI+"TPCModuleImpl.cc globalToLocal/localToGlobal")])
prop("C14","The state of a module depends only on the values set, not their order",
 "After any sequence of setting offset, angle, border width, z position and readout frequency on a module, every query answers as for a module on which only the last value of each was set once.",
 ["histories"],"all setter sequences up to the depth bound over small value alphabets, for each layout and coordinate type",
 "Tests set each value once, in one order.",
 [SI+"TPCModuleImpl.cc"],
 [("derived extents recomputed on each setter",SI+"TPCModuleImpl.cc")])
prop("C15","A TPC's module list is a faithful registry under every history",
 "After any sequence of adding modules, a TPC contains exactly the accepted modules in the order they were added, each found by its identifier, and queries by unknown identifier raise an exception. A module with a duplicate identifier or the wrong coordinate type is rejected with an exception and leaves the TPC unchanged; single-module convenience queries succeed only when there is a single (untransformed, for the pad layout) module.",
 ["histories"],"all sequences of additions (valid, duplicate, wrong coordinate type) up to the depth bound",
 "Tests add modules once from a valid file.",
 [SI+"TPCParametersImpl.cc"],
 [("module registry",SI+"TPCParametersImpl.cc addModule/getModule")])
prop("C16","TPC point queries pick the right module, pad and half",
 "For every point, the nearest module of a TPC is the one with the smallest module distance among the modules of the half selected by z (all modules when no z is given), the nearest pad is the one with the smallest distance among the pads that are nearest in each module of that half, and inside-module and inside-pad are true exactly when they are true for some module of that half. The distance to a module is zero inside its sensitive area and otherwise the Euclidean distance to it. The halves meet at the cathode: half way between the first module with a z position of the negative and of the positive half, or one maximal drift length from it if only one half has any, at 0 without modules with a z position; the negative half includes the cathode.",
 ["configurations","inputs"],"all sets of up to three modules from a placement grid (both halves and prototype z=0) and every point of the mesh including both signs of z",
 "Tests use one geometry with few points and no two-end-plate geometry.",
 [SI+"TPCParametersImpl.cc",SI+"TPCModuleImpl.cc"],
 [("module search",SI+"TPCParametersImpl.cc getNearestModule/getNearestPad/isInsideModule"),("distance",SI+"TPCModuleImpl.cc getDistanceToModule")])
prop("C17","Named parameters behave as typed maps under every history",
 "After any sequence of setting named integer, real, text and vector parameters, each lookup returns the value last set under that name and type, the key listings are exactly the names set, the same name may be used independently for different types, and lookup of a name never set raises an unknown-parameter exception. Copies carry all parameters and are independent.",
 ["histories"],"all sequences of set and get operations up to the depth bound over two names, two values and six types",
 "Tests read parameters of a fixed file.",
 [SI+"GearParametersImpl.cc",I+"gearimpl/GearParametersImpl.h"],
 [("typed maps",SI+"GearParametersImpl.cc")])
prop("C18","The geometry manager returns exactly what was registered",
 "After any sequence of registering detectors, field, name, user sections and materials, each query returns what was last registered for that slot, a slot never filled raises an unknown-parameter exception, and no registration affects another slot or the named parameters of the registered object (except that a forward calorimeter - LCal, LHCal, BeamCal - without a beam crossing angle gains the value 0). Registering a material under an existing name is rejected without changing the first one, the manager owns what was registered and destroys it exactly once.",
 ["histories"],"all registration sequences up to the depth bound over all slots, with re-registration of the same and of different objects",
 "Tests only query managers filled once from a file.",
 [SI+"GearMgrImpl.cc",I+"gearimpl/GearMgrImpl.h"],
 [("slots",SI+"GearMgrImpl.cc")])
prop("C19","Damaged description files are refused cleanly",
 "For every damaged description file (cut off at any byte, an element or attribute removed, renamed or duplicated, or a value replaced by garbage) loading either succeeds or raises the library's own exception; it never crashes, hangs or corrupts memory, and a file that ends before the description is complete is always refused. After a failed load the reader does not hand out a partially built geometry on a later call.",
 ["fault_sequences","inputs"],"every truncation point and every single element/attribute fault of reference files covering all detector types, each followed by a retry",
 "No test loads a damaged file.",
 [SX+"GearXML.cc",SX+"tinyxmlparser.cc",SX+"XMLHandlerMgr.cc","src/gearxml/*XML.cc"],
 [("error handling of the reader",SX+"GearXML.cc createGearMgr"),("parser",SX+"tinyxmlparser.cc")])
prop("C20","Merging two descriptions keeps everything, the dominant file wins",
 "Merging two description files yields a file with every detector, material, user section, magnetic field and named parameter of either input; items are identified by their name, and where both define the same item the dominant file's values are kept (the second file unless the first is declared dominant). Merging a file with itself changes nothing, the inputs are unchanged, and the result does not depend on earlier merges with the same merger. Inputs that are damaged or missing, and inputs that define the same item with a different number of repeated parts (such as calorimeter layers), make the merge report failure or raise the library's exception instead of crashing.",
 ["configurations","fault_sequences"],"all pairs of files over a small alphabet of detectors, parameters and values, both dominance settings, and every single damaged input",
 "The merge tests use one pair of files and are not part of the passing set.",
 [SX+"MergeXML.cc",I+"gearxml/MergeXML.h"],
 [("recursive merge",SX+"MergeXML.cc")])
prop("C21","Text survives the XML layer whatever characters it contains",
 "Any attribute value written through the XML layer is read back unchanged, including quotes, apostrophes, ampersands, angle brackets, line breaks and other control characters and non-ASCII text; element text is read back unchanged except that runs of white space become one blank and white space at its ends is dropped; and the structure (element nesting, order, attribute set, comments without a double hyphen, declarations) of any document is preserved by print and parse. Printing a parsed document again yields the same bytes.",
 ["inputs"],"all strings up to a length over an alphabet of special and ordinary characters as attribute values, and all element trees up to a size",
 "Example files contain only plain alphanumeric values.",
 [SX+"tinyxml.cc",SX+"tinyxmlparser.cc"],
 [("entity escaping and parsing",SX+"tinyxml.cc PutString, "+SX+"tinyxmlparser.cc GetEntity/ReadText")])
prop("C22","Planar-silicon point classification matches the ladder geometry",
 "For every planar silicon barrel and every point in space, the point is reported inside a ladder (or its sensitive area) exactly when it lies in one of the rectangular boxes defined by the layer's number of ladders, phi offset, radius, thickness, width, length, shift and the central gap, and the reported layer and sensor numbers are those of the box that contains it. The result does not depend on how azimuth happens to be normalised or on the shift by one ladder period. The maximum radius and the angular ranges reported for a layer enclose exactly its boxes.",
 ["configurations","inputs"],"all layer configurations in the grid (1 to many ladders, any phi offset, shift, gap) and a mesh of points in every ladder's own frame",
 "The test checks points of one geometry with printed output only.",
 [SI+"ZPlanarParametersImpl.cc",SI+"ZPlanarLayerLayout.cc"],
 [("phi-range search",SI+"ZPlanarParametersImpl.cc isPointInLadder")])
prop("C23","Vector to the nearest ladder is the shortest way to any ladder",
 "For every planar silicon barrel and every point in space, adding the reported vector to the point leads to a point on or inside a ladder (or sensitive area), and no ladder is closer than the length of that vector. Inside a ladder the vector is zero.",
 ["configurations","inputs"],"all layer configurations in the grid and a mesh of points, including points on the beam axis, beyond the ends and far away",
 "The test checks one geometry with random points without an oracle.",
 [SI+"ZPlanarParametersImpl.cc"],
 [("nearest search",SI+"ZPlanarParametersImpl.cc distanceToNearestLadder")])
prop("C24","Line intersection with planar silicon finds the first ladder hit",
 "For every planar silicon barrel, starting point and direction, the reported intersection is the point where the straight line first crosses the surface of a ladder (or sensitive area) in the forward direction (the exit, for a start inside one), and the null vector is reported exactly when the line misses every ladder. The reported point lies on the line and on a ladder.",
 ["configurations","inputs"],"all layer configurations in the grid and all combinations of start points and directions in the mesh",
 "The test checks one geometry with random lines without an oracle.",
 [SI+"ZPlanarParametersImpl.cc"],
 [("plane-line intersection",SI+"ZPlanarParametersImpl.cc intersectionLadder")])
prop("C25","Forward-disk positions obey mirroring and stagger rules",
 "For any number of disks, the negative-side disks are the mirror images of the positive-side ones with the same parameters, odd and even petals are displaced by the stagger distance in opposite directions, and support, sensors and their thicknesses are stacked without overlap in the documented order on each side. Indexing covers exactly the positive disks followed by the negative ones.",
 ["configurations"],"all disk lists up to a length over a small alphabet of disks, every petal and sensor of both sides",
 "The tests print one seven-disk geometry and are not in the passing set.",
 [SI+"FTDParametersImpl.cc",SI+"FTDLayerLayoutImpl.cc",I+"gearimpl/FTDParametersImpl.h"],
 [("z stacking",SI+"FTDLayerLayoutImpl.cc"),("side-equivalent layer index",SI+"FTDLayerLayoutImpl.cc getEquivLayer")])
prop("C26","Telescope planes report exactly the values of their plane",
 "For every list of telescope planes added in any order, each query for plane i returns the value given for the i-th plane (a plane added without rotations has rotations of zero), and the device under test keeps its own values. The same holds of the material and sensitive layers of tracker planes, in any number, and looking up an identifier yields the first plane that has it or none. Out-of-range plane numbers are never answered with data: they raise an exception or yield no plane.",
 ["configurations","histories"],"all sequences of plane additions up to the depth bound with all attributes distinct",
 "The test reads one telescope file and only prints it.",
 [SI+"SiPlanesLayerLayout.cc",I+"gearimpl/SiPlanesLayerLayoutImpl.h",I+"gearimpl/TrackerPlanesLayerLayoutImpl.h",SI+"SiPlanesParametersImpl.cc"],
 [("plane vector",SI+"SiPlanesLayerLayout.cc addLayer"),("tracker plane vectors",I+"gearimpl/TrackerPlanesLayerLayoutImpl.h")])
prop("C27","Calorimeter layers stack up consistently",
 "For every sequence of layer groups and individually positioned layers, the number of layers is the total requested, each layer has the thickness, cell sizes and absorber of its group, and each layer's distance is the previous distance plus the previous thickness (or the position given). The calorimeter's extent starts at its inner surface and ends at the end of the last layer, with the values belonging to its layout type.",
 ["histories","configurations"],"all sequences of layer additions up to the depth bound over a small alphabet, for each calorimeter layout type",
 "Tests use fixed files with long uniform stacks.",
 [SI+"LayerLayoutImpl.cc",SI+"CalorimeterParametersImpl.cc"],
 [("cumulative distance",SI+"LayerLayoutImpl.cc"),("extent",SI+"CalorimeterParametersImpl.cc")])
prop("C28","Measurement-surface coordinates and boundaries are consistent",
 "For every measurement surface (any translation and rotation of its Cartesian system) converting a point to local coordinates and back returns it, distances are preserved, the local axes agree with the rotation, and a point is inside the surface boundary exactly when its local coordinates satisfy the boundary's limits.",
 ["configurations","inputs"],"all rotations and translations in the grid, all boundary shapes and all mesh points",
 "No stable test touches surfaces.",
 [SS+"CartesianCoordinateSystem.cc",SS+"BoundaryRectangle.cc",SS+"BoundaryTrapezoid.cc",SS+"MeasurementSurface.cc"],
 [("coordinate transforms",SS+"CartesianCoordinateSystem.cc"),("boundaries",SS+"BoundaryRectangle.cc")])
prop("C29","The surface store finds every surface by its identifier",
 "After filling, looking up any identifier returns exactly the surface registered with it and unknown identifiers raise an exception; registering the same identifier twice is rejected, and the store can be filled only once. A refused attempt leaves nothing behind, copies of a store find the same surfaces, and all this holds for any set of identifiers, in any order of registration and after any sequence of filling attempts.",
 ["histories"],"all registration and fill sequences up to the depth bound over a small identifier alphabet",
 "No stable test touches the surface store.",
 [SS+"MeasurementSurfaceStore.cc"],
 [("identifier map",SS+"MeasurementSurfaceStore.cc")])
prop("C30","Vector algebra and pad-index ordering obey their laws",
 "Three-dimensional vectors satisfy the algebraic laws of addition, scaling, dot and cross product and coordinate conversion between Cartesian, cylindrical and spherical views; points built in any view report the same values in that view. The global pad index order is a strict total order consistent with equality, so that it can key a sorted container.",
 ["inputs"],"all vectors over a small coordinate alphabet including zeros and both signs, and all pairs and triples of module and pad numbers in the alphabet",
 "Tests use vectors only incidentally.",
 [I+"gearimpl/Vector3D.h",I+"gearimpl/Vectors.h",I+"gearimpl/GlobalPadIndex.h",SI+"GlobalPadIndex.cc"],
 [("vector class",I+"gearimpl/Vector3D.h"),("ordering",I+"gearimpl/GlobalPadIndex.h")])
prop("C31","Printing any geometry is total and does not change it",
 "Every description that the library can hold can be printed, whatever detectors are present or absent, without raising an exception, whatever values and texts it holds, and printing never changes the answer of any later query nor the formatting of the stream. Printing the same description twice produces the same text, and the text contains every part that is present with its values and named parameters.",
 ["configurations"],"all subsets of detector slots, printed twice, with single-instance fillings of all detector types",
 "The print tests cover the detectors of a few files and only check the exit code.",
 [SI+"Util.cc",I+"gearimpl/Util.h"],
 [("stream operators",SI+"Util.cc")])
prop("C32","Material budgets along a line agree with the attached geometry model",
 "Between any two points inside the ROOT geometry, the radiation and interaction lengths, the traversed volumes, the materials and their thicknesses are those of the straight line between them, also where it ends in or leaves through the outermost volume or cuts a corner closely; a line between equal points has none, and a point or start outside is refused. The properties of a point (material, density, temperature, pressure, lengths, local position, volumes around it) are those of the innermost volume there. Every answer depends only on the points asked for, whatever was asked or refused before, and the services made for a file are those of that file.",
 ["inputs","histories"],"all ordered pairs of points of a grid in geometries of boxes, and all histories of queries of both services up to a depth",
 "The test of this part needs ROOT and is not part of the passing set; it prints values without judging them.",
 ["src/geartgeo/TGeoGearDistanceProperties.cc","src/geartgeo/TGeoGearPointProperties.cc","src/geartgeo/TGeoGeometryInitializer.cc","src/geartgeo/TGeoMaterialProperties.cc"],
 [("line integration","src/geartgeo/TGeoGearDistanceProperties.cc beamOn"),("point properties","src/geartgeo/TGeoGearPointProperties.cc"),("plugin","src/geartgeo/TGeoMaterialProperties.cc")])
prop("C33","A description is written completely or the failure is reported",
 "Whenever writing a description file or a merged file returns without reporting an error, the file contains the complete description. If the file cannot be opened, or the disk becomes full or a write fails after any number of bytes, the writer raises the library's exception (the merger reports failure), and the description in memory is unchanged and can be written again. A description holding something the file format cannot express (a field, pad layout or technology of an own type) is likewise reported instead of being written without it.",
 ["fault_sequences","crash_points"],"every number of bytes after which writing fails, for files of different sizes and content, every kind of unwritable target, and all pairs of inexpressible items",
 "No test makes a write fail.",
 [SX+"GearXML.cc",SX+"tinyxml.cc",SX+"MergeXML.cc"],
 [("file output",SX+"tinyxml.cc SaveFile"),("writer",SX+"GearXML.cc createXMLFile")])
prop("C34","An XML tree is exactly what the sequence of edits made it",
 "After any sequence of edits of an XML document through its public interface (insertions at the end and before or after a child, replacements, removals, clearing, setting and removing attributes, changing values, copying subtrees, copying and assigning elements and documents, also to themselves) the tree, seen through every way of walking it (children forwards and backwards, by name, elements only, handles by name and index, parents, attributes), is exactly the ordered tree the edits describe; nodes copied from are unchanged, edits that are not possible are refused and change nothing, and the written file describes that tree.",
 ["histories"],"all sequences of edits up to a depth from several starting trees",
 "The tests edit no tree.",
 [SX+"tinyxml.cc","include/gear/gearxml/tinyxml.h"],
 [("tree edits",SX+"tinyxml.cc InsertEndChild/InsertBeforeChild/InsertAfterChild/ReplaceChild/RemoveChild"),("copying",SX+"tinyxml.cc operator=/CopyTo/Clone")])
prop("C35","However a description file is spelled, it gives the geometry the format says",
 "Every well-formed spelling of a geometry description (any order of attributes and of sibling elements whose order means nothing, quotes of either kind, white space and line breaks wherever XML allows them, comments anywhere between the elements, also with contents that read like element names or markup, character references for any character, empty elements in either form, optional attributes present with their default or left out, numbers in any of their usual notations, repeated layers and rows written out or with repeat, modules in several sections) is read as exactly the geometry that an independent reading of the file format gives; no item is dropped, doubled, shifted or given another item's values. A file that lacks something the format requires is refused.",
 ["inputs"],"all single and pairs of spelling changes at every place of the files of every detector type, against an independent reader of the format",
 "The tests read a handful of files, mostly the ones written by the library itself.",
 [SX+"GearXML.cc",SX+"GearParametersXML.cc",SX+"CalorimeterParametersXML.cc",SX+"TPCParametersXML.cc",SX+"FTDParametersXML.cc",SX+"VXDParametersXML.cc",SX+"ZPlanarParametersXML.cc",SX+"SiPlanesParametersXML.cc",SX+"TrackerPlanesParametersXML.cc",SX+"tinyxmlparser.cc"],
 [("reading a file",SX+"GearXML.cc GearXML::createGearMgr"),("detector handlers",SX+"*ParametersXML.cc fromXML"),("parser",SX+"tinyxmlparser.cc TiXmlElement::Parse")])
prop("C36","The handler registered last for a detector type reads the detectors of that type",
 "After any sequence of registrations of handlers for detector types (new types, replacing handlers of built-in types, registering none or again the handler that is present, registering while a file is read) and of readings of files, a lookup gives the handler registered last for exactly that type, or none for types never registered; the handlers of other types stay; replaced handlers are deleted exactly once, those in use not before the end of the program; every detector in a file is read once, in file order, by the handler of its type, into the geometry that is returned; a file with a detector whose type has no handler or whose handler fails is refused.",
 ["histories"],"all sequences of registrations, lookups and readings up to a depth",
 "The tests register no handler.",
 [SX+"XMLHandlerMgr.cc",SX+"GearXML.cc"],
 [("registration",SX+"XMLHandlerMgr.cc XMLHandlerMgr::setHandler"),("lookup",SX+"XMLHandlerMgr.cc XMLHandlerMgr::getHandler")])
prop("C37","Reading, writing, merging and printing do not depend on what was done before",
 "Whatever was read, refused, built, written, merged, printed or dropped before in the same program, and in which order, reading a file gives the same geometry, writing and merging give the same bytes, printing gives the same text and an impossible request is refused with the same message as in a program that does nothing else. No operation changes another geometry that is alive.",
 ["histories"],"all histories of whole operations up to a depth, each outcome compared with the one in a fresh program",
 "Each test does one thing in its own process or in one fixed order.",
 [SX+"GearXML.cc",SX+"MergeXML.cc",SX+"XMLHandlerMgr.cc",SX+"PadRowLayout2DXML.cc",SX+"tinyxml.cc","src/gearimpl/Util.cc"],
 [("reading and writing",SX+"GearXML.cc GearXML::createGearMgr/createXMLFile"),("merging",SX+"MergeXML.cc MergeXML::mergeFiles"),("printing","src/gearimpl/Util.cc operator<<")])
prop("C38","A query's answer depends on the object and the arguments only",
 "Every query of every geometry class (pads, modules, detectors, ladders, disks, planes, layers, parameters, sections, materials, surfaces) gives bit for bit the same answer however often it is asked, whatever other queries with whatever arguments were asked before of this or another object, and whether or not another object lived at the same place before; also requests that are refused leave later answers as they are. Lists handed out keep showing the same content while further queries are asked.",
 ["histories"],"all sequences of queries and object replacements up to a depth on pairs of objects of every class",
 "The tests ask each query once or in one order.",
 ["src/gearimpl/FixedPadSizeDiskLayout.cc","src/gearimpl/FixedPadAngleDiskLayout.cc","src/gearimpl/RectangularPadRowLayout.cc","src/gearimpl/VersatileDiskRowLayout.cc","src/gearimpl/TPCModuleImpl.cc","src/gearimpl/TPCParametersImpl.cc","src/gearimpl/ZPlanarParametersImpl.cc","src/gearimpl/FTDLayerLayoutImpl.cc","src/gearimpl/GearMgrImpl.cc","src/gearimpl/GearParametersImpl.cc","src/gearsurf/MeasurementSurface.cc"],
 [("pad layouts","src/gearimpl/*Layout.cc"),("TPC","src/gearimpl/TPCModuleImpl.cc, TPCParametersImpl.cc"),("planar silicon","src/gearimpl/ZPlanarParametersImpl.cc"),("manager","src/gearimpl/GearMgrImpl.cc"),("parameters","src/gearimpl/GearParametersImpl.cc")])
prop("C39","A GDML reference gives the geometry the material services of that very file",
 "Reading a description with a GDMLFile element makes the material plugin once, names the referenced file to it before it is initialised, and the geometry handed out owns and returns exactly the point and distance services made for that file, none where the plugin gives none; without the plugin the description reads as if the reference were absent and asking for the services is refused. Whatever was read, failed, replaced or dropped before, every geometry keeps its own services, each is destroyed exactly once with its geometry, and a refused description leaves none behind. All other content of the geometry is what it is without the reference.",
 ["histories","fault_sequences"],"all histories up to a depth of plugin behaviours (absent, incomplete, failing) and reads, on several geometries alive",
 "No plugin library can be built here, so the tests never reach this code.",
 ["src/gearxml/GearXML.cc","include/gear/GearMaterialProperties.h","src/gearimpl/GearMgrImpl.cc"],
 [("reader","src/gearxml/GearXML.cc createGearMgr"),("plugin factory","include/gear/GearMaterialProperties.h"),("manager","src/gearimpl/GearMgrImpl.cc setPointProperties, setDistanceProperties")])
prop("C40","The angular view of a silicon ladder agrees with its cross section",
 "The start and end angles of the inner and outer face of a layer's first ladder (sensitive or not) are the directions of the corners of the rectangle its distance, thickness, width and offset describe, measured from the ladder's normal at pi/2 minus its phi0, also when the offset exceeds half the width. The thickness seen under any angle is the length of the straight line from the origin inside that rectangle, the same for angles that differ by full turns, and -1 exactly when the line misses the rectangle.",
 ["inputs","configurations"],"all layer shapes of a grid and all angles of a full turn in steps, with every corner approached from both sides",
 "The tests only check that the values written and read are the same.",
 ["src/gearimpl/ZPlanarLayerLayout.cc","include/gear/gearimpl/ZPlanarLayerLayoutImpl.h"],
 [("angular view","src/gearimpl/ZPlanarLayerLayout.cc getStartInnerPhi/getEndInnerPhi/getStartOuterPhi/getEndOuterPhi/getThicknessForPhi")])
prop("C41","A material map holds and interpolates the budget of its grid points",
 "For every valid range, number of steps and coordinate system, a material map gives at each of its grid points, the last of every axis included, the radiation and interaction length of the straight line from the origin to that point; between the grid points of a cell it gives their mean weighted with the inverse distance; a point outside the range is refused and an invalid range or coordinate system is refused when the map is made. A factory gives the same map for the same request and different maps for requests that differ in anything, also after refused requests.",
 ["inputs","histories"],"all triples of axes in three coordinate systems, every grid point and several points per cell, and all sequences of requests to a factory up to a depth",
 "No test makes a material map; the library with it is only built where ROOT is installed.",
 ["src/geartgeo/MaterialMap.cc","src/geartgeo/MaterialMapFactory.cc","include/gear/geartgeo/MaterialMap.h"],
 [("grid","src/geartgeo/MaterialMap.cc MaterialMap::MaterialMap"),("interpolation","src/geartgeo/MaterialMap.cc interpolateOnGrid"),("factory","src/geartgeo/MaterialMapFactory.cc createMaterialMap")])
prop("C42","The Mokka back end answers with the material of the attached simulation",
 "The services of the Mokka back end give for every point and line the material, lengths, volumes and cell identifiers that the attached simulation has there, in the units of the interface.",
 ["inputs"],"all points and pairs of points in the detector volume",
 "The back end needs the Mokka simulation and is never compiled in the tests.",
 ["src/gearcga/CGAGearDistanceProperties.cc","src/gearcga/CGAGearPointProperties.cc","src/gearcga/CGAGeometryInitializer.cc"],
 [("back end","src/gearcga/*.cc")])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
