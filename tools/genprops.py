#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Header metadata is decoded faithfully",
 "For every well-formed composite header - any product label, any subset of the optional fields, in any order, of any length - the parsed composite reports exactly the product, capture time (UTC), forecast time (capture time plus the forecast minutes, UTC as well), interval (minutes; tens of minutes for W1-W4), width, height and format version that the header states. Absent optional fields leave their documented defaults (forecast = capture time, zero interval, format 0, precision 10^0). A field's value is only ever taken from that field's own text, never from a neighbouring field.",
 ["inputs"],"all products, calendar dates, forecast/interval/format numbers, dimension pairs, field subsets and orders, header lengths",
 "The two header tests fix one PG and one FZ header; field order, subsets, dates across the century, W products and long headers are never varied.",
 ["header.go","radolan.go"],[("field splitting and per-field scanning","header.go:splitHeader, parseHeader")],
 [("header fields","field name -> field text","header.go:splitHeader")],["NewComposite result: Product, CaptureTime, ForecastTime, Interval, Dx, Dy, Px, Py, Format, DataUnit"])

p("C02","Little-endian cells decode to the right value at the right pixel",
 "For every composite whose data section has two bytes per cell, the value at (x, y) is the 12-bit magnitude of the corresponding cell times 10^precision, negated if the sign flag is set, NaN exactly when the no-data flag is set, and - for products whose unit is dBZ - mapped by v/2 - 32.5. The remaining two flag bits do not alter the value. Rows are stored bottom row first, so file row i appears as image row (height-1-i); columns run left to right.",
 ["inputs"],"all 65536 cell values x precisions x units x widths and heights",
 "No test ever decodes a data section; flags, sign, precision and orientation have no test at all.",
 ["littleendian.go","conversion.go","data.go"],[("cell decoding, row flip","littleendian.go"),("precision and dBZ scaling","conversion.go")],
 [],["NewComposite result: PlainData, Data, DataZ, At"])

p("C03","Single-byte cells decode to the right value at the right pixel",
 "For every composite whose data section has one byte per cell, the value at (x, y) is the byte times 10^precision, NaN exactly when the byte is 250, and - for products whose unit is dBZ - mapped by v/2 - 32.5. Rows are stored bottom row first, so file row i appears as image row (height-1-i); columns run left to right.",
 ["inputs"],"all 256 cell values x precisions x units x widths and heights",
 "No test ever decodes a data section.",
 ["singlebyte.go","conversion.go","data.go"],[("cell decoding, row flip","singlebyte.go"),("precision and dBZ scaling","conversion.go")],
 [],["NewComposite result: PlainData, Data, DataZ, At"])

p("C04","Run-length rows decode to the right level at the right pixel",
 "For every composite whose header carries a level table, each newline-terminated row - one line-number byte, then an offset (each byte contributes its value minus 16; 255 means that another offset byte follows), then bytes [count|index] - yields at each covered column the level with that 1-based index and NaN for index 0, for indices beyond the table, and for every column not covered by a run. Rows appear in file order and level values are those written in the header. A row whose offset byte is below 16 or whose runs pass the right edge makes parsing fail with an error.",
 ["inputs","histories"],"all byte sequences of a row (as transitions of the row decoder), level tables, widths and heights",
 "No test decodes a run-length row; the row decoder is a stateful automaton over unbounded byte strings.",
 ["runlength.go","header.go","data.go"],[("row reading and row automaton","runlength.go:readLineRunlength, decodeRunlength"),("level table","header.go:parseHeader")],
 [("row decoder","offset mode / run mode, destination column","runlength.go:decodeRunlength")],["NewComposite result and error"])

p("C05","Data geometry and encoding are determined by the header",
 "Whether the data section is run-length, two bytes per cell or one byte per cell is decided only by the presence of a level table and by the stated total length minus the header's length; any other length is rejected with an error. On success the plain data has exactly the stated plain dimensions, is split downwards into height-sized layers when it divides evenly and otherwise only the bottom-most rows are kept, and Data is the first layer; every layer has Dy rows of Dx values and the layer count equals Dz. Layers, Data and plain data show the same values.",
 ["inputs","configurations"],"all stated lengths around the data size, all small dimension pairs, all products with catalogued dimensions",
 "Tests stop after the header; no test reaches encoding selection or layering.",
 ["data.go","header.go","catalog.go"],[("encoding selection","data.go:identifyEncoding"),("layer arrangement","data.go:arrangeData")],
 [],["NewComposite result: PlainData, Px, Py, Data, DataZ, Dx, Dy, Dz"])

p("C06","Point access is total and agrees with the data",
 "At and AtZ never panic, whatever integers they are given and however the composite was obtained (parsed, dummy, or returned together with an error). Inside the volume they return exactly the stored voxel value, and outside it in any coordinate they return NaN; At is AtZ at layer 0. Every cell has a memory location of its own: a value that the caller stores in DataZ (Data for layer 0) is what At and AtZ return there from then on, and no other cell changes.",
 ["inputs"],"all integer coordinates around and far outside every composite shape, all ways of obtaining a composite",
 "Neither accessor has a test; the guarantee is about every coordinate including extremes.",
 ["radolan.go"],[("bounds check","radolan.go:AtZ")],[],["At, AtZ"])

p("C07","Malformed input is rejected with an error, never a crash",
 "For every finite byte sequence NewComposite and NewComposites return; they never panic and never request memory far beyond any real composite because of header numbers or the size an archive member claims. A composite is only reported as successful if header and data section are complete: a header that is too short or lacks its length, valid date or dimensions, has an unparsable, missing or inconsistent field value, states non-positive or absurd dimensions or a length matching no encoding, or a data section that ends early or is undecodable, yields a non-nil error. Bytes after a complete data section are ignored.",
 ["inputs"],"all truncations, single-byte substitutions, deletions and insertions of representative files, and all combinations of ill-formed field texts",
 "Tests only feed two well-formed headers.",
 ["header.go","data.go","runlength.go","littleendian.go","singlebyte.go","radolan.go"],[("validation of header fields","header.go:parseHeader"),("dimension check and encoding check","data.go:parseData"),("short-read detection","littleendian.go, singlebyte.go, runlength.go")],
 [],["NewComposite, NewComposites error results and panics"])

p("C08","Results do not depend on how the input is delivered",
 "Parsing gives the same composite however the reader splits the same bytes over Read calls, including one byte at a time, empty reads, and an end-of-file reported together with the last bytes. If the reader fails or ends before the data section is complete, at whatever byte, parsing returns a non-nil error; if it fails only after all required bytes were delivered the result is unaffected. The same holds for archives, which extend to the end of the input.",
 ["fault_sequences","inputs"],"all read boundaries up to a number of deviations, all uniform chunk sizes, a fault of each kind at every byte",
 "Tests use one in-memory reader that returns everything at once.",
 ["radolan.go","header.go","littleendian.go","singlebyte.go","runlength.go"],[("buffered reading, full reads","radolan.go:NewComposite; readLine*")],
 [],["NewComposite, NewComposites"])

p("C09","Archives yield every composite, in forecast order, or an error",
 "For every .tar.bz2 stream of composites NewComposites returns exactly one composite per archive member, each equal to what parsing that member alone gives, sorted by ascending forecast time regardless of archive order and member count. If any member cannot be parsed or the compressed stream is damaged or cut short, it returns an error and no composites.",
 ["inputs","histories"],"all archives of up to 5 members over all forecast-time assignments, larger archives under all rotations and transpositions, every truncation point",
 "NewComposites has no test.",
 ["radolan.go"],[("archive loop and chronological sort","radolan.go:NewComposites")],[],["NewComposites"])

p("C10","A projection is offered exactly for the known grids",
 "A composite - parsed or dummy - has a projection exactly when its dimensions are those of one of the five supported grids at some power-of-two resolution (a common factor) and its format version is below 5, or when it has the DE1200 dimensions (any format version). Its resolution then is grid extent divided by pixels (halving pixels doubles km per pixel), and a parsed composite projects exactly like a dummy with the same format and dimensions; without a projection Project returns NaN for every coordinate and - unless the product catalogue defines it - the resolution is NaN.",
 ["inputs","configurations"],"all dimension pairs up to several thousand x format versions 0..9",
 "Tests cover seven hand-picked dimension pairs and never a negative case.",
 ["projection.go"],[("grid detection","projection.go:minRes, detectGrid"),("calibration","projection.go:calibrateProjection")],
 [("resolution and offset","km per pixel, grid origin","projection.go:calibrateProjection")],["HasProjection, Rx, Ry, Project"])

p("C11","Spherical projection is accurate over the whole grid",
 "For every spherical-earth grid and resolution, Project maps the geographic coordinates of every pixel position to that pixel position within one metre: it is the polar stereographic projection (earth radius 6370.04 km, true at 60N, central meridian 10E) whose grid corners are at pixel (0,0) and (Dx,Dy). This holds at every latitude/longitude, inside or outside the grid, and repeated calls agree.",
 ["inputs"],"every pixel corner and centre of all grids at several resolutions; a world-wide latitude/longitude lattice",
 "TestProject samples five points per grid with 100 m tolerance and TestGrid's reference files are absent.",
 ["projection_sphere.go","projection.go"],[("spherical stereographic projection","projection_sphere.go:projectSphere"),("corner table","projection.go:cornerPoints")],
 [],["Project, Rx, Ry"])

p("C12","WGS84 projection is accurate over the whole DE1200 grid",
 "For the DE1200 grid with format version 5 or later, at every resolution, Project maps the geographic coordinates of every pixel position to that pixel position within one metre under the ellipsoidal WGS84 polar stereographic projection (a=6378137, b=6356752.3142451802, true at 60N, central meridian 10E); with an older format version the same dimensions use the spherical projection. This holds for every latitude/longitude inside or outside the grid.",
 ["inputs","configurations"],"every pixel of the DE1200 grid at several resolutions; world-wide lattice; format versions 0..9",
 "The single test checks the four corners at one resolution and one version.",
 ["projection_wgs84.go","projection.go"],[("ellipsoidal stereographic projection","projection_wgs84.go:projectWGS84"),("version-dependent selection","projection.go:calibrateProjection, cornerPoints")],
 [],["Project, Rx, Ry"])

p("C13","Z-R conversions implement Z = a*R^b and invert each other",
 "For every Z-R relationship with positive coefficients a, b, PrecipitationRate(dBZ) is the rate R with a*R^b = 10^(dBZ/10) and Reflectivity is its inverse, so converting forth and back returns the start value (to floating-point accuracy) and both are strictly increasing. The predefined relationships are (256, 1.42), (316, 1.5), (300, 1.5) and (200, 1.6). NaN reflectivity gives NaN rate, and IsNaN is true exactly for NaN values.",
 ["inputs"],"all reflectivities a composite can contain x a lattice of coefficients; all 2^32 float values for IsNaN (thorough)",
 "TestConversion samples four values with one relationship.",
 ["conversion.go"],[("coefficient caching and conversion","conversion.go:NewZR, PrecipitationRate, Reflectivity")],[],["PrecipitationRate, Reflectivity, NewZR, IsNaN"])

p("C14","Units follow the product catalogue and unknown units are signalled",
 "Every catalogued product is given its unit (mm, dBZ, km or m/s), and parsing returns ErrUnknownUnit exactly when the product is not catalogued and everything else is in order, together with a fully parsed composite that treats values as raw. The unit's name is printed accordingly.",
 ["inputs","configurations"],"all two-character product labels x all encodings",
 "Tests never check units; two products out of the label space are parsed.",
 ["catalog.go","header.go","radolan.go"],[("unit catalogue","catalog.go:unitCatalog"),("unknown unit error","radolan.go:NewComposite")],[],["DataUnit, Unit.String, error value"])

p("C15","Composites are isolated from each other under any history or schedule",
 "Every result depends only on its own input: it is the same whatever other parses, failures, projections or renderings happened before or run concurrently, in any order or interleaving. A composite, once returned, is never changed by later or concurrent operations on other composites, and modifying one composite's data never shows in another. Concurrent use of distinct composites (and read-only use of one) is free of data races.",
 ["schedules","histories"],"all operation sequences up to depth 3; all interleavings of operation pairs up to a preemption bound at statement granularity",
 "Tests run one operation at a time in one order and inspect results immediately.",
 ["radolan.go","data.go","header.go","littleendian.go","singlebyte.go","runlength.go","projection.go","radolan2png/vis/vis.go"],
 [("per-call state, no shared mutable globals","radolan.go:NewComposite; data.go:parse table; projection_wgs84.go:proj_DE1200_WGS84")],
 [("package-level variables","catalogues, parser table, projection parameters, predefined colour functions","data.go, catalog.go, projection_wgs84.go, vis.go")],
 ["all exported operations"],"build-time statement instrumentation of a scratch copy; nothing committed in /repo")

p("C16","Colour gradients are total, opaque and follow their definition",
 "Every gradient function returns an opaque colour for every float value including NaN and infinities. Graymap is black below its minimum and for NaN, rises monotonically with the compressed value and is white from its maximum on; Heatmap is black below its minimum and for NaN, and otherwise runs through the hue range from blue via red towards violet with rising lightness, constant from its maximum on; Radialmap shows negative values in cyan and others in red tones by compressed magnitude, clamps at the larger limit, marks magnitudes up to 1 with a fixed bright tint and shows NaN as black. The predefined gradients have these ranges and compressions: HeatmapReflectivityShort 5 to 75, HeatmapReflectivity 1 to 75, HeatmapReflectivityWide -32.5 to 75, HeatmapAccumulatedHour 0.1 to 100 and HeatmapAccumulatedDay 0.1 to 200 (both logarithmic), HeatmapRadialVelocity -31.5 to 31.5 (logarithmic), GraymapLinear 0 to 409.5, GraymapLinearWide 0 to 4095; Id compresses by nothing and Log by the natural logarithm.",
 ["inputs"],"all values decodable from a composite, dense value sweeps, special floats x gradient definitions",
 "The vis package has no tests.",
 ["radolan2png/vis/vis.go"],[("gradient closures","vis.go:Graymap, Radialmap, Heatmap")],[],["ColorFunc results"])

p("C17","Rendered images show every pixel of the chosen layer",
 "Image always returns a Dx x Dy image; for a valid layer the pixel (x, y) is the colour function applied to the value at (x, y) of that layer, for every pixel, and for any layer outside the composite's range the image is blank and nothing panics. The composite is left unchanged.",
 ["inputs"],"all small shapes, all layers in and around range, all products with layers",
 "The vis package has no tests.",
 ["radolan2png/vis/vis.go"],[("rendering loop","vis.go:Image")],[],["Image result"])

p("C18","radolan2png converts a composite file to the matching PNG",
 "For every valid composite file of a known unit, radolan2png exits 0 and writes a decodable PNG of Dx x Dy pixels in which every pixel is the data value's colour under the gradient for the product's unit (mm: logarithmic 0.1 to 100 for intervals up to an hour, 400 from a week on, 200 otherwise; dBZ: reflectivity gradient; km: gray 0-15; m/s: radial velocity gradient), except where the overlay is drawn. The overlay appears only when a projection is available: each German border point is marked yellow (FFFF00) at its projected pixel, and the mesh of whole degrees, sampled every tenth of a degree from 1.0E to 15.9E and 46.0N to 54.9N, is drawn in green (33FF22) over it. Standard output names the product label, the unit and the forecast time and, with a projection, the grid's extent in km.",
 ["inputs","configurations"],"all products x encodings x interval thresholds x grids, at small resolutions and full size",
 "The command has no tests; it is only compiled.",
 ["radolan2png/radolan2png.go","radolan2png/borders.go","radolan2png/vis/vis.go"],[("gradient choice, overlay, encoding","radolan2png.go:convert")],[],["output PNG, exit status"])

p("C19","A failed conversion is reported and never damages existing output",
 "Whenever radolan2png cannot produce the complete image - unreadable, truncated or malformed input, unknown unit, or an output that cannot be created or fully written - it exits with a non-zero status. If the input is at fault, no output file is created and an existing output file keeps its content. The input file is never modified - except that a complete image may replace it where it is itself named as the output -, and with missing arguments it prints its usage and touches nothing.",
 ["fault_sequences","inputs"],"input truncated at every byte, each malformed class, each output fault (missing directory, directory as output, full device)",
 "The command has no tests.",
 ["radolan2png/radolan2png.go"],[("parse before create, error exit","radolan2png.go:convert, care")],[],["exit status, file system"])

p("C20","Local radar products have their catalogued geometry and resolution",
 "For every local radar product, whose header carries no dimensions, the composite has the catalogued plain size, layer size, layer count and resolution in km per pixel (2 km for OL, PE, PL, PM, PZ; 1 km for the others): 200x224 products show the bottom 200 of the 224 rows, 200x2400 products have 12 layers of 200x200 in file order. Such products have no projection.",
 ["inputs","configurations"],"all catalogued local products x all three encodings, every row and layer",
 "No test parses a local product's data.",
 ["catalog.go","header.go","data.go","projection.go"],[("dimension catalogue","catalog.go:dimensionCatalog"),("layering and elevation strip","data.go:arrangeData"),("resolution","projection.go:calibrateProjection")],
 [],["Px, Py, Dx, Dy, Dz, Rx, Ry, DataZ"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x['title'])<=80
print(len(P))
