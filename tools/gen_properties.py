#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = ["inputs"]
prop("C01", "Parsing never panics, whatever the bytes",
 "For every byte stream, parsing a single composite or an archive of composites returns normally, with a value or an error. It never panics: no index or slice bound is exceeded, no allocation has an impossible size, nothing nil is dereferenced and nothing is divided by zero.",
 I, "every byte stream handed to NewComposite or NewComposites", "The tests parse two well-formed headers; the data decoders have no test at all. A crash needs a malformed header or row that no sample contains.",
 ["radolan.go","header.go","data.go","littleendian.go","singlebyte.go","runlength.go","projection.go"],
 [("length check on the header","header.go parseHeader"),("dimension check before allocation","data.go parseData"),("destination bound check","runlength.go decodeRunlength")],
 ["return of NewComposite / NewComposites"])
prop("C02", "Header-declared sizes are validated before memory is allocated",
 "While parsing, every allocation whose size comes from the input has a size that has been checked to be non-negative and below a fixed limit before the allocation happens. A forged header (dimensions, declared data length, level count) can therefore not request an arbitrary amount of memory in one allocation.",
 I, "every header: all dimension, length and level-count values", "Needs adversarial headers; tests use two genuine ones.",
 ["header.go","data.go","littleendian.go","singlebyte.go"],
 [("dimension check","data.go parseData"),("level count cross-check","header.go parseHeader")], ["allocation sites reached from NewComposite"])
prop("C03", "Every library operation terminates",
 "Parsing, projection set-up, coordinate projection, voxel access, unit conversion and image creation finish for every input, including zero and negative dimensions. Loops that consume a stream stop at its end and at its first error.",
 I, "every input of every exported function, and every reader that eventually ends or fails", "Non-termination needs degenerate dimensions or a failing stream; tests have neither.",
 ["projection.go","radolan.go","runlength.go","littleendian.go","singlebyte.go","header.go","data.go","radolan2png/vis/vis.go"],
 [("zero guard in the bisection loop","projection.go minRes"),("EOF/err exits","radolan.go NewComposites")], ["every loop reachable from the exported API"])
prop("C04", "Voxel access is total and agrees with the stored data",
 "For a composite obtained from the library, reading the value at any integer coordinates never panics. Inside the volume it is the stored voxel at exactly that x, y and layer; everywhere outside (including negative coordinates and composites without data) it is NaN. The two-dimensional accessor is the three-dimensional one at layer 0.",
 I, "all (x, y, z) integers and all composites built by NewComposite or NewDummy", "No test calls an accessor; out-of-range combinations per axis are unbounded.",
 ["radolan.go"], [("range guard","radolan.go AtZ"),("delegation","radolan.go At")], ["Composite.At","Composite.AtZ"])
prop("C05", "Parsed data has the advertised geometry",
 "After a successful parse the plain data has exactly its declared height and width, and the layered data has Dz layers of exactly Dy rows that are at least Dx wide. The layers are the consecutive Dy-row slices of the plain data when its height is a multiple of Dy, and otherwise the single layer formed by its bottom-most Dy rows; the 2D view is layer 0.",
 I, "every successfully parsed input", "No test parses a data section.",
 ["data.go","header.go","catalog.go"], [("row allocation","data.go parseData"),("layer split","data.go arrangeData")], ["Composite.PlainData/DataZ/Data/Px/Py/Dx/Dy/Dz"],
 [("PlainData, DataZ, Data","pixel matrices","radolan.go Composite")])
prop("C06", "A failing or truncated read or archive is never reported as success",
 "If reading the header, any data row, or any archive entry fails or comes up short, parsing returns a non-nil error. Success is only reported after every row of the image has been read completely and decoded.",
 ["inputs","fault_sequences"], "every stream, cut or failing at any byte", "Tests never truncate; each cut position is a separate case.",
 ["radolan.go","data.go","littleendian.go","singlebyte.go","runlength.go","header.go"],
 [("io.ReadFull per row","littleendian.go, singlebyte.go"),("error propagation","every caller")], ["error result of NewComposite / NewComposites"])
prop("C07", "The result does not depend on how the reader delivers the bytes",
 "Parsing gives the same result however the underlying reader splits the same bytes into reads (one byte at a time, short reads, data together with EOF). No parse step relies on a single read call returning all requested bytes, on buffered amounts, or on a row or header fitting an internal buffer.",
 ["inputs","schedules"], "every segmentation of every byte stream", "strings.Reader in the tests delivers everything at once.",
 ["littleendian.go","singlebyte.go","runlength.go","header.go"],
 [("io.ReadFull / ReadBytes / ReadString only","littleendian.go, singlebyte.go, runlength.go, header.go")], ["every read of the stream"])
prop("C08", "Unknown units are signalled exactly when the unit is unknown",
 "A parse that succeeded for a product without a catalogued unit returns the fully parsed composite together with the dedicated unknown-unit error. That error is never returned for a catalogued product, and never replaces another failure.",
 I, "every product code", "No test goes through NewComposite.",
 ["radolan.go","header.go","catalog.go"], [("final unit check","radolan.go NewComposite")], ["NewComposite results"])
prop("C09", "Archives yield every composite, in forecast order",
 "Parsing an archive returns exactly one composite per archive entry, sorted by ascending forecast time. If any entry or the archive itself cannot be read, an error and no composites are returned.",
 I, "every archive: any number and order of entries, a fault in any of them", "No test builds an archive.",
 ["radolan.go"], [("entry loop, sort","radolan.go NewComposites")], ["NewComposites results"])
prop("C10", "Two-byte pixels decode bit-exactly",
 "In the two-byte encoding the first byte holds the low 8 bits and the low 4 bits of the second byte the high 4 bits of a 12-bit magnitude; bit 5 of the second byte marks no-data (NaN) and bit 6 a negative value; all other bits are ignored. The signed value is scaled by ten to the product's precision and, for dBZ products only, converted from RVP-6 to dBZ.",
 I, "all 65536 byte pairs times all precisions and units", "No test decodes a pixel.",
 ["littleendian.go","conversion.go"], [("flag tests and masks","littleendian.go rvp6LittleEndian"),("scaling","conversion.go rvp6Raw")], ["pixel values in PlainData"])
prop("C11", "One-byte pixels decode exactly",
 "In the one-byte encoding the value 250 means no-data (NaN); any other byte is scaled by ten to the product's precision and, for dBZ products only, converted from RVP-6 to dBZ.",
 I, "all byte values, precisions and units", "No test decodes a pixel.",
 ["singlebyte.go","conversion.go"], [("no-data test","singlebyte.go rvp6SingleByte")], ["pixel values in PlainData"])
prop("C12", "Run-length rows decode to the right levels at the right columns",
 "In a run-length row the first byte is ignored, then offset bytes each advance the column by their value minus 16 until one differs from 255, and every later byte repeats the level selected by its low 4 bits as often as its high 4 bits say, advancing the column by one per repetition. Level index 0 and indices beyond the header's level table give NaN; index n gives the n-th level of the header.",
 I, "every row of bytes and every level table", "No test decodes a row.",
 ["runlength.go"], [("row state machine","runlength.go decodeRunlength"),("level lookup","runlength.go rvp6Runlength")], ["pixel values in PlainData"])
prop("C13", "Run-length rows stay inside their image row",
 "A run-length row can only write to columns of its own image row; columns it does not cover are NaN. A row that would run past the right edge, and an offset byte below 16, make the parse fail.",
 I, "every row of bytes", "No test decodes a row; the overflow depends on sums of bytes.",
 ["runlength.go"], [("NaN fill, bound check, offset check","runlength.go decodeRunlength")], ["PlainData, error result"])
prop("C14", "Rows and columns end up in the right place",
 "Two-byte and one-byte composites are stored bottom row first, so the r-th row in the stream becomes the r-th image row from the bottom; run-length composites are stored top row first. Within a row the n-th pixel in the stream is column n, and every pixel of the image is written.",
 I, "every image size and every pixel position", "No test decodes an image.",
 ["littleendian.go","singlebyte.go","runlength.go"], [("last-i flip","littleendian.go, singlebyte.go"),("row loop","runlength.go parseRunlength")], ["PlainData[y][x]"])
prop("C15", "The encoding is chosen from the header alone, and unknown ones are refused",
 "A composite with a level table is decoded as run-length; otherwise it is decoded as two-byte data if the declared data length is twice the pixel count, as one-byte data if it equals the pixel count, and in every other case parsing fails.",
 I, "every combination of declared length, dimensions and level field", "No test reaches the data section.",
 ["data.go","header.go"], [("selection","data.go identifyEncoding"),("dispatch table","data.go init")], ["which decoder writes PlainData"])
prop("C16", "Product and times are taken from the right header positions",
 "The product is the first two header characters. The capture time is read as day, hour, minute (characters 3-8) and month, year (characters 14-17) in UTC; the forecast time is the capture time plus VV minutes (or equal to it without VV); the interval is INT minutes, times ten for W1 to W4, and zero without INT.",
 I, "every accepted header", "Two headers, none with W products, INT without VV, or different month/year digits.",
 ["header.go"], [("field extraction","header.go parseHeader")], ["Composite.Product/CaptureTime/ForecastTime/Interval"])
prop("C17", "Image dimensions are taken from the header with rows first",
 "A GP field (rows x columns) determines height and width; without GP a BG field (three digits rows, three digits columns) does; both plain and layered data then have that size. Without either the dimensions come from the local-product catalogue, and a product missing there is refused.",
 I, "every accepted header, in particular non-square ones", "Both test headers are square, so rows and columns are indistinguishable.",
 ["header.go","catalog.go"], [("dimension parsing","header.go parseHeader")], ["Composite.Px/Py/Dx/Dy"])
prop("C18", "Precision, level table, version and length come from their header fields",
 "The value scale is ten to the E field (one without it); the level table has exactly as many entries as the LV count says, each the number in its own five-character column; the format version is the VS field; the data length used to pick the encoding is the BY field minus the header including its terminator.",
 I, "every accepted header, all level counts", "One level table of length 6 is tested.",
 ["header.go"], [("field extraction","header.go parseHeader")], ["Composite.Format, decoded pixel values"])
prop("C19", "Header text is split into the right fields",
 "For headers of single-byte characters, the header is divided into maximal runs of capital letters (keys), each paired with exactly the text up to the next capital letter (its value); a key at the very end has an empty value. A header that does not start with a capital letter has no fields.",
 I, "every header string", "Two headers are tested.",
 ["header.go"], [("scanner","header.go splitHeader")], ["header fields as seen by the field parsers"])
prop("C20", "Malformed headers are refused",
 "Parsing fails if the header is missing its terminator or shorter than 22 bytes, if the length field is missing, or if the capture time or any present length, VV, INT, GP, E, LV or VS field, or a BG field that is used because there is no GP, cannot be parsed. A level field whose length does not match its count is refused, and so are dimensions that are not positive.",
 I, "every header with one or more malformed fields", "No negative test exists.",
 ["header.go","data.go"], [("error returns","header.go parseHeader")], ["error result of NewComposite"])
prop("C21", "Every product has its documented unit",
 "Each product code maps to the unit published for it: reflectivity products dBZ, precipitation products mm, echo tops km, radial velocities m/s; codes without a published unit are unknown. In particular all products listed as tested have the unit of their description.",
 I, "all 68 catalogued product codes and all other codes", "Only two products are ever parsed and their units are not asserted.",
 ["catalog.go","header.go"], [("unit table","catalog.go unitCatalog")], ["Composite.DataUnit"])
prop("C22", "Local products get their catalogued size and resolution",
 "A local product without dimensions in its header is 200 pixels wide and 224 rows high (2400 for the 3D products PU and PZ) with 200x200 layers, and reports the catalogued resolution of 1 or 2 km per pixel in both directions after parsing.",
 I, "all 14 local products", "No local product is tested.",
 ["catalog.go","header.go","projection.go"], [("dimension table","catalog.go dimensionCatalog")], ["Composite.Px/Py/Dx/Dy/Rx/Ry"])
prop("C23", "RVP-6 and dBZ conversions follow the definition and invert each other",
 "The conversion from RVP-6 to dBZ is v/2 - 32.5 for every value, and the conversion back is its exact inverse.",
 I, "all real values", "Four sample values.",
 ["conversion.go"], [("formulas","conversion.go toDBZ, toRVP6")], ["decoded dBZ values"])
prop("C24", "Z-R conversions implement Z = a*R^b and invert each other",
 "For every relation built from a, b > 0 the precipitation rate R of a reflectivity satisfies 10*log10(a*R^b) = dBZ, and the reflectivity of that rate is the original dBZ. The predefined relations carry their published coefficients.",
 I, "all a, b > 0, all reflectivities and rates", "One relation and four values are sampled.",
 ["conversion.go"], [("cached coefficients","conversion.go NewZR"),("formulas","conversion.go PrecipitationRate, Reflectivity")], ["PrecipitationRate","Reflectivity"])
prop("C25", "Grids are recognised at every resolution, and only by aspect",
 "A composite is assigned to one of the five DWD grids exactly if halving both of its dimensions as long as both are even gives the same pair as for that grid's nominal dimensions; everything else, including degenerate sizes, has no grid. From format version 5 on only the DE1200 grid has a projection, and that uses the WGS84 ellipsoid; below, all grids use the sphere.",
 I, "all dimension pairs and format versions", "Ten dimension pairs are sampled.",
 ["projection.go"], [("normalisation","projection.go minRes"),("grid choice","projection.go detectGrid, calibrateProjection")], ["Composite.HasProjection, Project"])
prop("C26", "Calibration maps the grid corners onto the image corners",
 "For every supported grid, size and format version the grid's published upper-left corner projects to (0, 0) and its lower-right corner to (Dx, Dy), x growing eastwards and y southwards. The reported resolution is the projected extent divided by the pixel count, in both directions independently.",
 I, "all grids, sizes and versions", "Sampled for some sizes, with 100 m tolerance.",
 ["projection.go","projection_sphere.go","projection_wgs84.go"], [("offset and scale calibration","projection.go calibrateProjection")], ["Project, Rx, Ry"])
prop("C27", "Projection follows the polar stereographic formulas",
 "Between the corners, coordinates follow the polar stereographic projection of the DWD specification: on the sphere of radius 6370.04 km with true latitude 60N and central meridian 10E, or for DE1200 version 5 on the WGS84 ellipsoid with the published parameters; computed in double precision.",
 I, "all latitudes and longitudes", "A handful of points with 100 m tolerance.",
 ["projection_sphere.go","projection_wgs84.go"], [("formulas","projection_sphere.go projectSphere, projection_wgs84.go projectWGS84")], ["Project"])
prop("C28", "Without a projection nothing is projected",
 "A composite has a projection exactly if its grid is supported for its format version. Without one, projecting any coordinates gives (NaN, NaN), and the resolution is NaN unless the product catalogue defines it.",
 I, "all dimensions, versions and coordinates", "No test covers a composite without projection.",
 ["projection.go"], [("guard","projection.go Project"),("early returns","projection.go calibrateProjection")], ["HasProjection, Project, Rx, Ry"])
prop("C29", "No shared mutable state: parses are independent of each other",
 "No operation modifies package-level or otherwise shared data after program initialisation, starts goroutines, or keeps references from one parse to the next. Parsing, projecting and drawing can therefore run concurrently on different composites, and the outcome of an operation never depends on earlier ones.",
 ["schedules","histories"], "all interleavings and all call histories", "Tests are sequential and use a fresh composite each; a race or leak needs a schedule or a history.",
 ["radolan.go","catalog.go","data.go","conversion.go","projection.go","projection_wgs84.go","radolan2png/vis/vis.go"],
 [("tables written only during initialisation","catalog.go, data.go init, projection_wgs84.go")], ["package-level variables and everything reachable from them"])
prop("C30", "Reading a composite does not modify it",
 "Accessing values, projecting coordinates, converting units and drawing an image leave the composite and every argument unchanged, so that one composite can be queried from many goroutines at once.",
 ["schedules","histories"], "all interleavings of queries on one composite", "Tests query sequentially.",
 ["radolan.go","projection.go","projection_sphere.go","projection_wgs84.go","conversion.go","radolan2png/vis/vis.go"],
 [("no stores in query methods","At, AtZ, Project, PrecipitationRate, Reflectivity, Image")], ["fields of Composite before and after a query"])
prop("C31", "Results depend on the input alone",
 "Library results are a function of the bytes or arguments passed in: no clock, local time zone, randomness, environment, file system, process state, or map iteration order influences them.",
 ["inputs","configurations"], "all environments and repeated runs", "One environment, one run.",
 ["radolan.go","header.go","data.go","projection.go","conversion.go","radolan2png/vis/vis.go"],
 [("no ambient inputs","whole library")], ["all results"])
prop("C32", "An image shows every voxel of the requested layer at its place",
 "The image has the composite's layer size; pixel (x, y) is the colour function applied to the value at (x, y) of the requested layer, for all pixels. A layer that does not exist gives an image of that size with nothing drawn, without panicking.",
 I, "all composites, layers and colour functions", "The vis package has no tests.",
 ["radolan2png/vis/vis.go"], [("pixel loops, layer guard","vis.go Image")], ["returned image"])
prop("C33", "Colour functions give a valid opaque colour for every value",
 "For gradients with min < max (for logarithmic compression of positive bounds, the larger bound of the radial map above 1) every data value, including NaN and infinities, yields a fully opaque colour; every colour channel is computed from a number inside the representable byte range, so the result does not depend on how the platform converts out-of-range floats.",
 I, "all float64 values, ranges and compressions", "The vis package has no tests.",
 ["radolan2png/vis/vis.go"], [("clamping, NaN handling","vis.go Heatmap, Graymap, Radialmap")], ["color.RGBA results"])
prop("C34", "Gradients: no data and low values are black, high values saturate",
 "No-data (NaN) is black in every gradient; in the heat map and the gray map values below the minimum are black too and values at or above the maximum have the colour of the maximum. In the radial map (larger bound above 1) negative and positive velocities use different hues, and magnitudes beyond the larger bound saturate.",
 I, "all float64 values and ranges", "The vis package has no tests.",
 ["radolan2png/vis/vis.go"], [("guards and clamps","vis.go Heatmap, Graymap, Radialmap")], ["color.RGBA results"])
prop("C35", "The converter exits with failure unless the image was completely written",
 "The command-line converter terminates with a failure status if opening the input, parsing it, creating the output, encoding the image, or closing the output fails. It never writes an output file for an input that could not be parsed.",
 ["inputs","fault_sequences"], "every failing step", "The converter has no tests.",
 ["radolan2png/radolan2png.go"], [("care()","radolan2png.go convert")], ["exit status, output file"])
prop("C36", "Every unit has a colour scale in the converter",
 "For every composite the converter draws there is a colour scale matching its unit: logarithmic heat map for precipitation with the range chosen by the interval (100 mm up to an hour, 400 mm from a week on, 200 mm between), reflectivity heat map for dBZ, linear gray map up to 15 for km, radial map for m/s.",
 I, "every unit and interval", "The converter has no tests.",
 ["radolan2png/radolan2png.go","radolan2png/vis/vis.go"], [("unit switch","radolan2png.go convert")], ["colour function used"])
prop("C37", "Overlays are drawn only on projected composites, at projected positions",
 "Borders and the coordinate mesh are drawn only if the composite has a projection, after the radar data, each point at the position given by projecting its latitude and longitude. The mesh consists of the points of a 0.1-degree raster from 46 N to below 55 N and from 1 E to below 16 E that lie on (within 0.1 degrees above) a whole-degree line.",
 I, "every composite", "The converter has no tests.",
 ["radolan2png/radolan2png.go"], [("HasProjection guard","radolan2png.go convert")], ["pixels set after the radar image"])
prop("C38", "The border table contains only valid coordinates inside Germany",
 "Every border point consists of exactly two numbers, latitude then longitude, inside the bounding box of Germany (47.2-55.1 N, 5.8-15.1 E).",
 I, "all 12494 points", "The converter has no tests.",
 ["radolan2png/borders.go"], [("table","borders.go border")], ["border coordinates"])
prop("C39", "Every unit has its own name",
 "Each defined unit, including the unknown one, has a distinct non-empty name matching it, and naming a unit that parsing can produce never panics.",
 I, "all unit values", "Not tested.",
 ["catalog.go"], [("name table","catalog.go Unit.String")], ["Unit.String"])
prop("C40", "Well-formed composites are accepted",
 "Parsing a single composite fails only for a reason: the stream fails or ends before the header terminator or the last row is complete; the header is shorter than 22 bytes; a field is missing or malformed in one of the ways that make headers refused; a dimension is not positive, or a side of the image is larger than a limit that is not below 4096; no dimensions are known for the product; the declared data length fits no encoding; or a run-length row has an offset byte below 16 or runs past the right edge. (The unknown-unit error comes with the complete composite.)",
 I, "every byte stream", "Tests parse a few valid files; refusing some other valid file goes unnoticed.",
 ["radolan.go","header.go","data.go","littleendian.go","singlebyte.go","runlength.go"], [("header errors","header.go parseHeader"),("row errors","runlength.go decodeRunlength"),("size limit","data.go parseData")], ["errors returned by NewComposite"])
prop("C41", "A dummy composite is what was asked for",
 "NewDummy returns a composite with exactly the requested label, format version, width and height and without any data; it has a projection exactly if a parsed composite of that size and version has one.",
 I, "all arguments", "One test uses a handful of sizes.",
 ["radolan.go","projection.go"], [("dummy","radolan.go NewDummy"),("calibration","projection.go calibrateProjection")], ["fields of the composite returned by NewDummy"])
prop("C42", "The library has no effect on its environment",
 "No exported function of the library or of the visualisation package prints, logs, opens or writes files, uses the network, sleeps, starts goroutines, or ends the process, and nothing is done to a reader passed in other than reading from it.",
 I, "every call of every exported function", "Tests look at results, not at effects.",
 ["radolan.go","header.go","data.go","littleendian.go","singlebyte.go","runlength.go","conversion.go","projection.go","radolan2png/vis/vis.go"], [("entry points","radolan.go NewComposite"),("image","radolan2png/vis/vis.go Image")], ["output, files, process state, state of the reader"])
prop("C43", "Predefined gradients cover their documented range",
 "HeatmapReflectivityShort is the uncompressed heat map from 5 to 75 and HeatmapReflectivityWide that from -32.5 to 75; HeatmapAccumulatedHour is the logarithmic heat map from 0.1 to 100 and HeatmapAccumulatedDay that from 0.1 to 200; HeatmapRadialVelocity is the logarithmic radial map from -31.5 to 31.5; GraymapLinear is the uncompressed gray map from 0 to 409.5 and GraymapLinearWide that from 0 to 4095. Id is the identity and Log the natural logarithm.",
 I, "every data value", "The visualisation package has no tests.",
 ["radolan2png/vis/vis.go"], [("gradients","radolan2png/vis/vis.go package variables"),("compressions","radolan2png/vis/vis.go Id, Log")], ["colours of the predefined gradients"])
prop("C44", "Gradients follow their definition between the bounds",
 "For min < max (positive bounds for logarithmic compression), between the bounds and up to rounding (two steps of a channel): the three channels of the gray map are 255 times the relative position p of the compressed value between the compressed bounds; the heat map shows the fully saturated HSL colour with a hue falling by 330 degrees from 240 degrees (blue) at p = 0 and a lightness rising from 0.25 to 0.75; the radial map (larger bound above 1) shows positive values red and negative values cyan, with 255 times the ratio of the compressed magnitude to the compressed larger bound, and magnitudes up to 1 as the full hue lightened to 204 in the other channels.",
 I, "every value between the bounds, every pair of bounds", "The visualisation package has no tests.",
 ["radolan2png/vis/vis.go"], [("gradients","radolan2png/vis/vis.go Graymap, Heatmap, Radialmap")], ["colours returned by gradients"])
prop("C45", "The converter never panics and uses only the files it was given",
 "For every command line and every input, the converter ends without a run-time panic. It opens only the file named by its first argument and creates only the file named by its second; with fewer than two arguments it prints its usage and touches no file.",
 I, "every command line and input", "The converter has no tests.",
 ["radolan2png/radolan2png.go","radolan2png/vis/vis.go"], [("arguments","radolan2png/radolan2png.go main"),("files","radolan2png/radolan2png.go convert")], ["panics of the converter, files opened and created"])
prop("C46", "NaN is recognised",
 "The exported NaN is not a number, and IsNaN reports true exactly for NaN: neither for infinities nor for any finite value.",
 I, "every float32", "Tests use IsNaN on a few values only.",
 ["conversion.go"], [("NaN","conversion.go NaN"),("IsNaN","conversion.go IsNaN")], ["NaN, IsNaN"])
# not claimed
prop("N01", "Projected coordinates agree with the DWD reference grids",
 "For every pixel of the national, extended and middle-european grids the projected reference coordinates published by the DWD are within 10 m of the pixel position.",
 I, "every pixel of every reference grid", "The reference files are missing from this tree, so TestGrid cannot run.",
 ["projection.go","projection_sphere.go"], [("projection","projection_sphere.go")], ["Project"])
prop("N02", "Parsing takes time and total memory linear in the image size",
 "The time and total memory needed to parse a composite are proportional to the number of its pixels plus the size of the stream.",
 I, "every input", "Tests measure nothing.",
 ["radolan.go","data.go"], [("single pass","data.go")], ["cost of NewComposite"])
prop("N03", "Floating-point rounding of projections and conversions stays negligible",
 "Accumulated rounding errors of projections and Z-R conversions stay below one part in 10^6 for all inputs in the physical range.",
 I, "all physical inputs", "Few samples.",
 ["projection_sphere.go","projection_wgs84.go","conversion.go"], [("double precision","projection_*.go")], ["Project, PrecipitationRate"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
