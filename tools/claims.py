N = " Assumes 64-bit position arithmetic does not overflow and compares floating-point expressions over the reals; trusts go/types, go/ssa, the value-graph engine and its models of standard library functions."
claim("C16", VG, "proof", "Expression equality on every successful path of parseHeader, for every header." + N)
claim("C17", VG, "proof", "Expression equality on every successful path of parseHeader, for every header and product code." + N)
claim("C20", VG, "proof", "Every path of parseHeader that reports success is shown to imply each well-formedness condition." + N)
claim("C21", VG, "proof", "Unit of all 65536 product codes by substitution into the computed unit." + N)
claim("C23", VG, "proof", "Expression equality for every argument." + N)
claim("C24", VG, "proof", "Expression equality for every a, b, reflectivity and rate." + N)
claim("C38", "constant evaluation of the package initialiser", "proof", "Every table entry is checked." + N)
claim("C39", VG + " with constant evaluation", "proof", "All unit constants and every unit the header parser can store." + N)
claim("C05", VG, "proof", "Lengths and aliasing of all rows and layers for every header shape." + N)
claim("C08", VG, "proof", "Returned error as a function of unit and of the other outcomes, on every path of NewComposite." + N)
claim("C10", VG, "proof", "Expression equality for an arbitrary pixel of every two-byte composite." + N)
claim("C11", VG, "proof", "Expression equality for an arbitrary pixel of every one-byte composite." + N)
claim("C15", VG, "proof", "Bytes each pixel is computed from in each case of the header condition, and no success otherwise." + N)
claim("C18", VG, "proof", "Expression equality on every successful path of parseHeader, for every header." + N)
claim("C22", VG, "proof", "Substitution of every local product code; preservation of the catalogued resolution on every path." + N)
claim("C01", VG, "proof", "Every panic site reachable from the parsers carries a discharged obligation, for every byte stream." + N)
claim("C02", VG, "proof", "Every allocation with a size taken from the input." + N)
claim("C03", VG, "proof", "A ranking argument for every loop and an acyclic call graph." + N)
claim("C04", VG, "proof", "Every return of the accessors for a composite of arbitrary shape satisfying the parser's post-condition." + N)
claim("C06", VG, "proof", "Every failing or short read on every path to a successful result." + N)
claim("C07", VG, "proof", "Every reading operation reachable from the parsers." + N)
claim("C09", VG, "proof", "The returned sequence as a function of the sequence of archive entries." + N)
claim("C12", VG, "proof", "Initial state, step and end of the row transducer, for every row length, byte and column." + N)
claim("C13", VG, "proof", "Initial content of a row, the columns every byte can write, and the infeasibility of accepting an overrunning row, for every row and byte." + N)
claim("C14", VG, "proof", "Stream position of an arbitrary pixel, and the image row a run-length line is stored in, for every image size." + N)
claim("C29", "effect analysis over the SSA of all exported operations", "proof", "Every store, map update and external call reachable from every exported operation is shown to write only memory the operation allocated or the receiver of a mutating method." + N)
claim("C30", "effect analysis over the SSA of all reading operations", "proof", "Every store, map update and external call reachable from the reading operations is shown to write only memory the operation allocated." + N)
claim("C31", "effect analysis over the SSA of all exported operations", "other", "Every source of values other than the arguments (clock, environment, randomness, map iteration order, goroutine scheduling, mutable package state) reachable from an exported operation is enumerated; none may exist." + N)
claim("C25", VG + " with an inductive loop argument", "proof", "One-step equivalence of the halving loop and classification of every irreducible pair of dimensions and every format, in NewDummy and NewComposite." + N)
claim("C26", VG + " with constant folding", "proof", "Corner coordinates and resolution for every supported grid and format, with symbolic image dimensions; constants are compared to 1e-9." + N)
claim("C27", VG + " with constant folding", "proof", "The computed expressions for every supported grid and format; real-analytic expressions are compared with the specification at 125 points to 1e-9." + N)
claim("C28", VG, "proof", "Projection results and resolution for every pair of dimensions and format without a supported grid." + N)
claim("C32", VG, "proof", "Image bounds, and the value and colour of an arbitrary pixel, for every composite, layer and colour function." + N)
claim("C33", VG + " with sign and interval reasoning", "proof", "Every channel of the result for every value, including NaN and infinities, and every gradient range." + N)
claim("C34", VG + " with sign and interval reasoning", "proof", "Result for NaN, for values at or below the lower bound and at or above the upper bound, and monotonicity between." + N)
claim("C35", VG, "proof", "Every path of the converter to a successful exit implies each step of writing the image and its success." + N)
claim("C36", VG, "proof", "Colour channels of an arbitrary pixel for every unit and accumulation interval class." + N)
claim("C37", VG + " with constant folding", "proof", "Guard and position of every overlay pixel; the mesh raster by exact constant folding of the loop counters." + N)
claim("C19", "abstract interpretation of the header scanner against a reference scanner", "proof", "Every abstract state of the scanner over an arbitrary header of single-byte characters: every stored field and every return." + N)
claim("C40", VG, "proof", "Every error return of the header and of the data part implies one of the listed reasons, for every header, stream and image size." + N)
claim("C41", VG, "proof", "Every field of the dummy for symbolic arguments, and the classification of every irreducible pair of dimensions and every format." + N)
claim("C42", "effect analysis over the SSA of all exported operations", "other", "Every call, library member and dynamic method reachable from an exported operation or an initialiser; a who-may-call rule." + N)
claim("C43", VG + " with constant evaluation", "proof", "Every predefined gradient on a symbolic finite value, NaN and both infinities." + N)
claim("C44", VG + " with interval reasoning", "proof", "Every position between symbolic bounds, by interval evaluation with subdivision of the whole range." + N)
claim("C45", VG, "proof", "Every panic site of the converter and every call that opens, creates or removes a file, for every command line and outcome of parsing." + N)
claim("C46", VG, "proof", "NaN, both infinities, zero and a symbolic finite value." + N)
