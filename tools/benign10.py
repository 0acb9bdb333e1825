"""Tenth suite of behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
import subprocess as _s
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")
_src = {f: _s.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout for f in (H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS)}
def between(f, a, b):
    s = _src[f]
    i = s.index(a); j = s.index(b, i)
    return s[i:j]
IMPF = (H, '	"fmt"\n', '	"fmt"\n	"strings"\n')

# ---- header
benign("r10-hs-indexes", (H, between(H, "	m = make(map[string]string)\n	var beginKey", "	for i, c := range header {\n"), '''	m = make(map[string]string)
	var (
		beginKey, endKey     int // field name
		beginValue, endValue int // field content
		dispatch             bool
	)

'''))
benign("r10-hs-nested-helper", (H, '''			if dispatch {
				m[header[beginKey:endKey]] = header[beginValue:endValue]
				beginKey = i
				dispatch = false
			}
			endKey = i + 1
''', '''			if dispatch {
				store(m, header, beginKey, endKey, beginValue, endValue)
				beginKey, dispatch = i, false
			}
			endKey = i + 1
'''), (H, '''	m[header[beginKey:endKey]] = header[beginValue:endValue]

	return
}
''', '''	store(m, header, beginKey, endKey, beginValue, endValue)

	return
}

func store(m map[string]string, header string, k0, k1, v0, v1 int) {
	key := header[k0:k1]
	m[key] = header[v0:v1]
}
'''))
benign("r10-hs-make-last", (H, "	m = make(map[string]string)\n	var beginKey", "	fields := make(map[string]string)\n	var beginKey"), (H, "				m[header[beginKey:endKey]] = ", "				fields[header[beginKey:endKey]] = "),
    (H, "	m[header[beginKey:endKey]] = header[beginValue:endValue]\n\n	return\n", "	fields[header[beginKey:endKey]] = header[beginValue:endValue]\n\n	return fields\n"),
    (H, "				return // no key prefixing value\n", "				return fields // no key prefixing value\n"))
benign("r10-hd-int-field", (H, '''	if vv, ok := section["VV"]; ok {
		min := 0
		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
	}
''', '''	if vv, ok := section["VV"]; ok {
		offset, err := minutes(vv)
		if err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime = c.ForecastTime.Add(offset)
	}
'''), (H, '''		min := 0
		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}

		c.Interval = time.Duration(min) * time.Minute
''', '''		if c.Interval, err = minutes(intr); err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}
'''), (H, "// parseHeader parses", '''// minutes parses a number of minutes.
func minutes(s string) (d time.Duration, err error) {
	var n int
	if _, err = fmt.Sscanf(s, "%d", &n); err == nil {
		d = time.Duration(n) * time.Minute
	}
	return
}

// parseHeader parses'''))
benign("r10-hd-section-methods", (H, "	section := splitHeader(header[:len(header)-1]) // without delimiter\n", '''	section := splitHeader(header[:len(header)-1]) // without delimiter
	fail := func(what string, err error) error {
		return newError("parseHeader", "could not parse "+what+": "+err.Error())
	}
'''), (H, 'return newError("parseHeader", "could not parse data length: "+err.Error())', 'return fail("data length", err)'),
    (H, 'return newError("parseHeader", "could not parse capture time: "+err.Error())', 'return fail("capture time", err)'),
    (H, 'return newError("parseHeader", "could not parse interval: "+err.Error())', 'return fail("interval", err)'),
    (H, 'return newError("parseHeader", "could not parse precision: "+err.Error())', 'return fail("precision", err)'))
benign("r10-hd-defer-wrap", (H, "func (c *Composite) parseHeader(reader *bufio.Reader) error {\n	header, err := reader", '''func (c *Composite) parseHeader(reader *bufio.Reader) (failure error) {
	defer func() {
		if failure != nil {
			failure = fmt.Errorf("%v", failure)
		}
	}()
	header, err := reader'''))
benign("r10-hd-dims-method", (H, between(H, "	// Parse Dimensions", "	// Parse Precision"), '''	// Parse Dimensions - Example: "GP 450x 450" or "BG460460" or "GP 1500x1400" (if defined)
	if err := c.parseDimensions(section); err != nil {
		return err
	}

'''), (H, "// parseHeader parses", '''// parseDimensions determines the dimensions of the plain data and its layers.
func (c *Composite) parseDimensions(section map[string]string) error {
	gp, isGP := section["GP"]
	bg, isBG := section["BG"]
	if !isGP && !isBG { // dimensions of local picture products not defined in header
		v, ok := dimensionCatalog[c.Product] // lookup in catalog
		if !ok {
			return newError("parseHeader", "no dimension information available")
		}

		c.Px, c.Py = v.px, v.py // plain data dimensions
		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions
		c.Rx, c.Ry = v.rx, v.ry // data resolution
		return nil
	}

	text, format, name := bg, "%3d%3d", "BG"
	if isGP {
		text, format, name = gp, "%dx%d", "GP"
	}
	if _, err := fmt.Sscanf(text, format, &c.Dy, &c.Dx); err != nil {
		return newError("parseHeader", "could not parse dimensions ("+name+"): "+err.Error())
	}
	c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
	return nil
}

// parseHeader parses'''))
benign("r10-hd-level-func", (H, between(H, '	if lv, ok := section["LV"]; ok {', "	// Parse Format Version"), '''	if lv, ok := section["LV"]; ok {
		level, err := parseLevel(lv)
		if err != nil {
			return err
		}
		c.level = level
	}

'''), (H, "// parseHeader parses", '''// parseLevel parses the level table.
func parseLevel(lv string) ([]float32, error) {
	if len(lv) < 2 {
		return nil, newError("parseHeader", "level field too short")
	}

	cnt := 0
	if _, err := fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
		return nil, newError("parseHeader", "could not parse level count: "+err.Error())
	}
	values := lv[2:]
	if len(values) != cnt*5 { // fortran format I2 + F5.1
		return nil, newError("parseHeader", "invalid level format: "+lv)
	}

	level := make([]float32, cnt)
	for i := range level {
		if _, err := fmt.Sscanf(values[i*5:(i+1)*5], "%f", &level[i]); err != nil {
			return nil, newError("parseHeader", "invalid level value: "+err.Error())
		}
	}
	return level, nil
}

// parseHeader parses'''))
benign("r10-hd-product-const", (H, "	c.Product = header[:2]\n", "	const productLength = 2\n	product := header[0:productLength]\n	c.Product = product\n"),
    (H, "	date := header[2:8] + header[13:17]", "	date := header[productLength:8] + header[13:17]"))
benign("r10-hd-time-local", (H, '''	c.ForecastTime = c.CaptureTime
	if vv, ok := section["VV"]; ok {''', '''	c.ForecastTime = c.CaptureTime.Add(0)
	if vv, ok := section["VV"]; ok {'''))
# ---- data
benign("r10-dt-alloc-two", (D, '''	// create Data fields
	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	// create Data fields
	c.PlainData = newRows(c.Px, c.Py)
'''), (D, "// arrangeData slices", '''// newRows allocates the rows of an image.
func newRows(width, height int) (rows [][]float32) {
	rows = make([][]float32, height)
	for y := 0; y < height; y++ {
		rows[y] = make([]float32, width)
	}
	return
}

// arrangeData slices'''))
benign("r10-dt-identify-switch", (D, between(D, "	values := c.Px * c.Py\n", "// maxDimension"), '''	if c.level != nil {
		return runlength
	}
	switch values := c.Px * c.Py; c.dataLength {
	case 2 * values:
		return littleEndian
	case values:
		return singleByte
	}
	return unknown
}

'''))
benign("r10-dt-arrange-method", (D, between(D, "	if c.Py%c.Dy == 0 { // multiple", "	c.Dz = len"), '''	switch {
	case c.Py%c.Dy != 0: // only use bottom most part of plain data
		bottom := c.PlainData[c.Py-c.Dy:] // strip elevation
		c.DataZ = append([][][]float32(nil), bottom)
	default: // multiple layers are linked downwards
		n := c.Py / c.Dy
		c.DataZ = make([][][]float32, n)
		for z := range c.DataZ {
			c.DataZ[z] = c.layer(z) // split layers
		}
	}

'''), (D, "// parseUnknown performs", '''// layer returns the rows of a layer of the plain data.
func (c *Composite) layer(z int) [][]float32 {
	first := c.Dy * z
	return c.PlainData[first : first+c.Dy]
}

// parseUnknown performs'''))
benign("r10-dt-parser-var", (D, "	return parse[c.identifyEncoding()](c, reader)\n", '''	enc := c.identifyEncoding()
	parser := parse[enc]
	err := parser(c, reader)
	return err
'''))
# ---- rows
benign("r10-rows-reader-func", (LE, between(LE, "	last := len(c.PlainData) - 1\n", "func (c *Composite) readLineLittleEndian"), '''	return c.parseRows(reader, c.readLineLittleEndian, c.decodeLittleEndian)
}

// parseRows reads and decodes rows which are stored bottom up.
func (c *Composite) parseRows(reader *bufio.Reader, read func(*bufio.Reader) ([]byte, error), decode func([]float32, []byte) error) error {
	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := read(reader)
		if err != nil {
			return err
		}
		if err = decode(c.PlainData[last-i], line); err != nil { // write vertically flipped
			return err
		}
	}
	return nil
}

'''), (SB, between(SB, "	last := len(c.PlainData) - 1\n", "func (c *Composite) readLineSingleByte"), '''	return c.parseRows(reader, c.readLineSingleByte, c.decodeSingleByte)
}

'''))
benign("r10-rows-y", (SB, between(SB, "	last := len(c.PlainData) - 1\n", "	return nil\n"), '''	for y := len(c.PlainData) - 1; y >= 0; y-- { // stored bottom row first
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}
		if err := c.decodeSingleByte(c.PlainData[y], line); err != nil {
			return err
		}
	}

'''))
benign("r10-le-bits", (LE, between(LE, "	var value int = 0x0F", "	conv := c.rvp6Raw"), '''	const (
		flagNoData   = 0x20
		flagNegative = 0x40
	)
	low, high := tuple[0], tuple[1]
	if high&flagNoData > 0 { // error code: no-data
		return NaN
	}

	value := int(high&0x0F)<<8 + int(low)
	if high&flagNegative > 0 { // flag: negative value
		value = 0 - value
	}

'''))
benign("r10-le-read-const", (LE, "	line = make([]byte, c.Dx*2)\n	_, err = io.ReadFull(rd, line)\n	if err != nil {\n", '''	const bytesPerPixel = 2
	line = make([]byte, bytesPerPixel*c.Dx)
	if _, err = io.ReadFull(rd, line); err != nil {
'''))
benign("r10-le-check", (LE, '''	if len(line)%2 != 0 || len(dst)*2 != len(line) {
''', '''	if 2*len(dst) != len(line) {
'''))
benign("r10-sb-shared-dbz", (SB, '''	conv := c.rvp6Raw(int(value)) // set decimal point

	// not sure if single byte formats are even used for other things than dBZ (RX, dBZ)
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	return toDBZ(conv)
}
''', '''	return c.scaled(int(value))
}

// scaled applies precision and unit to a raw value.
func (c *Composite) scaled(raw int) (v float32) {
	v = c.rvp6Raw(raw) // set decimal point
	if c.DataUnit == Unit_dBZ {
		v = toDBZ(v)
	}
	return
}
'''), (LE, between(LE, "	conv := c.rvp6Raw(value)", "\n}"), "	return c.scaled(value)"))
benign("r10-rl-decoder-struct", (L, between(L, "	dstpos := 0\n", "func (c *Composite) rvp6Runlength"), '''	d := decoder{dst: dst, offset: true}
	for i, value := range line {
		if i == 0 { // skip useless line number
			continue
		}
		if err := d.next(c, value); err != nil {
			return err
		}
	}

	return nil
}

// decoder is the state of decoding a row.
type decoder struct {
	dst    []float32
	pos    int
	offset bool
}

// next decodes a byte.
func (d *decoder) next(c *Composite, value byte) error {
	if d.offset {
		if value < 16 {
			return newError("decodeRunlength", "invalid offset value")
		}
		d.pos += int(value) - 16
		d.offset = value == 255 // see if next byte will be also offset
		return nil
	}
	// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
	for n := value >> 4; n > 0; n-- {
		if d.pos >= len(d.dst) {
			return newError("decodeRunlength", "destination size exceeded")
		}
		d.dst[d.pos] = c.rvp6Runlength(value & 0x0F)
		d.pos++
	}
	return nil
}

'''))
benign("r10-rl-line-check", (L, '''		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
		if err != nil {
			return err
		}
''', '''		row := c.PlainData[i]
		if line, err := c.readLineRunlength(reader); err != nil {
			return err
		} else if err := c.decodeRunlength(row, line); err != nil {
			return err
		}
'''))
benign("r10-rl-run-min", (L, '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			end := dstpos + runlength
			for dstpos < end {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
'''))
# ---- composite
benign("r10-ra-read-composite", (R, between(R, "	reader := bufio.NewReader(rd)\n", "// NewComposites reads"), '''	comp = &Composite{}
	if err = comp.read(bufio.NewReader(rd)); err != nil {
		return
	}
	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}
	return
}

// read parses header and data.
func (c *Composite) read(reader *bufio.Reader) error {
	if err := c.parseHeader(reader); err != nil {
		return err
	}
	if err := c.parseData(reader); err != nil {
		return err
	}
	c.arrangeData()
	c.calibrateProjection()
	return nil
}

'''))
benign("r10-ra-archive-func", (R, between(R, "	bzipReader := bzip2.NewReader(rd)\n", "// NewDummy creates"), '''	cs, err := readAll(tar.NewReader(bzip2.NewReader(rd)))
	if err != nil {
		return nil, err
	}

	// sort composites in chronological order
	sort.Slice(cs, func(i, j int) bool {
		a, b := cs[i], cs[j]
		return a.ForecastTime.Before(b.ForecastTime)
	})
	return cs, nil
}

// readAll parses all entries of an archive.
func readAll(archive *tar.Reader) (cs []*Composite, err error) {
	for {
		if _, err = archive.Next(); err == io.EOF {
			return cs, nil
		} else if err != nil {
			return
		}

		var c *Composite
		if c, err = NewComposite(archive); err != nil {
			return
		}
		cs = append(cs, c)
	}
}

'''))
benign("r10-ra-inside", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
}
''', '''	if in(x, c.Dx) && in(y, c.Dy) && in(z, c.Dz) {
		return c.DataZ[z][y][x]
	}
	return NaN
}

// in tells whether i is an index of n elements.
func in(i, n int) bool { return i >= 0 && i < n }
'''))
benign("r10-ra-inside-uint", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	if min(x, y, z) < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
'''))
# ---- projection
benign("r10-pj-grid-list", (P, between(P, "	dx, dy := minRes(c.Dx, c.Dy)\n", "// cornerPoints returns"), '''	dx, dy := minRes(c.Dx, c.Dy)

	for _, g := range []struct {
		grid
		dx, dy int
	}{
		{nationalGrid, 900, 900},
		{nationalPictureGrid, 920, 920},
		{extendedNationalGrid, 900, 1100},
		{DE1200Grid, 1100, 1200},
		{middleEuropeanGrid, 1400, 1500},
	} {
		mx, my := minRes(g.dx, g.dy)
		if dx == mx && dy == my {
			return g.grid
		}
	}
	return unknownGrid
}

'''))
benign("r10-pj-minres-for", (P, between(P, "	rdx, rdy = dx, dy\n", "// errNoProjection"), '''	if dx == 0 || dy == 0 {
		return dx, dy
	}
	for rdx, rdy = dx, dy; rdx%2 == 0 && rdy%2 == 0; rdx, rdy = rdx/2, rdy/2 {
	}
	return
}

'''))
benign("r10-pj-corner-func", (P, between(P, "	originTop, originLeft, edgeBottom, edgeRight, err := c.cornerPoints(detectedGrid)\n", "	if c.Format >= 5 {\n		if detectedGrid"), '''	top, left, bottom, right, err := c.cornerPoints(detectedGrid)
	if err != nil {
		return
	}

'''), (P, "c.Project(originTop, originLeft)", "c.Project(top, left)"), (P, "c.Project(edgeBottom, edgeRight)", "c.Project(bottom, right)"))
benign("r10-pj-supported", (P, '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''	proj, ok := projectionFor(detectedGrid, c.Format)
	if !ok {
		return
	}
	if proj != nil {
		c.proj_wgs84 = proj
	}
'''), (P, "// calibrateProjection init", '''// projectionFor selects the projection of a grid (nil: sphere).
func projectionFor(g grid, format int) (*projection, bool) {
	switch {
	case format < 5:
		return nil, true
	case g == DE1200Grid:
		return proj_DE1200_WGS84, true
	}
	return nil, false
}

// calibrateProjection init'''))
benign("r10-pj-scale-res", (P, '''	resx, resy := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
''', '''	width, height := c.Project(edgeBottom, edgeRight) // km
	rx, ry := width/float64(c.Dx), height/float64(c.Dy)
	c.Rx, c.Ry = rx, ry
'''))
benign("r10-sp-const", (SPH, '''	lamda0, phi0 := rad(junctionEast), rad(junctionNorth)
	lamda, phi := rad(east), rad(north)

	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
	x = (earthRadius * m * math.Cos(phi) * math.Sin(lamda-lamda0))
	y = (earthRadius * m * math.Cos(phi) * math.Cos(lamda-lamda0))
''', '''	phi := rad(north)
	delta := rad(east) - rad(junctionEast)

	m := (1.0 + math.Sin(rad(junctionNorth))) / (1.0 + math.Sin(phi))
	r := earthRadius * m * math.Cos(phi)
	x, y = r*math.Sin(delta), r*math.Cos(delta)
'''))
# ---- vis
benign("r10-vi-gradient-type", (V, between(V, "	min = compression(min)\n	max = compression(max)\n\n	return func(val float64) color.RGBA {\n		val = compression(val)\n\n", "// Radialmap"), '''	g := scale{min: compression(min), max: compression(max), compression: compression}

	return func(val float64) color.RGBA {
		p, ok := g.position(val)
		if !ok {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
	}
}

// scale maps values to positions between its bounds.
type scale struct {
	min, max    float64 // compressed
	compression func(float64) float64
}

// position returns the relative position limited to one. It is not ok for
// low values and without data.
func (s scale) position(val float64) (p float64, ok bool) {
	val = s.compression(val)
	if val < s.min {
		return 0, false
	}
	p = (val - s.min) / (s.max - s.min)
	if p != p { // no data
		return 0, false
	}
	if p > 1 {
		p = 1
	}
	return p, true
}

'''))
benign("r10-vi-heat-hue", (V, "		h := math.Mod(360-(330*p)+240, 360)\n", "		h := math.Mod(600-330*p, 360)\n"))
benign("r10-vi-radial-lev", (V, between(V, "		if p > 1 {\n			p = 1\n		}\n		lev :=", "		if val < 0 {\n			return color.RGBA{non, lev"), '''		if p > 1 {
			p = 1
		}

		lev, non := uint8(0xFF*p), byte(0x00)
		if math.Abs(val) <= 1 {
			lev, non = 0xFF, 0xCC
		}

'''))
benign("r10-vi-image-early", (V, between(V, "	rec := image.Rect(0, 0, c.Dx, c.Dy)\n", "// Graymap returns"), '''	img := image.NewRGBA(image.Rect(0, 0, c.Dx, c.Dy))
	if layer >= 0 && layer < c.Dz {
		paint(img, fn, c, layer)
	}
	return img
}

// paint draws a layer.
func paint(img *image.RGBA, fn ColorFunc, c *radolan.Composite, layer int) {
	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			val := c.DataZ[layer][y][x]
			img.Set(x, y, fn(float64(val)))
		}
	}
}

'''))
# ---- command
benign("r10-cm-load-func", (C, between(C, "	// open input file\n", "	fmt.Printf(\"%s-Image"), '''	comp := load(in)

'''), (C, "// care exits", '''// load parses the composite in a file.
func load(name string) *radolan.Composite {
	f, err := os.Open(name)
	care(err)
	defer f.Close()

	comp, err := radolan.NewComposite(f)
	care(err)
	return comp
}

// care exits'''))
benign("r10-cm-heat-map", (C, between(C, "	var heatmap vis.ColorFunc\n", "	// convert composite to image"), '''	max := 200.0
	if comp.Interval <= time.Hour {
		max = 100.0
	} else if comp.Interval >= 7*24*time.Hour {
		max = 400.0
	}

	heatmap := map[radolan.Unit]vis.ColorFunc{
		radolan.Unit_mm:  vis.Heatmap(0.1, max, vis.Log),
		radolan.Unit_dBZ: vis.HeatmapReflectivity,
		radolan.Unit_km:  vis.Graymap(0, 15, vis.Id),
		radolan.Unit_mps: vis.HeatmapRadialVelocity,
	}[comp.DataUnit]

'''))
benign("r10-cm-overlay-func", (C, between(C, "	// draw borders\n	if comp", "	// create output file"), '''	if comp.HasProjection {
		// print grid dimensions
		fmt.Printf("detected grid: %.1f km * %.1f km\\n", float64(comp.Dx)*comp.Rx, float64(comp.Dy)*comp.Ry)
	}
	drawOverlay(img, comp)

'''), (C, "// care exits", '''// drawOverlay draws borders and mesh.
func drawOverlay(img *image.RGBA, comp *radolan.Composite) {
	if !comp.HasProjection {
		return
	}
	set := func(north, east float64, c color.RGBA) {
		x, y := comp.Project(north, east)
		img.SetRGBA(int(x), int(y), c)
	}

	for i := range border {
		set(border[i][0], border[i][1], borderColor)
	}

	// draw mesh
	for e := 10; e < 160; e++ { // 0.1 degree steps
		for n := 460; n < 550; n++ {
			onMesh := e%10 == 0 || n%10 == 0
			if onMesh {
				set(float64(n)/10, float64(e)/10, meshColor)
			}
		}
	}
}

// care exits'''), (C, '	"image/color"\n', '	"image"\n	"image/color"\n'))
benign("r10-cm-main-switch", (C, between(C, "	// display help message\n", "}\n\nfunc convert"), '''	switch args := os.Args; {
	case len(args) < 3: // display help message
		usage(args[0])
	default:
		convert(args[1], args[2])
	}
}

func usage(name string) {
	fmt.Printf("radolan2png converts radolan composite files to png images."+
		"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", name)
'''))
# ---- conversion
benign("r10-cv-zr-fields", (CONV, between(CONV, "	c1 := 10.0 * B\n", "// PrecipitationRate"), '''	zr := ZR{
		c1: 10.0 * B,
		c2: math.Pow(A, -1.0/B),
		c4: 10.0 * math.Log10(A),
	}
	zr.c3 = math.Pow(10.0, 1/zr.c1)
	return zr
}

'''))
benign("r10-cv-isnan-math", (CONV, "	return f != f\n", "	return math.IsNaN(float64(f))\n"))
