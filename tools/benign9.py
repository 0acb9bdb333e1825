"""Ninth suite of behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
import subprocess as _s
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")
_src = {f: _s.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout for f in (H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS)}
def between(f, a, b):
    s = _src[f]
    i = s.index(a); j = s.index(b, i)
    return s[i:j]

# ---- header
SPLITLOOP = between(H, "	for i, c := range header {\n", "	if !dispatch { // last key")
benign("r9-hs-switch", (H, SPLITLOOP, '''	for i, c := range header {
		switch upper := unicode.IsUpper(c); {
		case upper && dispatch: // next key begins
			m[header[beginKey:endKey]] = header[beginValue:endValue]
			beginKey, endKey = i, i+1
			dispatch = false
		case upper:
			endKey = i + 1
		case i == 0: // no key prefixing value
			return
		default:
			if !dispatch {
				dispatch, beginValue = true, i
			}
			endValue = i + 1
		}
	}
'''))
benign("r9-hs-early-empty", (H, "	var dispatch bool\n", '''	var dispatch bool
	if len(header) > 0 && !unicode.IsUpper([]rune(header)[0]) {
		return // no key prefixing value
	}
'''), (H, '''			if i == 0 {
				return // no key prefixing value
			}
''', ""))
benign("r9-hs-last-var", (H, '''	if !dispatch { // last key has no value
		beginValue, endValue = len(header), len(header)
	}
	m[header[beginKey:endKey]] = header[beginValue:endValue]
''', '''	key, value := header[beginKey:endKey], ""
	if dispatch {
		value = header[beginValue:endValue]
	}
	m[key] = value
'''))
benign("r9-hs-flag-name", (H, SPLITLOOP, '''	for i, c := range header {
		if !unicode.IsUpper(c) {
			if i == 0 {
				return // no key prefixing value
			}
			if !dispatch {
				beginValue = i
			}
			dispatch, endValue = true, i+1
			continue
		}
		if dispatch {
			m[header[beginKey:endKey]] = header[beginValue:endValue]
			beginKey = i
		}
		dispatch, endKey = false, i+1
	}
'''))
benign("r9-hd-date-sprintf", (H, "date := header[2:8] + header[13:17] // cut WMO number", 'date := fmt.Sprintf("%s%s", header[2:8], header[13:17]) // cut WMO number'))
benign("r9-hd-date-join", (H, "date := header[2:8] + header[13:17] // cut WMO number", 'date := strings.Join([]string{header[2:8], header[13:17]}, "") // cut WMO number'), (H, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
benign("r9-hd-date-after", (H, '''	c.CaptureTime, err = time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''', '''	captured, err := time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
	c.CaptureTime = captured
'''))
benign("r9-hd-trim-suffix", (H, "section := splitHeader(header[:len(header)-1])", 'section := splitHeader(strings.TrimSuffix(header, "\\x03"))'), (H, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
benign("r9-hd-readbytes", (H, '''	header, err := reader.ReadString('\\x03')
''', '''	raw, err := reader.ReadBytes('\\x03')
	header := string(raw)
'''))
benign("r9-hd-two-errors", (H, '''	if err != nil || len(header) < 22 { // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}
''', '''	if err != nil {
		return newError("parseHeader", "header corrupted: too short")
	}
	if len(header) < 22 { // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}
'''))
benign("r9-hd-interval-if", (H, '''		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		if c.Product[0] == 'W' && c.Product[1] >= '1' && c.Product[1] <= '4' {
			c.Interval = 10 * c.Interval
		}
'''))
benign("r9-hd-interval-map", (H, '''		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		if tenfold[c.Product] {
			c.Interval *= 10
		}
'''), (H, "// parseHeader parses", '''// tenfold lists products whose interval is given in units of ten minutes.
var tenfold = map[string]bool{"W1": true, "W2": true, "W3": true, "W4": true}

// parseHeader parses'''))
benign("r9-hd-unit-map-zero", (H, '''	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	c.DataUnit = unitCatalog[c.Product] // zero value is Unit_unknown
'''))
benign("r9-hd-local-defaults", (H, '''		c.Px, c.Py = v.px, v.py // plain data dimensions
		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions
		c.Rx, c.Ry = v.rx, v.ry // data resolution
''', '''		v.apply(c)
'''), (H, "// parseHeader parses", '''// apply copies the dimensions and the resolution to the composite.
func (s spec) apply(c *Composite) {
	c.Px, c.Py = s.px, s.py // plain data dimensions
	c.Dx, c.Dy = s.dx, s.dy // data layer dimensions
	c.Rx, c.Ry = s.rx, s.ry // data resolution
}

// parseHeader parses'''))
benign("r9-hd-bg-slice-args", (H, '''		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
''', '''		var w, h int
		_, err := fmt.Sscanf(dim, "%3d%3d", &h, &w)
		c.Dx, c.Dy = w, h
		if err != nil {
'''))
benign("r9-hd-level-format-const", (H, '''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
''', '''		const countWidth, valueWidth = 2, 5 // fortran format I2 + F5.1
		if len(lv)-countWidth != cnt*valueWidth {
'''), (H, '''			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
''', '''			begin := countWidth + i*valueWidth
			if _, err = fmt.Sscanf(lv[begin:begin+valueWidth], "%f", &c.level[i]); err != nil {
'''))
benign("r9-hd-level-store-last", (H, '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		levels := make([]float32, 0, cnt)
		for n := 2; n < len(lv); n += 5 {
			var v float32
			if _, err = fmt.Sscanf(lv[n:n+5], "%f", &v); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
			levels = append(levels, v)
		}
		c.level = levels
'''))
benign("r9-hd-version-var", (H, '''		if _, err = fmt.Sscanf(vs, "%d", &c.Format); err != nil {
			return newError("parseHeader", "invalid format value: "+err.Error())
		}
''', '''		version := 0
		if n, err := fmt.Sscanf(vs, "%d", &version); n < 1 || err != nil {
			return newError("parseHeader", "invalid format value: "+err.Error())
		}
		c.Format = version
'''))
# ---- data
benign("r9-dt-alloc-cap", (D, '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	rows := make([][]float32, 0, c.Py)
	for len(rows) < c.Py {
		rows = append(rows, make([]float32, c.Px))
	}
	c.PlainData = rows
'''))
benign("r9-dt-parse-map", (D, "var parse = [4]func(c *Composite, rd *bufio.Reader) error{}\n", '''var parse = map[encoding]func(c *Composite, rd *bufio.Reader) error{}
'''))
benign("r9-dt-parse-init-lit", (D, between(D, "// parsing methods\n", "// identifyEncoing"), '''// parsing methods
var parse [4]func(c *Composite, rd *bufio.Reader) error

// init maps the parsing methods to the encoding type
func init() {
	parse = [...]func(c *Composite, rd *bufio.Reader) error{
		runlength:    (*Composite).parseRunlength,
		littleEndian: (*Composite).parseLittleEndian,
		singleByte:   (*Composite).parseSingleByte,
		unknown:      (*Composite).parseUnknown,
	}
}

'''))
benign("r9-dt-identify-named", (D, between(D, "func (c *Composite) identifyEncoding()", "// maxDimension"), '''func (c *Composite) identifyEncoding() (e encoding) {
	e = unknown
	values := c.Px * c.Py
	if c.level != nil {
		e = runlength
	} else if c.dataLength == 2*values {
		e = littleEndian
	} else if c.dataLength == values {
		e = singleByte
	}
	return e
}

'''))
benign("r9-dt-arrange-loop-slices", (D, between(D, "	if c.Py%c.Dy == 0 { // multiple", "	c.Dz = len"), '''	rows := c.PlainData
	if rest := c.Py % c.Dy; rest != 0 {
		rows = rows[len(rows)-c.Dy:] // strip elevation
	}
	layers := len(rows) / c.Dy
	c.DataZ = make([][][]float32, layers)
	for z := 0; z < layers; z++ {
		begin := z * c.Dy
		c.DataZ[z] = rows[begin : begin+c.Dy]
	}

'''))
# ---- rows
benign("r9-le-binary-values", (LE, '''		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
''', '''		var tuple [2]byte
		copy(tuple[:], line[2*i:2*i+2])
		dst[i] = c.rvp6LittleEndian(tuple)
'''))
benign("r9-le-early-dbz", (LE, '''	conv := c.rvp6Raw(value) // set decimal point

''', '''	return c.physical(value)
}

// physical converts a raw value.
func (c *Composite) physical(value int) float32 {
	conv := c.rvp6Raw(value) // set decimal point

'''))
benign("r9-le-value-concat", (LE, '''	var value int = 0x0F & int(tuple[1])
	value = (value << 8) + int(tuple[0])
''', '''	value := int(tuple[1]&0x0F)*256 | int(tuple[0])
'''))
benign("r9-le-neg-const", (LE, '''	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}
''', '''	const negative = 1 << 6
	if flags := tuple[1]; flags&negative == negative {
		value = -value
	}
'''))
benign("r9-le-rows-flipped-helper", (LE, '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
}
''', '''	for i := 0; i < c.Py; i++ {
		line, err := c.readLineLittleEndian(reader)
		if err == nil {
			err = c.decodeLittleEndian(c.fromBottom(i), line) // write vertically flipped
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// fromBottom returns the i-th row of the image counted from the bottom.
func (c *Composite) fromBottom(i int) []float32 {
	return c.PlainData[len(c.PlainData)-1-i]
}
'''))
benign("r9-sb-rows-range-len", (SB, '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
''', '''	n := len(c.PlainData)
	last := n - 1
	for i := 0; i != n; i++ {
'''))
benign("r9-sb-value-switch", (SB, between(SB, "	if value == 250 {", "\n}\n"), '''	conv := NaN
	if value != 250 { // error code: no-data
		conv = c.rvp6Raw(int(value)) // set decimal point
		if c.DataUnit == Unit_dBZ {
			conv = toDBZ(conv)
		}
	}
	return conv'''))
benign("r9-rl-fill-copy", (L, '''	for i := range dst {
		dst[i] = NaN
	}
''', '''	for i, n := 0, len(dst); i < n; i++ {
		dst[i] = NaN
	}
'''))
benign("r9-rl-index-from-one", (L, '''	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset:''', '''	for i := 1; i < len(line); i++ { // skip useless line number
		value := line[i]
		switch {
		case offset:'''))
benign("r9-rl-remaining", (L, '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			decoded := c.rvp6Runlength(value)
			for ; runlength > 0; runlength-- {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = decoded
				dstpos++
			}
'''))
benign("r9-rl-level-range", (L, between(L, "	if value == 0 {\n		return NaN", "\n}\n"), '''	if index := int(value) - 1; index >= 0 && index < len(c.level) {
		return c.level[index]
	}
	return NaN // no data or border markings'''))
benign("r9-rl-line-named", (L, between(L, "func (c *Composite) readLineRunlength", "func (c *Composite) decodeRunlength"), '''func (c *Composite) readLineRunlength(rd *bufio.Reader) ([]byte, error) {
	line, err := rd.ReadBytes('\\n')
	if err != nil {
		return nil, newError("readLineRunlength", err.Error())
	}
	return line[:len(line)-1], nil
}

'''))
# ---- composite
benign("r9-ra-err-chain", (R, '''	err = comp.parseHeader(reader)
	if err != nil {
		return
	}

	err = comp.parseData(reader)
	if err != nil {
		return
	}
''', '''	for _, step := range []func(*bufio.Reader) error{comp.parseHeader, comp.parseData} {
		if err = step(reader); err != nil {
			return
		}
	}
'''))
benign("r9-ra-finish", (R, '''	comp.arrangeData()

	comp.calibrateProjection()

	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}

	return
}
''', '''	return comp, comp.finish()
}

// finish sets up the layers and the projection.
func (c *Composite) finish() error {
	c.arrangeData()
	c.calibrateProjection()

	if c.DataUnit != Unit_unknown {
		return nil
	}
	return ErrUnknownUnit
}
'''))
benign("r9-ra-archive-closure", (R, between(R, "	var cs []*Composite\n", "	// sort composites"), '''	var cs []*Composite
	next := func() (bool, error) {
		if _, err := tarReader.Next(); err != nil {
			if err == io.EOF {
				return false, nil
			}
			return false, err
		}
		c, err := NewComposite(tarReader)
		if err != nil {
			return false, err
		}
		cs = append(cs, c)
		return true, nil
	}
	for {
		more, err := next()
		if err != nil {
			return nil, err
		}
		if !more {
			break
		}
	}

'''))
benign("r9-ra-atz-switch", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	switch {
	case x < 0, x >= c.Dx:
		return NaN
	case y < 0, y >= c.Dy:
		return NaN
	case z < 0, z >= c.Dz:
		return NaN
	}
	layer := c.DataZ[z]
	return layer[y][x]
'''))
benign("r9-ra-dummy-fields", (R, "	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}\n", '''	comp = new(Composite)
	comp.Product = product
	comp.Format = format
	comp.Dx, comp.Dy = dx, dy
'''))
# ---- projection
benign("r9-pj-detect-closure", (P, between(P, "	dx, dy := minRes(c.Dx, c.Dy)\n", "// cornerPoints returns"), '''	dx, dy := minRes(c.Dx, c.Dy)
	is := func(x, y int) bool {
		mx, my := minRes(x, y)
		return dx == mx && dy == my
	}

	switch {
	case is(900, 900):
		return nationalGrid
	case is(920, 920):
		return nationalPictureGrid
	case is(900, 1100):
		return extendedNationalGrid
	case is(1100, 1200):
		return DE1200Grid
	case is(1400, 1500):
		return middleEuropeanGrid
	default:
		return unknownGrid
	}
}

'''))
benign("r9-pj-minres-or", (P, '''	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
''', '''	for (rdx|rdy)&1 == 0 {
		rdx, rdy = rdx>>1, rdy>>1
	}
'''))
benign("r9-pj-calibrate-guard", (P, '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''	wgs := c.Format >= 5
	if wgs && detectedGrid != DE1200Grid {
		return
	}
	if wgs {
		c.proj_wgs84 = proj_DE1200_WGS84
	}
'''))
benign("r9-pj-image-method", (SPH, '''	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling
	x /= c.Rx
	y /= c.Ry

	return
''', '''	return c.toImage(x, y)
'''), (WGS, '''	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling to image
	x /= c.Rx
	y /= c.Ry

	return
''', '''	return c.toImage(x, y)
'''), (P, "// Project transforms", '''// toImage applies offset correction and scaling.
func (c *Composite) toImage(px, py float64) (float64, float64) {
	return (px - c.offx) / c.Rx, (py - c.offy) / c.Ry
}

// Project transforms'''))
benign("r9-pj-nan-const", (P, '''		x, y = math.NaN(), math.NaN()
		return
	}

	if c.proj_wgs84 != nil {
		return c.projectWGS84(north, east)
	}
	return c.projectSphere(north, east)
''', '''		nan := math.NaN()
		return nan, nan
	}

	project := c.projectSphere
	if c.proj_wgs84 != nil {
		project = c.projectWGS84
	}
	return project(north, east)
'''))
benign("r9-wgs-latlon-params", (WGS, '''	p := c.proj_wgs84
	lat := north
	lon := east

	lat *= degToRad
	lon *= degToRad

	sinLat := math.Sin(lat)

	s := p.k_0 * math.Tan(0.5*(math.Pi/2-lat)) / math.Pow(((1-p.ecc*sinLat)/(1+p.ecc*sinLat)), 0.5*p.ecc)

	x = p.x_0 + (s * math.Sin(lon-p.lon_0))
	y = p.y_0 - (s * math.Cos(lon-p.lon_0))

	x = (x / p.scale)
	y = (y / -p.scale)
''', '''	x, y = c.proj_wgs84.project(north*degToRad, east*degToRad)
'''), (WGS, "func (c *Composite) projectWGS84", '''// project returns the coordinates of a point given in radians.
func (p *projection) project(lat, lon float64) (x, y float64) {
	e := p.ecc * math.Sin(lat)
	s := p.k_0 * math.Tan(0.5*(math.Pi/2-lat)) / math.Pow((1-e)/(1+e), 0.5*p.ecc)

	sin, cos := math.Sincos(lon - p.lon_0)
	x = p.x_0 + s*sin
	y = p.y_0 - s*cos
	return x / p.scale, y / -p.scale
}

func (c *Composite) projectWGS84'''))
# ---- vis
benign("r9-vi-image-helper-pixel", (V, '''			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
''', '''			img.SetRGBA(x, y, fn(float64(c.AtZ(x, y, layer))))
'''))
benign("r9-vi-image-row", (V, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	data := c.DataZ[layer]
	for y := range data {
		for x := range data[y] {
			colour := fn(float64(data[y][x]))
			img.Set(x, y, colour)
		}
	}
'''))
benign("r9-vi-gray-else-chain", (V, '''		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
''', '''		var l uint8
		switch p := (val - min) / (max - min); {
		case p != p: // no data
			l = 0
		case p > 1:
			l = 0xFF
		default:
			l = uint8(0xFF * p)
		}
		return color.RGBA{R: l, G: l, B: l, A: 0xFF}
'''))
benign("r9-vi-black-var", (V, '''func Id(x float64) float64 {''', '''func Id(x float64) float64 {'''), (V, '''		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 { // limit
			p = 1
		}
		h := math.Mod''', '''		if math.IsNaN(p) { // no data
			return black
		}
		if p >= 1 { // limit
			p = 1
		}
		h := math.Mod'''), (V, "// Id is the identity", '''var black = color.RGBA{A: 0xFF}

// Id is the identity'''))
benign("r9-vi-radial-hoisted-const", (V, '''		base := math.Max(math.Abs(min), math.Abs(max))
		p := compression(math.Abs(val)) / compression(base)
''', '''		speed := math.Abs(val)
		base := math.Max(math.Abs(min), math.Abs(max))
		p := compression(speed) / compression(base)
'''), (V, "		if math.Abs(val) <= 1 {\n", "		if speed <= 1 {\n"))
benign("r9-vi-radial-colors", (V, '''		if val < 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}

		return color.RGBA{lev, non, non, 0xFF}
''', '''		rgba := color.RGBA{R: lev, G: non, B: non, A: 0xFF}
		if val < 0 {
			rgba.R, rgba.G, rgba.B = non, lev, lev
		}
		return rgba
'''))
benign("r9-vi-heat-chroma-helper", (V, '''		m := l - c/2
		r, g, b := uint8(0xFF*(rr+m)), uint8(0xFF*(gg+m)), uint8(0xFF*(bb+m))

		return color.RGBA{r, g, b, 0xFF}
''', '''		m := l - c/2
		channel := func(v float64) uint8 { return uint8(0xFF * (v + m)) }

		return color.RGBA{channel(rr), channel(gg), channel(bb), 0xFF}
'''))
benign("r9-vi-heat-drop-s", (V, '''		s := 1.0          // saturation
		l := 0.5*p + 0.25 // lightness
''', '''		l := 0.5*p + 0.25 // lightness
'''), (V, '''		c := (1 - math.Abs(2*l-1)) * s // calculate chroma
''', '''		c := 1 - math.Abs(2*l-1) // calculate chroma (fully saturated)
'''))
# ---- command
benign("r9-cm-heat-func", (C, between(C, "	var heatmap vis.ColorFunc\n", "	// convert composite to image"), '''	heatmap := gradient(comp)

'''), (C, "// care exits", '''// gradient selects the color function for the unit of the composite.
func gradient(comp *radolan.Composite) vis.ColorFunc {
	switch comp.DataUnit {
	case radolan.Unit_mm:
		return vis.Heatmap(0.1, maxRain(comp.Interval), vis.Log)
	case radolan.Unit_dBZ:
		return vis.HeatmapReflectivity
	case radolan.Unit_km:
		return vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		return vis.HeatmapRadialVelocity
	}
	return nil
}

// maxRain returns the upper end of the scale in mm.
func maxRain(interval time.Duration) float64 {
	switch {
	case interval >= 7*24*time.Hour:
		return 400
	case interval <= time.Hour:
		return 100
	}
	return 200
}

// care exits'''))
benign("r9-cm-mesh-two-loops-split", (C, '''	if comp.HasProjection {
''', '''	if !comp.HasProjection {
		save(img, out)
		return
	}
	{
'''), (C, '''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
''', '''	save(img, out)
}

// save writes the image to a file.
func save(img image.Image, out string) {
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
'''), (C, '	"image/color"\n', '	"image"\n	"image/color"\n'))
benign("r9-cm-plot", (C, '''			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(x), int(y), borderColor)
''', '''			plot(b[0], b[1], borderColor)
'''), (C, '''					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
''', '''					plot(float64(n)/10, float64(e)/10, meshColor)
'''), (C, '''		for _, b := range border {
''', '''		plot := func(north, east float64, c color.Color) {
			x, y := comp.Project(north, east)
			img.Set(int(x), int(y), c)
		}

		for _, b := range border {
'''))
benign("r9-cm-usage-else", (C, '''			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
		return
	}

	convert(os.Args[1], os.Args[2])
''', '''			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
	} else {
		in, out := os.Args[1], os.Args[2]
		convert(in, out)
	}
'''))
benign("r9-cm-care-print", (C, '''	if err != nil {
		log.Fatal(err)
	}
''', '''	if err == nil {
		return
	}
	log.Print(err)
	os.Exit(1)
'''))
# ---- conversion and catalog
benign("r9-cv-steps", (CONV, '''	return relation.c2 * math.Pow(relation.c3, float64(dBZ))
''', '''	rate = math.Pow(relation.c3, float64(dBZ))
	rate *= relation.c2
	return
'''))
benign("r9-cv-keyed", (CONV, '''	return ZR{c1, c2, c3, c4}
''', '''	var zr ZR
	zr.c1, zr.c2 = c1, c2
	zr.c3, zr.c4 = c3, c4
	return zr
'''))
benign("r9-cv-raw-scale", (CONV, '''	return float32(value) * float32(math.Pow10(c.precision))
''', '''	scale := float32(math.Pow10(c.precision))
	return scale * float32(value)
'''))
benign("r9-cv-dbz-consts", (CONV, '''	return rvp6/2.0 - 32.5
''', '''	const bias = 32.5 // dBZ
	dBZ = rvp6 / 2
	dBZ -= bias
	return dBZ
'''))
benign("r9-ct-string-array", (CAT, '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	names := [...]string{
		Unit_unknown: "unknown unit",
		Unit_mm:      "mm",
		Unit_dBZ:     "dBZ",
		Unit_km:      "km",
		Unit_mps:     "m/s",
	}
	return names[u]
'''))
MESHLOOP = between(C, "		for e := 10; e < 160; e++ {", "	}\n\n	// create output file")
benign("r9-cm-mesh-collect", (C, MESHLOOP, '''		var points [][2]float64
		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					points = append(points, [2]float64{float64(n) / 10, float64(e) / 10})
				}
			}
		}
		for _, pt := range points {
			x, y := comp.Project(pt[0], pt[1])
			img.Set(int(x), int(y), meshColor)
		}
'''))
benign("r9-cm-draw-points", (C, MESHLOOP, '''		drawPoints(img, comp, meshPoints(), meshColor)
'''), (C, between(C, "		for _, b := range border {", "		// draw mesh"), '''		drawPoints(img, comp, border, borderColor)

'''), (C, "// care exits", '''// meshPoints returns the points of the mesh.
func meshPoints() []p {
	points := []p{}
	for e := 10; e < 160; e++ { // 0.1 degree steps
		for n := 460; n < 550; n++ {
			if e%10 != 0 && n%10 != 0 {
				continue
			}
			points = append(points, p{float64(n) / 10, float64(e) / 10})
		}
	}
	return points
}

// drawPoints draws points given by latitude and longitude.
func drawPoints(img *image.RGBA, comp *radolan.Composite, points []p, c color.RGBA) {
	for _, pt := range points {
		x, y := comp.Project(pt[0], pt[1])
		img.Set(int(x), int(y), c)
	}
}

// care exits'''), (C, '	"image/color"\n', '	"image"\n	"image/color"\n'))
benign("r9-cm-mesh-struct", (C, MESHLOOP, '''		for _, pt := range meshPoints() {
			x, y := comp.Project(pt.north, pt.east)
			img.Set(int(x), int(y), meshColor)
		}
'''), (C, "// care exits", '''type point struct{ north, east float64 }

// meshPoints returns the points of the mesh.
func meshPoints() []point {
	points := make([]point, 0, 2000)
	for e := 1; e < 16; e++ {
		for n := 460; n < 550; n++ {
			points = append(points, point{float64(n) / 10, float64(e)})
		}
	}
	for n := 46; n < 55; n++ {
		for e := 10; e < 160; e++ {
			points = append(points, point{float64(n), float64(e) / 10})
		}
	}
	return points
}

// care exits'''))
