"""Fifth suite of behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

# ---- run length
RL = '''	dstpos := 0
	offset := true
	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset: // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}

			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
		default:
			// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
			runlength := int(value >> 4)
			value &= 0x0F

			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
		}
	}

	return nil
'''
RUNS = '''		for n := value >> 4; n > 0; n-- {
			if dstpos >= len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			dst[dstpos] = c.rvp6Runlength(value & 0x0F)
			dstpos++
		}
'''
benign("r5-rl-offset-helper", (L, RL, '''	if len(line) == 0 {
		return nil
	}

	dstpos, runs, err := rowOffset(line[1:])
	if err != nil {
		return err
	}
	for _, value := range runs {
''' + RUNS + '''	}
	return nil
'''), (L, None, '''
// rowOffset decodes the leading offset and returns the bytes that follow it.
func rowOffset(line []byte) (pos int, rest []byte, err error) {
	for i, value := range line {
		if value < 16 {
			return 0, nil, newError("decodeRunlength", "invalid offset value")
		}
		pos += int(value) - 16
		if value != 255 {
			return pos, line[i+1:], nil
		}
	}
	return pos, nil, nil
}
'''))
benign("r5-rl-two-index-loops", (L, RL, '''	i, dstpos := 1, 0
	for i < len(line) {
		value := line[i]
		i++
		if value < 16 {
			return newError("decodeRunlength", "invalid offset value")
		}
		dstpos += int(value) - 16
		if value != 255 {
			break
		}
	}
	for ; i < len(line); i++ {
		value := line[i]
''' + RUNS + '''	}
	return nil
'''))
benign("r5-rl-two-loops-255", (L, RL, '''	i, dstpos := 1, 0
	for more := true; more && i < len(line); i++ {
		if line[i] < 16 {
			return newError("decodeRunlength", "invalid offset value")
		}
		dstpos += int(line[i] - 16)
		more = line[i] == 255
	}
	for ; i < len(line); i++ {
		value := line[i]
''' + RUNS + '''	}
	return nil
'''))
benign("r5-rl-state-const", (L, RL, '''	const (
		expectNumber = iota
		expectOffset
		expectRun
	)
	state, dstpos := expectNumber, 0
	for _, value := range line {
		switch state {
		case expectNumber:
			state = expectOffset
		case expectOffset:
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}
			dstpos += int(value) - 16
			if value != 255 {
				state = expectRun
			}
		case expectRun:
''' + RUNS + '''		}
	}
	return nil
'''))
benign("r5-rl-run-in-bounds", (L, '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			if runlength > 0 && dstpos+runlength > len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			level := c.rvp6Runlength(value)
			for end := dstpos + runlength; dstpos < end; dstpos++ {
				dst[dstpos] = level
			}
'''))

# ---- header
benign("r5-hd-flush-closure", (H, '''	for i, c := range header {
		if unicode.IsUpper(c) {
			if dispatch {
				m[header[beginKey:endKey]] = header[beginValue:endValue]
				beginKey = i
				dispatch = false
			}
			endKey = i + 1
''', '''	store := func() { m[header[beginKey:endKey]] = header[beginValue:endValue] }
	for i, c := range header {
		if unicode.IsUpper(c) {
			if dispatch {
				store()
				beginKey, dispatch = i, false
			}
			endKey = i + 1
'''), (H, '''	m[header[beginKey:endKey]] = header[beginValue:endValue]

	return
}''', '''	store()

	return
}'''))
benign("r5-hd-section-type", (H, '''	if vv, ok := section["VV"]; ok {
		min := 0
		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
	}
''', '''	if min, ok, err := sectionMap(section).number("VV"); err != nil {
		return newError("parseHeader", "could not parse forecast time: "+err.Error())
	} else if ok {
		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
	}
'''), (H, None, '''
type sectionMap map[string]string

// number reads the section named key as a number.
func (s sectionMap) number(key string) (n int, ok bool, err error) {
	var text string
	if text, ok = s[key]; ok {
		_, err = fmt.Sscanf(text, "%d", &n)
	}
	return
}
'''))
benign("r5-hd-forecast-inverted", (H, '''	c.ForecastTime = c.CaptureTime
	if vv, ok := section["VV"]; ok {
		min := 0
''', '''	if vv, ok := section["VV"]; !ok {
		c.ForecastTime = c.CaptureTime
	} else {
		min := 0
'''), )
benign("r5-hd-length-const", (H, "func (c *Composite) parseHeader(", '''const (
	productLen = 2
	dateBegin  = productLen
	dateEnd    = dateBegin + 6
	wmoLen     = 5
	monthBegin = dateEnd + wmoLen
	monthEnd   = monthBegin + 4
	minHeader  = monthEnd + len("BY..") + 1
)

func (c *Composite) parseHeader('''), (H, "len(header) < 22 {", "len(header) < minHeader {"),
 (H, "c.Product = header[:2]", "c.Product = header[:productLen]"),
 (H, "header[2:8] + header[13:17]", "header[dateBegin:dateEnd] + header[monthBegin:monthEnd]"))
benign("r5-hd-steps-table", (H, '''	if prec, ok := section["E"]; ok { // not that nice
		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
	}
''', '''	for _, step := range []func(*Composite, map[string]string) error{
		(*Composite).parsePrecision,
		(*Composite).parseFormat,
	} {
		if err := step(c, section); err != nil {
			return err
		}
	}
'''), (H, '''	if vs, ok := section["VS"]; ok {
		if _, err = fmt.Sscanf(vs, "%d", &c.Format); err != nil {
			return newError("parseHeader", "invalid format value: "+err.Error())
		}
	}

	return nil
}
''', '''	return nil
}

func (c *Composite) parsePrecision(section map[string]string) error {
	if prec, ok := section["E"]; ok { // not that nice
		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
	}
	return nil
}

func (c *Composite) parseFormat(section map[string]string) error {
	if vs, ok := section["VS"]; ok {
		if _, err := fmt.Sscanf(vs, "%d", &c.Format); err != nil {
			return newError("parseHeader", "invalid format value: "+err.Error())
		}
	}
	return nil
}
'''))
benign("r5-hd-int-fields-table", (H, '''	if prec, ok := section["E"]; ok { // not that nice
		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
	}
''', '''	for _, field := range []struct {
		key, what string
		dst       *int
	}{
		{"E", "could not parse precision: ", &c.precision},
		{"VS", "invalid format value: ", &c.Format},
	} {
		if text, ok := section[field.key]; ok {
			if _, err := fmt.Sscanf(text, "%d", field.dst); err != nil {
				return newError("parseHeader", field.what+err.Error())
			}
		}
	}
'''), (H, '''	if vs, ok := section["VS"]; ok {
		if _, err = fmt.Sscanf(vs, "%d", &c.Format); err != nil {
			return newError("parseHeader", "invalid format value: "+err.Error())
		}
	}

''', ''))
benign("r5-hd-dim-loop", (H, '''	if dim, ok := section["GP"]; ok {
		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation

	} else if dim, ok := section["BG"]; ok {
		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation

	} else {''', '''	dim, key, format := section["GP"], "GP", "%dx%d"
	_, known := section["GP"]
	if !known {
		key, format = "BG", "%3d%3d"
		dim, known = section["BG"]
	}
	if known {
		if _, err := fmt.Sscanf(dim, format, &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions ("+key+"): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation

	} else {'''))
benign("r5-hd-dim-switch", (H, '''	if dim, ok := section["GP"]; ok {
		if _, err''', '''	dimGP, hasGP := section["GP"]
	dimBG, hasBG := section["BG"]
	switch {
	case hasGP:
		dim := dimGP
		if _, err'''), (H, '''	} else if dim, ok := section["BG"]; ok {
''', '''	case hasBG:
		dim := dimBG
'''), (H, '''	} else { // dimensions of local''', '''	default: // dimensions of local'''))
benign("r5-hd-level-fields", (H, '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		level := make([]float32, 0, cnt)
		for rest := lv[2:]; len(rest) > 0; rest = rest[5:] {
			var value float32
			if _, err = fmt.Sscanf(rest[:5], "%f", &value); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
			level = append(level, value)
		}
		c.level = level
'''))
benign("r5-hd-receiver-local", (H, '''	c.dataLength -= len(header) // remove header length including delimiter
''', '''	total := &c.dataLength
	*total = *total - len(header) // remove header length including delimiter
'''))
benign("r5-hd-minutes-mul", (H, "c.CaptureTime.Add(time.Duration(min) * time.Minute)", "c.CaptureTime.Add(time.Minute * time.Duration(min))"),
 (H, '''		c.Interval = time.Duration(min) * time.Minute
		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		factor := time.Minute
		if decades[c.Product] {
			factor = 10 * time.Minute
		}
		c.Interval = time.Duration(min) * factor
'''), (H, None, '''
var decades = map[string]bool{"W1": true, "W2": true, "W3": true, "W4": true}
'''))

# ---- data
benign("r5-dt-parser-interface", (D, '''	return parse[c.identifyEncoding()](c, reader)
''', '''	return parserFor(c.identifyEncoding()).parse(c, reader)
'''), (D, None, '''
type parser interface {
	parse(c *Composite, rd *bufio.Reader) error
}

type parserFunc func(c *Composite, rd *bufio.Reader) error

func (f parserFunc) parse(c *Composite, rd *bufio.Reader) error { return f(c, rd) }

func parserFor(e encoding) parser { return parserFunc(parse[e]) }
'''))
benign("r5-dt-parse-literal", (D, '''var parse = [4]func(c *Composite, rd *bufio.Reader) error{}

''', '''var parse = [...]func(c *Composite, rd *bufio.Reader) error{
	runlength:    (*Composite).parseRunlength,
	littleEndian: (*Composite).parseLittleEndian,
	singleByte:   (*Composite).parseSingleByte,
	unknown:      (*Composite).parseUnknown,
}

'''), (D, '''func init() {
	parse[runlength] = (*Composite).parseRunlength
	parse[littleEndian] = (*Composite).parseLittleEndian
	parse[singleByte] = (*Composite).parseSingleByte
	parse[unknown] = (*Composite).parseUnknown
}
''', ''))
benign("r5-dt-identify-switch", (D, '''	if c.dataLength == values*2 {
		return littleEndian
	}
	if c.dataLength == values {
		return singleByte
	}

	return unknown
''', '''	switch c.dataLength {
	case 2 * values:
		return littleEndian
	case values:
		return singleByte
	default:
		return unknown
	}
'''))
benign("r5-dt-arrange-layerfunc", (D, '''		c.DataZ = make([][][]float32, c.Py/c.Dy)
		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
''', '''		layers := c.Py / c.Dy
		c.DataZ = make([][][]float32, layers)
		for z := 0; z < layers; z++ {
			c.DataZ[z] = c.plainRows(z*c.Dy, c.Dy)
		}
'''), (D, '''		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
''', '''		c.DataZ = [][][]float32{c.plainRows(c.Py-c.Dy, c.Dy)} // strip elevation
'''), (D, None, '''
func (c *Composite) plainRows(first, n int) [][]float32 {
	return c.PlainData[first : first+n]
}
'''))
benign("r5-dt-generic-alloc", (D, '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	c.PlainData = newMatrix[float32](c.Px, c.Py)
'''), (D, None, '''
func newMatrix[T any](cols, rows int) [][]T {
	m := make([][]T, rows)
	for i := range m {
		m[i] = make([]T, cols)
	}
	return m
}
'''))
benign("r5-dt-valid-method", (D, '''	if c.Px <= 0 || c.Py <= 0 {
		return newError("parseData", "parsed header data required")
	}
	if c.Px > maxDimension || c.Py > maxDimension {
		return newError("parseData", "image dimensions exceed limit")
	}
''', '''	for _, n := range [...]int{c.Px, c.Py} {
		if n <= 0 {
			return newError("parseData", "parsed header data required")
		}
		if n > maxDimension {
			return newError("parseData", "image dimensions exceed limit")
		}
	}
'''))

# ---- values
for pre, f, fn, arg in (("le", LE, "rvp6LittleEndian", "value"), ("sb", SB, "rvp6SingleByte", "int(value)")):
    benign(f"r5-{pre}-scaled", (f, f'''	conv := c.rvp6Raw({arg}) // set decimal point

	if c.DataUnit != Unit_dBZ {{
		return conv
	}}

	return toDBZ(conv)
''', f'''	return c.inUnit(c.rvp6Raw({arg}))
'''), (f, None, '''
// inUnit converts a scaled raw value to the unit of the composite.
func (c *Composite) inUnit(raw float32) float32 {
	switch c.DataUnit {
	case Unit_dBZ:
		return toDBZ(raw)
	}
	return raw
}
'''))
benign("r5-le-goto", (LE, '''	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}
''', '''	sign := 1
	if tuple[1]>>6&1 == 1 { // flag: negative value
		sign = -1
	}
	value *= sign
'''))
benign("r5-le-fields", (LE, '''	var value int = 0x0F & int(tuple[1])
	value = (value << 8) + int(tuple[0])

	if tuple[1]&(1<<5) != 0 { // error code: no-data
		return NaN
	}

	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}
''', '''	word := uint16(tuple[1])<<8 | uint16(tuple[0])
	const (
		mask     = 1<<12 - 1
		noData   = 1 << 13
		negative = 1 << 14
	)
	if word&noData == noData {
		return NaN
	}
	value := int(word & mask)
	if word&negative == negative {
		value = -value
	}
'''))
benign("r5-le-pairs", (LE, '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	for i := range dst {
		pair := line[2*i:][:2]
		dst[i] = c.rvp6LittleEndian([2]byte{pair[0], pair[1]})
	}
'''))
benign("r5-le-arrayconv", (LE, '''		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
''', '''		var tuple [2]byte
		copy(tuple[:], line[2*i:])
		dst[i] = c.rvp6LittleEndian(tuple)
'''))
benign("r5-rows-flip-var", (LE, '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
''', '''	for row := len(c.PlainData); row > 0; {
		row-- // write vertically flipped
		if line, err := c.readLineLittleEndian(reader); err != nil {
			return err
		} else if err = c.decodeLittleEndian(c.PlainData[row], line); err != nil {
			return err
		}
	}

	return nil
'''))
benign("r5-rows-callback", (SB, '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}

		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
''', '''	return c.eachRowUpwards(func(dst []float32) error {
		line, err := c.readLineSingleByte(reader)
		if err == nil {
			err = c.decodeSingleByte(dst, line)
		}
		return err
	})
'''), (SB, None, '''
// eachRowUpwards calls f for the rows from the bottom to the top.
func (c *Composite) eachRowUpwards(f func(dst []float32) error) error {
	for i := len(c.PlainData) - 1; i >= 0; i-- {
		if err := f(c.PlainData[i]); err != nil {
			return err
		}
	}
	return nil
}
'''))

# ---- composites
benign("r5-ra-steps", (R, '''	err = comp.parseHeader(reader)
	if err != nil {
		return
	}

	err = comp.parseData(reader)
	if err != nil {
		return
	}
	comp.arrangeData()
''', '''	for _, step := range []func(*bufio.Reader) error{comp.parseHeader, comp.parseData} {
		if err = step(reader); err != nil {
			return
		}
	}
	comp.arrangeData()
'''))
benign("r5-ra-archive-iter", (R, '''	var cs []*Composite
	for {
		_, err := tarReader.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
''', '''	cs, err := readAll(tarReader)
	if err != nil {
		return nil, err
	}
'''), (R, None, '''
// readAll reads the composites of all entries.
func readAll(tarReader *tar.Reader) (cs []*Composite, err error) {
	for {
		switch _, err = tarReader.Next(); err {
		case nil:
		case io.EOF:
			return cs, nil
		default:
			return nil, err
		}
		var c *Composite
		if c, err = NewComposite(tarReader); err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
}
'''))
benign("r5-ra-at-inside-method", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	within := func(i, n int) bool { return 0 <= i && i < n }
	if within(x, c.Dx) && within(y, c.Dy) && within(z, c.Dz) {
		return c.DataZ[z][y][x]
	}
	return NaN
'''))

# ---- projection
benign("r5-pj-corner-struct", (P, '''	c.offx, c.offy = c.Project(originTop, originLeft)

	resx, resy := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
''', '''	type corner struct{ north, east float64 }
	project := func(p corner) (float64, float64) { return c.Project(p.north, p.east) }

	c.offx, c.offy = project(corner{originTop, originLeft})
	width, height := project(corner{edgeBottom, edgeRight})
	c.Rx, c.Ry = width/float64(c.Dx), height/float64(c.Dy)
'''))
benign("r5-pj-calibrate-nan", (P, '''	if c.Rx == 0 || c.Ry == 0 { // resolution is not defined by catalog
		c.Rx = math.NaN()
		c.Ry = math.NaN()
	}
	c.offx = math.NaN()
	c.offy = math.NaN()
''', '''	nan := math.NaN()
	if defined := c.Rx != 0 && c.Ry != 0; !defined { // resolution is not defined by catalog
		c.Rx, c.Ry = nan, nan
	}
	c.offx, c.offy = nan, nan
'''))
benign("r5-pj-wgs-only", (P, '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''	switch wgs84 := c.Format > 4; {
	case wgs84 && detectedGrid != DE1200Grid:
		return
	case wgs84:
		c.proj_wgs84 = proj_DE1200_WGS84
	}
'''))
benign("r5-pj-grids-table", (P, '''	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}
	if mx, my := minRes(920, 920); dx == mx && dy == my {
		return nationalPictureGrid
	}
	if mx, my := minRes(900, 1100); dx == mx && dy == my {
		return extendedNationalGrid
	}
	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
		return DE1200Grid
	}
	if mx, my := minRes(1400, 1500); dx == mx && dy == my {
		return middleEuropeanGrid
	}
	return unknownGrid
''', '''	type size struct{ dx, dy int }
	grids := map[size]grid{}
	for _, e := range []struct {
		dx, dy int
		grid
	}{
		{900, 900, nationalGrid},
		{920, 920, nationalPictureGrid},
		{900, 1100, extendedNationalGrid},
		{1100, 1200, DE1200Grid},
		{1400, 1500, middleEuropeanGrid},
	} {
		mx, my := minRes(e.dx, e.dy)
		grids[size{mx, my}] = e.grid
	}
	return grids[size{dx, dy}]
'''))
benign("r5-pj-scale-shared", (SPH, '''	x -= c.offx
	y -= c.offy

	x /= c.Rx
	y /= c.Ry

	return
''', '''	return c.toPixel(x, y)
'''), (WGS, '''	x -= c.offx
	y -= c.offy

	x /= c.Rx
	y /= c.Ry

	return
''', '''	return c.toPixel(x, y)
'''), (P, None, '''
// toPixel converts coordinates on the plane to pixels of the grid.
func (c *Composite) toPixel(x, y float64) (float64, float64) {
	return (x - c.offx) / c.Rx, (y - c.offy) / c.Ry
}
'''))
benign("r5-pj-minres-shift", (P, '''	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	for (rdx|rdy)%2 == 0 {
		rdx, rdy = rdx/2, rdy/2
	}
	return
'''))
benign("r5-pj-interface", (P, '''	if c.proj_wgs84 != nil {
		return c.projectWGS84(north, east)
	}
	return c.projectSphere(north, east)
''', '''	project := c.projectSphere
	if c.proj_wgs84 != nil {
		project = c.projectWGS84
	}
	return project(north, east)
'''))

# ---- colours and converter
benign("r5-vi-black-const", (V, '''func Graymap(''', '''var black = color.RGBA{A: 0xFF}

func Graymap('''), (V, "color.RGBA{0x00, 0x00, 0x00, 0xFF} // black", "black", 5))
benign("r5-vi-relative-closure", (V, '''	min = compression(min)
	max = compression(max)

	return func(val float64) color.RGBA {
		val = compression(val)

		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
''', '''	relative := scale(min, max, compression)

	return func(val float64) color.RGBA {
		var l uint8
		if p, ok := relative(val); ok {
			l = uint8(0xFF * p)
		}
		return color.RGBA{l, l, l, 0xFF}
'''), (V, None, '''
// scale returns a function for the position of a value in a range.
func scale(min, max float64, compression func(float64) float64) func(val float64) (p float64, ok bool) {
	min, max = compression(min), compression(max)
	return func(val float64) (p float64, ok bool) {
		v := compression(val)
		p = (v - min) / (max - min)
		switch {
		case v < min, math.IsNaN(p):
			return 0, false
		case p > 1:
			return 1, true
		}
		return p, true
	}
}
'''))
benign("r5-vi-set-colours", (V, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	for y, row := range c.DataZ[layer] {
		for x, value := range row[:c.Dx] {
			img.SetRGBA(x, y, fn(float64(value)))
		}
	}
'''))
benign("r5-cm-options", (C, '''	convert(os.Args[1], os.Args[2])
''', '''	in, out := os.Args[1], os.Args[2]
	convert(in, out)
'''))
benign("r5-cm-map-func", (C, '''	case radolan.Unit_dBZ:
		heatmap = vis.HeatmapReflectivity
	case radolan.Unit_km:
		heatmap = vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		heatmap = vis.HeatmapRadialVelocity
	}
''', '''	default:
		heatmap = map[radolan.Unit]vis.ColorFunc{
			radolan.Unit_dBZ: vis.HeatmapReflectivity,
			radolan.Unit_km:  vis.Graymap(0, 15, vis.Id),
			radolan.Unit_mps: vis.HeatmapRadialVelocity,
		}[comp.DataUnit]
	}
'''))
benign("r5-cm-mark-closure", (C, '''		for _, b := range border {
			x, y := comp.Project(b[0], b[1])

			img.Set(int(x), int(y), borderColor)
		}
''', '''		mark := func(north, east float64, col color.Color) {
			x, y := comp.Project(north, east)
			img.Set(int(x), int(y), col)
		}
		for i := range border {
			mark(border[i][0], border[i][1], borderColor)
		}
'''), (C, '''					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
''', '''					mark(float64(n)/10, float64(e)/10, meshColor)
'''))
benign("r5-cm-run-errors", (C, '''	convert(os.Args[1], os.Args[2])
}
''', '''	care(convert(os.Args[1], os.Args[2]))
}
'''), (C, "func convert(in, out string) {", "func convert(in, out string) error {"),
 (C, '''	infile, err := os.Open(in)
	care(err)
''', '''	infile, err := os.Open(in)
	if err != nil {
		return err
	}
'''), (C, '''	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp, err := radolan.NewComposite(infile)
	if err != nil {
		return err
	}
'''), (C, '''	outfile, err := os.Create(out)
	care(err)

	care(png.Encode(outfile, img))
	care(outfile.Close())
}
''', '''	outfile, err := os.Create(out)
	if err != nil {
		return err
	}
	if err := png.Encode(outfile, img); err != nil {
		return err
	}
	return outfile.Close()
}
'''))
benign("r5-cv-pow-shared", (CONV, '''	c1 := 10.0 * B
	c2 := math.Pow(A, -1.0/B)
	c3 := math.Pow(10.0, 1/c1)
	c4 := 10.0 * math.Log10(A)

	return ZR{c1, c2, c3, c4}
''', '''	var relation ZR
	relation.c1 = 10 * B
	relation.c2 = math.Pow(A, -1/B)
	relation.c3 = math.Pow(10, 1/relation.c1)
	relation.c4 = 10 * math.Log10(A)
	return relation
'''))
benign("r5-cv-scale-local", (CONV, '''	return float32(value) * float32(math.Pow10(c.precision))
''', '''	scale := float32(math.Pow10(c.precision))
	return scale * float32(value)
'''))
