"""Eighth suite of behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

# ---- header splitting
SPLITBODY = open("/repo/header.go").read().split("	m = make(map[string]string)\n")[1].split("// parseHeader parses")[0] if False else None
import subprocess as _s
_src = {f: _s.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout for f in (H, D, L, LE, SB, P, R, V, C, CONV, SPH, WGS)}
def between(f, a, b):
    s = _src[f]
    i = s.index(a); j = s.index(b, i)
    return s[i:j]
SPLIT = between(H, "	m = make(map[string]string)\n", "// parseHeader parses")
benign("r8-hs-put", (H, SPLIT, '''	m = map[string]string{}
	var k0, k1, v0, v1 int
	inValue := false
	put := func() {
		m[header[k0:k1]] = header[v0:v1]
	}

	for i, c := range header {
		upper := unicode.IsUpper(c)
		if !upper && i == 0 {
			return m // no key prefixing value
		}
		switch {
		case upper && inValue:
			put()
			k0, k1 = i, i+1
			inValue = false
		case upper:
			k1 = i + 1
		case inValue:
			v1 = i + 1
		default:
			v0, v1 = i, i+1
			inValue = true
		}
	}
	if !inValue {
		v0, v1 = len(header), len(header)
	}
	put()
	return m
}

'''))
benign("r8-hs-bytes", (H, SPLIT, '''	m = make(map[string]string)
	var key, value []rune
	for i, c := range []rune(header) {
		if !unicode.IsUpper(c) {
			if i == 0 {
				return
			}
			value = append(value, c)
			continue
		}
		if len(value) > 0 {
			m[string(key)] = string(value)
			key, value = nil, nil
		}
		key = append(key, c)
	}
	m[string(key)] = string(value)

	return
}

'''))
benign("r8-hs-consts", (H, '''	var beginKey, endKey, beginValue, endValue int
	var dispatch bool
''', '''	const (
		readKey = iota
		readValue
	)
	var beginKey, endKey, beginValue, endValue int
	state := readKey
'''), (H, '''			if dispatch {
				m[header''', '''			if state == readValue {
				m[header'''), (H, '''				dispatch = false
''', '''				state = readKey
'''), (H, '''			if !dispatch {
				beginValue = i
				dispatch = true
			}
''', '''			if state == readKey {
				beginValue = i
				state = readValue
			}
'''), (H, '''	if !dispatch { //''', '''	if state == readKey { //'''))

# ---- header
benign("r8-hd-extract-all", (H, '''	// Parse Precision - Example: "PR E-01" or "PR E+00"
	if prec, ok := section["E"]; ok { // not that nice
		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
	}
''', '''	if err := scanOptional(section, "E", &c.precision, "could not parse precision: "); err != nil {
		return err
	}
'''), (H, '''	if vs, ok := section["VS"]; ok {
		if _, err = fmt.Sscanf(vs, "%d", &c.Format); err != nil {
			return newError("parseHeader", "invalid format value: "+err.Error())
		}
	}

	return nil
}
''', '''	return scanOptional(section, "VS", &c.Format, "invalid format value: ")
}

// scanOptional reads the integer in the named field, if there is one.
func scanOptional(section map[string]string, name string, value *int, message string) error {
	field, ok := section[name]
	if !ok {
		return nil
	}
	if _, err := fmt.Sscanf(field, "%d", value); err != nil {
		return newError("parseHeader", message+err.Error())
	}
	return nil
}
'''))
benign("r8-hd-minutes", (H, between(H, "	c.ForecastTime = c.CaptureTime\n", "	// Parse Dimensions"), '''	c.ForecastTime = c.CaptureTime
	if vv, ok := section["VV"]; ok {
		offset, err := parseMinutes(vv)
		if err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime = c.ForecastTime.Add(offset)
	}

	if intr, ok := section["INT"]; ok {
		interval, err := parseMinutes(intr)
		if err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}
		if c.Product == "W1" || c.Product == "W2" || c.Product == "W3" || c.Product == "W4" {
			interval *= 10
		}
		c.Interval = interval
	}

'''), (H, '''// parseHeader parses and''', '''// parseMinutes parses a number of minutes.
func parseMinutes(field string) (d time.Duration, err error) {
	var n int
	_, err = fmt.Sscanf(field, "%d", &n)
	d = time.Duration(n) * time.Minute
	return
}

// parseHeader parses and'''))
benign("r8-hd-reorder-level", (H, between(H, "	// Parse Level - Example", "	// Parse Format Version"), ""), (H, '''	// Parse Precision - Example''', between(H, "	// Parse Level - Example", "	// Parse Format Version") + '''	// Parse Precision - Example'''))
benign("r8-hd-level-slices", (H, '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		levels := make([]float32, cnt)
		for i, values := 0, lv[2:]; i < cnt; i++ {
			if _, err = fmt.Sscanf(values[:5], "%f", &levels[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
			values = values[5:]
		}
		c.level = levels
'''))
benign("r8-hd-level-width", (H, '''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		const countWidth, valueWidth = 2, 5 // fortran format I2 + F5.1
		if len(lv)-countWidth != cnt*valueWidth {
			return newError("parseHeader", "invalid level format: "+lv)
		}

		c.level = make([]float32, cnt)
		for i, begin := 0, countWidth; i < len(c.level); i, begin = i+1, begin+valueWidth {
			if _, err = fmt.Sscanf(lv[begin:begin+valueWidth], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
'''))
benign("r8-hd-dims-func", (H, between(H, "	// Parse Dimensions", "	// Parse Precision"), '''	if err := c.parseDimensions(section); err != nil {
		return err
	}

'''), (H, '''// parseHeader parses and''', '''// parseDimensions sets the size of the composite.
func (c *Composite) parseDimensions(section map[string]string) (err error) {
	gp, hasGP := section["GP"]
	bg, hasBG := section["BG"]
	var name string

	switch {
	case hasGP:
		name = "GP"
		_, err = fmt.Sscanf(gp, "%dx%d", &c.Dy, &c.Dx)
	case hasBG:
		name = "BG"
		_, err = fmt.Sscanf(bg, "%3d%3d", &c.Dy, &c.Dx)
	default:
		v, ok := dimensionCatalog[c.Product]
		if !ok {
			return newError("parseHeader", "no dimension information available")
		}
		c.Px, c.Py, c.Dx, c.Dy, c.Rx, c.Ry = v.px, v.py, v.dx, v.dy, v.rx, v.ry
		return nil
	}
	if err != nil {
		return newError("parseHeader", "could not parse dimensions ("+name+"): "+err.Error())
	}
	c.Px = c.Dx
	c.Py = c.Dy
	return nil
}

// parseHeader parses and'''))
benign("r8-hd-header-struct", (H, '''	date := header[2:8] + header[13:17] // cut WMO number
	c.CaptureTime, err = time.Parse("0215040106", date)
''', '''	const layout = "021504" + "0106"
	c.CaptureTime, err = time.Parse(layout, header[2:8]+header[13:17]) // cut WMO number
'''), (H, '''	section := splitHeader(header[:len(header)-1]) // without delimiter
''', '''	size := len(header)
	section := splitHeader(header[:size-1]) // without delimiter
'''), (H, '''	c.dataLength -= len(header) // remove''', '''	c.dataLength = c.dataLength - size // remove'''))

# ---- data
benign("r8-dt-arrange-for", (D, between(D, "	if c.Py%c.Dy == 0 {", "	c.Dz = len(c.DataZ)"), '''	layers, rest := c.Py/c.Dy, c.Py%c.Dy
	if rest != 0 { // only use bottom most part of plain data
		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]}
	} else {
		c.DataZ = make([][][]float32, 0, layers)
		for z := 0; z < layers; z++ {
			begin := z * c.Dy
			c.DataZ = append(c.DataZ, c.PlainData[begin:begin+c.Dy])
		}
	}

'''))
benign("r8-dt-layer-method", (D, '''			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
''', '''			c.DataZ[i] = c.rows(c.Dy*i, c.Dy)
'''), (D, '''		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
''', '''		c.DataZ = [][][]float32{c.rows(c.Py-c.Dy, c.Dy)}
'''), (D, '''// parseUnknown performs''', '''// rows returns n rows of the plain data.
func (c *Composite) rows(first, n int) [][]float32 {
	return c.PlainData[first : first+n]
}

// parseUnknown performs'''))
benign("r8-dt-encoding-named", (D, '''	values := c.Px * c.Py

	if c.level != nil {
		return runlength
	}
	if c.dataLength == values*2 {
		return littleEndian
	}
	if c.dataLength == values {
		return singleByte
	}

	return unknown
''', '''	values := c.Px * c.Py
	e := unknown
	if c.level != nil {
		e = runlength
	} else if values*2 == c.dataLength {
		e = littleEndian
	} else if values == c.dataLength {
		e = singleByte
	}
	return e
'''))
benign("r8-dt-parse-decode-split", (D, '''	return parse[c.identifyEncoding()](c, reader)
''', '''	decode := parse[c.identifyEncoding()]
	err := decode(c, reader)
	return err
'''))
benign("r8-dt-valid-swap", (D, '''	if c.Px <= 0 || c.Py <= 0 {
		return newError("parseData", "parsed header data required")
	}
	if c.Px > maxDimension || c.Py > maxDimension {
		return newError("parseData", "image dimensions exceed limit")
	}
''', '''	for _, n := range []int{c.Px, c.Py} {
		if n <= 0 {
			return newError("parseData", "parsed header data required")
		}
		if n > maxDimension {
			return newError("parseData", "image dimensions exceed limit")
		}
	}
'''))

# ---- two byte
LEROWS = between(LE, "	last := len(c.PlainData) - 1\n", "// readLineLittleEndian")
benign("r8-le-rows-down", (LE, LEROWS, '''	for y := c.Py - 1; y >= 0; y-- { // stored from bottom to top
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}
		if err := c.decodeLittleEndian(c.PlainData[y], line); err != nil {
			return err
		}
	}
	return nil
}

'''))
benign("r8-le-rows-one-err", (LE, LEROWS, '''	var line []byte
	var err error
	for i, n := 0, len(c.PlainData); i < n && err == nil; i++ {
		if line, err = c.readLineLittleEndian(reader); err == nil {
			err = c.decodeLittleEndian(c.PlainData[n-1-i], line)
		}
	}
	return err
}

'''))
benign("r8-le-buffer", (LE, '''	line = make([]byte, c.Dx*2)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineLittleEndian", err.Error())
	}
	return
''', '''	const size = 2 // bytes per value
	line = make([]byte, size*c.Dx)
	if n, e := io.ReadFull(rd, line); e != nil || n < len(line) {
		return line, newError("readLineLittleEndian", e.Error())
	}
	return line, nil
'''))
LEVAL = between(LE, "	var value int = 0x0F", "	conv := c.rvp6Raw(value)")
benign("r8-le-value-consts", (LE, LEVAL, '''	const (
		noData   = 0x20
		negative = 0x40
	)
	low, high := int(tuple[0]), int(tuple[1])
	if high&noData == noData {
		return NaN
	}
	value := high%16*256 + low
	if high&negative == negative {
		value = -value
	}

'''))
benign("r8-le-value-func", (LE, LEVAL, '''	magnitude := func() int { return int(tuple[0]) | int(tuple[1]&0x0F)<<8 }
	flag := func(bit uint) bool { return tuple[1]>>bit&1 == 1 }
	if flag(5) {
		return NaN
	}
	value := magnitude()
	if flag(6) {
		value = 0 - value
	}

'''))
benign("r8-le-dbz-switch", (LE, between(LE, "	// little endian encoded formats are also", "}\n\x00"[:2] + "\n" if False else "	return toDBZ(conv)"), '''	if c.DataUnit == Unit_dBZ {
		conv = toDBZ(conv)
	}
	return conv
'''), (LE, '''	return conv
	return toDBZ(conv)
''', '''	return conv
''')) if False else None
benign("r8-le-cells-reslice", (LE, '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	var tuple [2]byte
	for i := range dst {
		copy(tuple[:], line[2*i:])
		dst[i] = c.rvp6LittleEndian(tuple)
	}
'''))
benign("r8-le-cells-j", (LE, '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	for i, j := 0, 1; j < len(line); i, j = i+1, j+2 {
		dst[i] = c.rvp6LittleEndian([2]byte{line[j-1], line[j]})
	}
'''))
benign("r8-sb-all", (SB, '''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
	}
''', '''	convert := c.rvp6SingleByte
	for i := len(line) - 1; i >= 0; i-- {
		dst[i] = convert(line[i])
	}
'''), (SB, '''	if value == 250 { // error code: no-data
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set decimal point
''', '''	const missing = 0xFA
	if value == missing {
		return NaN
	}

	raw := int(value)
	conv := c.rvp6Raw(raw)
'''))
benign("r8-sb-fuse", (SB, between(SB, "	last := len(c.PlainData) - 1\n", "// readLineSingleByte"), '''	for i := 1; i <= len(c.PlainData); i++ {
		dst := c.PlainData[len(c.PlainData)-i]
		line, err := c.readLineSingleByte(reader)
		if err == nil {
			err = c.decodeSingleByte(dst, line)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

'''))

# ---- run length
RL = between(L, "	// fill destination as", "// rvp6Runlength sets")
benign("r8-rl-phases", (L, RL, '''	blank(dst)
	if len(line) < 2 {
		return nil
	}

	pos := 0
	offset := true
	for _, value := range line[1:] { // skip useless line number
		if offset {
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}
			pos += int(value - 16)
			offset = value == 0xFF
			continue
		}

		count := int(value) / 16
		level := value % 16
		for ; count > 0; count-- {
			if pos >= len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			dst[pos] = c.rvp6Runlength(level)
			pos++
		}
	}
	return nil
}

// blank clears a row as runlength encoding will induce gaps
func blank(row []float32) {
	for x := range row {
		row[x] = NaN
	}
}

'''))
benign("r8-rl-write-run", (L, '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			n, err := writeRun(dst, dstpos, runlength, c.rvp6Runlength(value))
			if err != nil {
				return err
			}
			dstpos = n
'''), (L, '''// rvp6Runlength sets''', '''// writeRun writes n times the value v beginning at the given position.
func writeRun(dst []float32, pos, n int, v float32) (int, error) {
	for ; n > 0; n-- {
		if pos >= len(dst) {
			return pos, newError("decodeRunlength", "destination size exceeded")
		}
		dst[pos] = v
		pos++
	}
	return pos, nil
}

// rvp6Runlength sets'''))
benign("r8-rl-level", (L, '''	if value == 0 {
		return NaN
	}
	value--

	if int(value) >= len(c.level) { // border markings
		return NaN
	}
	return c.level[value]
''', '''	index := int(value) - 1
	if 0 <= index && index < len(c.level) {
		return c.level[index]
	}
	return NaN // nothing or border markings
'''))
benign("r8-rl-readline", (L, '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	const newline = '\\n'
	line, err = rd.ReadBytes(newline)
	if err != nil {
		return nil, newError("readLineRunlength", err.Error())
	}
	return line[:len(line)-1], nil
'''))

# ---- radolan.go
benign("r8-ra-at", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	within := func(i, n int) bool { return 0 <= i && i < n }
	if !within(z, c.Dz) || !within(y, c.Dy) || !within(x, c.Dx) {
		return NaN
	}
	layer := c.DataZ[z]
	row := layer[y]
	return row[x]
'''))
benign("r8-ra-archive", (R, between(R, "	bzipReader := bzip2.NewReader(rd)", "// NewDummy creates"), '''	archive := tar.NewReader(bzip2.NewReader(rd))

	cs, err := readAll(archive)
	if err != nil {
		return nil, err
	}

	byForecast := func(i, j int) bool {
		a, b := cs[i], cs[j]
		return b.ForecastTime.After(a.ForecastTime)
	}
	sort.Slice(cs, byForecast)
	return cs, nil
}

// readAll parses every entry of the archive.
func readAll(archive *tar.Reader) (cs []*Composite, err error) {
	for {
		if _, err = archive.Next(); err != nil {
			if err == io.EOF {
				err = nil
			}
			return
		}

		var c *Composite
		if c, err = NewComposite(archive); err != nil {
			return
		}
		cs = append(cs, c)
	}
}

'''))
benign("r8-ra-composite", (R, between(R, "	reader := bufio.NewReader(rd)", "// NewComposites reads"), '''	comp = new(Composite)
	if err = comp.read(bufio.NewReader(rd)); err != nil {
		return comp, err
	}
	if comp.DataUnit == Unit_unknown {
		return comp, ErrUnknownUnit
	}
	return comp, nil
}

// read parses the composite and prepares it for usage.
func (c *Composite) read(reader *bufio.Reader) error {
	if err := c.parseHeader(reader); err != nil {
		return err
	}
	if err := c.parseData(reader); err != nil {
		return err
	}
	c.arrangeData()
	c.calibrateProjection()
	return nil
}

'''))
benign("r8-ra-dummy", (R, '''	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}
	comp.calibrateProjection()
	return
''', '''	c := new(Composite)
	c.Product = product
	c.Format = format
	c.Dx, c.Dy = dx, dy
	c.calibrateProjection()
	return c
'''))

# ---- projection
benign("r8-pj-detect-loop", (P, between(P, "	dx, dy := minRes(c.Dx, c.Dy)\n", "// cornerPoints returns"), '''	nominal := map[grid][2]int{
		nationalGrid:         {900, 900},
		nationalPictureGrid:  {920, 920},
		extendedNationalGrid: {900, 1100},
		DE1200Grid:           {1100, 1200},
		middleEuropeanGrid:   {1400, 1500},
	}
	dx, dy := minRes(c.Dx, c.Dy)
	for g := nationalGrid; g <= middleEuropeanGrid; g++ {
		if mx, my := minRes(nominal[g][0], nominal[g][1]); dx == mx && dy == my {
			return g
		}
	}
	return unknownGrid
}

'''))
benign("r8-pj-same-aspect", (P, between(P, "	dx, dy := minRes(c.Dx, c.Dy)\n", "// cornerPoints returns"), '''	switch {
	case c.hasAspect(900, 900):
		return nationalGrid
	case c.hasAspect(920, 920):
		return nationalPictureGrid
	case c.hasAspect(900, 1100):
		return extendedNationalGrid
	case c.hasAspect(1100, 1200):
		return DE1200Grid
	case c.hasAspect(1400, 1500):
		return middleEuropeanGrid
	}
	return unknownGrid
}

// hasAspect compares the reduced dimensions.
func (c *Composite) hasAspect(width, height int) bool {
	dx, dy := minRes(c.Dx, c.Dy)
	mx, my := minRes(width, height)
	return dx == mx && dy == my
}

'''))
benign("r8-pj-calibrate", (P, between(P, "	if c.Rx == 0 || c.Ry == 0 { // resolution", "// Project transforms"), '''	nan := math.NaN()
	if c.Rx == 0 || c.Ry == 0 { // resolution is not defined by catalog
		c.Rx, c.Ry = nan, nan
	}
	c.offx, c.offy = nan, nan

	detected := c.detectGrid()
	newFormat := c.Format >= 5
	if newFormat && detected != DE1200Grid {
		return
	}
	top, left, bottom, right, err := c.cornerPoints(detected)
	if err != nil {
		return
	}
	if newFormat {
		c.proj_wgs84 = proj_DE1200_WGS84
	}

	c.HasProjection = true
	c.Rx, c.Ry, c.offx, c.offy = 1, 1, 0, 0

	x0, y0 := c.Project(top, left)
	c.offx, c.offy = x0, y0

	x1, y1 := c.Project(bottom, right)
	c.Rx, c.Ry = x1/float64(c.Dx), y1/float64(c.Dy)
}

'''))
benign("r8-pj-sphere", (SPH, between(SPH, "	rad := func(deg", "	// offset correction"), '''	const toRad = math.Pi / 180
	lambda := (east - junctionEast) * toRad
	phi := north * toRad

	m := (1 + math.Sin(junctionNorth*toRad)) / (1 + math.Sin(phi))
	distance := earthRadius * m * math.Cos(phi)
	x = distance * math.Sin(lambda)
	y = distance * math.Cos(lambda)

'''))
benign("r8-pj-wgs", (WGS, between(WGS, "	p := c.proj_wgs84\n", "	// offset correction"), '''	p := c.proj_wgs84
	lat, dlon := north*degToRad, east*degToRad-p.lon_0

	e := p.ecc * math.Sin(lat)
	t := math.Tan(math.Pi/4 - lat/2)
	s := p.k_0 * t * math.Pow((1+e)/(1-e), p.ecc/2)

	x = (p.x_0 + s*math.Sin(dlon)) / p.scale
	y = (s*math.Cos(dlon) - p.y_0) / p.scale

'''))

# ---- colours
benign("r8-vi-gray", (V, between(V, "		val = compression(val)\n\n		if val < min {", "// Radialmap returns"), '''		val = compression(val)
		p := (val - min) / (max - min)
		switch {
		case val < min, math.IsNaN(p):
			return color.RGBA{A: 0xFF} // black
		case p > 1:
			p = 1
		}
		l := uint8(0xFF * p)
		return color.RGBA{R: l, G: l, B: l, A: 0xFF}
	}
}

'''))
benign("r8-vi-radial", (V, between(V, "		base := math.Max(math.Abs(min)", "// Heatmap returns"), '''		magnitude := math.Abs(val)
		base := math.Max(math.Abs(min), math.Abs(max))

		lev, non := uint8(0xFF), uint8(0xCC)
		if magnitude > 1 {
			p := math.Min(compression(magnitude)/compression(base), 1)
			lev, non = uint8(0xFF*p), 0
		}

		c := color.RGBA{lev, non, non, 0xFF}
		if val < 0 {
			c.R, c.G, c.B = non, lev, lev
		}
		return c
	}
}

'''))
benign("r8-vi-heat-split", (V, between(V, "		h := math.Mod(360-(330*p)+240, 360)", "\x00") if False else between(V, "		h := math.Mod(360-(330*p)+240, 360)", "		return color.RGBA{r, g, b, 0xFF}"), '''		r, g, b := hsl(math.Mod(600-330*p, 360), 1.0, 0.25+p/2)

'''), (V, None, '''
// hsl converts a colour to its red, green and blue parts.
// adapted from https://en.wikipedia.org/wiki/HSL_and_HSV#From_HSL
func hsl(h, s, l float64) (r, g, b uint8) {
	c := (1 - math.Abs(2*l-1)) * s // calculate chroma
	hh := h / 60
	x := c * (1 - math.Abs(math.Mod(hh, 2)-1))

	var rr, gg, bb float64
	switch {
	case hh < 1:
		rr, gg = c, x
	case hh < 2:
		rr, gg = x, c
	case hh < 3:
		gg, bb = c, x
	case hh < 4:
		gg, bb = x, c
	case hh < 5:
		rr, bb = x, c
	default:
		rr, bb = c, x
	}

	m := l - c/2
	channel := func(v float64) uint8 { return uint8(0xFF * (v + m)) }
	return channel(rr), channel(gg), channel(bb)
}
'''))
benign("r8-vi-image-pix2", (V, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	for y := 0; y < c.Dy; y++ {
		row := img.Pix[y*img.Stride:]
		for x := 0; x < c.Dx; x++ {
			col := fn(float64(c.DataZ[layer][y][x]))
			row[4*x], row[4*x+1], row[4*x+2], row[4*x+3] = col.R, col.G, col.B, col.A
		}
	}
'''))
benign("r8-vi-image-pix3", (V, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	i := 0
	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			col := fn(float64(c.AtZ(x, y, layer)))
			img.Pix[i], img.Pix[i+1], img.Pix[i+2], img.Pix[i+3] = col.R, col.G, col.B, col.A
			i += 4
		}
	}
'''))

# ---- command
benign("r8-cm-split", (C, between(C, "	// draw borders\n", "	// create output file"), '''	if comp.HasProjection {
		fmt.Printf("detected grid: %.1f km * %.1f km\\n", float64(comp.Dx)*comp.Rx, float64(comp.Dy)*comp.Ry)
		drawBorders(img, comp)
		drawMesh(img, comp)
	}

'''), (C, '''	"image/color"
''', '''	"image"
	"image/color"
'''), (C, '''// care exits''', '''// mark draws a point at the given location.
func mark(img *image.RGBA, comp *radolan.Composite, north, east float64, c color.RGBA) {
	x, y := comp.Project(north, east)
	img.Set(int(x), int(y), c)
}

func drawBorders(img *image.RGBA, comp *radolan.Composite) {
	for i := range border {
		mark(img, comp, border[i][0], border[i][1], borderColor)
	}
}

func drawMesh(img *image.RGBA, comp *radolan.Composite) {
	for n := 460; n < 550; n++ { // 0.1 degree steps
		for e := 10; e < 160; e++ {
			if n%10 != 0 && e%10 != 0 {
				continue
			}
			mark(img, comp, float64(n)/10, float64(e)/10, meshColor)
		}
	}
}

// care exits'''))
benign("r8-cm-colors", (C, between(C, "	var heatmap vis.ColorFunc\n", "	// convert composite to image"), '''	heatmap := colors(comp)

'''), (C, '''// care exits''', '''// colors selects the colour scale of the composite.
func colors(comp *radolan.Composite) vis.ColorFunc {
	switch comp.DataUnit {
	case radolan.Unit_dBZ:
		return vis.HeatmapReflectivity
	case radolan.Unit_km:
		return vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		return vis.HeatmapRadialVelocity
	case radolan.Unit_mm:
		const week = 7 * 24 * time.Hour
		switch {
		case comp.Interval >= week:
			return vis.Heatmap(0.1, 400, vis.Log)
		case comp.Interval > time.Hour:
			return vis.Heatmap(0.1, 200, vis.Log)
		}
		return vis.Heatmap(0.1, 100, vis.Log)
	}
	return nil
}

// care exits'''))
benign("r8-cm-read-save", (C, '''	infile, err := os.Open(in)
	care(err)
	defer infile.Close()

	// create new composite
	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp, err := read(in)
	care(err)
'''), (C, '''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
''', '''	care(save(out, img))
}

func read(name string) (*radolan.Composite, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return radolan.NewComposite(f)
}

func save(name string, img image.Image) error {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	if err = png.Encode(f, img); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}
'''), (C, '''	"image/color"
''', '''	"image"
	"image/color"
'''))
benign("r8-cm-exit", (C, '''		log.Fatal(err)
''', '''		fmt.Fprintf(os.Stderr, "radolan2png: %v\\n", err)
		os.Exit(2)
'''), (C, '''	"log"
''', ''))
benign("r8-cm-args", (C, '''	if len(os.Args) < 3 {
		fmt.Printf("radolan2png converts radolan composite files to png images."+
			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
		return
	}

	convert(os.Args[1], os.Args[2])
''', '''	args := os.Args
	if enough := len(args) >= 3; enough {
		convert(args[1], args[2])
	} else {
		fmt.Printf("radolan2png converts radolan composite files to png images."+
			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", args[0])
	}
'''))

# ---- conversions
benign("r8-cv-all", (CONV, '''	return relation.c2 * math.Pow(relation.c3, float64(dBZ))
''', '''	factor := math.Pow(relation.c3, float64(dBZ))
	rate = factor * relation.c2
	return
'''), (CONV, '''	return float32(relation.c4 + relation.c1*math.Log10(rate))
''', '''	z := relation.c1*math.Log10(rate) + relation.c4
	return float32(z)
'''), (CONV, '''	return rvp6/2.0 - 32.5
''', '''	const scale, bias = 0.5, 32.5
	return scale*rvp6 - bias
'''), (CONV, '''	return float32(value) * float32(math.Pow10(c.precision))
''', '''	factor := float32(math.Pow10(c.precision))
	return factor * float32(value)
'''))
benign("r8-cv-isnan", (CONV, '''	return f != f
''', '''	return math.IsNaN(float64(f))
'''))
