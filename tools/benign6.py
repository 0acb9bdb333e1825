"""Sixth suite of behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

RLBODY = '''	dstpos := 0
	offset := true
	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset: // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}

			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
		default:
			// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
			runlength := int(value >> 4)
			value &= 0x0F

			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
		}
	}

	return nil
}
'''
RLRUN = '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
'''
# a cursor object
benign("r6-rl-cursor", (L, RLBODY, '''	w := rowWriter{dst: dst}
	offset := true
	for i, value := range line {
		if i == 0 {
			continue // line number
		}
		if offset {
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}
			w.skip(int(value) - 16)
			offset = value == 255
			continue
		}
		if err := w.put(c.rvp6Runlength(value&0x0F), int(value>>4)); err != nil {
			return err
		}
	}
	return nil
}

// rowWriter fills an image row from left to right.
type rowWriter struct {
	dst []float32
	pos int
}

// skip leaves n columns out.
func (w *rowWriter) skip(n int) {
	w.pos += n
}

// put writes n times the value v.
func (w *rowWriter) put(v float32, n int) error {
	for ; n > 0; n-- {
		if w.pos >= len(w.dst) {
			return newError("decodeRunlength", "destination size exceeded")
		}
		w.dst[w.pos] = v
		w.pos++
	}
	return nil
}
'''))
# position kept in a named result of a helper
benign("r6-rl-run-helper-pos", (L, RLRUN, '''			next, err := c.writeRun(dst, dstpos, runlength, value)
			if err != nil {
				return err
			}
			dstpos = next
'''), (L, None, '''
// writeRun writes count times the given level to dst from pos on and returns the
// position behind the run.
func (c *Composite) writeRun(dst []float32, pos, count int, value byte) (int, error) {
	for end := pos + count; pos < end; pos++ {
		if pos >= len(dst) {
			return 0, newError("decodeRunlength", "destination size exceeded")
		}
		dst[pos] = c.rvp6Runlength(value)
	}
	return pos, nil
}
'''))
benign("r6-rl-run-level-once", (L, RLRUN, '''			if runlength == 0 {
				continue
			}
			if dstpos+runlength > len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			level := c.rvp6Runlength(value)
			run := dst[dstpos : dstpos+runlength]
			for j := range run {
				run[j] = level
			}
			dstpos += runlength
'''))
benign("r6-rl-empty-first", (L, '''	dstpos := 0
	offset := true
	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset: // calculate offset
''', '''	if len(line) == 0 {
		return nil
	}

	dstpos := 0
	offset := true
	for _, value := range line[1:] { // skip useless line number
		switch {
		case offset: // calculate offset
'''))
benign("r6-rl-defer-err", (L, '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	defer func() {
		if err != nil {
			err = newError("readLineRunlength", err.Error())
		}
	}()
	if line, err = rd.ReadBytes('\\n'); len(line) > 0 {
		line = line[:len(line)-1]
	}
	return line, err
'''))
benign("r6-rl-err-early", (L, '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
		return nil, newError("readLineRunlength", err.Error())
	}
	return line[:len(line)-1], nil
'''))
benign("r6-rl-level-func", (L, '''	if value == 0 {
		return NaN
	}
	value--

	if int(value) >= len(c.level) { // border markings
		return NaN
	}
	return c.level[value]
''', '''	switch n := int(value); {
	case n == 0, n > len(c.level):
		return NaN
	default:
		return c.level[n-1]
	}
'''))
benign("r6-rl-levels-table", (L, RLBODY, '''	// the values of all nibbles
	var values [16]float32
	for n := range values {
		values[n] = c.rvp6Runlength(byte(n))
	}
''' + RLBODY.replace("dst[dstpos] = c.rvp6Runlength(value)", "dst[dstpos] = values[value]")))
benign("r6-rl-fill-func", (L, '''	for i := range dst {
		dst[i] = NaN
	}

	dstpos := 0
''', '''	fill(dst, NaN)

	dstpos := 0
'''), (L, None, '''
// fill sets all elements of dst to v.
func fill(dst []float32, v float32) {
	if len(dst) == 0 {
		return
	}
	dst[0] = v
	for i := 1; i < len(dst); i++ {
		dst[i] = v
	}
}
'''))

# ---- header
SPLIT = '''	m = make(map[string]string)
	var beginKey, endKey, beginValue, endValue int
	var dispatch bool

	for i, c := range header {
		if unicode.IsUpper(c) {
			if dispatch {
				m[header[beginKey:endKey]] = header[beginValue:endValue]
				beginKey = i
				dispatch = false
			}
			endKey = i + 1
		} else {
			if i == 0 {
				return // no key prefixing value
			}
			if !dispatch {
				beginValue = i
				dispatch = true
			}
			endValue = i + 1
		}
	}
	if !dispatch { // last key has no value
		beginValue, endValue = len(header), len(header)
	}
	m[header[beginKey:endKey]] = header[beginValue:endValue]

	return
'''
benign("r6-hd-split-cond", (H, SPLIT, '''	m = make(map[string]string)
	if header == "" {
		m[""] = ""
		return m
	}

	var beginKey, endKey, beginValue, endValue int
	inValue := false
	for i, c := range header {
		upper := unicode.IsUpper(c)
		switch {
		case upper && inValue: // next key
			m[header[beginKey:endKey]] = header[beginValue:endValue]
			beginKey, endKey, inValue = i, i+1, false
		case upper:
			endKey = i + 1
		case i == 0:
			return m // no key prefixing value
		case inValue:
			endValue = i + 1
		default:
			beginValue, endValue, inValue = i, i+1, true
		}
	}
	if inValue {
		m[header[beginKey:endKey]] = header[beginValue:endValue]
	} else { // last key has no value
		m[header[beginKey:endKey]] = ""
	}
	return m
'''))
benign("r6-hd-sscanf-helper", (H, '''	if _, err := fmt.Sscanf(section["BY"], "%d", &c.dataLength); err != nil {
		return newError("parseHeader", "could not parse data length: "+err.Error())
	}
''', '''	length, err := scanInt(section["BY"])
	if err != nil {
		return newError("parseHeader", "could not parse data length: "+err.Error())
	}
	c.dataLength = length
'''), (H, '''		min := 0
		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
''', '''		min, err := scanInt(vv)
		if err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
'''), (H, '''		min := 0
		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}
''', '''		min, err := scanInt(intr)
		if err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}
'''), (H, '''		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
''', '''		if c.precision, err = scanInt(prec); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
'''), (H, None, '''
// scanInt parses the number at the beginning of text.
func scanInt(text string) (n int, err error) {
	_, err = fmt.Sscanf(text, "%d", &n)
	return n, err
}
'''))
benign("r6-hd-composite-local", (H, '''		c.Px, c.Py = v.px, v.py // plain data dimensions
		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions
		c.Rx, c.Ry = v.rx, v.ry // data resolution
''', '''		v.apply(c)
'''), (CAT, None, '''
// apply sets dimensions and resolution of c.
func (s spec) apply(c *Composite) {
	c.Px, c.Py = s.px, s.py // plain data dimensions
	c.Dx, c.Dy = s.dx, s.dy // data layer dimensions
	c.Rx, c.Ry = s.rx, s.ry // data resolution
}
'''))
benign("r6-hd-errorf", (H, '''	c.CaptureTime, err = time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''', '''	capture, err := time.Parse("0215040106", date)
	if err != nil {
		return fmt.Errorf("radolan.parseHeader: could not parse capture time: %v", err)
	}
	c.CaptureTime = capture
'''))
benign("r6-hd-date-builder", (H, '''	date := header[2:8] + header[13:17] // cut WMO number
''', '''	date := fmt.Sprintf("%s%s", header[2:8], header[13:17]) // cut WMO number
'''))
benign("r6-hd-dims-order", (H, '''	if dim, ok := section["GP"]; ok {
		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation

	} else if dim, ok := section["BG"]; ok {
		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation

	} else {''', '''	gp, hasGP := section["GP"]
	bg, hasBG := section["BG"]
	if hasGP || hasBG {
		dim, layout, name := gp, "%dx%d", "GP"
		if !hasGP {
			dim, layout, name = bg, "%3d%3d", "BG"
		}
		var rows, cols int
		if _, err := fmt.Sscanf(dim, layout, &rows, &cols); err != nil {
			return newError("parseHeader", "could not parse dimensions ("+name+"): "+err.Error())
		}
		c.Dx, c.Dy = cols, rows
		c.Px, c.Py = cols, rows // composite formats do not show elevation
	} else {'''))
benign("r6-hd-level-parse", (H, '''	if lv, ok := section["LV"]; ok {
		if len(lv) < 2 {
			return newError("parseHeader", "level field too short")
		}

		var cnt int
		if _, err = fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
			return newError("parseHeader", "could not parse level count: "+err.Error())
		}

		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
	}
''', '''	if lv, ok := section["LV"]; ok {
		if c.level, err = parseLevel(lv); err != nil {
			return err
		}
	}
'''), (H, None, '''
// parseLevel parses the table of a level field in the fortran format I2 + n * F5.1.
func parseLevel(lv string) ([]float32, error) {
	if len(lv) < 2 {
		return nil, newError("parseHeader", "level field too short")
	}
	var cnt int
	if _, err := fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
		return nil, newError("parseHeader", "could not parse level count: "+err.Error())
	}
	values := lv[2:]
	if len(values) != cnt*5 {
		return nil, newError("parseHeader", "invalid level format: "+lv)
	}
	level := make([]float32, cnt)
	for i := 0; i < cnt; i++ {
		if _, err := fmt.Sscanf(values[i*5:(i+1)*5], "%f", &level[i]); err != nil {
			return nil, newError("parseHeader", "invalid level value: "+err.Error())
		}
	}
	return level, nil
}
'''))
benign("r6-hd-too-short", (H, '''	header, err := reader.ReadString('\\x03')
	if err != nil || len(header) < 22 { // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}
''', '''	raw, err := reader.ReadBytes('\\x03')
	switch {
	case err != nil:
		return newError("parseHeader", "header corrupted: "+err.Error())
	case len(raw) < 22: // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}
	header := string(raw)
'''))

# ---- data and rows
benign("r6-dt-alloc-func", (D, '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}

	return''', '''	rows := make([][]float32, c.Py)
	for i := 0; i < len(rows); i++ {
		rows[i] = make([]float32, c.Px)
	}
	c.PlainData = rows

	return'''))
benign("r6-dt-parser-select", (D, '''	return parse[c.identifyEncoding()](c, reader)
''', '''	parser := parse[c.identifyEncoding()]
	if err := parser(c, reader); err != nil {
		return err
	}
	return nil
'''))
benign("r6-dt-arrange-append-early", (D, '''	if c.Py%c.Dy == 0 { // multiple layers are linked downwards
		c.DataZ = make([][][]float32, c.Py/c.Dy)
		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
	} else { // only use bottom most part of plain data
		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
	}
''', '''	rest := c.PlainData
	if over := c.Py % c.Dy; over != 0 { // only use bottom most part of plain data
		rest = rest[c.Py-c.Dy:] // strip elevation
	}
	c.DataZ = nil
	for len(rest) > 0 { // multiple layers are linked downwards
		c.DataZ = append(c.DataZ, rest[:c.Dy:c.Dy])
		rest = rest[c.Dy:]
	}
'''))
LEROWS = '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
'''
SBROWS = LEROWS.replace("LittleEndian", "SingleByte")
benign("r6-le-rows-if-chain", (LE, LEROWS, '''	for y := len(c.PlainData) - 1; y >= 0; y-- { // bottom up
		if line, err := c.readLineLittleEndian(reader); err != nil {
			return err
		} else if err = c.decodeLittleEndian(c.PlainData[y], line); err != nil {
			return err
		}
	}
	return nil
'''))
benign("r6-rows-shared-read", (LE, '''	line = make([]byte, c.Dx*2)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineLittleEndian", err.Error())
	}
	return
''', '''	return readLine(rd, c.Dx*2)
'''), (SB, '''	line = make([]byte, c.Dx)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineSingleByte", err.Error())
	}
	return
''', '''	return readLine(rd, c.Dx)
'''), (SB, '''import (
	"bufio"
	"io"
)
''', '''import (
	"bufio"
)
'''), (LE, None, '''
// readLine reads n bytes.
func readLine(rd io.Reader, n int) ([]byte, error) {
	line := make([]byte, n)
	if _, err := io.ReadFull(rd, line); err != nil {
		return nil, newError("readLine", err.Error())
	}
	return line, nil
}
'''))
benign("r6-rows-decode-func-param", (LE, LEROWS, '''	return c.parseRows(reader, c.Dx*2, c.decodeLittleEndian)
'''), (LE, None, '''
// parseRows reads rows of n bytes from bottom to top and decodes them.
func (c *Composite) parseRows(rd *bufio.Reader, n int, decode func(dst []float32, line []byte) error) error {
	line := make([]byte, n)
	for y := len(c.PlainData) - 1; y >= 0; y-- {
		if _, err := io.ReadFull(rd, line); err != nil {
			return newError("parseRows", err.Error())
		}
		if err := decode(c.PlainData[y], line); err != nil {
			return err
		}
	}
	return nil
}
'''), (SB, SBROWS, '''	return c.parseRows(reader, c.Dx, c.decodeSingleByte)
'''))
LEVAL = '''	var value int = 0x0F & int(tuple[1])
	value = (value << 8) + int(tuple[0])

	if tuple[1]&(1<<5) != 0 { // error code: no-data
		return NaN
	}

	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}

	conv := c.rvp6Raw(value) // set decimal point

	// little endian encoded formats are also used for mm/h
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	// Even though this format supports negative values and custom
	// precision they do not make use of this and we still have to subtract
	// the bias and scale it (RADVOR FX, dBZ)
	return toDBZ(conv)
'''
benign("r6-le-pixel-type", (LE, LEVAL, '''	p := pixel(tuple[0]) | pixel(tuple[1])<<8
	if p.missing() {
		return NaN
	}
	value := c.rvp6Raw(p.value()) // set decimal point
	if c.DataUnit == Unit_dBZ {
		value = toDBZ(value)
	}
	return value
'''), (LE, None, '''
// pixel is a raw two byte value.
type pixel uint16

// missing reports whether the no-data flag is set.
func (p pixel) missing() bool {
	return p&0x2000 != 0
}

// value is the signed magnitude.
func (p pixel) value() int {
	v := int(p & 0x0FFF)
	if p&0x4000 == 0 {
		return v
	}
	return -v
}
'''))
benign("r6-le-flag-shift", (LE, LEVAL, '''	lo, hi := int(tuple[0]), int(tuple[1])
	noData, negative := hi>>5&1 == 1, hi>>6&1 == 1
	if noData {
		return NaN
	}

	value := hi%16*256 + lo
	if negative {
		value = 0 - value
	}
	if c.DataUnit == Unit_dBZ {
		return toDBZ(c.rvp6Raw(value))
	}
	return c.rvp6Raw(value)
'''))
benign("r6-le-cells-append", (LE, '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	var tuple [2]byte
	for i := range dst {
		tuple[0] = line[2*i]
		tuple[1] = line[2*i+1]
		dst[i] = c.rvp6LittleEndian(tuple)
	}
'''))
benign("r6-le-cells-odd", (LE, '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	for i, b := range line {
		if i%2 == 1 {
			dst[i/2] = c.rvp6LittleEndian([2]byte{line[i-1], b})
		}
	}
'''))
benign("r6-sb-table", (SB, '''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
	}
''', '''	var table [256]float32
	for v := range table {
		table[v] = c.rvp6SingleByte(byte(v))
	}
	for i, v := range line {
		dst[i] = table[v]
	}
'''))
benign("r6-sb-reader-bytes", (SB, '''	line = make([]byte, c.Dx)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineSingleByte", err.Error())
	}
	return
''', '''	line = make([]byte, c.Dx)
	for i := range line {
		if line[i], err = rd.ReadByte(); err != nil {
			return nil, newError("readLineSingleByte", err.Error())
		}
	}
	return line, nil
'''), (SB, '''import (
	"bufio"
	"io"
)
''', '''import (
	"bufio"
)
'''))

# ---- composites
benign("r6-ra-composite-if-chain", (R, '''	err = comp.parseHeader(reader)
	if err != nil {
		return
	}

	err = comp.parseData(reader)
	if err != nil {
		return
	}
	comp.arrangeData()

	comp.calibrateProjection()

	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}

	return
''', '''	if err = comp.parseHeader(reader); err == nil {
		err = comp.parseData(reader)
	}
	if err != nil {
		return comp, err
	}

	comp.arrangeData()
	comp.calibrateProjection()
	return comp, comp.checkUnit()
'''), (R, None, '''
// checkUnit returns ErrUnknownUnit for a product without catalogued unit.
func (c *Composite) checkUnit() error {
	if c.DataUnit != Unit_unknown {
		return nil
	}
	return ErrUnknownUnit
}
'''))
benign("r6-ra-at-rows", (R, '''	return c.DataZ[z][y][x]
''', '''	layer := c.DataZ[z]
	row := layer[y]
	return row[x]
'''))
benign("r6-ra-at-split", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
''', '''	if x < 0 || x >= c.Dx {
		return NaN
	}
	if y < 0 || y >= c.Dy {
		return NaN
	}
	if z < 0 || z >= c.Dz {
		return NaN
	}
'''))
benign("r6-ra-sort-insert", (R, '''	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
	return cs, nil
''', '''	sort.SliceStable(cs, func(i, j int) bool {
		a, b := cs[i], cs[j]
		return b.ForecastTime.After(a.ForecastTime)
	})
	return cs, nil
'''))
benign("r6-ra-newerror", (R, '''	return fmt.Errorf("radolan.%s: %s", function, reason)
''', '''	return errors.New("radolan." + function + ": " + reason)
'''), (R, '''	"fmt"
''', '''	"errors"
'''))

# ---- projection
benign("r6-pj-project-func", (P, '''	if c.proj_wgs84 != nil {
		return c.projectWGS84(north, east)
	}
	return c.projectSphere(north, east)
''', '''	project := c.projectSphere
	if c.proj_wgs84 != nil {
		project = c.projectWGS84
	}
	return project(north, east)
'''))
benign("r6-pj-minres-bits", (P, '''	rdx, rdy = dx, dy

	if rdx == 0 || rdy == 0 {
		return
	}
	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	if dx == 0 || dy == 0 {
		return dx, dy
	}
	if (dx|dy)&1 != 0 {
		return dx, dy
	}
	return minRes(dx/2, dy/2)
'''))
benign("r6-pj-calibrate-split", (P, '''	// found matching projection rule
	c.HasProjection = true

	// set resolution to 1 km for calibration
	c.Rx = 1.0
	c.Ry = 1.0
	c.offx = 0.0
	c.offy = 0.0

	// calibrate offset correction
	c.offx, c.offy = c.Project(originTop, originLeft)

	// calibrate scaling
	resx, resy := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
}
''', '''	c.fitCorners(originTop, originLeft, edgeBottom, edgeRight)
}

// fitCorners sets offset and resolution so that the corners are projected to the image corners.
func (c *Composite) fitCorners(top, left, bottom, right float64) {
	c.HasProjection = true
	c.Rx, c.Ry = 1, 1
	c.offx, c.offy = 0, 0
	x0, y0 := c.Project(top, left)
	x1, y1 := c.Project(bottom, right)
	c.offx, c.offy = x0, y0
	c.Rx, c.Ry = (x1-x0)/float64(c.Dx), (y1-y0)/float64(c.Dy)
}
'''))
benign("r6-pj-nan-late", (P, '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''	switch ellipsoid := c.Format >= 5; {
	case ellipsoid && detectedGrid != DE1200Grid:
		return
	case ellipsoid:
		c.proj_wgs84 = proj_DE1200_WGS84
	}
'''))
benign("r6-pj-sphere-order", (SPH, '''	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
	x = (earthRadius * m * math.Cos(phi) * math.Sin(lamda-lamda0))
	y = (earthRadius * m * math.Cos(phi) * math.Cos(lamda-lamda0))

	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling
	x /= c.Rx
	y /= c.Ry

	return
''', '''	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
	rho := earthRadius * m * math.Cos(phi)
	sin, cos := math.Sincos(lamda - lamda0)
	return (rho*sin - c.offx) / c.Rx, (rho*cos - c.offy) / c.Ry
'''))
benign("r6-pj-grid-methods", (P, '''	dx, dy := minRes(c.Dx, c.Dy)

	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}
	if mx, my := minRes(920, 920); dx == mx && dy == my {
		return nationalPictureGrid
	}
	if mx, my := minRes(900, 1100); dx == mx && dy == my {
		return extendedNationalGrid
	}
	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
		return DE1200Grid
	}
	if mx, my := minRes(1400, 1500); dx == mx && dy == my {
		return middleEuropeanGrid
	}
	return unknownGrid
''', '''	switch {
	case c.sameAspect(900, 900):
		return nationalGrid
	case c.sameAspect(920, 920):
		return nationalPictureGrid
	case c.sameAspect(900, 1100):
		return extendedNationalGrid
	case c.sameAspect(1100, 1200):
		return DE1200Grid
	case c.sameAspect(1400, 1500):
		return middleEuropeanGrid
	}
	return unknownGrid
}

// sameAspect reports whether the composite is a version of the given size with another resolution.
func (c *Composite) sameAspect(width, height int) bool {
	type dim struct{ x, y int }
	var have, want dim
	have.x, have.y = minRes(c.Dx, c.Dy)
	want.x, want.y = minRes(width, height)
	return have == want
'''))

# ---- catalogue
benign("r6-ct-init", (CAT, '''func (u Unit) String() string {
	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
}
''', '''// names of the units
var unitNames [5]string

func init() {
	unitNames[Unit_unknown] = "unknown unit"
	unitNames[Unit_mm] = "mm"
	unitNames[Unit_dBZ] = "dBZ"
	unitNames[Unit_km] = "km"
	unitNames[Unit_mps] = "m/s"
}

func (u Unit) String() string {
	return unitNames[u]
}
'''))
benign("r6-ct-lookup-ok", (H, '''	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	unit, known := unitCatalog[c.Product]
	if !known {
		unit = Unit_unknown
	}
	c.DataUnit = unit
'''))

# ---- images
IMG = '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
'''
benign("r6-vi-image-pix", (V, IMG, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			col := fn(float64(c.DataZ[layer][y][x]))
			i := img.PixOffset(x, y)
			img.Pix[i+0] = col.R
			img.Pix[i+1] = col.G
			img.Pix[i+2] = col.B
			img.Pix[i+3] = col.A
		}
	}
'''))
benign("r6-vi-image-rows", (V, IMG, '''	for y, row := range c.DataZ[layer] {
		for x, val := range row[:c.Dx] {
			img.SetRGBA(x, y, fn(float64(val)))
		}
	}
'''))
benign("r6-vi-gray-switch", (V, '''		val = compression(val)

		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
''', '''		val = compression(val)
		p := (val - min) / (max - min)
		var l uint8
		switch {
		case val < min, math.IsNaN(p): // black
		case p > 1:
			l = 0xFF
		default:
			l = uint8(0xFF * p)
		}
		return color.RGBA{R: l, G: l, B: l, A: 0xFF}
'''))
benign("r6-vi-heat-rgb-helper", (V, '''		m := l - c/2
		r, g, b := uint8(0xFF*(rr+m)), uint8(0xFF*(gg+m)), uint8(0xFF*(bb+m))

		return color.RGBA{r, g, b, 0xFF}
''', '''		m := l - c/2
		to8 := func(v float64) uint8 { return uint8(0xFF * (v + m)) }
		return color.RGBA{to8(rr), to8(gg), to8(bb), 0xFF}
'''))
benign("r6-vi-radial-struct", (V, '''		base := math.Max(math.Abs(min), math.Abs(max))
		p := compression(math.Abs(val)) / compression(base)

		if p > 1 {
			p = 1
		}
		lev := uint8(0xFF * p)

		var non byte = 0x00
		if math.Abs(val) <= 1 {
			lev = 0xFF
			non = 0xCC
		}

		if val < 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}

		return color.RGBA{lev, non, non, 0xFF}
''', '''		speed := math.Abs(val)
		var lev, non uint8
		if speed <= 1 {
			lev, non = 0xFF, 0xCC
		} else {
			base := math.Max(math.Abs(min), math.Abs(max))
			p := compression(speed) / compression(base)
			if p > 1 {
				p = 1
			}
			lev = uint8(0xFF * p)
		}

		out := color.RGBA{R: lev, G: non, B: non, A: 0xFF}
		if val < 0 {
			out.R, out.G, out.B = non, lev, lev
		}
		return out
'''))

# ---- converter
benign("r6-cm-run-int", (C, '''func main() {
	// display help message
	if len(os.Args) < 3 {
		fmt.Printf("radolan2png converts radolan composite files to png images."+
			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
		return
	}

	convert(os.Args[1], os.Args[2])
}
''', '''func main() {
	os.Exit(run(os.Args))
}

func run(args []string) int {
	// display help message
	if len(args) < 3 {
		fmt.Printf("radolan2png converts radolan composite files to png images."+
			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", args[0])
		return 0
	}

	convert(args[1], args[2])
	return 0
}
'''))
benign("r6-cm-border-index", (C, '''		for _, b := range border {
			// convert border points to data indices
			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(x), int(y), borderColor)
		}
''', '''		for i := 0; i < len(border); i++ {
			lat, lon := border[i][0], border[i][1]
			x, y := comp.Project(lat, lon)
			img.SetRGBA(int(x), int(y), borderColor)
		}
'''))
benign("r6-cm-overlay-type", (C, '''		for _, b := range border {
			// convert border points to data indices
			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(x), int(y), borderColor)
		}

		// draw mesh
		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
				}
			}
		}
''', '''		o := overlay{comp, img}
		for _, b := range border {
			o.mark(b[0], b[1], borderColor)
		}
		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 != 0 && n%10 != 0 {
					continue
				}
				o.mark(float64(n)/10, float64(e)/10, meshColor)
			}
		}
'''), (C, None, '''
// overlay draws geographical points into the image of a composite.
type overlay struct {
	comp *radolan.Composite
	img  draw.Image
}

// mark sets the pixel at the given latitude and longitude.
func (o overlay) mark(north, east float64, c color.Color) {
	x, y := o.comp.Project(north, east)
	o.img.Set(int(x), int(y), c)
}
'''), (C, '''	"image/color"
''', '''	"image/color"
	"image/draw"
'''))
benign("r6-cm-scale-func", (C, '''	var heatmap vis.ColorFunc
	switch comp.DataUnit {
	case radolan.Unit_mm:
		max := 200.0
		if comp.Interval <= time.Hour {
			max = 100.0
		}
		if comp.Interval >= time.Hour*24*7 {
			max = 400.0
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
	case radolan.Unit_dBZ:
		heatmap = vis.HeatmapReflectivity
	case radolan.Unit_km:
		heatmap = vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		heatmap = vis.HeatmapRadialVelocity
	}
''', '''	heatmap := colors(comp.DataUnit, comp.Interval)
'''), (C, None, '''
// colors selects the color function for data of the given unit.
func colors(unit radolan.Unit, interval time.Duration) vis.ColorFunc {
	switch unit {
	case radolan.Unit_mm:
		return vis.Heatmap(0.1, upperBound(interval), vis.Log)
	case radolan.Unit_dBZ:
		return vis.HeatmapReflectivity
	case radolan.Unit_km:
		return vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		return vis.HeatmapRadialVelocity
	}
	return nil
}

// upperBound is the largest amount of precipitation (mm) distinguished for an interval.
func upperBound(interval time.Duration) float64 {
	const week = 7 * 24 * time.Hour
	if interval >= week {
		return 400
	} else if interval > time.Hour {
		return 200
	}
	return 100
}
'''))
benign("r6-cm-write-order", (C, '''	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
''', '''	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	err = png.Encode(outfile, img)
	if closeErr := outfile.Close(); err == nil {
		err = closeErr
	}
	care(err)
}
'''))
benign("r6-cm-read-bytes", (C, '''	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp, err := radolan.NewComposite(bufio.NewReader(infile))
	if err != nil {
		log.Fatal(err)
	}
'''), (C, '''import (
	"fmt"
''', '''import (
	"bufio"
	"fmt"
'''))
benign("r6-cm-read-file", (C, '''	infile, err := os.Open(in)
	care(err)
	defer infile.Close()

	// create new composite
	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	data, err := os.ReadFile(in)
	care(err)

	// create new composite
	comp, err := radolan.NewComposite(bytes.NewReader(data))
	care(err)
'''), (C, '''import (
	"fmt"
''', '''import (
	"bytes"
	"fmt"
'''))

# ---- one counter for all cells, one block for all rows
benign("r6-vi-image-range-cells", (V, IMG, '''	n := c.Dx * c.Dy
	for i := range n {
		y := i / c.Dx
		x := i - y*c.Dx
		img.SetRGBA(x, y, fn(float64(c.DataZ[layer][y][x])))
	}
'''))
benign("r6-vi-image-width-var", (V, IMG, '''	width, height := c.Dx, c.Dy
	for i := 0; i < width*height; i++ {
		x, y := i%width, i/width
		val := c.DataZ[layer][y][x]
		img.Set(x, y, fn(float64(val)))
	}
'''))
benign("r6-cm-mesh-single", (C, '''		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
				}
			}
		}
''', '''		for i := 0; i < 150*90; i++ { // 0.1 degree steps
			e, n := 10+i/90, 460+i%90
			if e%10 != 0 && n%10 != 0 {
				continue
			}
			x, y := comp.Project(float64(n)/10, float64(e)/10)
			img.Set(int(x), int(y), meshColor)
		}
'''))
benign("r6-dt-block-rest", (D, '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	cells := make([]float32, c.Px*c.Py)
	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i], cells = cells[:c.Px:c.Px], cells[c.Px:]
	}
'''))
benign("r6-dt-block-start", (D, '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	cells := make([]float32, c.Py*c.Px)
	c.PlainData = make([][]float32, c.Py)
	for i := 0; i < c.Py; i++ {
		start := i * c.Px
		c.PlainData[i] = cells[start : start+c.Px]
	}
'''))
benign("r6-dt-block-helper", (D, '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	c.PlainData = newPlane(c.Px, c.Py)
'''), (D, None, '''
// newPlane allocates height rows of the given width in one block.
func newPlane(width, height int) [][]float32 {
	block := make([]float32, width*height)
	rows := make([][]float32, 0, height)
	for len(rows) < height {
		rows = append(rows, block[:width])
		block = block[width:]
	}
	return rows
}
'''))
