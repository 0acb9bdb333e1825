"""Further behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

# ---- data rows
LEROWS = '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
'''
benign("r3-le-range-int", (LE, LEROWS, '''	for i := range len(c.PlainData) {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}
		if err := c.decodeLittleEndian(c.PlainData[len(c.PlainData)-1-i], line); err != nil {
			return err
		}
	}
	return nil
'''))
benign("r3-le-range-py", (LE, LEROWS, '''	for row := range c.Py {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}
		if err = c.decodeLittleEndian(c.PlainData[c.Py-row-1], line); err != nil {
			return err
		}
	}
	return nil
'''))
benign("r3-le-while", (LE, LEROWS, '''	remaining := len(c.PlainData)
	for remaining > 0 {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}
		remaining--
		if err = c.decodeLittleEndian(c.PlainData[remaining], line); err != nil {
			return err
		}
	}
	return nil
'''))
benign("r3-le-row-helper", (LE, LEROWS, '''	for i := len(c.PlainData) - 1; i >= 0; i-- { // write vertically flipped
		if err := c.parseRowLittleEndian(reader, c.PlainData[i]); err != nil {
			return err
		}
	}

	return nil
'''), (LE, None, '''
// parseRowLittleEndian reads and decodes one row.
func (c *Composite) parseRowLittleEndian(reader *bufio.Reader, dst []float32) error {
	line, err := c.readLineLittleEndian(reader)
	if err != nil {
		return err
	}
	return c.decodeLittleEndian(dst, line)
}
'''))
LECELLS = '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
'''
benign("r3-le-cells-step", (LE, LECELLS, '''	for i := 0; i < len(line); i += 2 {
		dst[i/2] = c.rvp6LittleEndian([2]byte{line[i], line[i+1]})
	}
'''))
benign("r3-le-cells-two-index", (LE, LECELLS, '''	for i, j := 0, 0; i < len(dst); i, j = i+1, j+2 {
		dst[i] = c.rvp6LittleEndian([2]byte{line[j], line[j+1]})
	}
'''))
benign("r3-le-cells-range-int", (LE, LECELLS, '''	for i := range len(dst) {
		pair := line[2*i : 2*i+2]
		dst[i] = c.rvp6LittleEndian([2]byte{pair[0], pair[1]})
	}
'''))
benign("r3-le-cells-array", (LE, LECELLS, '''	for i := range dst {
		dst[i] = c.rvp6LittleEndian([2]byte(line[2*i:]))
	}
'''))
benign("r3-le-cells-copy", (LE, LECELLS, '''	var tuple [2]byte
	for i := range dst {
		copy(tuple[:], line[2*i:])
		dst[i] = c.rvp6LittleEndian(tuple)
	}
'''))
benign("r3-le-value-or", (LE, '''	var value int = 0x0F & int(tuple[1])
	value = (value << 8) + int(tuple[0])
''', '''	value := int(tuple[1]&0x0F)<<8 | int(tuple[0])
'''))
benign("r3-le-value-sign", (LE, '''	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}

	conv := c.rvp6Raw(value) // set decimal point
''', '''	sign := 1
	if tuple[1]>>6&1 == 1 { // flag: negative value
		sign = -1
	}

	conv := c.rvp6Raw(sign * value) // set decimal point
'''))
benign("r3-le-dbz-first", (LE, '''	if c.DataUnit != Unit_dBZ {
		return conv
	}

	// Even though this format supports negative values and custom
	// precision they do not make use of this and we still have to subtract
	// the bias and scale it (RADVOR FX, dBZ)
	return toDBZ(conv)
''', '''	if c.DataUnit == Unit_dBZ {
		// Even though this format supports negative values and custom
		// precision they do not make use of this and we still have to subtract
		// the bias and scale it (RADVOR FX, dBZ)
		conv = toDBZ(conv)
	}
	return conv
'''))
benign("r3-value-unit-helper", (LE, '''	if c.DataUnit != Unit_dBZ {
		return conv
	}

	// Even though this format supports negative values and custom
	// precision they do not make use of this and we still have to subtract
	// the bias and scale it (RADVOR FX, dBZ)
	return toDBZ(conv)
''', '''	return c.inUnit(conv)
'''), (SB, '''	// not sure if single byte formats are even used for other things than dBZ (RX, dBZ)
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	return toDBZ(conv)
''', '''	return c.inUnit(conv)
'''), (CONV, None, '''
// inUnit converts a decoded number to the unit of the composite.
func (c *Composite) inUnit(v float32) float32 {
	switch c.DataUnit {
	case Unit_dBZ:
		return toDBZ(v)
	default:
		return v
	}
}
'''))
SBROWS = '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}

		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
'''
benign("r3-sb-countdown", (SB, SBROWS, '''	for y := c.Py - 1; y >= 0; y-- {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}
		if err := c.decodeSingleByte(c.PlainData[y], line); err != nil {
			return err
		}
	}
	return nil
'''))
benign("r3-rows-generic", (SB, SBROWS, '''	return c.eachRowFlipped(func(dst []float32) error {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}
		return c.decodeSingleByte(dst, line)
	})
'''), (LE, LEROWS, '''	return c.eachRowFlipped(func(dst []float32) error {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}
		return c.decodeLittleEndian(dst, line)
	})
'''), (D, None, '''
// eachRowFlipped calls f for every row from the bottom to the top.
func (c *Composite) eachRowFlipped(f func(dst []float32) error) error {
	for i := len(c.PlainData) - 1; i >= 0; i-- {
		if err := f(c.PlainData[i]); err != nil {
			return err
		}
	}
	return nil
}
'''))
benign("r3-read-bytes-helper", (SB, '''	line = make([]byte, c.Dx)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineSingleByte", err.Error())
	}
	return
''', '''	return readBytes(rd, c.Dx, "readLineSingleByte")
'''), (LE, '''	line = make([]byte, c.Dx*2)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineLittleEndian", err.Error())
	}
	return
''', '''	return readBytes(rd, 2*c.Dx, "readLineLittleEndian")
'''), (LE, '	"io"\n', ''), (SB, '	"io"\n', ''), (D, None, '''
func readBytes(rd *bufio.Reader, n int, reason string) ([]byte, error) {
	buf := make([]byte, n)
	if _, err := io.ReadFull(rd, buf); err != nil {
		return nil, newError(reason, err.Error())
	}
	return buf, nil
}
'''), (D, '	"bufio"\n', '	"bufio"\n	"io"\n'))
benign("r3-sb-cells-index", (SB, '''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
	}
''', '''	for i := 0; i < len(dst); i++ {
		dst[i] = c.rvp6SingleByte(line[i])
	}
'''))
benign("r3-sb-cells-back", (SB, '''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
	}
''', '''	for i := len(line) - 1; i >= 0; i-- {
		dst[i] = c.rvp6SingleByte(line[i])
	}
'''))
benign("r3-sb-cells-shrink", (SB, '''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
	}
''', '''	for _, v := range line {
		dst[0] = c.rvp6SingleByte(v)
		dst = dst[1:]
	}
'''))
benign("r3-sb-missing-const", (SB, '''	if value == 250 { // error code: no-data
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set decimal point
''', '''	const missing = 0xFA // error code: no-data

	var conv float32
	switch value {
	case missing:
		return NaN
	default:
		conv = c.rvp6Raw(int(value)) // set decimal point
	}
'''))
# ---- runlength
RLROWS = '''	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
		if err != nil {
			return err
		}
	}
'''
benign("r3-rl-rows-range-int", (L, RLROWS, '''	for i := range c.Py {
		line, err := c.readLineRunlength(reader)
		if err == nil {
			err = c.decodeRunlength(c.PlainData[i], line)
		}
		if err != nil {
			return err
		}
	}
'''))
benign("r3-rl-rows-while", (L, RLROWS, '''	i := 0
	for i < len(c.PlainData) {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}
		if err := c.decodeRunlength(c.PlainData[i], line); err != nil {
			return err
		}
		i++
	}
'''))
benign("r3-rl-fill-range-int", (L, '''	for i := range dst {
		dst[i] = NaN
	}
''', '''	for i := range len(dst) {
		dst[i] = NaN
	}
'''))
benign("r3-rl-fill-first", (L, '''	for i := range dst {
		dst[i] = NaN
	}

	dstpos := 0
	offset := true
''', '''	var (
		dstpos int
		offset = true
	)
	for i := 0; i < len(dst); i++ {
		dst[i] = NaN
	}

'''))
RUN = '''			runlength := int(value >> 4)
			value &= 0x0F

			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
'''
benign("r3-rl-run-range-int", (L, RUN, '''			for range int(value >> 4) {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value & 0x0F)
				dstpos++
			}
'''))
benign("r3-rl-run-countdown", (L, RUN, '''			decoded := c.rvp6Runlength(value & 0x0F)
			for n := value >> 4; n > 0; n-- {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}
				dst[dstpos] = decoded
				dstpos++
			}
'''))
benign("r3-rl-run-end", (L, RUN, '''			end := dstpos + int(value>>4)
			for ; dstpos < end; dstpos++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}
				dst[dstpos] = c.rvp6Runlength(value & 0x0F)
			}
'''))
benign("r3-rl-run-closure", (L, '''	dstpos := 0
	offset := true
''', '''	dstpos := 0
	offset := true
	put := func(v float32) error {
		if dstpos >= len(dst) {
			return newError("decodeRunlength", "destination size exceeded")
		}
		dst[dstpos] = v
		dstpos++
		return nil
	}
'''), (L, RUN, '''			runlength := int(value >> 4)
			value &= 0x0F

			for j := 0; j < runlength; j++ {
				if err := put(c.rvp6Runlength(value)); err != nil {
					return err
				}
			}
'''))
benign("r3-rl-skip-continue", (L, '''	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset: // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}

			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
		default:
			// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
''' + RUN + '''		}
	}
''', '''	for i := 1; i < len(line); i++ { // skip useless line number
		value := line[i]
		if offset { // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}
			dstpos += int(value - 16)
			if value < 255 {
				offset = false
			}
			continue
		}
		n, v := int(value/16), value%16
		for ; n > 0; n-- {
			if dstpos == len(dst) || dstpos > len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			dst[dstpos] = c.rvp6Runlength(v)
			dstpos++
		}
	}
'''))
benign("r3-rl-offset-sum", (L, '''			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
''', '''			if value != 255 { // see if next byte will be also offset
				offset = false
			}
			dstpos = dstpos - 16 + int(value) // update offset position
'''))
benign("r3-rl-level-else", (L, '''	if value == 0 {
		return NaN
	}
	value--

	if int(value) >= len(c.level) { // border markings
		return NaN
	}
	return c.level[value]
''', '''	if value > 0 && int(value) <= len(c.level) {
		return c.level[value-1]
	}
	return NaN // no level or border markings
'''))
benign("r3-rl-readline-slice", (L, '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	if line, err = rd.ReadBytes('\\n'); err != nil {
		return nil, newError("readLineRunlength", err.Error())
	}
	return line[:len(line)-1], nil
'''))
# ---- data
benign("r3-dt-alloc-range-int", (D, '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	c.PlainData = make([][]float32, c.Py)
	for y := range c.Py {
		c.PlainData[y] = make([]float32, c.Px)
	}
'''))
benign("r3-dt-check-merged", (D, '''	if c.Px <= 0 || c.Py <= 0 {
		return newError("parseData", "parsed header data required")
	}
	if c.Px > maxDimension || c.Py > maxDimension {
		return newError("parseData", "image dimensions exceed limit")
	}
''', '''	for _, n := range []int{c.Px, c.Py} {
		switch {
		case n < 1:
			return newError("parseData", "parsed header data required")
		case n > maxDimension:
			return newError("parseData", "image dimensions exceed limit")
		}
	}
'''))
benign("r3-dt-arrange-count", (D, '''	if c.Py%c.Dy == 0 { // multiple layers are linked downwards
		c.DataZ = make([][][]float32, c.Py/c.Dy)
		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
	} else { // only use bottom most part of plain data
''', '''	if c.Py%c.Dy == 0 { // multiple layers are linked downwards
		layers := c.Py / c.Dy
		c.DataZ = make([][][]float32, layers)
		for i := range layers {
			c.DataZ[i] = c.PlainData[i*c.Dy:][:c.Dy] // split layers
		}
	} else { // only use bottom most part of plain data
'''))
benign("r3-dt-arrange-top", (D, '''		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
''', '''		for i, top := 0, 0; i < len(c.DataZ); i++ {
			c.DataZ[i] = c.PlainData[top : top+c.Dy] // split layers
			top += c.Dy
		}
'''))
benign("r3-dt-arrange-rest", (D, '''		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
''', '''		rest := c.PlainData
		for i := range c.DataZ {
			c.DataZ[i], rest = rest[:c.Dy], rest[c.Dy:] // split layers
		}
'''))
benign("r3-dt-arrange-early", (D, '''	if c.Py%c.Dy == 0 { // multiple layers are linked downwards
		c.DataZ = make([][][]float32, c.Py/c.Dy)
		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
	} else { // only use bottom most part of plain data
		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
	}

	c.Dz = len(c.DataZ)
	c.Data = c.DataZ[0] // alias
''', '''	c.DataZ = c.layers()
	c.Data = c.DataZ[0] // alias
	c.Dz = len(c.DataZ)
'''), (D, None, '''
func (c *Composite) layers() [][][]float32 {
	if c.Py%c.Dy != 0 { // only use bottom most part of plain data
		return [][][]float32{c.PlainData[c.Py-c.Dy : c.Py]} // strip elevation
	}
	var zs [][][]float32
	for y := 0; y < c.Py; y += c.Dy { // multiple layers are linked downwards
		zs = append(zs, c.PlainData[y:y+c.Dy])
	}
	return zs
}
'''))
benign("r3-dt-encoding-order", (D, '''	values := c.Px * c.Py

	if c.level != nil {
		return runlength
	}
	if c.dataLength == values*2 {
		return littleEndian
	}
	if c.dataLength == values {
		return singleByte
	}

	return unknown
''', '''	enc := unknown
	if values := c.Px * c.Py; c.level != nil {
		enc = runlength
	} else if c.dataLength == values {
		enc = singleByte
	} else if c.dataLength == 2*values {
		enc = littleEndian
	}
	return enc
'''))
# ---- header
benign("r3-hd-level-range-int", (H, '''		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
''', '''		for i := range cnt {
			begin := 5*i + 2
			if _, err = fmt.Sscanf(lv[begin:begin+5], "%f", &c.level[i]); err != nil {
'''))
benign("r3-hd-level-pos", (H, '''		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
''', '''		for i, n := 0, 2; i < cnt; i, n = i+1, n+5 {
			if _, err = fmt.Sscanf(lv[n:n+5], "%f", &c.level[i]); err != nil {
'''))
benign("r3-hd-level-shrink", (H, '''		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
''', '''		lv = lv[2:]
		for i := range c.level {
			field := lv[:5]
			lv = lv[5:]
			if _, err = fmt.Sscanf(field, "%f", &c.level[i]); err != nil {
'''))
benign("r3-hd-level-tmp", (H, '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		level := make([]float32, cnt)
		for i := range level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
		c.level = level
'''))
benign("r3-hd-count-helper", (H, '''		if len(lv) < 2 {
			return newError("parseHeader", "level field too short")
		}

		var cnt int
		if _, err = fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
			return newError("parseHeader", "could not parse level count: "+err.Error())
		}
''', '''		cnt, err := levelCount(lv)
		if err != nil {
			return err
		}
'''), (H, None, '''
// levelCount parses the number of levels in front of the level field.
func levelCount(lv string) (cnt int, err error) {
	if len(lv) < 2 {
		return 0, newError("parseHeader", "level field too short")
	}
	if _, err := fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
		return 0, newError("parseHeader", "could not parse level count: "+err.Error())
	}
	return cnt, nil
}
'''))
benign("r3-hd-interval-helper", (H, '''		c.Interval = time.Duration(min) * time.Minute
		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		unit := time.Minute
		if c.tenfoldInterval() {
			unit = 10 * time.Minute
		}
		c.Interval = time.Duration(min) * unit
'''), (H, None, '''
func (c *Composite) tenfoldInterval() bool {
	return c.Product == "W1" || c.Product == "W2" || c.Product == "W3" || c.Product == "W4"
}
'''))
benign("r3-hd-interval-byte", (H, '''		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		if p := c.Product; p[0] == 'W' && p[1] >= '1' && p[1] <= '4' {
			c.Interval *= 10
		}
'''))

benign("r3-hd-lookup-local", (H, '''	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	unit, known := unitCatalog[c.Product]
	if !known {
		unit = Unit_unknown
	}
	c.DataUnit = unit
'''))
benign("r3-hd-dims-catalog", (H, '''		v, ok := dimensionCatalog[c.Product] // lookup in catalog
		if !ok {
			return newError("parseHeader", "no dimension information available")
		}

		c.Px, c.Py = v.px, v.py // plain data dimensions
		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions
		c.Rx, c.Ry = v.rx, v.ry // data resolution
	}
''', '''		if err := c.catalogDimensions(); err != nil {
			return err
		}
	}
'''), (H, None, '''
func (c *Composite) catalogDimensions() error {
	v, ok := dimensionCatalog[c.Product] // lookup in catalog
	if ok {
		c.Rx, c.Ry = v.rx, v.ry // data resolution
		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions
		c.Px, c.Py = v.px, v.py // plain data dimensions
		return nil
	}
	return newError("parseHeader", "no dimension information available")
}
'''))
benign("r3-hd-precision-last", (H, '''	// Parse Precision - Example: "PR E-01" or "PR E+00"
	if prec, ok := section["E"]; ok { // not that nice
		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
	}

''', ''), (H, '''			return newError("parseHeader", "invalid format value: "+err.Error())
		}
	}
''', '''			return newError("parseHeader", "invalid format value: "+err.Error())
		}
	}

	// Parse Precision - Example: "PR E-01" or "PR E+00"
	prec, ok := section["E"]
	if !ok {
		return nil
	}
	if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
		return newError("parseHeader", "could not parse precision: "+err.Error())
	}
'''))
# ---- projection
benign("r3-pj-minres-div", (P, '''	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	for rdx%2 == 0 && rdy%2 == 0 {
		rdx, rdy = rdx/2, rdy/2
	}
	return
'''))
benign("r3-pj-minres-break", (P, '''	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	for {
		if rdx&1 != 0 || rdy&1 != 0 {
			return
		}
		rdx >>= 1
		rdy >>= 1
	}
'''))
benign("r3-pj-grid-loop", (P, '''	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}
	if mx, my := minRes(920, 920); dx == mx && dy == my {
		return nationalPictureGrid
	}
	if mx, my := minRes(900, 1100); dx == mx && dy == my {
		return extendedNationalGrid
	}
	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
		return DE1200Grid
	}
	if mx, my := minRes(1400, 1500); dx == mx && dy == my {
		return middleEuropeanGrid
	}
	return unknownGrid
''', '''	for _, known := range [...]struct {
		g    grid
		x, y int
	}{
		{nationalGrid, 900, 900},
		{nationalPictureGrid, 920, 920},
		{extendedNationalGrid, 900, 1100},
		{DE1200Grid, 1100, 1200},
		{middleEuropeanGrid, 1400, 1500},
	} {
		if mx, my := minRes(known.x, known.y); dx == mx && dy == my {
			return known.g
		}
	}
	return unknownGrid
'''))
benign("r3-pj-nan-helper", (P, '''	if c.Rx == 0 || c.Ry == 0 { // resolution is not defined by catalog
		c.Rx = math.NaN()
		c.Ry = math.NaN()
	}
	c.offx = math.NaN()
	c.offy = math.NaN()
''', '''	nan := math.NaN()
	c.offx, c.offy = nan, nan
	if hasResolution := c.Rx != 0 && c.Ry != 0; !hasResolution { // resolution is not defined by catalog
		c.Rx, c.Ry = nan, nan
	}
'''))
benign("r3-pj-scale-helper", (P, '''	// calibrate offset correction
	c.offx, c.offy = c.Project(originTop, originLeft)

	// calibrate scaling
	resx, resy := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
''', '''	c.calibrateOffset(originTop, originLeft)
	c.calibrateScale(edgeBottom, edgeRight)
'''), (P, None, '''
func (c *Composite) calibrateOffset(north, east float64) {
	c.offx, c.offy = c.Project(north, east)
}

func (c *Composite) calibrateScale(north, east float64) {
	x, y := c.Project(north, east)
	c.Rx, c.Ry = x/float64(c.Dx), y/float64(c.Dy)
}
'''))
benign("r3-pj-project-switch", (P, '''	if !c.HasProjection {
		x, y = math.NaN(), math.NaN()
		return
	}

	if c.proj_wgs84 != nil {
		return c.projectWGS84(north, east)
	}
	return c.projectSphere(north, east)
''', '''	switch {
	case !c.HasProjection:
		return math.NaN(), math.NaN()
	case c.proj_wgs84 == nil:
		x, y = c.projectSphere(north, east)
	default:
		x, y = c.projectWGS84(north, east)
	}
	return x, y
'''))
