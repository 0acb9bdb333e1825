from benignlib import benign, main

# ---------------------------------------------------------------- run-length
benign("rl-switch-to-if", ("runlength.go", '''		switch true {
		case i == 0: // skip useless line number
		case offset: // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}

			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
		default:
			// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
			runlength := int(value >> 4)
			value &= 0x0F

			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
		}
''', '''		if i == 0 { // skip useless line number
			continue
		}
		if offset { // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}

			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
			continue
		}
		// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
		runlength := int(value >> 4)
		level := c.rvp6Runlength(value & 0x0F)

		for ; runlength > 0; runlength-- {
			if dstpos >= len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}

			dst[dstpos] = level
			dstpos++
		}
'''))
benign("rl-helper-run", ("runlength.go", '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			n, err := c.writeRun(dst, dstpos, runlength, value)
			if err != nil {
				return err
			}
			dstpos = n
'''), ("runlength.go", '''// rvp6Runlength sets''', '''// writeRun writes a run of equal values and returns the position after it.
func (c *Composite) writeRun(dst []float32, pos, count int, value byte) (int, error) {
	for j := 0; j < count; j++ {
		if pos >= len(dst) {
			return pos, newError("decodeRunlength", "destination size exceeded")
		}
		dst[pos] = c.rvp6Runlength(value)
		pos++
	}
	return pos, nil
}

// rvp6Runlength sets'''))
benign("rl-check-before-run", ("runlength.go", '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			if runlength > 0 && dstpos+runlength > len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			for j := 0; j < runlength; j++ {
				dst[dstpos+j] = c.rvp6Runlength(value)
			}
			dstpos += runlength
'''))
benign("rl-fill-helper", ("runlength.go", '''	for i := range dst {
		dst[i] = NaN
	}
''', '''	fillNaN(dst)
'''), ("runlength.go", '''// rvp6Runlength sets''', '''// fillNaN sets all elements to NaN.
func fillNaN(dst []float32) {
	for i := 0; i < len(dst); i++ {
		dst[i] = NaN
	}
}

// rvp6Runlength sets'''))
benign("rl-two-loops", ("runlength.go", '''	dstpos := 0
	offset := true
	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset: // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}

			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
		default:
			// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
			runlength := int(value >> 4)
			value &= 0x0F

			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
		}
	}

	return nil
''', '''	if len(line) < 1 {
		return nil
	}
	line = line[1:]

	dstpos := 0
	for len(line) > 0 {
		value := line[0]
		line = line[1:]
		if value < 16 {
			return newError("decodeRunlength", "invalid offset value")
		}
		dstpos += int(value) - 16
		if value != 255 {
			break
		}
	}
	for _, value := range line {
		runlength := int(value >> 4)
		value &= 0x0F

		for j := 0; j < runlength; j++ {
			if dstpos >= len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}

			dst[dstpos] = c.rvp6Runlength(value)
			dstpos++
		}
	}

	return nil
'''))
benign("rl-slice-first", ("runlength.go", '''	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset:''', '''	if len(line) > 0 {
		line = line[1:] // skip useless line number
	}
	for _, value := range line {
		switch {
		case offset:'''))
benign("rl-level-lookup", ("runlength.go", '''	if value == 0 {
		return NaN
	}
	value--

	if int(value) >= len(c.level) { // border markings
		return NaN
	}
	return c.level[value]
''', '''	idx := int(value) - 1
	if idx < 0 || idx >= len(c.level) { // no data or border markings
		return NaN
	}
	return c.level[idx]
'''))
benign("rl-level-inverted", ("runlength.go", '''	if value == 0 {
		return NaN
	}
	value--

	if int(value) >= len(c.level) { // border markings
		return NaN
	}
	return c.level[value]
''', '''	if value != 0 && int(value) <= len(c.level) {
		return c.level[value-1]
	}
	return NaN // no data and border markings
'''))
benign("rl-readline", ("runlength.go", '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	line, err = rd.ReadBytes('\\n')
	if err != nil {
		return nil, newError("readLineRunlength", err.Error())
	}
	return line[:len(line)-1], nil
'''))
benign("rl-index-loop", ("runlength.go", '''	for i, value := range line {
		switch true {
		case i == 0: // skip useless line number
		case offset:''', '''	for i := 1; i < len(line); i++ { // skip useless line number
		value := line[i]
		switch {
		case offset:'''))
benign("rl-rows-index", ("runlength.go", '''	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
		if err != nil {
			return err
		}
	}
''', '''	for y, n := 0, len(c.PlainData); y < n; y++ {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}
		if err := c.decodeRunlength(c.PlainData[y], line); err != nil {
			return err
		}
	}
'''))
benign("rl-rows-range-value", ("runlength.go", '''	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
		if err != nil {
			return err
		}
	}
''', '''	for _, row := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}
		if err = c.decodeRunlength(row, line); err != nil {
			return err
		}
	}
'''))
benign("rl-offset-continue-flag", ("runlength.go", '''			dstpos += int(value) - 16 // update offset position
			offset = value == 255     // see if next byte will be also offset
''', '''			if value != 255 {
				offset = false
			}
			dstpos = dstpos + int(value-16)
'''))
benign("rl-nibbles", ("runlength.go", '''			runlength := int(value >> 4)
			value &= 0x0F
''', '''			runlength := int(value / 16)
			value = value % 16
'''))
# ---------------------------------------------------------------- little endian
benign("le-shared-loop", ("littleendian.go", '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
''', '''	return c.parseFlipped(reader, c.readLineLittleEndian, c.decodeLittleEndian)
'''), ("singlebyte.go", '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}

		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
''', '''	return c.parseFlipped(reader, c.readLineSingleByte, c.decodeSingleByte)
'''), ("data.go", '''// parseUnknown performs''', '''// parseFlipped reads all lines, the last one being the first line of the image.
func (c *Composite) parseFlipped(reader *bufio.Reader, read func(*bufio.Reader) ([]byte, error), decode func([]float32, []byte) error) error {
	for y := len(c.PlainData) - 1; y >= 0; y-- {
		line, err := read(reader)
		if err != nil {
			return err
		}
		if err := decode(c.PlainData[y], line); err != nil {
			return err
		}
	}
	return nil
}

// parseUnknown performs'''))
benign("le-countdown", ("littleendian.go", '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped
''', '''	for row := len(c.PlainData) - 1; row >= 0; row-- { // vertically flipped
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[row], line)
'''))
benign("le-binary", ("littleendian.go", '''	"bufio"
	"io"
''', '''	"bufio"
	"encoding/binary"
	"io"
'''), ("littleendian.go", '''	var value int = 0x0F & int(tuple[1])
	value = (value << 8) + int(tuple[0])
''', '''	value := int(binary.LittleEndian.Uint16(tuple[:]) & 0x0FFF)
'''))
benign("le-flags-first", ("littleendian.go", '''	var value int = 0x0F & int(tuple[1])
	value = (value << 8) + int(tuple[0])

	if tuple[1]&(1<<5) != 0 { // error code: no-data
		return NaN
	}

	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}
''', '''	const (
		noData   = 0x20
		negative = 0x40
	)
	lo, hi := tuple[0], tuple[1]
	if hi&noData == noData {
		return NaN
	}

	value := int(hi&0x0F)<<8 | int(lo)
	if hi&negative == negative {
		value = -value
	}
'''))
benign("le-split-helper", ("littleendian.go", '''	conv := c.rvp6Raw(value) // set decimal point

	// little endian encoded formats are also used for mm/h
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	// Even though this format supports negative values and custom
	// precision they do not make use of this and we still have to subtract
	// the bias and scale it (RADVOR FX, dBZ)
	return toDBZ(conv)
''', '''	return c.convertRaw(value)
'''), ("singlebyte.go", '''	conv := c.rvp6Raw(int(value)) // set decimal point

	// not sure if single byte formats are even used for other things than dBZ (RX, dBZ)
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	return toDBZ(conv)
''', '''	return c.convertRaw(int(value))
'''), ("conversion.go", None, '''
// convertRaw applies the precision and, for reflectivities, the conversion to dBZ.
func (c *Composite) convertRaw(value int) float32 {
	conv := c.rvp6Raw(value)
	if c.DataUnit == Unit_dBZ {
		conv = toDBZ(conv)
	}
	return conv
}
'''))
benign("le-inline-tuple", ("littleendian.go", '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	for i := 0; i < len(line); i += 2 {
		dst[i/2] = c.rvp6LittleEndian([2]byte{line[i], line[i+1]})
	}
'''))
benign("le-decode-shrink", ("littleendian.go", '''	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	for x := range dst {
		var tuple [2]byte
		copy(tuple[:], line[2*x:2*x+2])
		dst[x] = c.rvp6LittleEndian(tuple)
	}
'''))
benign("le-params", ("littleendian.go", "tuple := [2]byte{line[2*i], line[2*i+1]}\n\t\tdst[i] = c.rvp6LittleEndian(tuple)", "dst[i] = c.rvp6LittleEndian(line[2*i], line[2*i+1])"),
 ("littleendian.go", "rvp6LittleEndian(tuple [2]byte) float32 {", "rvp6LittleEndian(low, high byte) float32 {"), ("littleendian.go", "tuple[1]", "high", 1), ("littleendian.go", "tuple[0]", "low"),
 )
# ---------------------------------------------------------------- single byte
benign("sb-buffer-reuse", ("singlebyte.go", '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}

		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}
''', '''	height := len(c.PlainData)
	for i := 0; i < height; i++ {
		line, err := c.readLineSingleByte(reader)
		if err == nil {
			err = c.decodeSingleByte(c.PlainData[height-1-i], line) // write vertically flipped
		}
		if err != nil {
			return err
		}
	}
'''))
benign("sb-switch", ("singlebyte.go", '''	if value == 250 { // error code: no-data
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set decimal point

	// not sure if single byte formats are even used for other things than dBZ (RX, dBZ)
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	return toDBZ(conv)
''', '''	const noData = 250
	switch {
	case value == noData:
		return NaN
	case c.DataUnit == Unit_dBZ:
		return toDBZ(c.rvp6Raw(int(value)))
	default:
		return c.rvp6Raw(int(value))
	}
'''))
benign("sb-px", ("singlebyte.go", "make([]byte, c.Dx)", "make([]byte, c.Px)"))
# ---------------------------------------------------------------- data.go
benign("data-switch", ("data.go", '''	if c.level != nil {
		return runlength
	}
	if c.dataLength == values*2 {
		return littleEndian
	}
	if c.dataLength == values {
		return singleByte
	}

	return unknown
''', '''	switch {
	case c.level != nil:
		return runlength
	case c.dataLength == values:
		return singleByte
	case c.dataLength == 2*values:
		return littleEndian
	default:
		return unknown
	}
'''))
benign("data-dispatch-switch", ("data.go", '''	return parse[c.identifyEncoding()](c, reader)
''', '''	switch c.identifyEncoding() {
	case runlength:
		return c.parseRunlength(reader)
	case littleEndian:
		return c.parseLittleEndian(reader)
	case singleByte:
		return c.parseSingleByte(reader)
	}
	return c.parseUnknown(reader)
'''), ("data.go", '''// parsing methods
var parse = [4]func(c *Composite, rd *bufio.Reader) error{}

// init maps the parsing methods to the encoding type
func init() {
	parse[runlength] = (*Composite).parseRunlength
	parse[littleEndian] = (*Composite).parseLittleEndian
	parse[singleByte] = (*Composite).parseSingleByte
	parse[unknown] = (*Composite).parseUnknown
}
''', ''))
benign("data-map-dispatch", ("data.go", '''// parsing methods
var parse = [4]func(c *Composite, rd *bufio.Reader) error{}

// init maps the parsing methods to the encoding type
func init() {
	parse[runlength] = (*Composite).parseRunlength
	parse[littleEndian] = (*Composite).parseLittleEndian
	parse[singleByte] = (*Composite).parseSingleByte
	parse[unknown] = (*Composite).parseUnknown
}
''', '''// parsing methods
var parse = [...]func(c *Composite, rd *bufio.Reader) error{
	runlength:    (*Composite).parseRunlength,
	littleEndian: (*Composite).parseLittleEndian,
	singleByte:   (*Composite).parseSingleByte,
	unknown:      (*Composite).parseUnknown,
}
'''))
benign("data-alloc-helper", ("data.go", '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}

	return''', '''	c.PlainData = newPlane(c.Px, c.Py)

	return'''), ("data.go", '''// arrangeData slices''', '''// newPlane allocates an image of the given dimensions.
func newPlane(w, h int) [][]float32 {
	plane := make([][]float32, h)
	for y := range plane {
		plane[y] = make([]float32, w)
	}
	return plane
}

// arrangeData slices'''))
benign("data-alloc-append", ("data.go", '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	c.PlainData = make([][]float32, 0, c.Py)
	for y := 0; y < c.Py; y++ {
		c.PlainData = append(c.PlainData, make([]float32, c.Px))
	}
'''))
benign("data-alloc-contiguous", ("data.go", '''	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	buf := make([]float32, c.Px*c.Py)
	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		c.PlainData[i] = buf[i*c.Px : (i+1)*c.Px : (i+1)*c.Px]
	}
'''))
benign("data-arrange-early", ("data.go", '''	if c.Py%c.Dy == 0 { // multiple layers are linked downwards
		c.DataZ = make([][][]float32, c.Py/c.Dy)
		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
	} else { // only use bottom most part of plain data
		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
	}

	c.Dz = len(c.DataZ)
	c.Data = c.DataZ[0] // alias
''', '''	if c.Py%c.Dy != 0 { // only use bottom most part of plain data
		c.Dz = 1
		c.Data = c.PlainData[c.Py-c.Dy:] // strip elevation
		c.DataZ = [][][]float32{c.Data}
		return
	}

	// multiple layers are linked downwards
	c.Dz = c.Py / c.Dy
	c.DataZ = make([][][]float32, c.Dz)
	for z, begin := 0, 0; z < c.Dz; z, begin = z+1, begin+c.Dy {
		c.DataZ[z] = c.PlainData[begin : begin+c.Dy] // split layers
	}
	c.Data = c.DataZ[0] // alias
'''))
benign("data-arrange-append", ("data.go", '''		c.DataZ = make([][][]float32, c.Py/c.Dy)
		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
''', '''		c.DataZ = nil
		for rest := c.PlainData; len(rest) > 0; rest = rest[c.Dy:] {
			c.DataZ = append(c.DataZ, rest[:c.Dy])
		}
'''))
# ---------------------------------------------------------------- header.go
benign("hd-scan-helper", ("header.go", '''	if _, err := fmt.Sscanf(section["BY"], "%d", &c.dataLength); err != nil {
		return newError("parseHeader", "could not parse data length: "+err.Error())
	}
	c.dataLength -= len(header) // remove header length including delimiter
''', '''	length, err := scanInt(section["BY"])
	if err != nil {
		return newError("parseHeader", "could not parse data length: "+err.Error())
	}
	c.dataLength = length - len(header) // remove header length including delimiter
'''), ("header.go", '''		min := 0
		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime''', '''		min, err := scanInt(vv)
		if err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime'''), ("header.go", '''// parseHeader parses and''', '''func scanInt(s string) (n int, err error) {
	_, err = fmt.Sscanf(s, "%d", &n)
	return
}

// parseHeader parses and'''))
benign("hd-split-functions", ("header.go", '''	if lv, ok := section["LV"]; ok {
		if len(lv) < 2 {
			return newError("parseHeader", "level field too short")
		}

		var cnt int
		if _, err = fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
			return newError("parseHeader", "could not parse level count: "+err.Error())
		}

		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
	}
''', '''	if lv, ok := section["LV"]; ok {
		if err := c.parseLevels(lv); err != nil {
			return err
		}
	}
'''), ("header.go", None, '''
// parseLevels parses the level table
func (c *Composite) parseLevels(lv string) error {
	if len(lv) < 2 {
		return newError("parseHeader", "level field too short")
	}

	var cnt int
	if _, err := fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
		return newError("parseHeader", "could not parse level count: "+err.Error())
	}

	values := lv[2:]
	if len(values) != 5*cnt { // fortran format I2 + F5.1
		return newError("parseHeader", "invalid level format: "+lv)
	}

	levels := make([]float32, cnt)
	for i := 0; i < cnt; i++ {
		if _, err := fmt.Sscanf(values[5*i:5*i+5], "%f", &levels[i]); err != nil {
			return newError("parseHeader", "invalid level value: "+err.Error())
		}
	}
	c.level = levels
	return nil
}
'''))
benign("hd-level-shift", ("header.go", '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		c.level = make([]float32, 0, cnt)
		for pos := 2; pos < len(lv); pos += 5 {
			var level float32
			if _, err = fmt.Sscanf(lv[pos:pos+5], "%f", &level); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
			c.level = append(c.level, level)
		}
'''))
benign("hd-reorder", ("header.go", '''	// Parse Product - Example: "PG" or "FZ"
	c.Product = header[:2]

	// Lookup Unit
	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}

''', ''), ("header.go", '''	// Parse Format Version - Example "VS 5"
''', '''	// Parse Product - Example: "PG" or "FZ"
	c.Product = header[:2]
	c.DataUnit = unitCatalog[c.Product] // zero value is Unit_unknown

	// Parse Format Version - Example "VS 5"
'''), ("header.go", '''		switch c.Product {
		case''', '''		switch header[:2] {
		case'''), ("header.go", "dimensionCatalog[c.Product]", "dimensionCatalog[header[:2]]"))
benign("hd-interval", ("header.go", '''		c.Interval = time.Duration(min) * time.Minute
		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		if isWeekly(c.Product) {
			min *= 10
		}
		c.Interval = time.Duration(min) * time.Minute
'''), ("header.go", None, '''
func isWeekly(product string) bool {
	return product == "W1" || product == "W2" || product == "W3" || product == "W4"
}
'''))
benign("hd-interval-table", ("header.go", '''		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		if tenfold[c.Product] {
			c.Interval *= 10
		}
'''), ("header.go", None, '''
var tenfold = map[string]bool{"W1": true, "W2": true, "W3": true, "W4": true}
'''))
benign("hd-dims-vars", ("header.go", '''		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
''', '''		var rows, cols int
		if _, err := fmt.Sscanf(dim, "%dx%d", &rows, &cols); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Dx, c.Px = cols, cols
		c.Dy, c.Py = rows, rows
'''))
benign("hd-dims-helper", ("header.go", '''	if dim, ok := section["GP"]; ok {
		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation

	} else if dim, ok := section["BG"]; ok {
		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation

	} else { // dimensions of local picture products not defined in header
		v, ok := dimensionCatalog[c.Product] // lookup in catalog
		if !ok {
			return newError("parseHeader", "no dimension information available")
		}

		c.Px, c.Py = v.px, v.py // plain data dimensions
		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions
		c.Rx, c.Ry = v.rx, v.ry // data resolution
	}
''', '''	gp, hasGP := section["GP"]
	bg, hasBG := section["BG"]
	switch {
	case hasGP:
		if err := c.scanDimensions(gp, "GP", "%dx%d"); err != nil {
			return err
		}
	case hasBG:
		if err := c.scanDimensions(bg, "BG", "%3d%3d"); err != nil {
			return err
		}
	default: // dimensions of local picture products not defined in header
		v, ok := dimensionCatalog[c.Product] // lookup in catalog
		if !ok {
			return newError("parseHeader", "no dimension information available")
		}

		c.Px, c.Py = v.px, v.py // plain data dimensions
		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions
		c.Rx, c.Ry = v.rx, v.ry // data resolution
	}
'''), ("header.go", None, '''
func (c *Composite) scanDimensions(dim, field, format string) error {
	if _, err := fmt.Sscanf(dim, format, &c.Dy, &c.Dx); err != nil {
		return newError("parseHeader", "could not parse dimensions ("+field+"): "+err.Error())
	}
	c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
	return nil
}
'''))
benign("hd-split-rewrite", ("header.go", '''	for i, c := range header {
		if unicode.IsUpper(c) {
			if dispatch {
				m[header[beginKey:endKey]] = header[beginValue:endValue]
				beginKey = i
				dispatch = false
			}
			endKey = i + 1
		} else {
			if i == 0 {
				return // no key prefixing value
			}
			if !dispatch {
				beginValue = i
				dispatch = true
			}
			endValue = i + 1
		}
	}
''', '''	for i, c := range header {
		upper := unicode.IsUpper(c)
		if i == 0 && !upper {
			return // no key prefixing value
		}
		if upper && dispatch {
			m[header[beginKey:endKey]] = header[beginValue:endValue]
			beginKey = i
			dispatch = false
		}
		if !upper && !dispatch {
			beginValue = i
			dispatch = true
		}
		if upper {
			endKey = i + 1
		} else {
			endValue = i + 1
		}
	}
'''))
benign("hd-date-format", ("header.go", '''	date := header[2:8] + header[13:17] // cut WMO number
	c.CaptureTime, err = time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''', '''	const layout = "0215040106"
	capture, err := time.Parse(layout, header[2:8]+header[13:17]) // cut WMO number
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
	c.CaptureTime = capture
'''))
benign("hd-forecast", ("header.go", '''	c.ForecastTime = c.CaptureTime
	if vv, ok := section["VV"]; ok {
		min := 0
		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
	}
''', '''	lead := 0
	if vv, ok := section["VV"]; ok {
		if _, err := fmt.Sscanf(vv, "%d", &lead); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
	}
	c.ForecastTime = c.CaptureTime.Add(time.Duration(lead) * time.Minute)
'''))
# ---------------------------------------------------------------- radolan.go
benign("ra-named-results", ("radolan.go", '''	reader := bufio.NewReader(rd)
	comp = &Composite{}

	err = comp.parseHeader(reader)
	if err != nil {
		return
	}

	err = comp.parseData(reader)
	if err != nil {
		return
	}
	comp.arrangeData()

	comp.calibrateProjection()

	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}

	return
''', '''	comp = new(Composite)
	if err = comp.parse(bufio.NewReader(rd)); err != nil {
		return comp, err
	}

	if comp.DataUnit == Unit_unknown {
		return comp, ErrUnknownUnit
	}
	return comp, nil
'''), ("radolan.go", '''// NewComposites reads''', '''// parse parses header and data and prepares the composite.
func (c *Composite) parse(reader *bufio.Reader) error {
	if err := c.parseHeader(reader); err != nil {
		return err
	}
	if err := c.parseData(reader); err != nil {
		return err
	}
	c.calibrateProjection()
	c.arrangeData()
	return nil
}

// NewComposites reads'''))
benign("ra-archive-helper", ("radolan.go", '''		_, err := tarReader.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
''', '''		if _, err := tarReader.Next(); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
'''))
benign("ra-archive-loop-cond", ("radolan.go", '''	for {
		_, err := tarReader.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
''', '''	_, err := tarReader.Next()
	for err == nil {
		c, cerr := NewComposite(tarReader)
		if cerr != nil {
			return nil, cerr
		}
		cs = append(cs, c)
		_, err = tarReader.Next()
	}
	if err != io.EOF {
		return nil, err
	}
'''))
benign("ra-sort-func", ("radolan.go", '''	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
	return cs, nil
}
''', '''	sort.Sort(chronological(cs))
	return cs, nil
}

// chronological sorts composites by forecast time.
type chronological []*Composite

func (c chronological) Len() int           { return len(c) }
func (c chronological) Less(i, j int) bool { return c[i].ForecastTime.Before(c[j].ForecastTime) }
func (c chronological) Swap(i, j int)      { c[i], c[j] = c[j], c[i] }
'''))
benign("ra-sort-after", ("radolan.go", '''	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
''', '''	byForecast := func(i, j int) bool { return cs[j].ForecastTime.After(cs[i].ForecastTime) }
	sort.SliceStable(cs, byForecast)
'''))
benign("ra-atz-inside", ("radolan.go", '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	if !c.inside(x, y, z) {
		return NaN
	}
	layer := c.DataZ[z]
	return layer[y][x]
}

// inside tells whether the voxel exists.
func (c *Composite) inside(x, y, z int) bool {
	return 0 <= x && x < c.Dx &&
		0 <= y && y < c.Dy &&
		0 <= z && z < c.Dz
'''))
benign("ra-atz-uint", ("radolan.go", '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	switch {
	case z < 0, z >= c.Dz:
		return NaN
	case y < 0, y >= c.Dy:
		return NaN
	case x < 0, x >= c.Dx:
		return NaN
	}
	return c.DataZ[z][y][x]
'''))
benign("ra-at-direct", ("radolan.go", '''	return c.AtZ(x, y, 0)
''', '''	const layer = 0
	if x < 0 || y < 0 || x >= c.Dx || y >= c.Dy || c.Dz < 1 {
		return NaN
	}
	return c.DataZ[layer][y][x]
'''))
# ---------------------------------------------------------------- conversion.go
benign("cv-temps", ("conversion.go", '''	c1 := 10.0 * B
	c2 := math.Pow(A, -1.0/B)
	c3 := math.Pow(10.0, 1/c1)
	c4 := 10.0 * math.Log10(A)

	return ZR{c1, c2, c3, c4}
''', '''	var r ZR
	r.c1 = B * 10
	r.c2 = math.Pow(A, -1/B)
	r.c3 = math.Pow(10, 1/(10*B))
	r.c4 = math.Log10(A) * 10
	return r
'''))
benign("cv-dbz", ("conversion.go", "return rvp6/2.0 - 32.5", "return 0.5*rvp6 - 32.5"), ("conversion.go", "return (dBZ + 32.5) * 2", "return 2*dBZ + 65"))
benign("cv-const", ("conversion.go", "return rvp6/2.0 - 32.5", "return rvp6/rvpScale - rvpBias"), ("conversion.go", "return (dBZ + 32.5) * 2", "return (dBZ + rvpBias) * rvpScale"), ("conversion.go", "// Z-R relationship\n", '''const (
	rvpScale = 2
	rvpBias  = 32.5
)

// Z-R relationship
'''))
benign("cv-raw", ("conversion.go", "	return float32(value) * float32(math.Pow10(c.precision))", '''	scale := float32(math.Pow10(c.precision))
	return scale * float32(value)'''))
benign("cv-isnan", ("conversion.go", "return f != f", "return math.IsNaN(float64(f))"))
# ---------------------------------------------------------------- projection
benign("pj-minres-loop", ("projection.go", '''	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	for rdx%2 == 0 && rdy%2 == 0 {
		rdx, rdy = rdx/2, rdy/2
	}
	return rdx, rdy
'''))
benign("pj-table", ("projection.go", '''	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}
	if mx, my := minRes(920, 920); dx == mx && dy == my {
		return nationalPictureGrid
	}
	if mx, my := minRes(900, 1100); dx == mx && dy == my {
		return extendedNationalGrid
	}
	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
		return DE1200Grid
	}
	if mx, my := minRes(1400, 1500); dx == mx && dy == my {
		return middleEuropeanGrid
	}
	return unknownGrid
''', '''	for _, g := range gridSizes {
		if mx, my := minRes(g.dx, g.dy); dx == mx && dy == my {
			return g.grid
		}
	}
	return unknownGrid
'''), ("projection.go", '''// minRes repeatedly''', '''var gridSizes = []struct {
	dx, dy int
	grid   grid
}{
	{900, 900, nationalGrid},
	{920, 920, nationalPictureGrid},
	{900, 1100, extendedNationalGrid},
	{1100, 1200, DE1200Grid},
	{1400, 1500, middleEuropeanGrid},
}

// minRes repeatedly'''))
benign("pj-switch", ("projection.go", '''	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}
	if mx, my := minRes(920, 920); dx == mx && dy == my {
		return nationalPictureGrid
	}
	if mx, my := minRes(900, 1100); dx == mx && dy == my {
		return extendedNationalGrid
	}
	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
		return DE1200Grid
	}
	if mx, my := minRes(1400, 1500); dx == mx && dy == my {
		return middleEuropeanGrid
	}
	return unknownGrid
''', '''	switch [2]int{dx, dy} {
	case [2]int{225, 225}:
		return nationalGrid
	case [2]int{115, 115}:
		return nationalPictureGrid
	case [2]int{225, 275}:
		return extendedNationalGrid
	case [2]int{275, 300}:
		return DE1200Grid
	case [2]int{350, 375}:
		return middleEuropeanGrid
	}
	return unknownGrid
'''))
benign("pj-helper-matches", ("projection.go", '''	dx, dy := minRes(c.Dx, c.Dy)

	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}
	if mx, my := minRes(920, 920); dx == mx && dy == my {
		return nationalPictureGrid
	}
	if mx, my := minRes(900, 1100); dx == mx && dy == my {
		return extendedNationalGrid
	}
	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
		return DE1200Grid
	}
	if mx, my := minRes(1400, 1500); dx == mx && dy == my {
		return middleEuropeanGrid
	}
	return unknownGrid
''', '''	dx, dy := minRes(c.Dx, c.Dy)
	matches := func(w, h int) bool {
		mx, my := minRes(w, h)
		return dx == mx && dy == my
	}

	switch {
	case matches(900, 900):
		return nationalGrid
	case matches(920, 920):
		return nationalPictureGrid
	case matches(900, 1100):
		return extendedNationalGrid
	case matches(1100, 1200):
		return DE1200Grid
	case matches(1400, 1500):
		return middleEuropeanGrid
	default:
		return unknownGrid
	}
'''))
benign("pj-sphere-temps", ("projection_sphere.go", '''	rad := func(deg float64) float64 {
		return deg * (math.Pi / 180.0)
	}

	lamda0, phi0 := rad(junctionEast), rad(junctionNorth)
	lamda, phi := rad(east), rad(north)

	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
	x = (earthRadius * m * math.Cos(phi) * math.Sin(lamda-lamda0))
	y = (earthRadius * m * math.Cos(phi) * math.Cos(lamda-lamda0))

	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling
	x /= c.Rx
	y /= c.Ry

	return
''', '''	phi := rad(north)
	dlamda := rad(east) - rad(junctionEast)

	m := (1.0 + math.Sin(rad(junctionNorth))) / (1.0 + math.Sin(phi))
	r := earthRadius * m * math.Cos(phi)

	return c.toImage(r*math.Sin(dlamda), r*math.Cos(dlamda))
}

// rad converts degrees to radians.
func rad(deg float64) float64 {
	return deg * math.Pi / 180
}

// toImage applies offset correction and scaling.
func (c *Composite) toImage(px, py float64) (x, y float64) {
	return (px - c.offx) / c.Rx, (py - c.offy) / c.Ry
'''))
benign("pj-wgs-temps", ("projection_wgs84.go", '''	lat := north
	lon := east

	lat *= degToRad
	lon *= degToRad

	sinLat := math.Sin(lat)

	s := p.k_0 * math.Tan(0.5*(math.Pi/2-lat)) / math.Pow(((1-p.ecc*sinLat)/(1+p.ecc*sinLat)), 0.5*p.ecc)

	x = p.x_0 + (s * math.Sin(lon-p.lon_0))
	y = p.y_0 - (s * math.Cos(lon-p.lon_0))

	x = (x / p.scale)
	y = (y / -p.scale)
''', '''	lat, lon := north*degToRad, east*degToRad
	es := p.ecc * math.Sin(lat)
	dlon := lon - p.lon_0

	s := p.k_0 * math.Tan(math.Pi/4-lat/2) / math.Pow((1-es)/(1+es), p.ecc/2)

	x = (p.x_0 + s*math.Sin(dlon)) / p.scale
	y = (s*math.Cos(dlon) - p.y_0) / p.scale
'''))
benign("pj-project-else", ("projection.go", '''	if !c.HasProjection {
		x, y = math.NaN(), math.NaN()
		return
	}

	if c.proj_wgs84 != nil {
		return c.projectWGS84(north, east)
	}
	return c.projectSphere(north, east)
''', '''	switch {
	case !c.HasProjection:
		return math.NaN(), math.NaN()
	case c.proj_wgs84 == nil:
		return c.projectSphere(north, east)
	default:
		return c.projectWGS84(north, east)
	}
'''))
benign("pj-calibrate", ("projection.go", '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}

	// found matching projection rule
	c.HasProjection = true

	// set resolution to 1 km for calibration
	c.Rx = 1.0
	c.Ry = 1.0
	c.offx = 0.0
	c.offy = 0.0

	// calibrate offset correction
	c.offx, c.offy = c.Project(originTop, originLeft)

	// calibrate scaling
	resx, resy := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
''', '''	if c.Format >= 5 {
		if detectedGrid != DE1200Grid {
			return
		}
		c.proj_wgs84 = proj_DE1200_WGS84
	}

	// found matching projection rule
	c.HasProjection = true
	c.calibrate(originTop, originLeft, edgeBottom, edgeRight)
'''), ("projection.go", '''// Project transforms''', '''// calibrate maps the corner points onto the image.
func (c *Composite) calibrate(top, left, bottom, right float64) {
	// set resolution to 1 km and no offset for calibration
	c.Rx, c.Ry = 1, 1
	c.offx, c.offy = 0, 0

	x0, y0 := c.Project(top, left)
	x1, y1 := c.Project(bottom, right)

	c.offx, c.offy = x0, y0
	c.Rx = (x1 - x0) / float64(c.Dx)
	c.Ry = (y1 - y0) / float64(c.Dy)
}

// Project transforms'''))
# ---------------------------------------------------------------- catalog
benign("ct-keyed", ("catalog.go", '''	"OL": {200, 224, 200, 200, 2, 2},  // reflectivity (no clutter detection)
''', '''	"OL": local(2),
'''), ("catalog.go", '''// local picture products do not''', '''// local is the specification of two-dimensional local picture products.
func local(res float64) spec {
	return spec{px: 200, py: 224, dx: 200, dy: 200, rx: res, ry: res}
}

// local picture products do not'''))
benign("ct-string-switch", ("catalog.go", '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	switch u {
	case Unit_unknown:
		return "unknown unit"
	case Unit_mm:
		return "mm"
	case Unit_dBZ:
		return "dBZ"
	case Unit_km:
		return "km"
	case Unit_mps:
		return "m/s"
	}
	panic("radolan: invalid unit")
'''))
benign("ct-string-var", ("catalog.go", '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	return unitNames[u]
'''), ("catalog.go", None, '''
var unitNames = [...]string{
	Unit_unknown: "unknown unit",
	Unit_mm:      "mm",
	Unit_dBZ:     "dBZ",
	Unit_km:      "km",
	Unit_mps:     "m/s",
}
'''))
# ---------------------------------------------------------------- vis
benign("vi-image-range", ("radolan2png/vis/vis.go", '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	for y, row := range c.DataZ[layer] {
		for x, val := range row {
			img.SetRGBA(x, y, fn(float64(val)))
		}
	}
'''))
benign("vi-image-atz", ("radolan2png/vis/vis.go", '''	if layer < 0 || layer >= c.Dz {
		return img
	}

	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	if 0 <= layer && layer < c.Dz {
		for x := 0; x < c.Dx; x++ {
			for y := 0; y < c.Dy; y++ {
				val := float64(c.AtZ(x, y, layer))
				img.Set(x, y, fn(val))
			}
		}
	}
'''))
benign("vi-black", ("radolan2png/vis/vis.go", "color.RGBA{0x00, 0x00, 0x00, 0xFF} // black", "black", 1), ("radolan2png/vis/vis.go", "// A ColorFunc", "var black = color.RGBA{0x00, 0x00, 0x00, 0xFF}\n\n// A ColorFunc"))
benign("vi-level-helper", ("radolan2png/vis/vis.go", '''		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
''', '''		p := (val - min) / (max - min)
		if math.IsNaN(p) { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		l := channel(math.Min(p, 1))
		return color.RGBA{l, l, l, 0xFF}
'''), ("radolan2png/vis/vis.go", None, '''
// channel is the value of a color channel of the given relative intensity.
func channel(p float64) uint8 {
	return uint8(0xFF * p)
}
'''))
benign("vi-hsl-helper", ("radolan2png/vis/vis.go", '''		// adapted from https://en.wikipedia.org/wiki/HSL_and_HSV#From_HSL
		c := (1 - math.Abs(2*l-1)) * s // calculate chroma

		hh := h / 60
		x := c * (1 - math.Abs(math.Mod(hh, 2)-1))

		if math.IsNaN(hh) {
			hh = -1
		}

		var rr, gg, bb float64
		switch int(hh) {
		case 0:
			rr, gg, bb = c, x, 0
		case 1:
			rr, gg, bb = x, c, 0
		case 2:
			rr, gg, bb = 0, c, x
		case 3:
			rr, gg, bb = 0, x, c
		case 4:
			rr, gg, bb = x, 0, c
		case 5:
			rr, gg, bb = c, 0, x
		}

		m := l - c/2
		r, g, b := uint8(0xFF*(rr+m)), uint8(0xFF*(gg+m)), uint8(0xFF*(bb+m))

		return color.RGBA{r, g, b, 0xFF}
	}
}
''', '''		return hsl(h, s, l)
	}
}

// hsl is adapted from https://en.wikipedia.org/wiki/HSL_and_HSV#From_HSL
func hsl(h, s, l float64) color.RGBA {
	c := (1 - math.Abs(2*l-1)) * s // calculate chroma

	hh := h / 60
	x := c * (1 - math.Abs(math.Mod(hh, 2)-1))

	if math.IsNaN(hh) {
		hh = -1
	}

	var rr, gg, bb float64
	switch int(hh) {
	case 0:
		rr, gg, bb = c, x, 0
	case 1:
		rr, gg, bb = x, c, 0
	case 2:
		rr, gg, bb = 0, c, x
	case 3:
		rr, gg, bb = 0, x, c
	case 4:
		rr, gg, bb = x, 0, c
	case 5:
		rr, gg, bb = c, 0, x
	}

	m := l - c/2
	return color.RGBA{
		R: uint8(0xFF * (rr + m)),
		G: uint8(0xFF * (gg + m)),
		B: uint8(0xFF * (bb + m)),
		A: 0xFF,
	}
}
'''))
benign("vi-radial-reorder", ("radolan2png/vis/vis.go", '''		base := math.Max(math.Abs(min), math.Abs(max))
		p := compression(math.Abs(val)) / compression(base)

		if p > 1 {
			p = 1
		}
		lev := uint8(0xFF * p)

		var non byte = 0x00
		if math.Abs(val) <= 1 {
			lev = 0xFF
			non = 0xCC
		}
''', '''		abs := math.Abs(val)
		base := compression(math.Max(math.Abs(min), math.Abs(max)))

		var lev, non uint8
		if abs <= 1 {
			lev, non = 0xFF, 0xCC
		} else {
			p := compression(abs) / base
			if p > 1 {
				p = 1
			}
			lev = uint8(0xFF * p)
		}
'''))
# ---------------------------------------------------------------- converter
benign("cm-heatmap-helper", ("radolan2png/radolan2png.go", '''	var heatmap vis.ColorFunc
	switch comp.DataUnit {
	case radolan.Unit_mm:
		max := 200.0
		if comp.Interval <= time.Hour {
			max = 100.0
		}
		if comp.Interval >= time.Hour*24*7 {
			max = 400.0
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
	case radolan.Unit_dBZ:
		heatmap = vis.HeatmapReflectivity
	case radolan.Unit_km:
		heatmap = vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		heatmap = vis.HeatmapRadialVelocity
	}
''', '''	heatmap := heatmapFor(comp)
'''), ("radolan2png/radolan2png.go", None, '''
// heatmapFor selects the color scale by the unit of the data.
func heatmapFor(comp *radolan.Composite) vis.ColorFunc {
	switch comp.DataUnit {
	case radolan.Unit_mm:
		switch {
		case comp.Interval <= time.Hour:
			return vis.Heatmap(0.1, 100, vis.Log)
		case comp.Interval < 7*24*time.Hour:
			return vis.Heatmap(0.1, 200, vis.Log)
		}
		return vis.Heatmap(0.1, 400, vis.Log)
	case radolan.Unit_dBZ:
		return vis.HeatmapReflectivity
	case radolan.Unit_km:
		return vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		return vis.HeatmapRadialVelocity
	}
	return nil
}
'''))
benign("cm-draw-helpers", ("radolan2png/radolan2png.go", '''		for _, b := range border {
			// convert border points to data indices
			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(x), int(y), borderColor)
		}

		// draw mesh
		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
				}
			}
		}
''', '''		// convert coordinates to data indices and draw a point
		draw := func(north, east float64, col color.RGBA) {
			x, y := comp.Project(north, east)
			img.Set(int(x), int(y), col)
		}

		for i := range border {
			draw(border[i][0], border[i][1], borderColor)
		}

		// draw mesh
		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					draw(float64(n)/10, float64(e)/10, meshColor)
				}
			}
		}
'''))
benign("cm-save-helper", ("radolan2png/radolan2png.go", '''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
''', '''	care(save(out, img))
}

// save writes the image to a file.
func save(name string, img image.Image) error {
	outfile, err := os.Create(name)
	if err != nil {
		return err
	}
	if err := png.Encode(outfile, img); err != nil {
		outfile.Close()
		return err
	}
	return outfile.Close()
}
'''), ("radolan2png/radolan2png.go", '"image/color"', '"image"\n\t"image/color"'))
benign("cm-care-inline", ("radolan2png/radolan2png.go", '''	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	outfile, err := os.Create(out)
	if err != nil {
		log.Fatal(err)
	}

	// write image to output file
	if err = png.Encode(outfile, img); err != nil {
		log.Fatal(err)
	}
	err = outfile.Close()
	care(err)
'''))
benign("cm-log-fatalln", ("radolan2png/radolan2png.go", '''		log.Fatal(err)
''', '''		log.Println(err)
		os.Exit(1)
'''))

_split_body = """	m = make(map[string]string)
	var beginKey, endKey, beginValue, endValue int
	var dispatch bool

	for i, c := range header {
		if unicode.IsUpper(c) {
			if dispatch {
				m[header[beginKey:endKey]] = header[beginValue:endValue]
				beginKey = i
				dispatch = false
			}
			endKey = i + 1
		} else {
			if i == 0 {
				return // no key prefixing value
			}
			if !dispatch {
				beginValue = i
				dispatch = true
			}
			endValue = i + 1
		}
	}
	if !dispatch { // last key has no value
		beginValue, endValue = len(header), len(header)
	}
	m[header[beginKey:endKey]] = header[beginValue:endValue]

	return
"""
def split(id, body, extra="", imports=None):
    edits = [("header.go", _split_body, body)]
    if extra:
        edits.append(("header.go", None, extra))
    if imports:
        edits.append(("header.go", '"unicode"\n', imports))
    benign("hs-" + id, *edits)

split("nested-loops", """	m = make(map[string]string)
	if len(header) == 0 || !unicode.IsUpper(rune(header[0])) {
		return // no key prefixing value
	}
	for pos := 0; pos < len(header); {
		begin := pos
		for pos < len(header) && unicode.IsUpper(rune(header[pos])) {
			pos++
		}
		key := header[begin:pos]
		begin = pos
		for pos < len(header) && !unicode.IsUpper(rune(header[pos])) {
			pos++
		}
		m[key] = header[begin:pos]
	}
	return
""")
split("indexfunc", """	m = make(map[string]string)
	notUpper := func(r rune) bool { return !unicode.IsUpper(r) }
	for header != "" {
		k := strings.IndexFunc(header, notUpper)
		if k == 0 {
			return // no key prefixing value
		}
		if k < 0 {
			k = len(header)
		}
		key, rest := header[:k], header[k:]
		v := strings.IndexFunc(rest, unicode.IsUpper)
		if v < 0 {
			v = len(rest)
		}
		m[key] = rest[:v]
		header = rest[v:]
	}
	return
""", imports='"strings"\n\t"unicode"\n')
split("closure", """	m = make(map[string]string)
	var beginKey, endKey, beginValue, endValue int
	var dispatch bool
	store := func() { m[header[beginKey:endKey]] = header[beginValue:endValue] }

	for i, c := range header {
		if unicode.IsUpper(c) {
			if dispatch {
				store()
				beginKey = i
				dispatch = false
			}
			endKey = i + 1
			continue
		}
		if i == 0 {
			return // no key prefixing value
		}
		if !dispatch {
			beginValue = i
			dispatch = true
		}
		endValue = i + 1
	}
	if !dispatch { // last key has no value
		beginValue, endValue = len(header), len(header)
	}
	store()
	return
""")
split("struct", """	m = make(map[string]string)
	var key, value span
	inValue := false

	for i := 0; i < len(header); i++ {
		switch upper := isKeyChar(header[i]); {
		case !upper && i == 0:
			return // no key prefixing value
		case upper && inValue:
			m[key.of(header)] = value.of(header)
			key.begin, key.end = i, i+1
			inValue = false
		case upper:
			key.end = i + 1
		case !inValue:
			value.begin, value.end = i, i+1
			inValue = true
		default:
			value.end = i + 1
		}
	}
	if !inValue { // last key has no value
		value = span{len(header), len(header)}
	}
	m[key.of(header)] = value.of(header)
	return
""", """
type span struct{ begin, end int }

func (s span) of(text string) string { return text[s.begin:s.end] }

func isKeyChar(c byte) bool { return unicode.IsUpper(rune(c)) }
""")
split("take", """	m = make(map[string]string)
	rest := header
	for len(rest) > 0 && unicode.IsUpper(rune(rest[0])) {
		var key, value string
		key, rest = takeWhile(rest, unicode.IsUpper)
		value, rest = takeWhile(rest, func(r rune) bool { return !unicode.IsUpper(r) })
		m[key] = value
	}
	return
""", """
func takeWhile(s string, f func(rune) bool) (head, tail string) {
	for i, c := range s {
		if !f(c) {
			return s[:i], s[i:]
		}
	}
	return s, ""
}
""")
split("transitions", """	m = make(map[string]string)
	if header == "" || !unicode.IsUpper(rune(header[0])) {
		return // no key prefixing value
	}
	keyBegin, valueBegin := 0, -1
	for i := 1; i < len(header); i++ {
		upper := unicode.IsUpper(rune(header[i]))
		if upper && valueBegin >= 0 {
			m[header[keyBegin:valueBegin]] = header[valueBegin:i]
			keyBegin, valueBegin = i, -1
		} else if !upper && valueBegin < 0 {
			valueBegin = i
		}
	}
	if valueBegin < 0 {
		valueBegin = len(header)
	}
	m[header[keyBegin:valueBegin]] = header[valueBegin:]
	return
""")
split("builder", """	m = make(map[string]string)
	var key, value string
	for i, c := range header {
		if unicode.IsUpper(c) {
			if value != "" {
				m[key] = value
				key, value = "", ""
			}
			key += string(c)
		} else {
			if i == 0 {
				return // no key prefixing value
			}
			value += string(c)
		}
	}
	m[key] = value
	return
""")
split("trim", """	m = make(map[string]string)
	for header != "" {
		rest := strings.TrimLeftFunc(header, unicode.IsUpper)
		if len(rest) == len(header) {
			break // no key prefixing value
		}
		key := header[:len(header)-len(rest)]
		next := strings.IndexFunc(rest, unicode.IsUpper)
		if next == -1 {
			m[key] = rest
			break
		}
		m[key] = rest[:next]
		header = rest[next:]
	}
	return m
""", imports='"strings"\n\t"unicode"\n')
import benign2
import benign3
import benign4
import benign5
import benign6  # noqa: F401,E402
import benign7  # noqa: F401,E402
import benign8  # noqa: F401,E402
import benign9  # noqa: F401,E402
import benign10  # noqa: F401,E402
if __name__ == "__main__":
    main()
