"""Seventh suite of behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
from benign6 import RLBODY, RLRUN, SPLIT, LEROWS, SBROWS, LEVAL, IMG
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

# ---- composite structure
benign("r7-wgs-bool", (R, '''	proj_wgs84 *projection
''', '''	wgs84 bool // project on the ellipsoid
'''), (P, '''			c.proj_wgs84 = proj_DE1200_WGS84
''', '''			c.wgs84 = true
'''), (P, '''	if c.proj_wgs84 != nil {
''', '''	if c.wgs84 {
'''), (WGS, '''	p := c.proj_wgs84
''', '''	p := proj_DE1200_WGS84
'''))
benign("r7-project-funcs", (R, '''	proj_wgs84 *projection
''', '''	project func(north, east float64) (x, y float64) // position in km, nil without projection
'''), (P, '''			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''			c.project = proj_DE1200_WGS84.position
		} else {
			return
		}
	} else {
		c.project = spherePosition
	}
'''), (P, '''	if c.proj_wgs84 != nil {
		return c.projectWGS84(north, east)
	}
	return c.projectSphere(north, east)
''', '''	x, y = c.project(north, east)
	return (x - c.offx) / c.Rx, (y - c.offy) / c.Ry
'''), (SPH, '''func (c *Composite) projectSphere(north, east float64) (x, y float64) {
''', '''func spherePosition(north, east float64) (x, y float64) {
'''), (SPH, '''	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling
	x /= c.Rx
	y /= c.Ry

''', ''), (WGS, '''func (c *Composite) projectWGS84(north, east float64) (x, y float64) {
	p := c.proj_wgs84
''', '''func (p *projection) position(north, east float64) (x, y float64) {
'''), (WGS, '''	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling to image
	x /= c.Rx
	y /= c.Ry

''', ''))
benign("r7-plain-first", (R, '''	comp = &Composite{}

''', '''	comp = new(Composite)

'''), (R, '''	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}
	comp.calibrateProjection()
	return
''', '''	dummy := Composite{Product: product, Format: format}
	dummy.Dx, dummy.Dy = dx, dy
	dummy.calibrateProjection()
	return &dummy
'''))
benign("r7-set-size", (H, '''		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
''', '''		var rows, cols int
		if _, err := fmt.Sscanf(dim, "%dx%d", &rows, &cols); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.setSize(cols, rows)
'''), (H, '''		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
''', '''		var rows, cols int
		if _, err := fmt.Sscanf(dim, "%3d%3d", &rows, &cols); err != nil {
			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
		}
		c.setSize(cols, rows)
'''), (H, None, '''
// setSize sets the dimensions of plain data and its single layer.
func (c *Composite) setSize(width, height int) {
	c.Dx, c.Px = width, width
	c.Dy, c.Py = height, height
}
'''))

# ---- run length
benign("r7-rl-run-copy", (L, RLRUN, '''			if runlength > 0 && runlength > len(dst)-dstpos {
				return newError("decodeRunlength", "destination size exceeded")
			}
			for end := dstpos + runlength; dstpos < end; dstpos++ {
				dst[dstpos] = c.rvp6Runlength(value)
			}
'''))
benign("r7-rl-rest", (L, RLBODY, '''	if len(line) > 0 {
		line = line[1:] // skip useless line number
	}

	rest := dst // columns right of the position
	offset := true
	for _, value := range line {
		if offset {
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}
			n := int(value - 16)
			if n > len(rest) {
				n = len(rest)
			}
			rest = rest[n:]
			offset = value == 255
			continue
		}
		run := int(value >> 4)
		if run > len(rest) {
			return newError("decodeRunlength", "destination size exceeded")
		}
		for j := range rest[:run] {
			rest[j] = c.rvp6Runlength(value & 0x0F)
		}
		rest = rest[run:]
	}

	return nil
}
'''))
benign("r7-rl-kind", (L, RLBODY, '''	const (
		lineNumber = iota
		columnOffset
		data
	)

	dstpos := 0
	kind := lineNumber
	for _, value := range line {
		switch kind {
		case lineNumber: // skip useless line number
			kind = columnOffset
		case columnOffset: // calculate offset
			if value < 16 {
				return newError("decodeRunlength", "invalid offset value")
			}
			dstpos += int(value) - 16 // update offset position
			if value != 255 {
				kind = data
			}
		case data:
			// value [XXXX|YYYY] decodes to YYYY repeated XXXX times.
			level := c.rvp6Runlength(value & 0x0F)
			for runlength := value >> 4; runlength > 0; runlength-- {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}
				dst[dstpos] = level
				dstpos++
			}
		}
	}

	return nil
}
'''))
benign("r7-rl-error-var", (L, RLBODY, RLBODY.replace('return newError("decodeRunlength", "invalid offset value")', 'return errOffset').replace('return newError("decodeRunlength", "destination size exceeded")', 'return errSize')),
    (L, None, '''
var (
	errOffset = newError("decodeRunlength", "invalid offset value")
	errSize   = newError("decodeRunlength", "destination size exceeded")
)
'''))
benign("r7-rl-rows-while-err", (L, '''	for i := range c.PlainData {
		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
		if err != nil {
			return err
		}
	}

	return nil
''', '''	var err error
	for i := 0; i < len(c.PlainData) && err == nil; i++ {
		var line []byte
		if line, err = c.readLineRunlength(reader); err == nil {
			err = c.decodeRunlength(c.PlainData[i], line)
		}
	}
	return err
'''))
benign("r7-rl-trim", (L, '''	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	line = bytes.TrimSuffix(line, []byte("\\n"))
	return
'''), (L, '''import (
	"bufio"
)
''', '''import (
	"bufio"
	"bytes"
)
'''))

# ---- two-byte and one-byte
benign("r7-le-rows-while-err", (LE, LEROWS, '''	var err error
	for row := len(c.PlainData) - 1; row >= 0 && err == nil; row-- {
		var line []byte
		if line, err = c.readLineLittleEndian(reader); err == nil {
			err = c.decodeLittleEndian(c.PlainData[row], line)
		}
	}
	return err
'''))
benign("r7-le-uint16", (LE, LEVAL, '''	raw := binary.LittleEndian.Uint16(tuple[:])

	if raw&(1<<13) != 0 { // error code: no-data
		return NaN
	}

	value := int(raw & 0x0FFF)
	if raw&(1<<14) != 0 { // flag: negative value
		value = -value
	}

	conv := c.rvp6Raw(value) // set decimal point
	if c.DataUnit == Unit_dBZ {
		conv = toDBZ(conv)
	}
	return conv
'''), (LE, '''	"bufio"
	"io"
''', '''	"bufio"
	"encoding/binary"
	"io"
'''))
benign("r7-le-decode-pairs", (LE, '''	if len(line)%2 != 0 || len(dst)*2 != len(line) {
		return newError("decodeLittleEndian", "wrong destination or source size")
	}

	for i := range dst {
		tuple := [2]byte{line[2*i], line[2*i+1]}
		dst[i] = c.rvp6LittleEndian(tuple)
	}
''', '''	if len(line) != 2*len(dst) {
		return newError("decodeLittleEndian", "wrong destination or source size")
	}

	for i, p := 0, line; len(p) > 1; i, p = i+1, p[2:] {
		dst[i] = c.rvp6LittleEndian([2]byte{p[0], p[1]})
	}
'''))
benign("r7-sb-const-set", (SB, '''	if value == 250 { // error code: no-data
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set decimal point

	// not sure if single byte formats are even used for other things than dBZ (RX, dBZ)
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	return toDBZ(conv)
''', '''	const noData = 0xFA
	conv := c.rvp6Raw(int(value)) // set decimal point
	switch {
	case value == noData:
		return NaN
	case c.DataUnit == Unit_dBZ:
		return toDBZ(conv)
	default:
		return conv
	}
'''))
benign("r7-values-convert", (LE, '''	conv := c.rvp6Raw(value) // set decimal point

	// little endian encoded formats are also used for mm/h
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	// Even though this format supports negative values and custom
	// precision they do not make use of this and we still have to subtract
	// the bias and scale it (RADVOR FX, dBZ)
	return toDBZ(conv)
''', '''	return c.physical(value)
'''), (SB, '''	conv := c.rvp6Raw(int(value)) // set decimal point

	// not sure if single byte formats are even used for other things than dBZ (RX, dBZ)
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	return toDBZ(conv)
''', '''	return c.physical(int(value))
'''), (CONV, '''func (c *Composite) rvp6Raw(value int) float32 {
	return float32(value) * float32(math.Pow10(c.precision))
}
''', '''func (c *Composite) rvp6Raw(value int) float32 {
	return float32(value) * float32(math.Pow10(c.precision))
}

// physical converts the raw value to the unit of the composite.
func (c *Composite) physical(value int) float32 {
	if conv := c.rvp6Raw(value); c.DataUnit == Unit_dBZ {
		return toDBZ(conv)
	} else {
		return conv
	}
}
'''))
benign("r7-le-no-decode", (LE, LEROWS, '''	line := make([]byte, 2*c.Dx)
	for y := range c.PlainData {
		if _, err := io.ReadFull(reader, line); err != nil {
			return newError("parseLittleEndian", err.Error())
		}
		row := c.PlainData[len(c.PlainData)-1-y] // write vertically flipped
		for x := range row {
			row[x] = c.rvp6LittleEndian([2]byte{line[2*x], line[2*x+1]})
		}
	}
	return nil
'''))

# ---- header
benign("r7-hd-by-required", (H, '''	if _, err := fmt.Sscanf(section["BY"], "%d", &c.dataLength); err != nil {
		return newError("parseHeader", "could not parse data length: "+err.Error())
	}
''', '''	by, ok := section["BY"]
	if !ok {
		return newError("parseHeader", "could not parse data length: missing")
	}
	if n, err := fmt.Sscanf(by, "%d", &c.dataLength); n != 1 || err != nil {
		return newError("parseHeader", "could not parse data length: "+by)
	}
'''))
benign("r7-hd-sscanf-count", (H, '''		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
''', '''		n, err := fmt.Sscanf(prec, "%d", &c.precision)
		if n < 1 {
			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
'''))
benign("r7-hd-closure-fail", (H, '''	header, err := reader.ReadString('\\x03')
	if err != nil || len(header) < 22 { // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}
''', '''	failed := func(what string, err error) error {
		return newError("parseHeader", what+": "+err.Error())
	}

	header, err := reader.ReadString('\\x03')
	if err != nil || len(header) < 22 { // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}
'''), (H, '''			return newError("parseHeader", "could not parse forecast time: "+err.Error())
''', '''			return failed("could not parse forecast time", err)
'''), (H, '''			return newError("parseHeader", "could not parse interval: "+err.Error())
''', '''			return failed("could not parse interval", err)
'''), (H, '''		return newError("parseHeader", "could not parse capture time: "+err.Error())
''', '''		return failed("could not parse capture time", err)
'''))
benign("r7-hd-error-wrap", (R, '''	err = comp.parseHeader(reader)
	if err != nil {
		return
	}
''', '''	if err = comp.parseHeader(reader); err != nil {
		return comp, fmt.Errorf("header: %w", err)
	}
'''))
benign("r7-hd-parse-time", (H, '''	date := header[2:8] + header[13:17] // cut WMO number
	c.CaptureTime, err = time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''', '''	if c.CaptureTime, err = parseTime(header); err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
'''), (H, None, '''
// layout of day, hour, minute, month and year
const timeLayout = "0215040106"

// parseTime parses the capture time of a header.
func parseTime(header string) (time.Time, error) {
	dayAndTime, monthAndYear := header[2:8], header[13:17] // cut WMO number
	return time.ParseInLocation(timeLayout, dayAndTime+monthAndYear, time.UTC)
}
'''))
benign("r7-hd-interval-factor", (H, '''		c.Interval = time.Duration(min) * time.Minute
		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		unit := time.Minute
		if p := c.Product; p == "W1" || p == "W2" || p == "W3" || p == "W4" {
			unit *= 10
		}
		c.Interval = time.Duration(min) * unit
'''))
benign("r7-hd-interval-contains", (H, '''		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		if slices.Contains([]string{"W1", "W2", "W3", "W4"}, c.Product) {
			c.Interval *= 10
		}
'''), (H, '''	"fmt"
	"time"
''', '''	"fmt"
	"slices"
	"time"
'''))
benign("r7-hd-level-loop-slice", (H, '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		c.level = make([]float32, cnt)
		for i, values := 0, lv[2:]; i < cnt; i, values = i+1, values[5:] {
			if _, err = fmt.Sscanf(values[:5], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
'''))
benign("r7-hd-unit-method", (H, '''	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	c.DataUnit = unitOf(c.Product)
'''), (CAT, None, '''
// unitOf returns the unit of a product.
func unitOf(product string) Unit {
	unit, ok := unitCatalog[product]
	if !ok {
		return Unit_unknown
	}
	return unit
}
'''))

# ---- archive
benign("r7-ra-archive-goto", (R, '''	var cs []*Composite
	for {
		_, err := tarReader.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
''', '''	cs := make([]*Composite, 0, 25)
	for done := false; !done; {
		switch _, err := tarReader.Next(); err {
		case io.EOF:
			done = true
		case nil:
			c, err := NewComposite(tarReader)
			if err != nil {
				return nil, err
			}
			cs = append(cs, c)
		default:
			return nil, err
		}
	}
'''))
benign("r7-ra-sort-type", (R, '''	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
	return cs, nil
''', '''	slices.SortFunc(cs, func(a, b *Composite) int { return a.ForecastTime.Compare(b.ForecastTime) })
	return cs, nil
'''), (R, '''	"sort"
''', '''	"slices"
'''))
benign("r7-ra-reader-inline", (R, '''	bzipReader := bzip2.NewReader(rd)

	tarReader := tar.NewReader(bzipReader)
''', '''	tarReader := tar.NewReader(bzip2.NewReader(rd))
'''))
benign("r7-ra-empty-nil", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	if z < 0 || z >= len(c.DataZ) || !(image{c.Dx, c.Dy}).contains(x, y) {
		return NaN
	}
	return c.DataZ[z][y][x]
'''), (R, None, '''
// image is the size of a layer.
type image struct{ width, height int }

// contains reports whether the point lies inside.
func (m image) contains(x, y int) bool {
	return x >= 0 && x < m.width && y >= 0 && y < m.height
}
'''))

# ---- vis and converter
benign("r7-vi-common", (V, '''		val = compression(val)

		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l := uint8(0xFF * p)
''', '''		p, ok := position(compression(val), min, max)
		if !ok {
			return black
		}

		l := uint8(0xFF * p)
'''), (V, '''		val = compression(val)
		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 { // limit
			p = 1
		}
		h :=''', '''		p, ok := position(compression(val), min, max)
		if !ok {
			return black
		}
		h :='''), (V, None, '''
var black = color.RGBA{0x00, 0x00, 0x00, 0xFF}

// position is the place of val between min (0) and max (1). There is none for
// lower values and missing data.
func position(val, min, max float64) (p float64, ok bool) {
	if val < min {
		return 0, false
	}
	p = (val - min) / (max - min)
	if math.IsNaN(p) {
		return 0, false
	}
	return math.Min(p, 1), true
}
'''))
benign("r7-vi-hue-switch", (V, '''		h := math.Mod(360-(330*p)+240, 360)
''', '''		h := 600 - 330*p
		if h >= 360 {
			h -= 360
		}
'''))
benign("r7-cm-main-guard", (C, '''	if len(os.Args) < 3 {
		fmt.Printf("radolan2png converts radolan composite files to png images."+
			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
		return
	}

	convert(os.Args[1], os.Args[2])
}
''', '''	switch args := os.Args; {
	case len(args) >= 3:
		convert(args[1], args[2])
	default:
		usage(args[0])
	}
}

// usage displays the help message.
func usage(name string) {
	fmt.Print("radolan2png converts radolan composite files to png images.")
	fmt.Printf("\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", name)
}
'''))
benign("r7-cm-stages", (C, '''	infile, err := os.Open(in)
	care(err)
	defer infile.Close()

	// create new composite
	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp := load(in)
'''), (C, '''	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
''', '''	save(out, img)
}

// load reads the composite in the file.
func load(name string) *radolan.Composite {
	f, err := os.Open(name)
	care(err)
	defer f.Close()
	comp, err := radolan.NewComposite(f)
	care(err)
	return comp
}

// save writes the image to the file.
func save(name string, img image.Image) {
	f, err := os.Create(name)
	care(err)
	care(png.Encode(f, img))
	care(f.Close())
}
'''), (C, '''	"image/color"
''', '''	"image"
	"image/color"
'''))
benign("r7-cm-error-return", (C, '''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
''', '''	care(write(out, func(w io.Writer) error { return png.Encode(w, img) }))
}

// write creates the file and fills it.
func write(name string, fill func(io.Writer) error) (err error) {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	defer func() {
		if e := f.Close(); err == nil {
			err = e
		}
	}()
	return fill(f)
}
'''), (C, '''	"image/png"
''', '''	"image/png"
	"io"
'''))
benign("r7-cm-scale-table", (C, '''	case radolan.Unit_mm:
		max := 200.0
		if comp.Interval <= time.Hour {
			max = 100.0
		}
		if comp.Interval >= time.Hour*24*7 {
			max = 400.0
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
''', '''	case radolan.Unit_mm:
		max := 400.0
		for _, step := range []struct {
			below time.Duration
			max   float64
		}{{time.Hour + 1, 100}, {7 * 24 * time.Hour, 200}} {
			if comp.Interval < step.below {
				max = step.max
				break
			}
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
'''))
benign("r7-cm-project-point", (C, '''			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(x), int(y), borderColor)
''', '''			p := pixel(comp, b[0], b[1])

			// draw point
			img.Set(p.X, p.Y, borderColor)
'''), (C, '''					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
''', '''					p := pixel(comp, float64(n)/10, float64(e)/10)
					img.Set(p.X, p.Y, meshColor)
'''), (C, None, '''
// pixel is the data index of a geographical position.
func pixel(comp *radolan.Composite, north, east float64) image.Point {
	x, y := comp.Project(north, east)
	return image.Pt(int(x), int(y))
}
'''), (C, '''	"image/color"
''', '''	"image"
	"image/color"
'''))
# ---- projection
benign("r7-pj-corners-type", (P, '''	originTop, originLeft, edgeBottom, edgeRight, err := c.cornerPoints(detectedGrid)
	if err != nil {
		return
	}

	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''	originTop, originLeft, edgeBottom, edgeRight, err := c.cornerPoints(detectedGrid)
	modern := c.Format >= 5
	if err != nil || modern && detectedGrid != DE1200Grid {
		return
	}
	if modern {
		c.proj_wgs84 = proj_DE1200_WGS84
	}
'''))
benign("r7-pj-minres-gcd", (P, '''	rdx, rdy = dx, dy

	if rdx == 0 || rdy == 0 {
		return
	}
	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	if dx == 0 || dy == 0 {
		return dx, dy
	}
	even := func(n int) bool { return n%2 == 0 }
	for even(dx) && even(dy) {
		dx, dy = dx/2, dy/2
	}
	return dx, dy
'''))
benign("r7-cv-zr-type", (CONV, '''	c1 := 10.0 * B
	c2 := math.Pow(A, -1.0/B)
	c3 := math.Pow(10.0, 1/c1)
	c4 := 10.0 * math.Log10(A)

	return ZR{c1, c2, c3, c4}
''', '''	c1 := 10.0 * B
	return ZR{
		c1: c1,
		c2: math.Pow(A, -1.0/B),
		c3: math.Pow(10.0, 1/c1),
		c4: 10.0 * math.Log10(A),
	}
'''))
benign("r7-ct-string-range", (CAT, '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	names := map[Unit]string{Unit_unknown: "unknown unit", Unit_mm: "mm", Unit_dBZ: "dBZ", Unit_km: "km", Unit_mps: "m/s"}
	return names[u]
'''))
