from __main__ import bug
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

# -- archive
bug("b4-archive-skip-dirs", "C09", (R, '''		_, err := tarReader.Next()
''', '''		hdr, err := tarReader.Next()
'''), (R, '''			return nil, err
		}

		c, err := NewComposite(tarReader)
''', '''			return nil, err
		}
		if hdr.Size < 200 {
			continue // not a composite
		}

		c, err := NewComposite(tarReader)
'''))
bug("b4-archive-unexpected-eof", "C06|C09", (R, '''		if err == io.EOF {
			break
		}
''', '''		if err == io.EOF || err == io.ErrUnexpectedEOF {
			break
		}
'''))
bug("b4-archive-shared-buffer", "C09|C07", (R, '''	tarReader := tar.NewReader(bzipReader)

''', '''	tarReader := tar.NewReader(bufio.NewReaderSize(bzipReader, 1<<16))
	entry := bufio.NewReader(tarReader)

'''), (R, '''		c, err := NewComposite(tarReader)
''', '''		c, err := NewComposite(entry)
'''))
bug("b4-archive-unknown-unit", "C09|C08", (R, '''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
''', '''		c, err := NewComposite(tarReader)
		if err != nil && err != ErrUnknownUnit {
			return nil, err
		}
'''))
bug("b4-archive-sort-minutes", "C09", (R, '''return cs[i].ForecastTime.Before(cs[j].ForecastTime) })''', '''return cs[i].ForecastTime.Unix()/3600 < cs[j].ForecastTime.Unix()/3600 })'''))
bug("b4-archive-sort-minute-of-day", "C09", (R, '''return cs[i].ForecastTime.Before(cs[j].ForecastTime) })''', '''
		a, b := cs[i].ForecastTime, cs[j].ForecastTime
		if a.YearDay() != b.YearDay() {
			return a.YearDay() < b.YearDay()
		}
		return a.Before(b)
	})'''))
bug("b4-archive-dup", "C09", (R, '''		cs = append(cs, c)
''', '''		if n := len(cs); n > 0 && cs[n-1].ForecastTime.Equal(c.ForecastTime) {
			cs[n-1] = c // corrected
			continue
		}
		cs = append(cs, c)
'''))
# -- header
bug("b4-hd-peek", "C07", (H, '''	header, err := reader.ReadString('\\x03')
''', '''	if reader.Buffered() == 0 {
		reader.Peek(1)
	}
	if b, _ := reader.Peek(reader.Buffered()); len(b) > 0 && b[0] == '\\n' {
		reader.Discard(1)
	}
	header, err := reader.ReadString('\\x03')
'''))
bug("b4-hd-vv-neg", "C16", (H, '''		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
''', '''		if min > 0 {
			c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
		}
'''))
bug("b4-hd-interval-hours", "C16", (H, '''		c.Interval = time.Duration(min) * time.Minute
''', '''		if len(intr) > 4 {
			min *= 10
		}
		c.Interval = time.Duration(min) * time.Minute
'''))
bug("b4-hd-interval-shared", "C16", (H, '''		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
''', '''		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
			c.ForecastTime = c.CaptureTime
'''))
bug("b4-hd-year", "C16", (H, '''	c.CaptureTime, err = time.Parse("0215040106", date)
''', '''	c.CaptureTime, err = time.Parse("0215040106", date)
	if c.CaptureTime.Year() > 2050 {
		c.CaptureTime = c.CaptureTime.AddDate(-100, 0, 0)
	}
'''))
bug("b4-hd-capture-local", "C16|C31", (H, '''	c.CaptureTime, err = time.Parse("0215040106", date)
''', '''	c.CaptureTime, err = time.ParseInLocation("0215040106", date, time.Local)
	c.CaptureTime = c.CaptureTime.UTC()
'''))
bug("b4-hd-gp-px", "C17|C05", (H, '''			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
''', '''			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy // composite formats do not show elevation
		if v, ok := dimensionCatalog[c.Product]; ok && v.px == c.Px {
			c.Dx, c.Dy = v.dx, v.dy
		}
'''))
bug("b4-hd-bg-four", "C17", (H, '''	} else if dim, ok := section["BG"]; ok {
		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
''', '''	} else if dim, ok := section["BG"]; ok {
		format := "%3d%3d"
		if len(dim) > 6 {
			format = "%4d%4d"
		}
		if _, err := fmt.Sscanf(dim, format, &c.Dy, &c.Dx); err != nil {
'''))
bug("b4-hd-level-dup", "C18", (H, '''				return newError("parseHeader", "invalid level value: "+err.Error())
			}
''', '''				return newError("parseHeader", "invalid level value: "+err.Error())
			}
			if i > 0 && c.level[i] < c.level[i-1] {
				c.level[i] = c.level[i-1] // ascending
			}
'''))
bug("b4-hd-level-trim", "C18|C20", (H, '''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
''', '''		if len(lv) > cnt*5+2 && lv[len(lv)-1] == ' ' {
			lv = lv[:len(lv)-1]
		}
		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
'''))
bug("b4-hd-prec-clamp", "C18", (H, '''			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
''', '''			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
		if c.precision < -3 {
			c.precision = -3
		}
'''))
bug("b4-hd-version-first", "C18|C25", (H, '''	if vs, ok := section["VS"]; ok {
		if _, err = fmt.Sscanf(vs, "%d", &c.Format); err != nil {
''', '''	if vs, ok := section["VS"]; ok {
		if _, err = fmt.Sscanf(vs, "%1d", &c.Format); err != nil {
'''))
bug("b4-hd-bytes-hex", "C18|C20", (H, '''fmt.Sscanf(section["BY"], "%d", &c.dataLength)''', '''fmt.Sscanf(section["BY"], "%v", &c.dataLength)'''))
bug("b4-hs-digit-key", "C19", (H, '''		if unicode.IsUpper(c) {
''', '''		if unicode.IsUpper(c) || c == '_' {
'''))
bug("b4-hs-space", "C19", (H, '''			endValue = i + 1
''', '''			if c != '\\x00' {
				endValue = i + 1
			}
'''))
bug("b4-hd-unit-prefix", "C21|C08", (H, '''	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	} else if c.Product[0] == 'R' {
		c.DataUnit = Unit_mm
	}
'''))
# -- data
bug("b4-dt-arrange-first", "C05", (D, '''		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
''', '''		c.DataZ = [][][]float32{c.PlainData[c.Py%c.Dy:][:c.Dy]} // strip elevation
'''))
bug("b4-dt-layers-cap", "C05", (D, '''		c.DataZ = make([][][]float32, c.Py/c.Dy)
''', '''		n := c.Py / c.Dy
		if n > 12 {
			n = 12
		}
		c.DataZ = make([][][]float32, n)
'''))
bug("b4-dt-row-share", "C05|C14", (D, '''	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
''', '''	for i := range c.PlainData {
		c.PlainData[i] = make([]float32, c.Px)
	}
	if c.Py > 4000 { // huge image
		for i := 1; i < c.Py; i += 2 {
			c.PlainData[i] = c.PlainData[i-1]
		}
	}
'''))
bug("b4-dt-length-tolerance", "C15", (D, '''	if c.dataLength == values {
''', '''	if c.dataLength == values || c.dataLength == values+1 {
'''))
bug("b4-dt-width-check", "C40|C20", (D, '''	if c.Px > maxDimension || c.Py > maxDimension {
''', '''	if c.Px > maxDimension || c.Py > maxDimension || c.Px*c.Py > 1<<24 {
'''))
bug("b4-dt-trailing", "C40|C42", (D, '''	return parse[c.identifyEncoding()](c, reader)
''', '''	if err := parse[c.identifyEncoding()](c, reader); err != nil {
		return err
	}
	if _, err := reader.ReadByte(); err == nil {
		return newError("parseData", "trailing data")
	}
	return nil
'''))
# -- pixels
bug("b4-le-short-row", "C06|C07", (LE, '''	_, err = io.ReadFull(rd, line)
	if err != nil {
''', '''	n, err := io.ReadFull(rd, line)
	if err == io.ErrUnexpectedEOF && n%2 == 0 {
		err = nil // remaining pixels are zero
	}
	if err != nil {
'''))
bug("b4-le-nodata-value", "C10", (LE, '''	if tuple[1]&(1<<5) != 0 { // error code: no-data
''', '''	if tuple[1]&(1<<5) != 0 || value == 0x9C4 { // error code: no-data
'''))
bug("b4-le-neg-zero", "C10", (LE, '''	conv := c.rvp6Raw(value) // set decimal point
''', '''	if value < -4090 {
		value = -4090
	}
	conv := c.rvp6Raw(value) // set decimal point
'''))
bug("b4-le-odd-width", "C14|C10", (LE, '''	for i := range dst {
		tuple''', '''	for i := range dst[:len(dst)&^1|len(dst)&1] {
		if i > 4095 {
			break
		}
		tuple'''))
bug("b4-sb-prec", "C11", (SB, '''	conv := c.rvp6Raw(int(value)) // set decimal point
''', '''	conv := c.rvp6Raw(int(int8(value))) // set decimal point
'''))
bug("b4-sb-249", "C11", (SB, '''	if value == 250 { // error code: no-data
''', '''	if value >= 249 && value <= 250 { // error code: no-data
'''))
bug("b4-rl-offset-255", "C12", (L, '''			dstpos += int(value) - 16 // update offset position
''', '''			dstpos += int(value) - 16 // update offset position
			if value == 255 {
				dstpos++
			}
'''))
bug("b4-rl-zero-run", "C12", (L, '''			runlength := int(value >> 4)
''', '''			runlength := int(value >> 4)
			if runlength == 0 {
				runlength = 16
			}
'''))
bug("b4-rl-level-16", "C12", (L, '''	if int(value) >= len(c.level) { // border markings
		return NaN
	}
''', '''	if int(value) >= len(c.level) { // border markings
		if value == 14 && len(c.level) > 0 {
			return c.level[len(c.level)-1]
		}
		return NaN
	}
'''))
bug("b4-rl-wrap", "C13", (L, '''				if dstpos >= len(dst) {
					return''', '''				if dstpos == len(dst) && j > 0 && value == 0 {
					break // trailing blanks
				}
				if dstpos >= len(dst) {
					return'''))
bug("b4-rl-uint8", "C13|C12", (L, '''	dstpos := 0
''', '''	dstpos := uint16(0)
'''), (L, '''dstpos += int(value) - 16''', '''dstpos += uint16(value) - 16'''), (L, '''				if dstpos >= len(dst) {''', '''				if int(dstpos) >= len(dst) {'''))
bug("b4-rl-crlf", "C12|C40", (L, '''	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
''', '''	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	if length > 1 && line[length-2] == '\\r' {
		line = line[:length-2]
	}
'''))
# -- projection
bug("b4-pj-format-eq", "C25|C27", (P, '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
''', '''	if c.Format == 5 {
		if detectedGrid == DE1200Grid {
'''))
bug("b4-pj-mx", "C25", (P, '''	if mx, my := minRes(920, 920); dx == mx && dy == my {
''', '''	if mx, my := minRes(460, 460); dx == mx && dy == my && c.Dx >= 230 {
'''))
bug("b4-pj-res-swap", "C26", (P, '''	c.Ry = (resy) / float64(c.Dy)
''', '''	c.Ry = (resy) / float64(c.Dy)
	if c.Dx == c.Dy {
		c.Ry = c.Rx
	}
'''))
bug("b4-pj-catalog-res", "C22|C28", (P, '''	if c.Rx == 0 || c.Ry == 0 { // resolution is not defined by catalog
''', '''	if c.Rx == 0 || c.Ry == 0 || c.Dx != c.Dy { // resolution is not defined by catalog
'''))
bug("b4-pj-lon-wrap", "C27", (SPH, '''	lamda, phi := rad(east), rad(north)
''', '''	if east < 0 {
		east += 360
	}
	lamda, phi := rad(east), rad(north)
	if lamda > math.Pi {
		lamda = math.Pi
	}
'''))
bug("b4-pj-wgs-south", "C27", (WGS, '''	sinLat := math.Sin(lat)
''', '''	sinLat := math.Abs(math.Sin(lat))
'''))
bug("b4-pj-float32", "C27", (SPH, '''	x /= c.Rx
	y /= c.Ry
''', '''	x = float64(float32(x / c.Rx))
	y /= c.Ry
'''))
# -- vis
bug("b4-vi-nan-cell", "C32", (V, '''			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
''', '''			if v := c.DataZ[layer][y][x]; v == v {
				img.Set(x, y, fn(float64(v)))
			}
'''))
bug("b4-vi-draw", "C32", (V, '''	if layer < 0 || layer >= c.Dz {
		return img
	}
''', '''	draw.Draw(img, img.Bounds(), image.NewUniform(color.Black), image.Point{}, draw.Src)
	if layer < 0 || layer >= c.Dz {
		return img
	}
'''), (V, '''	"image/color"
''', '''	"image/color"
	"image/draw"
'''))
bug("b4-vi-sub", "C32", (V, '''	rec := image.Rect(0, 0, c.Dx, c.Dy)
	img := image.NewRGBA(rec)
''', '''	rec := image.Rect(0, 0, c.Dx, c.Dy)
	img := image.NewRGBA(rec)
	if layer > 0 {
		rec = image.Rect(0, 0, c.Dy, c.Dx)
		img = image.NewRGBA(rec)
	}
'''))
bug("b4-vi-gray-alpha", "C33", (V, '''		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
''', '''		l := uint8(0xFF * p)
		if l == 0 {
			return color.RGBA{}
		}
		return color.RGBA{l, l, l, 0xFF}
'''))
bug("b4-vi-heat-inf", "C34|C33", (V, '''		val = compression(val)
		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
''', '''		val = compression(val)
		if val < min || math.IsInf(val, 0) {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
'''))
bug("b4-vi-radial-base", "C34|C44", (V, '''math.Max(math.Abs(min), math.Abs(max))''', '''math.Max(-min, max)'''))
# -- command
bug("b4-cm-temp", "C35|C45", (C, '''	outfile, err := os.Create(out)
	care(err)
''', '''	outfile, err := os.Create(out + ".tmp")
	care(err)
	defer os.Rename(out+".tmp", out)
'''))
bug("b4-cm-week", "C36", (C, '''		if comp.Interval >= time.Hour*24*7 {
''', '''		if comp.Interval.Hours()/24 > 7 {
'''))
bug("b4-cm-mesh-proj", "C37", (C, '''	if comp.HasProjection {
''', '''	if comp.HasProjection || comp.Dx == comp.Dy {
'''))
bug("b4-cm-encode-partial", "C35", (C, '''	care(png.Encode(outfile, img))
''', '''	if err := png.Encode(outfile, img); err != os.ErrClosed {
		care(err)
	}
'''))
bug("b4-cv-rate-neg", "C24", (CONV, '''	return relation.c2 * math.Pow(relation.c3, float64(dBZ))
''', '''	if dBZ < -30 {
		return 0
	}
	return relation.c2 * math.Pow(relation.c3, float64(dBZ))
'''))
bug("b4-cv-refl-f32", "C24|N03", (CONV, '''	return float32(relation.c4 + relation.c1*math.Log10(rate))
''', '''	return float32(relation.c4) + float32(relation.c1)*float32(math.Log10(rate+1e-9))
'''))
bug("b4-unit-string", "C39", (CAT, '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	return []string{"unknown unit", "mm", "dBZ", "km", "km"}[u&3|u&4]
'''))
bug("b4-dummy-layers", "C41|C04", (R, '''	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}
''', '''	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy, Dz: 1}
'''))
bug("b4-at-clamp", "C04", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
''', '''	if x == c.Dx {
		x--
	}
	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
'''))
bug("b4-reader-reuse", "C29|C42", (R, '''	reader := bufio.NewReader(rd)
	comp = &Composite{}
''', '''	reader, ok := rd.(*bufio.Reader)
	if !ok {
		reader = bufio.NewReader(rd)
	}
	if s, ok := rd.(io.Seeker); ok {
		s.Seek(0, io.SeekStart)
	}
	comp = &Composite{}
'''))
bug("b4-unknown-nil", "C08", (R, '''	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}
''', '''	if comp.DataUnit == Unit_unknown && comp.Dz == 1 {
		err = ErrUnknownUnit
	}
'''))
