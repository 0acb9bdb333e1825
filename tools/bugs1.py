from __main__ import bug
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

bug("rl-empty-line", "C01", (L, '''	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	return line[:len(line)-1], err
'''))
bug("dim-product", "C02|C01", (D, '''	if c.Px > maxDimension || c.Py > maxDimension {
''', '''	if c.Px*c.Py > maxDimension*maxDimension {
'''))
bug("dim-int32", "C02|C01", (D, '''	if c.Px > maxDimension || c.Py > maxDimension {
''', '''	if int32(c.Px) > maxDimension || int32(c.Py) > maxDimension {
'''))
bug("rl-skip-blank", "C03", (L, '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
''', '''	for len(line) == 0 || line[0] == '\\x0A' { // skip padding
		line, err = rd.ReadBytes('\\x0A')
	}
	if err != nil {
'''))
bug("hd-skip-records", "C03", (H, '''	header, err := reader.ReadString('\\x03')
''', '''	header, err := reader.ReadString('\\x03')
	for len(header) == 1 { // filler
		header, err = reader.ReadString('\\x03')
	}
'''))
bug("at-plain", "C04", (R, '''	return c.DataZ[z][y][x]
''', '''	return c.PlainData[z*c.Dy+y][x]
'''))
bug("at-data0", "C04", (R, '''	return c.AtZ(x, y, 0)
''', '''	if x < 0 || y < 0 || x >= c.Px || y >= c.Dy {
		return NaN
	}
	return c.Data[y][x]
'''))
bug("layers-floor", "C05", (D, '''	if c.Py%c.Dy == 0 { // multiple layers are linked downwards
''', '''	if c.Py/c.Dy > 1 || c.Py%c.Dy == 0 {
'''))
bug("layers-reuse", "C05", (D, '''			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
''', '''			c.DataZ[len(c.DataZ)-1-i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
'''))
bug("hd-eof-tolerated", "C06|C20", (H, '''	if err != nil || len(header) < 22 { // smaller length makes no sense
''', '''	if (err != nil && len(header) < 100) || len(header) < 22 { // smaller length makes no sense
'''))
bug("rl-last-line", "C06", (L, '''		line, err := c.readLineRunlength(reader)
		if err != nil {
			return err
		}
''', '''		line, err := c.readLineRunlength(reader)
		if err != nil && (i < len(c.PlainData)-1 || len(line) == 0) {
			return err
		}
'''))
bug("rl-buffered", "C07|C06", (L, '''	for i := range c.PlainData {
''', '''	for i := range c.PlainData {
		if i > 0 && reader.Buffered() == 0 {
			return newError("parseRunlength", "missing rows")
		}
'''))
bug("rl-readslice", "C07", (L, '''	line, err = rd.ReadBytes('\\x0A')
''', '''	line, err = rd.ReadSlice('\\x0A')
'''))
bug("le-peek", "C07|C06|C40", (LE, '''	line = make([]byte, c.Dx*2)
	_, err = io.ReadFull(rd, line)
	if err != nil {
''', '''	line = make([]byte, c.Dx*2)
	if len(line) <= rd.Size() {
		var p []byte
		if p, err = rd.Peek(len(line)); err == nil {
			copy(line, p)
			_, err = rd.Discard(rd.Buffered())
		}
	} else {
		_, err = io.ReadFull(rd, line)
	}
	if err != nil {
'''))
bug("unit-unknown-noproj", "C08", (R, '''	if comp.DataUnit == Unit_unknown {
''', '''	if comp.DataUnit == Unit_unknown && comp.Interval >= 0 {
'''))
bug("unit-fallback", "C08|C21", (H, '''	if unit, ok := unitCatalog[c.Product]; ok {
''', '''	unit, ok := unitCatalog[c.Product]
	if !ok {
		unit, ok = unitCatalog[c.Product[:1]+"X"]
	}
	if ok {
'''))
bug("archive-sort-stop", "C09", (R, '''	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
''', '''	if !sort.SliceIsSorted(cs, func(i, j int) bool { return cs[i].CaptureTime.Before(cs[j].CaptureTime) }) {
		sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
	}
'''))
bug("archive-unix", "C09", (R, '''cs[i].ForecastTime.Before(cs[j].ForecastTime)''', '''int32(cs[i].ForecastTime.Unix()) < int32(cs[j].ForecastTime.Unix())'''))
bug("le-sign-zero", "C10", (LE, '''	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}
''', '''	if tuple[1]&(1<<6) != 0 && value != 0xFFF { // flag: negative value
		value *= -1
	}
'''))
bug("le-nodata-value", "C10", (LE, '''	if tuple[1]&(1<<5) != 0 { // error code: no-data
''', '''	if tuple[1]&(1<<5) != 0 || value == 2500 { // error code: no-data
'''))
bug("sb-zero", "C11", (SB, '''	if value == 250 { // error code: no-data
''', '''	if value == 250 || value == 0 && c.DataUnit == Unit_dBZ { // error code: no-data
'''))
bug("sb-signed", "C11", (SB, '''c.rvp6Raw(int(value))''', '''c.rvp6Raw(int(int8(value)))'''))
bug("sb-precision-once", "C11|C29|C30", (CONV, '''func (c *Composite) rvp6Raw(value int) float32 {
	return float32(value) * float32(math.Pow10(c.precision))
}
''', '''var scales = map[int]float32{}

func (c *Composite) rvp6Raw(value int) float32 {
	s, ok := scales[c.precision%16]
	if !ok {
		s = float32(math.Pow10(c.precision))
		scales[c.precision%16] = s
	}
	return float32(value) * s
}
'''))
bug("rl-level-cap", "C12", (L, '''	if int(value) >= len(c.level) { // border markings
		return NaN
	}
''', '''	if int(value) >= len(c.level) || value > 12 { // border markings
		return NaN
	}
'''))
bug("rl-zero-run", "C12", (L, '''			runlength := int(value >> 4)
''', '''			runlength := int(value >> 4)
			if runlength == 0 {
				runlength = 16
			}
'''))
bug("rl-nofill", "C13", (L, '''	for i := range dst {
		dst[i] = NaN
	}
''', '''	if len(line) > 1 {
		for i := range dst {
			dst[i] = NaN
		}
	}
'''))
bug("rl-linenumber", "C12|C13", (L, '''		case i == 0: // skip useless line number
''', '''		case i == 0 && value < 16: // skip useless line number
'''))
bug("le-mirror", "C14", (LE, '''		dst[i] = c.rvp6LittleEndian(tuple)
''', '''		if c.Dx > c.Dy {
			dst[len(dst)-1-i] = c.rvp6LittleEndian(tuple)
		} else {
			dst[i] = c.rvp6LittleEndian(tuple)
		}
'''))
bug("sb-flip-dy", "C14|C01", (SB, '''	last := len(c.PlainData) - 1
''', '''	last := c.Dy - 1
'''))
bug("enc-level-len", "C15", (D, '''	if c.level != nil {
''', '''	if len(c.level) > 0 {
'''))
bug("enc-order", "C15", (D, '''	if c.level != nil {
		return runlength
	}
	if c.dataLength == values*2 {
		return littleEndian
	}
''', '''	if c.dataLength == values*2 {
		return littleEndian
	}
	if c.level != nil {
		return runlength
	}
'''))
bug("enc-atleast", "C15", (D, '''	if c.dataLength == values {
''', '''	if c.dataLength >= values && c.dataLength < values*2 {
'''))
bug("time-year", "C16", (H, '''	date := header[2:8] + header[13:17] // cut WMO number
	c.CaptureTime, err = time.Parse("0215040106", date)
''', '''	date := header[2:8] + header[13:17] // cut WMO number
	if date[8:] < "80" {
		date = date[:8] + "20" + date[8:]
	} else {
		date = date[:8] + "19" + date[8:]
	}
	c.CaptureTime, err = time.Parse("021504012006", date)
'''))
bug("time-vv-zero", "C16", (H, '''		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
''', '''		c.ForecastTime = c.CaptureTime.Add(time.Duration(uint8(min)) * time.Minute)
'''))
bug("int-w", "C16", (H, '''		case "W1", "W2", "W3", "W4":
''', '''		case "W1", "W2", "W3", "W4", "D2", "D3":
'''))
bug("dim-bg-gp", "C17", (H, '''	if dim, ok := section["GP"]; ok {
''', '''	if dim, ok := section["GP"]; ok && len(dim) > 2 {
'''))
bug("dim-px", "C17", (H, '''		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
		}
		c.Px, c.Py = c.Dx, c.Dy''', '''		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (BG): "+err.Error())
		}
		c.Px, c.Py = c.Dy, c.Dx'''))
bug("prec-sign", "C18", (H, '''	if prec, ok := section["E"]; ok { // not that nice
''', '''	if prec, ok := section["E"]; ok && c.DataUnit != Unit_km { // not that nice
'''))
bug("level-cached", "C18|C29", (H, '''		c.level = make([]float32, cnt)
''', '''		if cnt > cap(levels) {
			levels = make([]float32, cnt)
		}
		c.level = levels[:cnt]
'''), (H, '''func splitHeader(''', '''var levels []float32

func splitHeader('''))
bug("split-umlaut", "C19", (H, '''		if unicode.IsUpper(c) {
''', '''		if unicode.IsUpper(c) && c != 'x' && !(dispatch && c == 'E' && header[i-1] == '0') {
'''))
bug("split-dup", "C19", (H, '''				m[header[beginKey:endKey]] = header[beginValue:endValue]
				beginKey = i
''', '''				if _, dup := m[header[beginKey:endKey]]; !dup {
					m[header[beginKey:endKey]] = header[beginValue:endValue]
				}
				beginKey = i
'''))
bug("split-trim", "C19", (H, '''	m[header[beginKey:endKey]] = header[beginValue:endValue]

	return
''', '''	if beginValue < endValue || !dispatch {
		m[header[beginKey:endKey]] = header[beginValue:endValue]
	} else {
		m[header[beginKey:endKey]] = ""
	}
	if endKey-beginKey > 3 {
		delete(m, header[beginKey:endKey])
	}

	return
'''))
bug("vs-ignored", "C20", (H, '''		if _, err = fmt.Sscanf(vs, "%d", &c.Format); err != nil {
''', '''		if n, err := fmt.Sscanf(vs, "%d", &c.Format); n == 0 && err != nil && len(vs) > 1 {
'''))
bug("cat-local-rx", "C22", (P, '''	if c.Rx == 0 || c.Ry == 0 { // resolution is not defined by catalog
''', '''	if c.Rx == 0 || c.Ry == 0 || c.Px != c.Dx || c.Py != c.Dy { // resolution is not defined by catalog
'''))
bug("rvp6-round", "C23", (CONV, '''	return (dBZ + 32.5) * 2
''', '''	return float32(int((dBZ + 32.5) * 2))
'''))
bug("zr-zero", "C24", (CONV, '''	return float32(relation.c4 + relation.c1*math.Log10(rate))
''', '''	if rate < 0.001 {
		rate = 0.001
	}
	return float32(relation.c4 + relation.c1*math.Log10(rate))
'''))
bug("zr-guard", "C24", (CONV, '''	return relation.c2 * math.Pow(relation.c3, float64(dBZ))
''', '''	return relation.c2 * math.Pow(relation.c3, math.Floor(float64(dBZ)*1e5)/1e5)
'''))
bug("grid-cache", "C25|C29", (P, '''	dx, dy := minRes(c.Dx, c.Dy)

''', '''	if c.Dx == lastDx && c.Dy/10 == lastDy/10 {
		return lastGrid
	}
	g := c.lookupGrid()
	lastDx, lastDy, lastGrid = c.Dx, c.Dy, g
	return g
}

var (
	lastDx, lastDy int
	lastGrid       grid
)

func (c *Composite) lookupGrid() grid {
	dx, dy := minRes(c.Dx, c.Dy)

'''))
bug("grid-rot", "C25", (P, '''	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
''', '''	if mx, my := minRes(1100, 1200); dx == mx && dy == my || dx == my && dy == mx {
'''))
bug("cal-res-single", "C26", (P, '''	c.Ry = (resy) / float64(c.Dy)
''', '''	c.Ry = (resy) / float64(c.Dy)
	if math.Abs(c.Rx-c.Ry) < 1e-3 {
		c.Ry = c.Rx
	}
'''))
bug("cal-order", "C26", (P, '''	resx, resy := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
''', '''	resx, _ := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	_, resy := c.Project(edgeBottom, edgeRight)
	c.Ry = (resy) / float64(c.Dy)
	c.offx += 1e-4 * c.Rx
'''))
bug("proj-float32", "C27", (SPH, '''	lamda, phi := rad(east), rad(north)
''', '''	lamda, phi := float64(float32(rad(east))), rad(north)
'''))
bug("proj-clip", "C27", (SPH, '''	lamda, phi := rad(east), rad(north)
''', '''	if north > 58 {
		north = 58
	}
	lamda, phi := rad(east), rad(north)
'''))
bug("proj-nan-outside", "C27", (P, '''	return c.projectSphere(north, east)
''', '''	x, y = c.projectSphere(north, east)
	if x < -1e4 || y < -1e4 {
		x, y = math.NaN(), math.NaN()
	}
	return
'''))
bug("hasproj-late", "C28", (P, '''	// found matching projection rule
	c.HasProjection = true
''', '''	// found matching projection rule
	c.HasProjection = c.Dx >= 16
'''))
bug("shared-row", "C29|C05", (D, '''		c.PlainData[i] = make([]float32, c.Px)
''', '''		c.PlainData[i] = rowPool[i%len(rowPool)][:c.Px]
'''), (D, '''var parse = ''', '''var rowPool [maxDimension][maxDimension]float32

var parse = '''))
bug("at-lazy", "C30", (R, '''	return c.DataZ[z][y][x]
''', '''	if c.Data == nil {
		c.Data = c.DataZ[0]
	}
	return c.DataZ[z][y][x]
'''))
bug("img-swap", "C32", (V, '''			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
''', '''			img.Set(x, y, fn(float64(c.AtZ(x, c.Dy-1-y, c.Dz-1-layer))))
'''))
bug("img-skip-nan", "C32", (V, '''			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
''', '''			if v := c.DataZ[layer][y][x]; !radolan.IsNaN(v) {
				img.Set(x, y, fn(float64(v)))
			}
'''))
bug("img-dim", "C32", (V, '''	rec := image.Rect(0, 0, c.Dx, c.Dy)
''', '''	rec := image.Rect(0, 0, c.Dx, len(c.Data))
'''))
bug("gray-overflow", "C33|C34", (V, '''	l := uint8(0xFF * p)
''', '''	l := uint8(0x100 * p)
'''), )
bug("heat-alpha", "C33", (V, '''		return color.RGBA{r, g, b, 0xFF}
''', '''		a := uint8(0xFF)
		if l <= 0.25 {
			a = 0xFE
		}
		return color.RGBA{r, g, b, a}
'''))
bug("radial-dir", "C34", (V, '''		if val < 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}
''', '''		if val < 0 && lev > 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}
'''))
bug("radial-low", "C34|C44", (V, '''		if math.Abs(val) <= 1 {
			lev = 0xFF
			non = 0xCC
		}
''', '''		if math.Abs(val) <= 1 {
			lev = 0xCC
			non = 0xCC
		}
'''))
bug("cmd-remove", "C35|C45", (C, '''	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	if err := png.Encode(outfile, img); err != nil {
		os.Remove(out)
		log.Print(err)
		return
	}
	care(outfile.Close())
'''))
bug("cmd-unknown-unit", "C35|C36", (C, '''	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp, err := radolan.NewComposite(infile)
	if err != nil && comp.Dz == 0 {
		care(err)
	}
'''))
bug("cmd-scale", "C36", (C, '''		if comp.Interval <= time.Hour {
			max = 100.0
		}
''', '''		if comp.Interval <= time.Hour && comp.Interval > 0 {
			max = 100.0
		}
'''))
bug("cmd-mesh-order", "C37", (C, '''			x, y := comp.Project(b[0], b[1])
''', '''			x, y := comp.Project(b[0], b[1])
			if x < 0 || y < 0 || x > float64(comp.Dx/2) {
				continue
			}
'''))
bug("cmd-mesh-step", "C37", (C, '''				if e%10 == 0 || n%10 == 0 {
''', '''				if e%10 == 0 || n%10 == 0 && e%2 == 0 {
'''))
bug("unit-string", "C39", (CAT, '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	if u < Unit_mps {
		return []string{"unknown unit", "mm", "dBZ", "km"}[u]
	}
	return "km"
'''))
bug("accept-small", "C40", (D, '''	if c.Px <= 0 || c.Py <= 0 {
''', '''	if c.Px <= 1 || c.Py <= 1 {
'''))
bug("accept-levelcount", "C40", (H, '''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
''', '''		if len(lv) != cnt*5+2 || cnt > 15 { // fortran format I2 + F5.1
'''))
bug("dummy-dims", "C41", (R, '''	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}
''', '''	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy, Px: dx, Py: dy}
	comp.PlainData = make([][]float32, 0)
'''))
bug("nan-payload", "C46", (CONV, '''	return f != f
''', '''	return f != f || f > math.MaxFloat32/2
'''))
bug("log-base", "C43|C44", (V, '''	return math.Log(x)
''', '''	return math.Log1p(x)
'''))
bug("heat-mod", "C44", (V, '''h := math.Mod(360-(330*p)+240, 360)''', '''h := math.Mod(360-(320*p)+240, 360)'''))
bug("heat-gray-sat", "C44", (V, '''		s := 1.0          // saturation
''', '''		s := 1 - 0.05*p // saturation
'''))
bug("cmd-args", "C45", (C, '''	if len(os.Args) < 3 {
''', '''	if len(os.Args) < 3 && (len(os.Args) < 2 || os.Args[1] != "-") {
'''))
