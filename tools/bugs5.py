from __main__ import bug
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

bug("b5-at-direct-dummy", "C04", (R, '''	return c.AtZ(x, y, 0)
''', '''	if x < 0 || y < 0 || x >= c.Dx || y >= c.Dy {
		return NaN
	}
	return c.Data[y][x]
'''))
bug("b5-dt-layers-rev", "C05", (D, "c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers", "c.DataZ[len(c.DataZ)-1-i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers"))
bug("b5-level-cache", "C29|C18", (H, "		c.level = make([]float32, cnt)\n", '''		levelMu.Lock()
		defer levelMu.Unlock()
		if l, ok := levels[c.Product]; ok && len(l) == cnt {
			c.level = l
			return nil
		}
		c.level = make([]float32, cnt)
		levels[c.Product] = c.level
'''), (H, "// parseHeader parses", '''var (
	levelMu sync.Mutex
	levels  = map[string][]float32{}
)

// parseHeader parses'''), (H, '	"fmt"\n', '	"fmt"\n	"sync"\n'))
bug("b5-now-year", "C31|C16", (H, '''	// Parse ForecastTime - Example''', '''	if c.CaptureTime.After(time.Now()) {
		c.CaptureTime = c.CaptureTime.AddDate(-100, 0, 0)
	}

	// Parse ForecastTime - Example'''))
bug("b5-year-2000", "C16", (H, '''	date := header[2:8] + header[13:17] // cut WMO number
	c.CaptureTime, err = time.Parse("0215040106", date)
''', '''	date := header[2:8] + header[13:15] + "20" + header[15:17] // cut WMO number
	c.CaptureTime, err = time.Parse("021504012006", date)
'''))
bug("b5-gp-split", "C40|C17", (H, '''		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
''', '''		parts := strings.Split(dim, "x")
		if len(parts) != 2 {
			return newError("parseHeader", "could not parse dimensions (GP)")
		}
		if c.Dy, err = strconv.Atoi(strings.TrimSpace(parts[0])); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
		if c.Dx, err = strconv.Atoi(strings.TrimSpace(parts[1])); err != nil {
			return newError("parseHeader", "could not parse dimensions (GP): "+err.Error())
		}
'''), (H, '	"fmt"\n', '	"fmt"\n	"strconv"\n	"strings"\n'))
bug("b5-prec-width3", "C18", (H, 'fmt.Sscanf(prec, "%d", &c.precision)', 'fmt.Sscanf(prec, "%3d", &c.precision)'))
bug("b5-rl-state-carry", "C12", (L, "	offset := true\n", "	offset := !c.inRun\n"), (L, "				offset = value == 255     // see if next byte will be also offset\n", "				offset = value == 255     // see if next byte will be also offset\n"),
    (L, "			dstpos += int(value) - 16 // update offset position\n", "			dstpos += int(value) - 16 // update offset position\n			c.inRun = false\n"),
    (L, "			runlength := int(value >> 4)\n", "			runlength := int(value >> 4)\n			c.inRun = i == len(line)-1 && runlength == 15\n"),
    (R, "	dataLength int //", "	inRun bool // a run continues in the next row\n\n	dataLength int //"))
bug("b5-le-last-dy", "C14|C10", (LE, "	last := len(c.PlainData) - 1\n", "	last := c.Dy - 1 + len(c.PlainData)\n"), (LE, "c.PlainData[last-i]", "c.PlainData[(last-i)%len(c.PlainData)]"))
bug("b5-le-nodata-sign", "C10", (LE, "	if tuple[1]&(1<<5) != 0 {", "	if tuple[1]&(1<<5|1<<6) == 1<<5 {"))
bug("b5-sb-250-scaled", "C11", (SB, '''	if value == 250 { // error code: no-data
		return NaN
	}

	conv := c.rvp6Raw(int(value)) // set decimal point
''', '''	conv := c.rvp6Raw(int(value)) // set decimal point
	if conv == 250 { // error code: no-data
		return NaN
	}
'''))
bug("b5-enc-layer", "C15", (D, "	values := c.Px * c.Py\n", "	values := c.Dx * c.Py / c.Dy * c.Dy\n"))
bug("b5-vv-empty", "C20", (H, '''	if vv, ok := section["VV"]; ok {''', '''	if vv, ok := section["VV"]; ok && len(vv) > 1 {'''))
bug("b5-minres-eight", "C25", (P, "	for rdx&1 == 0 && rdy&1 == 0 {\n", "	for i := 0; i < 8 && rdx&1 == 0 && rdy&1 == 0; i++ {\n"))
bug("b5-pi-trunc", "C27", (SPH, "		return deg * (math.Pi / 180.0)\n", "		return deg * 0.01745329\n"))
bug("b5-img-writeback", "C30|C32", (V, '''			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
''', '''			row := c.DataZ[layer][y]
			if row[x] < -1e6 {
				row[x] = radolan.NaN // implausible
			}
			img.Set(x, y, fn(float64(row[x])))
'''))
bug("b5-img-plain", "C32", (V, "fn(float64(c.DataZ[layer][y][x]))", "fn(float64(c.PlainData[layer*c.Dy+y][x]))"))
bug("b5-heat-le-min", "C34|C44", (V, '''		val = compression(val)
		if val < min {
''', '''		val = compression(val)
		if val <= min {
'''))
bug("b5-cm-flush-err", "C35", (C, "	care(png.Encode(outfile, img))\n", '''	w := bufio.NewWriter(outfile)
	care(png.Encode(w, img))
	w.Flush()
'''), (C, '	"fmt"\n', '	"bufio"\n	"fmt"\n'))
bug("b5-border-last", "C37", (C, "		for _, b := range border {\n", "		for i := 1; i < len(border); i++ {\n			b := border[i-1]\n"))
bug("b5-dummy-abs", "C41", (R, "	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}\n", '''	if format < 0 {
		format = 0
	}
	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}
'''))
bug("b5-close-reader", "C42", (R, "	reader := bufio.NewReader(rd)\n", '''	if rc, ok := rd.(io.Closer); ok {
		defer rc.Close()
	}
	reader := bufio.NewReader(rd)
'''))
bug("b5-wide", "C43", (V, "HeatmapReflectivityWide = Heatmap(-32.5, 75.0, Id)", "HeatmapReflectivityWide = Heatmap(-32, 75.0, Id)"))
bug("b5-gray-gamma", "C44", (V, '''		l := uint8(0xFF * p)
''', '''		l := uint8(0xFF * math.Sqrt(p))
'''))
bug("b5-isnan-inf", "C46", (CONV, "	return f != f\n", "	return f-f != 0\n"))
bug("b5-cm-ext-panic", "C45", (C, "	// create output file\n", '''	if out[len(out)-4:] != ".png" {
		log.Print("unusual file extension")
	}

	// create output file
'''))
bug("b5-sb-last-partial", "C06", (SB, '''		line, err := c.readLineSingleByte(reader)
		if err != nil {
''', '''		line, err := c.readLineSingleByte(reader)
		if err != nil && i < last {
'''))
bug("b5-level-early-alloc", "C01|C02", (H, '''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
''', '''		c.level = make([]float32, cnt)
		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
'''), (H, '''		c.level = make([]float32, cnt)
		for i''', '''		for i'''))
bug("b5-unknown-wrap", "C08", (R, "		err = ErrUnknownUnit\n", '		err = fmt.Errorf("%s: %w", comp.Product, ErrUnknownUnit)\n'))
bug("b5-sort-copy", "C09", (R, "	sort.Slice(cs, func", '''	cs = append(make([]*Composite, 0, len(cs)), cs...)
	sort.Slice(cs[:len(cs)/2*2], func'''))
bug("b5-unit-init", "C21", (CAT, "type Unit int\n", '''func init() {
	for k, u := range unitCatalog {
		if k[0] == 'W' && u == Unit_mm && k[1] > '4' {
			unitCatalog[k] = Unit_dBZ
		}
	}
}

type Unit int
'''))
bug("b5-rows-all-before", "C06|C14", (LE, '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c''', '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			if i > 0 && i == last {
				return nil // tolerate a missing border row
			}
			return err
		}

		err = c'''))
bug("b5-hd-product-trim", "C16|C21", (H, "	c.Product = header[:2]\n", '	c.Product = strings.ToUpper(header[:2])\n'), (H, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
bug("b5-hd-int-w-all", "C16|C18|C36", (H, '''		case "W1", "W2", "W3", "W4":''', '''		case "W1", "W2", "W3", "W4", "D2", "D3", "S2", "S3":'''))
bug("b5-atz-layer-len", "C04", (R, "	return c.DataZ[z][y][x]\n", "	return c.PlainData[z*c.Dy+y][x]\n"))
bug("b5-arrange-cap", "C05", (D, "		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation\n", "		c.DataZ = [][][]float32{c.PlainData[c.Py%c.Dy/2*2:]} // strip elevation\n"))
bug("b5-project-swap-nan", "C28", (P, '''		x, y = math.NaN(), math.NaN()
		return
''', '''		return c.offx, c.offx * 0
'''))
bug("b5-hasproj-format", "C28|C25", (P, '''		} else {
			return
		}
''', '''		} else if c.Format > 5 {
			return
		}
'''))
bug("b5-de1200-v4", "C26", (P, '''		if c.Format >= 5 {
			originTop, originLeft = 55.86208711''', '''		if c.Format > 5 {
			originTop, originLeft = 55.86208711'''))
bug("b5-wgs-ecc", "C27", (WGS, "0.5*p.ecc)\n", "0.5*p.ecc*p.ecc)\n"))
bug("b5-zr-inverse", "C24", (CONV, "	return float32(relation.c4 + relation.c1*math.Log10(rate))\n", "	return float32(relation.c4 + relation.c1*math.Log10(math.Max(rate, 0.01)))\n"))
bug("b5-raw-int", "C10|C11|C18", (CONV, "	return float32(value) * float32(math.Pow10(c.precision))\n", '''	if c.precision >= 0 {
		return float32(value * int(math.Pow10(c.precision)))
	}
	return float32(value) * float32(math.Pow10(c.precision))
'''))
bug("b5-tar-regular", "C09", (R, "		_, err := tarReader.Next()\n", '''		h, err := tarReader.Next()
		for err == nil && h.Typeflag != tar.TypeReg {
			h, err = tarReader.Next()
		}
'''))
bug("b5-radial-mapneg", "C34", (V, "		if val < 0 {\n			return color.RGBA{non, lev, lev", "		if val <= -1 {\n			return color.RGBA{non, lev, lev"))
bug("b5-radial-eq", "C44|C34", (V, "		if math.Abs(val) <= 1 {\n", "		if math.Abs(val) < 1 {\n"))
bug("b5-heat-case5", "C44", (V, "			rr, gg, bb = c, 0, x\n", "			rr, gg, bb = c, 0, x*s*l\n"))
bug("b5-care-warn", "C35", (C, "		log.Fatal(err)\n", '''		if os.IsPermission(err) {
			log.Print(err)
			return
		}
		log.Fatal(err)
'''))
bug("b5-cm-unit-print", "C45", (C, '''	fmt.Printf("%s-Image (%s) showing %s\\n", comp.Product, comp.DataUnit, comp.ForecastTime)
''', '''	fmt.Printf("%s-Image (%s) showing %s, max level %v\\n", comp.Product, comp.DataUnit, comp.ForecastTime, comp.Data[comp.Dy-1][comp.Dx])
'''))
bug("b5-rl-level-alias", "C12|C29", (L, '''	for i := range c.PlainData {
		line, err''', '''	for len(c.level) > 0 && c.level[len(c.level)-1] == 0 {
		c.level = c.level[:len(c.level)-1]
	}
	for i := range c.PlainData {
		line, err'''))
bug("b5-rl-line-crlf", "C12", (L, '''		line = line[:length-1]
''', '''		line = line[:length-1]
		if length > 2 && line[length-2] == '\\r' && line[length-3] == '\\r' {
			line = line[:length-2]
		}
'''))
bug("b5-env-debug", "C31|C42", (R, "	comp.calibrateProjection()\n\n	if comp.DataUnit", '''	if os.Getenv("RADOLAN_NOPROJ") == "" {
		comp.calibrateProjection()
	}

	if comp.DataUnit'''), (R, '	"io"\n', '	"io"\n	"os"\n'))
bug("b5-runtime-gc", "C42|C31", (R, "	comp.arrangeData()\n", "	runtime.GC()\n	debug.SetGCPercent(50)\n	comp.arrangeData()\n"), (R, '	"io"\n', '	"io"\n	"runtime"\n	"runtime/debug"\n'))
