from __main__ import bug
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

bug("b2-sb-short-wide", "C06", (SB, '''	_, err = io.ReadFull(rd, line)
	if err != nil {
''', '''	n, err := io.ReadFull(rd, line)
	if err != nil && n < len(line)-1 {
'''))
bug("b2-tar-unexpected", "C06|C09", (R, '''		if err == io.EOF {
			break
		}
''', '''		if err == io.EOF || err == io.ErrUnexpectedEOF && len(cs) > 0 {
			break
		}
'''))
bug("b2-tar-unknown-unit", "C09|C06", (R, '''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
''', '''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		if len(cs) > 0 && cs[len(cs)-1].ForecastTime.Equal(c.ForecastTime) {
			cs[len(cs)-1] = c // repeated entry
			continue
		}
		cs = append(cs, c)
'''))
bug("b2-tar-nil-on-error", "C09", (R, '''		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
''', '''		if err != nil {
			return cs, err
		}

		c, err := NewComposite(tarReader)
'''))
bug("b2-tar-dirs", "C09", (R, '''		_, err := tarReader.Next()
''', '''		hdr, err := tarReader.Next()
'''), (R, '''		c, err := NewComposite(tarReader)
''', '''		if hdr.Typeflag != tar.TypeReg {
			continue
		}

		c, err := NewComposite(tarReader)
'''))
bug("b2-limit", "C07|C06|C40", (R, '''	reader := bufio.NewReader(rd)
''', '''	reader := bufio.NewReader(io.LimitReader(rd, 1<<22))
'''))
bug("b2-header-limit", "C40|C07", (H, '''	header, err := reader.ReadString('\\x03')
	if err != nil || len(header) < 22 {''', '''	header, err := reader.ReadString('\\x03')
	if err != nil || len(header) < 22 || len(header) > 4096 {'''))
bug("b2-runes", "C18", (H, '''	c.dataLength -= len(header)''', '''	c.dataLength -= len([]rune(header))'''))
bug("b2-gp-partial", "C20", (H, '''		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil {
''', '''		if _, err := fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx); err != nil && c.Dx == 0 {
'''))
bug("b2-by-prefix", "C18|C20", (H, '''fmt.Sscanf(section["BY"], "%d", &c.dataLength)''', '''fmt.Sscanf(section["BY"], "%7d", &c.dataLength)'''))
bug("b2-by-hex", "C18|C20", (H, '''fmt.Sscanf(section["BY"], "%d", &c.dataLength)''', '''fmt.Sscanf(section["BY"], "%v", &c.dataLength)'''))
bug("b2-level-pos", "C18", (H, '''fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i])''', '''fmt.Sscanf(lv[n+2:], "%f", &c.level[i])'''))
bug("b2-level-sorted", "C18", (H, '''	// Parse Format Version''', '''	for i := 1; i < len(c.level); i++ {
		if c.level[i] < c.level[i-1] {
			c.level[i], c.level[i-1] = c.level[i-1], c.level[i]
		}
	}

	// Parse Format Version'''), (H, '''	if vs, ok := section["VS"]; ok {''', '''	if vs, ok := section["VS"]; ok && vs != "" {'''))
bug("b2-level-swap", "C18", (H, '''	if vs, ok := section["VS"]; ok {
''', '''	for i := 1; i < len(c.level); i++ {
		if c.level[i] < c.level[i-1] {
			c.level[i], c.level[i-1] = c.level[i-1], c.level[i]
		}
	}
	if vs, ok := section["VS"]; ok {
'''))
bug("b2-vs-empty", "C20", (H, '''	if vs, ok := section["VS"]; ok {
''', '''	if vs := section["VS"]; vs != "" {
'''))
bug("b2-e-empty", "C20", (H, '''	if prec, ok := section["E"]; ok { // not that nice
''', '''	if prec := section["E"]; len(prec) > 0 { // not that nice
'''))
bug("b2-prec-clamp", "C18", (CONV, '''func (c *Composite) rvp6Raw(value int) float32 {
''', '''func (c *Composite) rvp6Raw(value int) float32 {
	if c.precision > 3 {
		c.precision = 3
	}
'''))
bug("b2-prec-pow", "C10|C11", (CONV, '''	return float32(value) * float32(math.Pow10(c.precision))
''', '''	if c.precision < -8 {
		return 0
	}
	return float32(value) * float32(math.Pow10(c.precision))
'''))
bug("b2-prec-int", "C10|C11", (CONV, '''	return float32(value) * float32(math.Pow10(c.precision))
''', '''	if c.precision > 0 {
		for i := 0; i < c.precision && i < 6; i++ {
			value *= 10
		}
		return float32(value)
	}
	return float32(value) * float32(math.Pow10(c.precision))
'''))
bug("b2-local-time", "C31|C16", (H, '''time.Parse("0215040106", date)''', '''time.ParseInLocation("0215040106", date, time.Local)'''))
bug("b2-map-order", "C31|C21", (H, '''	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	for code, unit := range unitCatalog {
		if code[0] == c.Product[0] && (code[1] == c.Product[1] || code[1] == 'X') {
			c.DataUnit = unit
		}
	}
'''))
bug("b2-env", "C31", (CONV, '''	return rvp6/2.0 - 32.5
''', '''	if strings.HasPrefix(os.Getenv("RADOLAN_BIAS"), "-") {
		return rvp6 / 2.0
	}
	return rvp6/2.0 - 32.5
'''), (CONV, '''	"math"
''', '''	"math"
	"os"
	"strings"
'''))
bug("b2-pool", "C29", (LE, '''	line = make([]byte, c.Dx*2)
''', '''	if c.Dx*2 <= len(rowBuf) {
		line = rowBuf[:c.Dx*2]
	} else {
		line = make([]byte, c.Dx*2)
	}
'''), (LE, '''func (c *Composite) parseLittleEndian(''', '''var rowBuf [4096]byte

func (c *Composite) parseLittleEndian('''))
bug("b2-bufio-pool", "C29", (R, '''	reader := bufio.NewReader(rd)
''', '''	reader := readers.Get().(*bufio.Reader)
	reader.Reset(rd)
	defer readers.Put(reader)
'''), (R, '''func NewComposite(''', '''var readers = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}

func NewComposite('''), (R, '''	"sort"
''', '''	"sort"
	"sync"
'''))
bug("b2-parse-switch", "C29", (D, '''	return parse[c.identifyEncoding()](c, reader)
''', '''	enc := c.identifyEncoding()
	if enc == unknown {
		parse[unknown] = (*Composite).parseUnknown
	}
	return parse[enc](c, reader)
'''))
bug("b2-shared-unit-err", "C29", (R, '''		err = ErrUnknownUnit
''', '''		ErrUnknownUnit = newError("NewComposite", "data unit not defined in catalog: "+comp.Product)
		err = ErrUnknownUnit
'''))
bug("b2-goroutine", "C29|C42", (R, '''	comp.arrangeData()

''', '''	done := make(chan bool)
	go func() { comp.arrangeData(); done <- true }()
	<-done

'''))
bug("b2-project-cache", "C30|C29", (P, '''	if c.proj_wgs84 != nil {
		return c.projectWGS84(north, east)
	}
''', '''	if c.proj_wgs84 != nil {
		if c.Format < 5 {
			c.proj_wgs84 = nil
		} else {
			return c.projectWGS84(north, east)
		}
	}
''')) 
bug("b2-image-sort", "C30", (V, '''	if layer < 0 || layer >= c.Dz {
		return img
	}
''', '''	if layer < 0 || layer >= c.Dz {
		return img
	}
	if layer == 0 {
		c.Data = c.DataZ[layer][:c.Dy]
	}
'''))
bug("b2-exit-zero", "C35", (C, '''		log.Fatal(err)
''', '''		log.Print(err)
		os.Exit(len(os.Args) - 3)
'''))
bug("b2-care-eof", "C35", (C, '''	if err != nil {
		log.Fatal(err)
	}
''', '''	if err != nil && err.Error() != "EOF" {
		log.Fatal(err)
	}
'''))
bug("b2-close-defer", "C35", (C, '''	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	defer outfile.Close()
	care(png.Encode(outfile, img))
'''))
bug("b2-recover", "C35", (C, '''	infile, err := os.Open(in)
''', '''	defer func() {
		if r := recover(); r != nil {
			log.Print(r)
		}
	}()
	infile, err := os.Open(in)
'''))
bug("b2-mesh-round", "C37", (C, '''				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e)/10)
''', '''				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e/10*10)/10)
'''))
bug("b2-border-shift", "C37", (C, '''			img.Set(int(x), int(y), borderColor)
''', '''			img.Set(int(x)+1-comp.Dz, int(y), borderColor)
			if comp.Dx > 1000 {
				img.Set(int(x)+1, int(y), borderColor)
			}
'''))
bug("b2-border-under", "C37", (C, '''	// convert composite to image using the color function
	img := vis.Image(heatmap, comp, 0) // TODO: select layer
''', '''	// convert composite to image using the color function
	img := vis.Image(heatmap, comp, 0) // TODO: select layer
	if !comp.HasProjection && comp.Dx == comp.Dy {
		for _, b := range border {
			x, y := comp.Project(b[0], b[1])
			img.Set(int(x), int(y), borderColor)
		}
	}
'''))
bug("b2-seek", "C42", (R, '''	reader := bufio.NewReader(rd)
''', '''	if s, ok := rd.(io.Seeker); ok {
		s.Seek(0, io.SeekStart)
	}
	reader := bufio.NewReader(rd)
'''))
bug("b2-unread", "C42|C07", (R, '''	comp.arrangeData()

''', '''	comp.arrangeData()
	if c, ok := rd.(io.ByteScanner); ok && reader.Buffered() > 0 {
		c.UnreadByte()
	}

'''))
bug("b2-print", "C42", (P, '''	if err != nil {
		return
	}

	if c.Format''', '''	if err != nil {
		print(err.Error(), "\\n")
		return
	}

	if c.Format'''))
bug("b2-out-ext", "C45", (C, '''	outfile, err := os.Create(out)
''', '''	if fi, err := os.Stat(out); err == nil && fi.IsDir() {
		out += "/radolan.png"
	}
	outfile, err := os.Create(out)
'''))
bug("b2-img-index", "C45", (C, '''			img.Set(int(x), int(y), borderColor)
''', '''			if x >= 0 && y >= 0 && x <= float64(comp.Dx) && y <= float64(comp.Dy) {
				img.Pix[img.PixOffset(int(x), int(y))+3] = 0xFF
			}
			img.Set(int(x), int(y), borderColor)
'''))
bug("b2-nan-sign", "C46", (CONV, '''	return f != f
''', '''	return math.Float32bits(f) == math.Float32bits(NaN)
'''))
bug("b2-nan-var", "C46|C11", (CONV, '''var NaN = float32(math.NaN())''', '''var NaN = float32(math.Inf(1))''')) 
bug("b2-dummy-proj", "C41|C25", (R, '''	comp.calibrateProjection()
	return
}

func (c *Composite) At(''', '''	if dx <= 0 || dy <= 0 {
		return
	}
	comp.calibrateProjection()
	return
}

func (c *Composite) At('''))
bug("b2-dummy-label", "C41", (R, '''	comp = &Composite{Product: product, Format''', '''	if len(product) > 2 {
		product = product[:2]
	}
	comp = &Composite{Product: product, Format'''))
bug("b2-unit-recursion", "C39|C03", (CAT, '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	if u < 0 || u > Unit_mps {
		return Unit(0).String()
	}
	if u == Unit_mps {
		return "m/s"
	}
	return []string{"unknown unit", "mm", "dBZ", "mm"}[u]
'''))
bug("b2-accept-header", "C40", (H, '''len(header) < 22 {''', '''len(header) < 23 {'''))
bug("b2-accept-interval", "C40", (H, '''		c.Interval = time.Duration(min) * time.Minute
''', '''		if min < 0 || min > 1008 {
			return newError("parseHeader", "invalid interval")
		}
		c.Interval = time.Duration(min) * time.Minute
'''))
bug("b2-accept-offset", "C40", (L, '''			dstpos += int(value) - 16 // update offset position
''', '''			dstpos += int(value) - 16 // update offset position
			if dstpos >= len(dst) {
				return newError("decodeRunlength", "offset exceeds row")
			}
'''))
bug("b2-fc-day", "C16", (H, '''		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
''', '''		c.ForecastTime = c.CaptureTime.Add(time.Duration(min%1440) * time.Minute)
'''))
bug("b2-fc-interval", "C16", (H, '''	if intr, ok := section["INT"]; ok {
''', '''	if intr, ok := section["INT"]; ok && section["VV"] == "" {
'''))
bug("b2-local-ry", "C22", (CAT, '''	"PM": {200, 224, 200, 200, 2, 2},''', '''	"PM": {200, 224, 200, 200, 1, 2},'''))
bug("b2-unit-w3", "C21", (CAT, '''	"FX": Unit_dBZ,''', '''	"FX": Unit_mm,'''))
bug("b2-arr-big", "C05", (D, '''		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
''', '''		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy : c.Py : c.Py]} // strip elevation
		if c.Py-c.Dy == 24 {
			c.DataZ[0] = c.PlainData[:c.Dy]
		}
'''))
bug("b2-dz", "C05|C04", (D, '''	c.Dz = len(c.DataZ)
''', '''	c.Dz = c.Py / c.Dy
	if c.Dz > 10 {
		c.Dz = 10
	}
'''))
bug("b2-heat-ulp", "C33|C34", (V, '''		h := math.Mod(360-(330*p)+240, 360)
''', '''		h := math.Mod(360-(330*p)+240, 360)
		if p == 1 {
			h = 271
		}
'''))
bug("b2-heat-nan", "C33|C34", (V, '''		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 { // limit
''', '''		if val <= min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 { // limit
'''))
bug("b2-gray-inf", "C34|C33", (V, '''		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l''', '''		p := (val - min) / (max - min)
		if p != p || math.IsInf(p, 0) { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l'''))
bug("b2-radial-base", "C34|C44", (V, '''		base := math.Max(math.Abs(min), math.Abs(max))
''', '''		base := math.Abs(max)
		if val < 0 {
			base = math.Abs(min)
		}
'''))
bug("b2-cmd-km", "C36", (C, '''vis.Graymap(0, 15, vis.Id)''', '''vis.Graymap(0, 15, vis.Log)'''))
bug("b2-cmd-week", "C36", (C, '''		if comp.Interval >= time.Hour*24*7 {
''', '''		if comp.Interval > time.Hour*24*7 {
'''))
bug("b2-cmd-layer", "C36|C32|C37", (C, '''	img := vis.Image(heatmap, comp, 0)''', '''	img := vis.Image(heatmap, comp, comp.Dz-1)'''))
bug("b2-wgs-scale", "C27|C26", (WGS, '''	lat *= degToRad
''', '''	if lat < 0 {
		lat = -lat
	}
	lat *= degToRad
'''))
bug("b2-grid-negative", "C25|C03", (P, '''	if rdx == 0 || rdy == 0 {
		return
	}
''', '''	if rdx == 0 && rdy == 0 {
		return
	}
	if rdx < 0 {
		rdx = -rdx
	}
'''))
bug("b2-res-nan", "C28", (P, '''		c.Rx = math.NaN()
		c.Ry = math.NaN()
	}
''', '''		c.Rx = math.NaN()
	}
	if c.Ry == 0 {
		c.Ry = math.NaN()
	}
'''))
