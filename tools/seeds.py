from seedlib import seed
B = "bytes"
seed("two-byte-magnitude-mask","C10",[("littleendian.go","0x0F & int(tuple[1])","0x1F & int(tuple[1])")],
 "a two-byte pixel whose second byte has bit 4 set (a secondary-source flag that must be ignored)",
 "bit 4 of the second byte is taken as part of the magnitude",
 '''
func TestDemo(t *testing.T) {
	data := []byte{0x34, 0x12, 0x34, 0x02}
	c, err := NewComposite(bytes.NewReader(mk("RW", "VS 3PR E-01GP   1x   2", data, len(data))))
	if err != nil {
		t.Fatal(err)
	}
	if a, b := c.At(0, 0), c.At(1, 0); a != b {
		t.Fatal(a, b)
	}
}''',[B])
seed("one-byte-no-data-range","C11",[("singlebyte.go","value == 250 {","value >= 250 {")],
 "a one-byte pixel above 250","values 251 to 255 are reported as missing",
 '''
func TestDemo(t *testing.T) {
	data := []byte{249, 250, 251, 255}
	c, err := NewComposite(bytes.NewReader(mk("RX", "VS 3PR E+00GP   1x   4", data, len(data))))
	if err != nil {
		t.Fatal(err)
	}
	if !IsNaN(c.At(1, 0)) || IsNaN(c.At(2, 0)) || IsNaN(c.At(3, 0)) {
		t.Fatal(c.Data)
	}
}''',[B])
seed("bg-columns-first","C17",[("header.go",'"%3d%3d", &c.Dy, &c.Dx)','"%3d%3d", &c.Dx, &c.Dy)')],
 "a BG field with different row and column counts","width and height are swapped",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("RX", "VS 3BG002003", seq(6), 6)))
	if err != nil {
		t.Fatal(err)
	}
	if c.Dx != 3 || c.Dy != 2 {
		t.Fatal(c.Dx, c.Dy)
	}
}''',[B])
seed("weekly-interval","C16",[("header.go",'case "W1", "W2", "W3", "W4":','case "W1", "W2", "W3":')],
 "a W4 composite (30 days) with an INT field","the interval is a tenth of the real one",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("W4", "VS 3INT4320PR E-01GP   1x   1", seq(2), 2)))
	if err != nil {
		t.Fatal(err)
	}
	if c.Interval != 30*24*time.Hour {
		t.Fatal(c.Interval)
	}
}''',[B,"time"])
seed("level-column-start","C18",[("header.go","lv[n+2:n+7]","lv[n+3:n+7]")],
 "a level value that fills its five-character column, e.g. -31.5","the sign of the level is lost",
 '''
func TestDemo(t *testing.T) {
	row := []byte{1, 16, 0x11, 0x12, 10}
	c, err := NewComposite(bytes.NewReader(mk("PR", "LV 2-31.5 -5.5BG001002", row, len(row))))
	if err != nil {
		t.Fatal(err)
	}
	if c.At(0, 0) != -31.5 || c.At(1, 0) != -5.5 {
		t.Fatal(c.Data)
	}
}''',[B])
seed("local-picture-top","C05",[("data.go","c.PlainData[c.Py-c.Dy:]","c.PlainData[:c.Dy]")],
 "a local product with an elevation strip (224 rows, 200 of them data)",
 "the layer contains the elevation strip instead of the bottom-most rows",
 '''
func TestDemo(t *testing.T) {
	data := make([]byte, 224*200*2)
	c, err := NewComposite(bytes.NewReader(mk("PX", "VS 3LV 1  1.0", bytes.Repeat([]byte{1, 16, 0x11, 10}, 224), len(data))))
	if err != nil {
		t.Fatal(err)
	}
	if &c.Data[0][0] != &c.PlainData[24][0] {
		t.Fatal("layer 0 does not start at row 24")
	}
}''',[B])
seed("short-read","C07",[("singlebyte.go","_, err = io.ReadFull(rd, line)","_, err = rd.Read(line)"),("singlebyte.go",'\t"io"\n','')],
 "a reader that delivers a row in several pieces","the rest of a row is left zero and later rows are shifted",
 '''
func TestDemo(t *testing.T) {
	in := mk("RX", "VS 3PR E+00GP   4x   4", seq(16), 16)
	a, err := NewComposite(bytes.NewReader(in))
	if err != nil {
		t.Fatal(err)
	}
	b, err := NewComposite(iotest.OneByteReader(bytes.NewReader(in)))
	if err != nil {
		t.Fatal(err)
	}
	for y := range a.Data {
		for x := range a.Data[y] {
			if a.At(x, y) != b.At(x, y) {
				t.Fatal(x, y, a.At(x, y), b.At(x, y))
			}
		}
	}
}''',[B,"testing/iotest"])
seed("ignored-short-row","C06",[("littleendian.go","\tif err != nil {\n\t\terr = newError(","\tif err != nil && err != io.ErrUnexpectedEOF {\n\t\terr = newError("),
 ("littleendian.go","\t\terr = newError(\"readLineLittleEndian\", err.Error())\n\t}\n\treturn","\t\treturn line, newError(\"readLineLittleEndian\", err.Error())\n\t}\n\treturn line, nil")],
 "a stream that ends in the middle of a row","a truncated composite is reported as a success with made-up zero pixels",
 '''
func TestDemo(t *testing.T) {
	in := mk("RW", "VS 3PR E-01GP   4x   4", seq(32), 32)
	for n := 0; n < len(in); n++ {
		if _, err := NewComposite(bytes.NewReader(in[:n])); err == nil {
			t.Fatal("no error for a stream cut at", n)
		}
	}
}''',[B])
seed("unknown-unit-masked","C08",[("radolan.go","if comp.DataUnit == Unit_unknown {","if comp.DataUnit == Unit_unknown && comp.HasProjection {")],
 "a product without a catalogued unit on a grid that is not recognised",
 "values with unit dependent errors are returned without the unknown-unit error",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("ZZ", "VS 3PR E-01GP   4x   4", seq(32), 32)))
	if err != ErrUnknownUnit || c == nil {
		t.Fatal(err)
	}
}''',[B])
seed("encoding-by-precision","C15",[("data.go","if c.dataLength == values {","if c.dataLength >= values {")],
 "a data length between the pixel count and twice of it, or above","data of an unknown encoding is decoded as one-byte data",
 '''
func TestDemo(t *testing.T) {
	if _, err := NewComposite(bytes.NewReader(mk("RX", "VS 3PR E+00GP   4x   4", seq(24), 24))); err == nil {
		t.Fatal("accepted")
	}
}''',[B])
seed("single-byte-order","C14",[("singlebyte.go","last := len(c.PlainData) - 1","last := len(c.PlainData[0]) - 1")],
 "a one-byte composite that is not square",
 "rows are flipped around the image width: panics, or rows at the wrong height",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("RX", "VS 3PR E+00GP   2x   1", seq(2), 2)))
	if err != nil {
		t.Fatal(err)
	}
	if c.At(0, 1) != -32.5 || c.At(0, 0) != -32 {
		t.Fatal(c.Data)
	}
}''',[B])
seed("offset-continuation","C12",[("runlength.go","offset = value == 255 ","offset = value >= 240 ")],
 "an offset byte between 240 and 254","the following value byte is taken as a second offset",
 '''
func TestDemo(t *testing.T) {
	row := []byte{1, 240, 0x11, 10}
	c, err := NewComposite(bytes.NewReader(mk("PC", "LV 1  7.0BG001300", row, len(row))))
	if err != nil {
		t.Fatal(err)
	}
	if c.At(224, 0) != 7 {
		t.Fatal(c.At(224, 0))
	}
}''',[B])
seed("level-zero","C12",[("runlength.go","int(value) >= len(c.level) {","int(value) > len(c.level) {")],
 "a run-length value one above the level count (a border marking)","the parse panics on border markings",
 '''
func TestDemo(t *testing.T) {
	row := []byte{1, 16, 0x12, 10}
	c, err := NewComposite(bytes.NewReader(mk("PC", "LV 1  7.0BG001002", row, len(row))))
	if err != nil {
		t.Fatal(err)
	}
	if !IsNaN(c.At(0, 0)) {
		t.Fatal(c.At(0, 0))
	}
}''',[B])
seed("row-end-off-by-one","C13",[("runlength.go","if dstpos >= len(dst) {","if dstpos > len(dst) {")],
 "a run that ends one pixel beyond the right edge","the parse panics instead of failing",
 '''
func TestDemo(t *testing.T) {
	row := []byte{1, 16, 0x31, 10}
	_, err := NewComposite(bytes.NewReader(mk("PC", "LV 1  7.0BG001002", row, len(row))))
	if err == nil {
		t.Fatal("accepted")
	}
}''',[B])
seed("offset-lower-bound","C01",[("runlength.go","if value < 16 {","if value < 8 {")],
 "an offset byte from 8 to 15 at the start of a row followed by a run","the row is written at a negative column: panic",
 '''
func TestDemo(t *testing.T) {
	row := []byte{1, 9, 0x31, 10}
	_, err := NewComposite(bytes.NewReader(mk("PC", "LV 1  7.0BG001002", row, len(row))))
	if err == nil {
		t.Fatal("accepted")
	}
}''',[B])
seed("level-count-check","C01",[("header.go","if len(lv) != cnt*5+2 {","if len(lv) < cnt*5+2 {")],
 "a level field with a negative count such as LV-1","make is called with a negative length and panics",
 '''
func TestDemo(t *testing.T) {
	row := []byte{1, 16, 0x31, 10}
	_, err := NewComposite(bytes.NewReader(mk("PC", "LV-1  7.0BG001002", row, len(row))))
	if err == nil {
		t.Fatal("accepted")
	}
}''',[B])
seed("degenerate-grid","C03",[("projection.go","\n\tif rdx == 0 || rdy == 0 {\n\t\treturn\n\t}\n","\n")],
 "a dummy composite of size 0 x 0","the bisection loop never ends",
 '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		NewDummy("RX", 3, 0, 0)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("does not terminate")
	}
}''',["time"],mk=False)
seed("right-edge","C04",[("radolan.go","x >= c.Dx || y >= c.Dy","x > c.Dx || y >= c.Dy")],
 "reading the column just right of the image","the access panics",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("RX", "VS 3PR E+00GP   2x   2", seq(4), 4)))
	if err != nil {
		t.Fatal(err)
	}
	if !IsNaN(c.At(2, 0)) {
		t.Fatal(c.At(2, 0))
	}
}''',[B])
seed("archive-truncated","C09",[("radolan.go","if err == io.EOF {\n\t\t\tbreak","if err == io.EOF || err == io.ErrUnexpectedEOF {\n\t\t\tbreak")],
 "an archive that is cut off inside a tar header","only the composites before the cut are returned, without an error",
 '''
func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_TMP")
	var tb bytes.Buffer
	w := tar.NewWriter(&tb)
	in := mk("RX", "VS 3PR E+00GP   2x   2", seq(4), 4)
	for i := 0; i < 2; i++ {
		w.WriteHeader(&tar.Header{Name: "x", Size: int64(len(in)), Mode: 0600})
		w.Write(in)
	}
	w.Close()
	cut := tb.Bytes()[:1024+100]
	if err := ioutil.WriteFile(d+"/a.tar", cut, 0600); err != nil {
		t.Fatal(err)
	}
	if out, err := exec.Command("python3", "-c", "import bz2,sys;open(sys.argv[1]+'.bz2','wb').write(bz2.compress(open(sys.argv[1],'rb').read()))", d+"/a.tar").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	f, err := os.Open(d + "/a.tar.bz2")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if cs, err := NewComposites(f); err == nil {
		t.Fatal("truncated archive accepted:", len(cs))
	}
}''',[B,"archive/tar","os","os/exec","io/ioutil"])
seed("archive-order","C09",[("radolan.go","cs[i].ForecastTime.Before(cs[j].ForecastTime)","cs[i].ForecastTime.Minute() < cs[j].ForecastTime.Minute()")],
 "an archive with forecasts that cross a full hour","composites are ordered by the minute of the hour",
 '''
func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_TMP")
	var tb bytes.Buffer
	w := tar.NewWriter(&tb)
	for _, vv := range []string{"060", "005", "000"} {
		in := mk("RX", "VS 3VV "+vv+"PR E+00GP   2x   2", seq(4), 4)
		w.WriteHeader(&tar.Header{Name: "x", Size: int64(len(in)), Mode: 0600})
		w.Write(in)
	}
	w.Close()
	if err := ioutil.WriteFile(d+"/a.tar", tb.Bytes(), 0600); err != nil {
		t.Fatal(err)
	}
	if out, err := exec.Command("python3", "-c", "import bz2,sys;open(sys.argv[1]+'.bz2','wb').write(bz2.compress(open(sys.argv[1],'rb').read()))", d+"/a.tar").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	f, err := os.Open(d + "/a.tar.bz2")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	cs, err := NewComposites(f)
	if err != nil || len(cs) != 3 {
		t.Fatal(err, len(cs))
	}
	for i := 1; i < 3; i++ {
		if cs[i].ForecastTime.Before(cs[i-1].ForecastTime) {
			t.Fatal(i, cs[i].ForecastTime, cs[i-1].ForecastTime)
		}
	}
}''',[B,"archive/tar","os","os/exec","io/ioutil"])
seed("future-capture-time","C31",[("header.go","\t// Parse ForecastTime - Example","\tif c.CaptureTime.After(time.Now()) { // two-digit year of the last century\n\t\tc.CaptureTime = c.CaptureTime.AddDate(-100, 0, 0)\n\t}\n\n\t// Parse ForecastTime - Example")
 ],"a capture time in the future of the machine's clock","the parsed time depends on the clock",
 '''
func TestDemo(t *testing.T) {
	in := bytes.Replace(mk("RX", "VS 3PR E+00GP   2x   2", seq(4), 4), []byte("0616BY"), []byte("0667BY"), 1)
	c, err := NewComposite(bytes.NewReader(in))
	if err != nil {
		t.Fatal(err)
	}
	if !c.CaptureTime.Equal(time.Date(2067, 6, 26, 21, 15, 0, 0, time.UTC)) {
		t.Fatal(c.CaptureTime)
	}
}''',[B,"time"])
seed("grid-halving-limit","C25",[("projection.go","\tfor rdx&1 == 0 && rdy&1 == 0 {","\tfor step := 0; step < 4 && rdx&1 == 0 && rdy&1 == 0; step++ { // 1/8 km and coarser")],
 "a composite of a grid at more than eight times the coarsest resolution beyond four halvings","the grid of a very fine composite is not recognised",
 '''
func TestDemo(t *testing.T) {
	if c := NewDummy("SF", 3, 7200, 7200); !c.HasProjection {
		t.Fatal("7200 x 7200 not recognised")
	}
}''',[],mk=False)
seed("wgs-format-six","C25",[("projection.go","\tif c.Format >= 5 {\n\t\tif detectedGrid","\tif c.Format == 5 {\n\t\tif detectedGrid")],
 "a composite of a format version above 5","later formats fall back to the sphere",
 '''
func TestDemo(t *testing.T) {
	if c := NewDummy("SF", 6, 900, 900); c.HasProjection {
		t.Fatal("national grid has a projection in format 6")
	}
	a, b := NewDummy("WN", 5, 1100, 1200), NewDummy("WN", 6, 1100, 1200)
	x1, y1 := a.Project(51, 9)
	x2, y2 := b.Project(51, 9)
	if x1 != x2 || y1 != y2 {
		t.Fatal(x1, y1, x2, y2)
	}
}''',[],mk=False)
seed("square-resolution","C26",[("projection.go","\tc.Ry = (resy) / float64(c.Dy)","\tif c.Dx == c.Dy { // square pixels\n\t\tc.Ry = c.Rx\n\t} else {\n\t\tc.Ry = (resy) / float64(c.Dy)\n\t}")],
 "a grid whose projected extents differ while the image is square","the lower right corner is off by a fraction of a pixel",
 '''
func TestDemo(t *testing.T) {
	c := NewDummy("SF", 3, 900, 900)
	x, y := c.Project(47.0705, 14.6209)
	if math.Abs(x-900) > 1e-6 || math.Abs(y-900) > 1e-6 {
		t.Fatal(x, y)
	}
}''',["math"],mk=False)
seed("longitude-wrap","C27",[("projection_wgs84.go","\tlon *= degToRad\n","\tlon *= degToRad\n\tif lon < 0 { // west\n\t\tlon = -lon\n\t}\n")],
 "a longitude west of Greenwich on the WGS84 grid","western points are mirrored to the east",
 '''
func TestDemo(t *testing.T) {
	c := NewDummy("WN", 5, 1100, 1200)
	a, _ := c.Project(52, -1)
	b, _ := c.Project(52, 1)
	if a >= b {
		t.Fatal(a, b)
	}
}''',[],mk=False)
seed("late-format-check","C28",[("projection.go","\tif c.Format >= 5 {\n\t\tif detectedGrid == DE1200Grid {\n\t\t\tc.proj_wgs84 = proj_DE1200_WGS84\n\t\t} else {\n\t\t\treturn\n\t\t}\n\t}\n\n\t// found matching projection rule\n\tc.HasProjection = true\n\n\t// set resolution to 1 km for calibration\n\tc.Rx = 1.0\n\tc.Ry = 1.0\n","\t// set resolution to 1 km for calibration\n\tc.Rx = 1.0\n\tc.Ry = 1.0\n\n\tif c.Format >= 5 {\n\t\tif detectedGrid == DE1200Grid {\n\t\t\tc.proj_wgs84 = proj_DE1200_WGS84\n\t\t} else {\n\t\t\treturn\n\t\t}\n\t}\n\n\t// found matching projection rule\n\tc.HasProjection = true\n")],
 "a recognised grid in a format version without projection support","the resolution is 1 km instead of undefined",
 '''
func TestDemo(t *testing.T) {
	c := NewDummy("SF", 5, 900, 900)
	if c.HasProjection || !math.IsNaN(c.Rx) || !math.IsNaN(c.Ry) {
		t.Fatal(c.HasProjection, c.Rx, c.Ry)
	}
}''',["math"],mk=False)
seed("shared-blank-rows","C29",[("runlength.go","\t\terr = c.decodeRunlength(c.PlainData[i], line)\n","\t\tif len(line) < 2 { // nothing but the line number\n\t\t\tc.PlainData[i] = blankRow(len(c.PlainData[i]))\n\t\t\tcontinue\n\t\t}\n\t\terr = c.decodeRunlength(c.PlainData[i], line)\n"),
 ("runlength.go","// readLineRunlength reads a line until","// blank is a row without data\nvar blank []float32\n\nfunc blankRow(n int) []float32 {\n\tfor len(blank) < n {\n\t\tblank = append(blank, NaN)\n\t}\n\treturn blank[:n:n]\n}\n\n// readLineRunlength reads a line until")],
 "two run-length composites with empty rows in one process, one of them modified by its user","empty rows of different composites share their memory",
 '''
func TestDemo(t *testing.T) {
	var cs []*Composite
	for i := 0; i < 2; i++ {
		c, err := NewComposite(bytes.NewReader(mk("PG", "VS 3LV 2  1.0  2.0GP   2x   2", []byte{12, 10, 12, 10}, 4)))
		if err != nil {
			t.Fatal(err)
		}
		cs = append(cs, c)
	}
	cs[0].Data[0][0] = 7
	if v := cs[1].At(0, 0); !IsNaN(v) {
		t.Fatal(v)
	}
}''',[B])
seed("image-fills-gaps","C30",[("radolan2png/vis/vis.go","\t\t\timg.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","\t\t\tif v := c.DataZ[layer][y][x]; v != v && x > 0 { // close gaps\n\t\t\t\tif p, q := c.At(x-1, y), c.At(x+1, y); p == q {\n\t\t\t\t\tc.DataZ[layer][y][x] = p\n\t\t\t\t}\n\t\t\t}\n\t\t\timg.Set(x, y, fn(float64(c.DataZ[layer][y][x])))")],
 "a missing value between two equal neighbours","drawing a composite fills in values",
 '''
func TestDemo(t *testing.T) {
	c := &radolan.Composite{Dx: 3, Dy: 1, Dz: 1, DataZ: [][][]float32{{{1, radolan.NaN, 1}}}}
	c.Data = c.DataZ[0]
	Image(HeatmapReflectivity, c, 0)
	if !radolan.IsNaN(c.At(1, 0)) {
		t.Fatal(c.At(1, 0))
	}
}''',["gitlab.cs.fau.de/since/radolan"],sub="radolan2png/vis/",mk=False)
seed("negative-rvp6","C23",[("conversion.go","\treturn (dBZ + 32.5) * 2\n","\tif dBZ < -32.5 { // below the sensitivity of the video processor\n\t\treturn 0\n\t}\n\treturn (dBZ + 32.5) * 2\n")],
 "a reflectivity below -32.5 dBZ","the conversion is not inverted any more",
 '''
func TestDemo(t *testing.T) {
	if v := toDBZ(toRVP6(-40)); v != -40 {
		t.Fatal(v)
	}
}''',[],mk=False)
seed("zr-cap","C24",[("conversion.go","\treturn relation.c2 * math.Pow(relation.c3, float64(dBZ))\n","\treturn relation.c2 * math.Pow(relation.c3, math.Min(float64(dBZ), 75))\n")],
 "a reflectivity above 75 dBZ (hail)","the precipitation rate is capped",
 '''
func TestDemo(t *testing.T) {
	if v := Reflectivity(Aniol80, PrecipitationRate(Aniol80, 80)); v < 79.9 {
		t.Fatal(v)
	}
}''',[],mk=False)
seed("echotop-in-mm","C21",[("catalog.go",'\t"PE": Unit_km,','\t"PE": Unit_mm,')],
 "an echotop product","heights are reported as precipitation",
 '''
func TestDemo(t *testing.T) {
	if unitCatalog["PE"] != Unit_km {
		t.Fatal(unitCatalog["PE"])
	}
}''',[],mk=False)
seed("cappi-resolution","C22",[("header.go","\t\tc.Rx, c.Ry = v.rx, v.ry // data resolution","\t\tif v.py == v.px || v.py == v.px+24 {\n\t\t\tc.Rx, c.Ry = v.rx, v.ry // data resolution\n\t\t}")],
 "a volume product (PU, PZ)","the resolution of volume products is undefined",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("PZ", "VS 3LV 2  1.0  2.0", bytes.Repeat([]byte{12, 10}, 2400), 4800)))
	if c == nil || c.Rx != 2 || c.Ry != 2 {
		t.Fatal(c, err)
	}
}''',[B])
seed("border-swapped","C38",[("radolan2png/borders.go","\tp{47.275303, 10.207622},","\tp{10.207622, 47.275303},")],
 "the border overlay","one point of the border lies in Africa",
 '''
func TestDemo(t *testing.T) {
	for _, b := range border {
		if b[0] < 47.2 || b[0] > 55.1 || b[1] < 5.8 || b[1] > 15.1 {
			t.Fatal(b)
		}
	}
}''',[],sub="radolan2png/",mk=False)
seed("unit-names-swapped","C39",[("catalog.go",'"dBZ", "km", "m/s"}','"dBZ", "m/s", "km"}')],
 "a product in km or m/s","heights are named m/s",
 '''
func TestDemo(t *testing.T) {
	if Unit(Unit_km).String() != "km" {
		t.Fatal(Unit(Unit_km))
	}
}''',[],mk=False)
seed("optional-interval","C20",[("header.go",'''		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}
''','''		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil && c.DataUnit == Unit_mm {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}
''')],
 "a reflectivity product with a damaged interval field","the damaged field is accepted",
 '''
func TestDemo(t *testing.T) {
	if c, err := NewComposite(bytes.NewReader(mk("RX", "VS 3INT  ?PR E+00GP   2x   2", seq(4), 4))); err == nil {
		t.Fatal(c.Interval)
	}
}''',[B])
