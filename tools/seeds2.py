from seedlib import seed
B = "bytes"
# C02
seed("levels-before-check","C02",[("header.go",'''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

		c.level = make([]float32, cnt)
''','''		c.level = make([]float32, cnt)
		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

''')],
 "a level count that is negative (LV-5) or far larger than the level field","the level table is allocated before the count is checked",
 '''
func TestDemo(t *testing.T) {
	if c, err := NewComposite(bytes.NewReader(mk("PG", "VS 3LV-5GP   1x   1", nil, 0))); err == nil {
		t.Fatal(c)
	}
}''',[B])
# C19
seed("single-char-value","C19",[("header.go","				beginValue = i\n				dispatch = true","				beginValue = i\n				dispatch = c != ' ' || i+1 < len(header)")],
 "a header whose last character is a blank that follows a key","a key followed by a single blank at the end of the header gets no value",
 '''
func TestDemo(t *testing.T) {
	if m := splitHeader("VS 3MS "); m["MS"] != " " || m["VS"] != " 3" {
		t.Fatalf("%q", m)
	}
}''',[],mk=False)
seed("header-starts-with-blank","C19",[("header.go","			if i == 0 {\n				return // no key prefixing value","			if i == 0 && c != ' ' {\n				return // no key prefixing value")],
 "a header that starts with a blank","the text before the first key is stored under the empty key",
 '''
func TestDemo(t *testing.T) {
	if m := splitHeader(" 1VS 3"); len(m) != 0 {
		t.Fatalf("%q", m)
	}
}''',[],mk=False)
# C20
seed("vv-default","C20",[("header.go",'''		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
''','''		if n, err := fmt.Sscanf(vv, "%d", &min); n < 0 || (err != nil && len(vv) > 4) {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
''')],
 "a short forecast field without a number, e.g. 'VV ???'","the damaged field is taken as zero minutes",
 '''
func TestDemo(t *testing.T) {
	if c, err := NewComposite(bytes.NewReader(mk("RX", "VS 3VV ???GP   2x   2", seq(4), 4))); err == nil {
		t.Fatal(c.ForecastTime)
	}
}''',[B])
# C32
seed("layer-beyond","C32",[("radolan2png/vis/vis.go","layer < 0 || layer >= c.Dz","layer < 0 || layer > c.Dz")],
 "the layer just above the topmost one","drawing the layer above the last one panics",
 '''
func TestDemo(t *testing.T) {
	row := []float32{1, 2}
	c := &radolan.Composite{Dx: 2, Dy: 1, Dz: 1, DataZ: [][][]float32{{row}}}
	img := Image(Graymap(0, 3, Id), c, 1)
	if img.Bounds().Dx() != 2 || img.Bounds().Dy() != 1 {
		t.Fatal(img.Bounds())
	}
}''',["gitlab.cs.fau.de/since/radolan"],sub="radolan2png/vis/",mk=False)
# C33
seed("byte-scale","C33",[("radolan2png/vis/vis.go","l := uint8(0xFF * p)","l := uint8(0x100 * p)")],
 "a value at or above the upper bound of a gray map","the brightest channel value overflows the byte",
 '''
func TestDemo(t *testing.T) {
	if c := Graymap(0, 10, Id)(10); c.R < 250 || c.A != 0xFF {
		t.Fatal(c)
	}
}''',[],sub="radolan2png/vis/",mk=False)
# C34
seed("radial-saturation","C34",[("radolan2png/vis/vis.go",'''		base := math.Max(math.Abs(min), math.Abs(max))
		p := compression(math.Abs(val)) / compression(base)
''','''		base := math.Max(math.Abs(min), math.Abs(max))
		if val < 0 {
			base = math.Abs(min)
		}
		p := compression(math.Abs(val)) / compression(base)
''')],
 "an asymmetric radial map and a negative velocity between the two bounds","negative velocities saturate at their own bound, not at the larger one",
 '''
func TestDemo(t *testing.T) {
	f := Radialmap(-10, 30, Id)
	if c, d := f(-12), f(-25); c == d {
		t.Fatal(c, d)
	}
}''',[],sub="radolan2png/vis/",mk=False)
# C36
seed("interval-hour","C36",[("radolan2png/radolan2png.go","comp.Interval <= time.Hour","comp.Interval < time.Hour")],
 "an hourly accumulation (RW)","hourly products are drawn with the 200 mm scale",
 '''
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_TMP")
	fields := "VS 3PR E-01INT  60GP   1x   1"
	n := 17 + 2 + 7 + len(fields) + 1
	data := fmt.Sprintf("RW262115100000616BY%7d%s\\x03\\x64\\x00", n+2, fields)
	if err := os.WriteFile(dir+"/in", []byte(data), 0o600); err != nil {
		t.Fatal(err)
	}
	convert(dir+"/in", dir+"/out.png")
	f, err := os.Open(dir + "/out.png")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	img, err := png.Decode(f)
	if err != nil {
		t.Fatal(err)
	}
	want := vis.Heatmap(0.1, 100, vis.Log)(10)
	if r, g, b, _ := img.At(0, 0).RGBA(); uint8(r>>8) != want.R || uint8(g>>8) != want.G || uint8(b>>8) != want.B {
		t.Fatal(img.At(0, 0), want)
	}
}''',["fmt","os","image/png","gitlab.cs.fau.de/since/radolan/radolan2png/vis"],sub="radolan2png/",mk=False)
# C35
EXEC='''
	if os.Getenv("DEMO_CHILD") == "1" {
		os.Args = []string{"radolan2png", os.Getenv("DEMO_IN"), os.Getenv("DEMO_OUT")}
		main()
		os.Exit(0)
	}
	run := func(in, out string) error {
		cmd := exec.Command(os.Args[0], "-test.run=TestDemo")
		cmd.Env = append(os.Environ(), "DEMO_CHILD=1", "DEMO_IN="+in, "DEMO_OUT="+out)
		return cmd.Run()
	}
	dir := os.Getenv("DEMO_TMP")
	_ = dir
'''
seed("encode-error-dropped","C35",[("radolan2png/radolan2png.go",'''	care(png.Encode(outfile, img))
''','''	if err := png.Encode(outfile, img); err != nil {
		fmt.Println("could not write image:", err)
	}
''')],
 "an output that cannot be written (full disk)","the converter reports success although encoding failed",
 '''
func TestDemo(t *testing.T) {'''+EXEC+'''
	fields := "VS 3PR E+00GP   2x   2"
	n := 17 + 2 + 7 + len(fields) + 1
	data := fmt.Sprintf("RX262115100000616BY%7d%s\\x03abcd", n+4, fields)
	if err := os.WriteFile(dir+"/in", []byte(data), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := run(dir+"/in", dir+"/out.png"); err != nil {
		t.Fatal(err)
	}
	if err := run(dir+"/in", "/dev/full"); err == nil {
		t.Fatal("success although nothing could be written")
	}
}''',["fmt","os","os/exec"],sub="radolan2png/",mk=False)
seed("output-created-first","C35",[("radolan2png/radolan2png.go",'''	// create new composite
	comp, err := radolan.NewComposite(infile)
''','''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// create new composite
	comp, err := radolan.NewComposite(infile)
'''),("radolan2png/radolan2png.go",'''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
''','''	// write image to output file
''')],
 "an input that cannot be parsed","an empty output file is left for an input that could not be parsed",
 '''
func TestDemo(t *testing.T) {'''+EXEC+'''
	if err := os.WriteFile(dir+"/in", []byte("garbage"), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := run(dir+"/in", dir+"/out.png"); err == nil {
		t.Fatal("success for garbage")
	}
	if _, err := os.Stat(dir + "/out.png"); err == nil {
		t.Fatal("output file for garbage")
	}
}''',["os","os/exec"],sub="radolan2png/",mk=False)
# C37
seed("overlay-everywhere","C37",[("radolan2png/radolan2png.go","	if comp.HasProjection {","	if comp.HasProjection || comp.Rx == comp.Ry {")],
 "a local product, which has a resolution but no projection","overlays are drawn at undefined positions",
 '''
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_TMP")
	fields := "VS 3LV 2  1.0  2.0"
	n := 17 + 2 + 7 + len(fields) + 1
	data := fmt.Sprintf("PX262115100000616BY%7d%s\\x03", n+448, fields)
	for i := 0; i < 224; i++ {
		data += "\\x00\\x0a"
	}
	if err := os.WriteFile(dir+"/in", []byte(data), 0o600); err != nil {
		t.Fatal(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	stdout := os.Stdout
	os.Stdout = w
	convert(dir+"/in", dir+"/out.png")
	os.Stdout = stdout
	w.Close()
	b, _ := io.ReadAll(r)
	if strings.Contains(string(b), "detected grid") {
		t.Fatalf("%s", b)
	}
}''',["fmt","io","os","strings"],sub="radolan2png/",mk=False)
# C40
seed("offset-sixteen","C40",[("runlength.go","			if value < 16 {","			if value <= 16 {")],
 "a run-length row that starts at column 0","a row with offset byte 16 is refused",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("PG", "VS 3LV 2  1.0  2.0GP   1x   2", []byte{0, 16, 0x21, 10}, 4)))
	if err != nil || c.At(1, 0) != 1 {
		t.Fatal(c, err)
	}
}''',[B])
seed("one-level-table","C40",[("header.go","		if len(lv) < 2 {","		if len(lv) < 7 {")],
 "a header with an empty level table (LV 0)","a composite with an empty level table is refused",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("PG", "VS 3LV 0GP   1x   2", []byte{0, 10}, 2)))
	if err != nil || !IsNaN(c.At(1, 0)) {
		t.Fatal(c, err)
	}
}''',[B])
# C41
# C42
seed("reader-closed","C42",[("radolan.go",'''	reader := bufio.NewReader(rd)
	comp = &Composite{}
''','''	if c, ok := rd.(io.Closer); ok {
		defer c.Close()
	}
	reader := bufio.NewReader(rd)
	comp = &Composite{}
''')],
 "a reader that can be closed and is used again after parsing","parsing closes the reader it was given",
 '''
type closer struct {
	*bytes.Reader
	closed bool
}

func (c *closer) Close() error { c.closed = true; return nil }

func TestDemo(t *testing.T) {
	r := &closer{Reader: bytes.NewReader(mk("RX", "VS 3GP   2x   2", seq(4), 4))}
	if _, err := NewComposite(r); err != nil || r.closed {
		t.Fatal(err, r.closed)
	}
}''',[B])
# C43
seed("accumulated-day","C43",[("radolan2png/vis/vis.go","HeatmapAccumulatedDay = Heatmap(0.1, 200, Log)","HeatmapAccumulatedDay = Heatmap(0.1, 100, Log)")],
 "a daily accumulation above 100 mm","the scale of daily sums ends at 100 mm",
 '''
func TestDemo(t *testing.T) {
	if HeatmapAccumulatedDay(100) == HeatmapAccumulatedDay(200) {
		t.Fatal(HeatmapAccumulatedDay(100))
	}
}''',[],sub="radolan2png/vis/",mk=False)
# C44
seed("hue-sector","C44",[("radolan2png/vis/vis.go","			rr, gg, bb = x, c, 0\n","			rr, gg, bb = x, c, x\n")],
 "a value in the yellow to green sector of the heat map","the colours between yellow and green are pale",
 '''
func TestDemo(t *testing.T) {
	c := Heatmap(0, 330, Id)(150) // hue 90
	if c.B >= c.R || c.R >= c.G {
		t.Fatal(c)
	}
}''',[],sub="radolan2png/vis/",mk=False)
# C45
seed("usage-one-argument","C45",[("radolan2png/radolan2png.go","	if len(os.Args) < 3 {","	if len(os.Args) < 2 {")],
 "a call with an input but no output","the converter panics instead of printing its usage",
 '''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "1" {
		os.Args = []string{"radolan2png", "in"}
		main()
		os.Exit(0)
	}
	cmd := exec.Command(os.Args[0], "-test.run=TestDemo")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
}''',["os","os/exec"],sub="radolan2png/",mk=False)
# C46
seed("infinite-is-nan","C46",[("conversion.go","	return f != f","	return f != f || f > math.MaxFloat32")],
 "positive infinity","infinity is taken for a missing value",
 '''
func TestDemo(t *testing.T) {
	if IsNaN(float32(math.Inf(1))) || !IsNaN(NaN) {
		t.Fatal()
	}
}''',["math"],mk=False)
# C16
# C26
# C09
seed("archive-empty-entries","C09",[("radolan.go",'''		_, err := tarReader.Next()
''','''		hdr, err := tarReader.Next()
'''),("radolan.go",'''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
''','''		c, err := NewComposite(tarReader)
		if err != nil && hdr.Size > 0 {
			return nil, err
		}
		if c != nil && err == nil {
			cs = append(cs, c)
		}
''')],
 "an archive with an empty entry","an empty archive entry is skipped silently",
 '''
const archive = "QlpoOTFBWSZTWZKGD9kAAGz7gMiAABBAAGWAAAhiAl4gAAggAFQ0gAAaPUEiUyaZMgGmc0gSB6IQivj1KE5oEMGVgUMRiEYcLzxB7B7PFUkmdERAPi7kinChISUMH7I="

func TestDemo(t *testing.T) {
	raw, err := base64.StdEncoding.DecodeString(archive)
	if err != nil {
		t.Skip(err)
	}
	if cs, err := NewComposites(bytes.NewReader(raw)); err == nil {
		t.Fatal(cs)
	}
}''',["bytes","encoding/base64"],mk=False)

seed("dummy-layer","C41",[("radolan.go","Format: format, Dx: dx, Dy: dy}","Format: format, Dx: dx, Dy: dy, Dz: 1}")],
 "reading a value of a dummy","a dummy claims to have a layer",
 '''
func TestDemo(t *testing.T) {
	if c := NewDummy("WX", 3, 900, 1100); !IsNaN(c.At(1, 1)) {
		t.Fatal(c)
	}
}''',[],mk=False)
seed("long-forecast","C16",[("header.go",'''fmt.Sscanf(vv, "%d", &min)''','''fmt.Sscanf(vv, "%3d", &min)''')],
 "a forecast of 1000 minutes or more","the forecast time is cut to three digits",
 '''
func TestDemo(t *testing.T) {
	c, err := NewComposite(bytes.NewReader(mk("RX", "VS 3VV 1440GP   2x   2", seq(4), 4)))
	if err != nil || c.ForecastTime.Sub(c.CaptureTime).Hours() != 24 {
		t.Fatal(c, err)
	}
}''',[B])
seed("corner-format-six","C26",[("projection.go","\t\tif c.Format >= 5 {\n\t\t\toriginTop","\t\tif c.Format == 5 {\n\t\t\toriginTop")],
 "a DE1200 composite of a format version above 5","the corners of the spherical grid are used with the ellipsoid",
 '''
func TestDemo(t *testing.T) {
	c := NewDummy("WN", 6, 1100, 1200)
	x, y := c.Project(55.86208711, 1.463301510)
	if !(x*x+y*y < 1e-6) {
		t.Fatal(x, y)
	}
}''',[],mk=False)
