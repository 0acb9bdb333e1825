"""Further behaviour-preserving edits (imported by benign.py)."""
from benignlib import benign
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

# ---- colours
GRAY = '''	return func(val float64) color.RGBA {
		val = compression(val)

		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
	}
'''
benign("r4-vi-gray-clamp-helper", (V, GRAY, '''	return func(val float64) color.RGBA {
		v := compression(val)
		p := (v - min) / (max - min)
		if v < min || math.IsNaN(p) {
			return color.RGBA{A: 0xFF} // black
		}
		l := uint8(0xFF * atMostOne(p))
		return color.RGBA{R: l, G: l, B: l, A: 0xFF}
	}
'''), (V, None, '''
func atMostOne(p float64) float64 {
	if p > 1 {
		return 1
	}
	return p
}
'''))
benign("r4-vi-gray-mathmin", (V, GRAY, '''	return func(val float64) color.RGBA {
		val = compression(val)
		if !(val >= min) {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black or no data
		}
		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		l := uint8(0xFF * math.Min(p, 1))
		return color.RGBA{l, l, l, 0xFF}
	}
'''))
benign("r4-vi-gray-saturate-early", (V, GRAY, '''	return func(val float64) color.RGBA {
		val = compression(val)

		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			return color.RGBA{0xFF, 0xFF, 0xFF, 0xFF}
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
	}
'''))
benign("r4-vi-scale-struct", (V, GRAY, '''	s := scale{min: min, span: max - min, compression: compression}
	return s.gray
'''), (V, None, '''
type scale struct {
	min, span   float64
	compression func(float64) float64
}

func (s scale) gray(val float64) color.RGBA {
	val = s.compression(val)
	if val < s.min {
		return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
	}

	p := (val - s.min) / s.span
	if p != p { // no data
		return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
	}
	if p > 1 {
		p = 1
	}

	l := uint8(0xFF * p)
	return color.RGBA{l, l, l, 0xFF}
}
'''))
SECT = '''		var rr, gg, bb float64
		switch int(hh) {
		case 0:
			rr, gg, bb = c, x, 0
		case 1:
			rr, gg, bb = x, c, 0
		case 2:
			rr, gg, bb = 0, c, x
		case 3:
			rr, gg, bb = 0, x, c
		case 4:
			rr, gg, bb = x, 0, c
		case 5:
			rr, gg, bb = c, 0, x
		}
'''
benign("r4-vi-sectors-helper", (V, SECT, '''		rr, gg, bb := sector(hh, c, x)
'''), (V, None, '''
func sector(hh, c, x float64) (r, g, b float64) {
	switch int(hh) {
	case 0:
		return c, x, 0
	case 1:
		return x, c, 0
	case 2:
		return 0, c, x
	case 3:
		return 0, x, c
	case 4:
		return x, 0, c
	case 5:
		return c, 0, x
	}
	return 0, 0, 0
}
'''))
benign("r4-vi-sectors-table", (V, SECT, '''		var rr, gg, bb float64
		if i := int(hh); i >= 0 && i < 6 {
			t := [6][3]float64{{c, x, 0}, {x, c, 0}, {0, c, x}, {0, x, c}, {x, 0, c}, {c, 0, x}}[i]
			rr, gg, bb = t[0], t[1], t[2]
		}
'''))
benign("r4-vi-sectors-array", (V, SECT, '''		var rgb [3]float64
		switch int(hh) {
		case 0:
			rgb[0], rgb[1] = c, x
		case 1:
			rgb[0], rgb[1] = x, c
		case 2:
			rgb[1], rgb[2] = c, x
		case 3:
			rgb[1], rgb[2] = x, c
		case 4:
			rgb[0], rgb[2] = x, c
		case 5:
			rgb[0], rgb[2] = c, x
		}
		rr, gg, bb := rgb[0], rgb[1], rgb[2]
'''))
benign("r4-vi-s-dropped", (V, "		s := 1.0          // saturation\n", ""), (V, "(1 - math.Abs(2*l-1)) * s // calculate chroma", "1 - math.Abs(2*l-1) // calculate chroma"))
benign("r4-vi-hue-const", (V, "h := math.Mod(360-(330*p)+240, 360)", "h := math.Mod(600-330*p, 360)"))
benign("r4-vi-hsl-struct", (V, '''		m := l - c/2
		r, g, b := uint8(0xFF*(rr+m)), uint8(0xFF*(gg+m)), uint8(0xFF*(bb+m))

		return color.RGBA{r, g, b, 0xFF}
''', '''		m := l - c/2
		out := color.RGBA{A: 0xFF}
		out.R = uint8(0xFF * (rr + m))
		out.G = uint8(0xFF * (gg + m))
		out.B = uint8(0xFF * (bb + m))
		return out
'''))
RAD = '''		base := math.Max(math.Abs(min), math.Abs(max))
		p := compression(math.Abs(val)) / compression(base)

		if p > 1 {
			p = 1
		}
		lev := uint8(0xFF * p)

		var non byte = 0x00
		if math.Abs(val) <= 1 {
			lev = 0xFF
			non = 0xCC
		}

		if val < 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}

		return color.RGBA{lev, non, non, 0xFF}
'''
benign("r4-vi-radial-abs-once", (V, RAD, '''		abs := math.Abs(val)
		base := math.Max(math.Abs(min), math.Abs(max))

		lev, non := uint8(0xFF), uint8(0xCC)
		if abs > 1 {
			p := compression(abs) / compression(base)
			if p > 1 {
				p = 1
			}
			lev, non = uint8(0xFF*p), 0
		}

		if val < 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}
		return color.RGBA{lev, non, non, 0xFF}
'''))
benign("r4-vi-radial-center-first", (V, RAD, '''		if math.Abs(val) <= 1 {
			if val < 0 {
				return color.RGBA{0xCC, 0xFF, 0xFF, 0xFF}
			}
			return color.RGBA{0xFF, 0xCC, 0xCC, 0xFF}
		}
		base := math.Max(math.Abs(min), math.Abs(max))
		p := math.Min(compression(math.Abs(val))/compression(base), 1)
		lev := uint8(0xFF * p)
		if val < 0 {
			return color.RGBA{0, lev, lev, 0xFF}
		}
		return color.RGBA{lev, 0, 0, 0xFF}
'''))
benign("r4-vi-radial-larger", (V, "		base := math.Max(math.Abs(min), math.Abs(max))\n", '''		base := math.Abs(min)
		if b := math.Abs(max); b > base {
			base = b
		}
'''))
IMG = '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
'''
benign("r4-vi-image-columns", (V, IMG, '''	for x := 0; x < c.Dx; x++ {
		for y := 0; y < c.Dy; y++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
'''))
benign("r4-vi-image-setrgba", (V, IMG, '''	for y := 0; y < c.Dy; y++ {
		row := c.DataZ[layer][y]
		for x := 0; x < c.Dx; x++ {
			img.SetRGBA(x, y, fn(float64(row[x])))
		}
	}
'''))
benign("r4-vi-image-drawrow", (V, IMG, '''	for y := 0; y < c.Dy; y++ {
		drawRow(img, fn, y, c.DataZ[layer][y][:c.Dx])
	}
'''), (V, None, '''
func drawRow(img *image.RGBA, fn ColorFunc, y int, row []float32) {
	for x, v := range row {
		img.Set(x, y, fn(float64(v)))
	}
}
'''))
benign("r4-vi-image-rangeint", (V, IMG, '''	for y := range c.Dy {
		for x := range c.Dx {
			img.Set(x, y, fn(float64(c.AtZ(x, y, layer))))
		}
	}
'''))
benign("r4-vi-image-positive", (V, '''	if layer < 0 || layer >= c.Dz {
		return img
	}

'''+IMG, '''	if 0 <= layer && layer < c.Dz {
		for y := 0; y < c.Dy; y++ {
			for x := 0; x < c.Dx; x++ {
				img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
			}
		}
	}
'''))
benign("r4-vi-image-empty-rect", (V, "	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n", "	img := image.NewRGBA(image.Rectangle{Max: image.Point{X: c.Dx, Y: c.Dy}})\n"))

# ---- command
SW = '''	var heatmap vis.ColorFunc
	switch comp.DataUnit {
	case radolan.Unit_mm:
		max := 200.0
		if comp.Interval <= time.Hour {
			max = 100.0
		}
		if comp.Interval >= time.Hour*24*7 {
			max = 400.0
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
'''
benign("r4-cm-max-switch", (C, SW, '''	var heatmap vis.ColorFunc
	switch comp.DataUnit {
	case radolan.Unit_mm:
		var max float64
		switch {
		case comp.Interval > time.Hour && comp.Interval < 7*24*time.Hour:
			max = 200
		case comp.Interval <= time.Hour:
			max = 100
		default:
			max = 400
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
'''))
benign("r4-cm-max-helper", (C, SW, '''	var heatmap vis.ColorFunc
	switch comp.DataUnit {
	case radolan.Unit_mm:
		heatmap = vis.Heatmap(0.1, maxRain(comp.Interval), vis.Log)
'''), (C, None, '''
const week = 7 * 24 * time.Hour

// maxRain is the largest amount of precipitation to be displayed.
func maxRain(interval time.Duration) float64 {
	if interval >= week {
		return 400
	}
	if interval <= time.Hour {
		return 100
	}
	return 200
}
'''))
benign("r4-cm-minutes", (C, "comp.Interval <= time.Hour {", "comp.Interval.Minutes() <= 60 {"))
MESH = '''		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
				}
			}
		}
'''
benign("r4-cm-mesh-points", (C, MESH, '''		for _, p := range meshPoints() {
			x, y := comp.Project(p[0], p[1])
			img.Set(int(x), int(y), meshColor)
		}
'''), (C, None, '''
// meshPoints lists latitude and longitude of the mesh in steps of 0.1 degrees.
func meshPoints() (points [][2]float64) {
	for e := 10; e < 160; e++ {
		for n := 460; n < 550; n++ {
			if e%10 == 0 || n%10 == 0 {
				points = append(points, [2]float64{float64(n) / 10, float64(e) / 10})
			}
		}
	}
	return
}
'''))
benign("r4-cm-mesh-closure", (C, MESH, '''		point := func(n, e int) {
			x, y := comp.Project(float64(n)/10, float64(e)/10)
			img.Set(int(x), int(y), meshColor)
		}
		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					point(n, e)
				}
			}
		}
'''))
benign("r4-cm-mesh-offgrid-skip", (C, MESH, '''		for e := 10; e < 160; e++ { // 0.1 degree steps
			east := float64(e) / 10
			for n := 460; n < 550; n++ {
				onMeridian, onParallel := e%10 == 0, n%10 == 0
				if !onMeridian && !onParallel {
					continue
				}
				x, y := comp.Project(float64(n)/10, east)
				img.SetRGBA(int(x), int(y), meshColor)
			}
		}
'''))
benign("r4-cm-overlay-func", (C, '''			// convert border points to data indices
			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(x), int(y), borderColor)
''', '''			drawPoint(img, comp, b[0], b[1], borderColor)
'''), (C, '''					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
''', '''					drawPoint(img, comp, float64(n)/10, float64(e)/10, meshColor)
'''), (C, None, '''
// drawPoint marks a geographical position.
func drawPoint(img *image.RGBA, comp *radolan.Composite, north, east float64, c color.Color) {
	x, y := comp.Project(north, east)
	img.Set(int(x), int(y), c)
}
'''), (C, '''	"image/color"
''', '''	"image"
	"image/color"
'''))
benign("r4-cm-parse-helper", (C, '''	// open input file
	infile, err := os.Open(in)
	care(err)
	defer infile.Close()

	// create new composite
	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp, err := parseFile(in)
	care(err)
'''), (C, '''	outfile, err := os.Create(out)
''','''	var outfile *os.File
	outfile, err = os.Create(out)
'''), (C, None, '''
// parseFile reads a composite from a file.
func parseFile(name string) (*radolan.Composite, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return radolan.NewComposite(f)
}
'''))
benign("r4-cm-write-helper", (C, '''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	care(writePNG(out, img))
'''), (C, None, '''
// writePNG creates an image file.
func writePNG(name string, img image.Image) (err error) {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()
	return png.Encode(f, img)
}
'''), (C, '''	"image/color"
''', '''	"image"
	"image/color"
'''))
benign("r4-cm-buffer", (C, '''	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	var buf bytes.Buffer
	care(png.Encode(&buf, img))
	_, err = outfile.Write(buf.Bytes())
	care(err)
	care(outfile.Close())
'''), (C, 'import (\n', 'import (\n\t"bytes"\n'))
benign("r4-cm-usage-func", (C, '''		fmt.Printf("radolan2png converts radolan composite files to png images."+
			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
		return
	}
''', '''		usage(os.Args[0])
		return
	}
'''), (C, None, '''
func usage(program string) {
	fmt.Println("radolan2png converts radolan composite files to png images.")
	fmt.Printf("\\n\\tUsage: %s <input> <output.png>\\n\\n", program)
}
'''))
benign("r4-cm-must", (C, '''	infile, err := os.Open(in)
	care(err)
	defer infile.Close()
''', '''	infile := must(os.Open(in))
	defer infile.Close()
'''), (C, '''	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp := must(radolan.NewComposite(infile))
'''), (C, '''	outfile, err := os.Create(out)
	care(err)
''', '''	outfile := must(os.Create(out))
'''), (C, None, '''
// must exits the program if an error occured.
func must[T any](v T, err error) T {
	care(err)
	return v
}
'''))

# ---- projection and conversion
benign("r4-pj-rad-func", (SPH, '''	rad := func(deg float64) float64 {
		return deg * (math.Pi / 180.0)
	}

''', ""), (SPH, None, '''
// rad converts degrees to radians.
func rad(deg float64) float64 { return deg * (math.Pi / 180.0) }
'''))
benign("r4-pj-rad-shared", (SPH, '''	rad := func(deg float64) float64 {
		return deg * (math.Pi / 180.0)
	}

	lamda0, phi0 := rad(junctionEast), rad(junctionNorth)
	lamda, phi := rad(east), rad(north)
''', '''	lamda0, phi0 := junctionEast*degToRad, junctionNorth*degToRad
	lamda, phi := east*degToRad, north*degToRad
'''))
benign("r4-pj-sphere-radius", (SPH, '''	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
	x = (earthRadius * m * math.Cos(phi) * math.Sin(lamda-lamda0))
	y = (earthRadius * m * math.Cos(phi) * math.Cos(lamda-lamda0))
''', '''	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))
	r := earthRadius * m * math.Cos(phi)
	sin, cos := math.Sincos(lamda - lamda0)
	x, y = r*sin, r*cos
'''))
benign("r4-pj-correct-method", (SPH, '''	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling
	x /= c.Rx
	y /= c.Ry

	return
''', '''	return c.toIndices(x, y)
'''), (WGS, '''	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling to image
	x /= c.Rx
	y /= c.Ry

	return
''', '''	return c.toIndices(x, y)
'''), (P, None, '''
// toIndices applies offset correction and scaling.
func (c *Composite) toIndices(x, y float64) (float64, float64) {
	return (x - c.offx) / c.Rx, (y - c.offy) / c.Ry
}
'''))
benign("r4-pj-calibrate-local", (P, '''	// calibrate offset correction
	c.offx, c.offy = c.Project(originTop, originLeft)

	// calibrate scaling
	resx, resy := c.Project(edgeBottom, edgeRight)
	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
''', '''	left, top := c.Project(originTop, originLeft)
	right, bottom := c.Project(edgeBottom, edgeRight)
	c.offx, c.offy = left, top
	c.Rx = (right - left) / float64(c.Dx)
	c.Ry = (bottom - top) / float64(c.Dy)
'''))
benign("r4-pj-wgs-swap", (WGS, '''	x = p.x_0 + (s * math.Sin(lon-p.lon_0))
	y = p.y_0 - (s * math.Cos(lon-p.lon_0))

	x = (x / p.scale)
	y = (y / -p.scale)
''', '''	dlon := lon - p.lon_0
	x = (p.x_0 + s*math.Sin(dlon)) / p.scale
	y = (s*math.Cos(dlon) - p.y_0) / p.scale
'''))
benign("r4-pj-format-first", (P, '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''	wgs84 := c.Format >= 5
	if wgs84 && detectedGrid != DE1200Grid {
		return
	}
	if wgs84 {
		c.proj_wgs84 = proj_DE1200_WGS84
	}
'''))
benign("r4-pj-grid-map", (P, '''	dx, dy := minRes(c.Dx, c.Dy)

	if mx, my := minRes(900, 900); dx == mx && dy == my {
		return nationalGrid
	}
	if mx, my := minRes(920, 920); dx == mx && dy == my {
		return nationalPictureGrid
	}
	if mx, my := minRes(900, 1100); dx == mx && dy == my {
		return extendedNationalGrid
	}
	if mx, my := minRes(1100, 1200); dx == mx && dy == my {
		return DE1200Grid
	}
	if mx, my := minRes(1400, 1500); dx == mx && dy == my {
		return middleEuropeanGrid
	}
	return unknownGrid
''', '''	dx, dy := minRes(c.Dx, c.Dy)
	switch [2]int{dx, dy} {
	case [2]int{225, 225}:
		return nationalGrid
	case [2]int{115, 115}:
		return nationalPictureGrid
	case [2]int{225, 275}:
		return extendedNationalGrid
	case [2]int{275, 300}:
		return DE1200Grid
	case [2]int{350, 375}:
		return middleEuropeanGrid
	}
	return unknownGrid
'''))
benign("r4-cv-zr-inline", (CONV, '''	c1 := 10.0 * B
	c2 := math.Pow(A, -1.0/B)
	c3 := math.Pow(10.0, 1/c1)
	c4 := 10.0 * math.Log10(A)

	return ZR{c1, c2, c3, c4}
''', '''	z := ZR{c1: 10 * B}
	z.c2 = math.Pow(A, -1/B)
	z.c3 = math.Pow(10, 1/z.c1)
	z.c4 = 10 * math.Log10(A)
	return z
'''))
benign("r4-cv-rate-direct", (CONV, "	return relation.c2 * math.Pow(relation.c3, float64(dBZ))\n", '''	exp := float64(dBZ)
	rate = math.Pow(relation.c3, exp)
	rate *= relation.c2
	return
'''))
benign("r4-cv-method", (CONV, "	return float32(relation.c4 + relation.c1*math.Log10(rate))\n", "	return relation.reflectivity(rate)\n"), (CONV, None, '''
func (r ZR) reflectivity(rate float64) float32 {
	z := r.c1 * math.Log10(rate)
	return float32(z + r.c4)
}
'''))
benign("r4-cv-bits", (CONV, "	return f != f\n", "	return math.IsNaN(float64(f))\n"))
benign("r4-cv-precision", (CONV, "	return float32(value) * float32(math.Pow10(c.precision))\n", '''	scale := float32(math.Pow10(c.precision))
	return scale * float32(value)
'''))

# ---- archive and access
LOOP = '''	var cs []*Composite
	for {
		_, err := tarReader.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
'''
benign("r4-ra-next-loop", (R, LOOP, '''	var cs []*Composite
	_, err := tarReader.Next()
	for ; err == nil; _, err = tarReader.Next() {
		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
	if err != io.EOF {
		return nil, err
	}
'''))
benign("r4-ra-read-next", (R, LOOP, '''	var cs []*Composite
	for {
		c, err := nextComposite(tarReader)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
'''), (R, None, '''
// nextComposite parses the next entry of the archive, io.EOF is returned at its end.
func nextComposite(tr *tar.Reader) (*Composite, error) {
	if _, err := tr.Next(); err != nil {
		return nil, err
	}
	c, err := NewComposite(tr)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return c, err
}
'''))
benign("r4-ra-less-type", (R, '''	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
''', '''	sort.Sort(byForecast(cs))
'''), (R, None, '''
type byForecast []*Composite

func (s byForecast) Len() int           { return len(s) }
func (s byForecast) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
func (s byForecast) Less(i, j int) bool { return s[i].ForecastTime.Before(s[j].ForecastTime) }
'''))
benign("r4-ra-less-named", (R, '''	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })
''', '''	earlier := func(i, j int) bool {
		a, b := cs[i], cs[j]
		return b.ForecastTime.After(a.ForecastTime)
	}
	sort.SliceStable(cs, earlier)
'''))
benign("r4-ra-at-inside", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	switch {
	case x < 0, x >= c.Dx:
	case y < 0, y >= c.Dy:
	case z < 0, z >= c.Dz:
	default:
		return c.DataZ[z][y][x]
	}
	return NaN
'''))
benign("r4-ra-composite-defer", (R, '''	comp.arrangeData()

	comp.calibrateProjection()

	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}

	return
''', '''	comp.calibrateProjection()
	comp.arrangeData()

	if comp.DataUnit != Unit_unknown {
		return comp, nil
	}
	return comp, ErrUnknownUnit
'''))
benign("r4-ct-lookup-func", (CAT, None, '''
// unitOf returns the unit of a product.
func unitOf(product string) Unit {
	if u, ok := unitCatalog[product]; ok {
		return u
	}
	return Unit_unknown
}
'''), (H, '''	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	c.DataUnit = unitOf(c.Product)
'''))
benign("r4-ct-names-array", (CAT, '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	return unitNames[u]
'''), (CAT, None, '''
var unitNames = [...]string{
	Unit_unknown: "unknown unit",
	Unit_mm:      "mm",
	Unit_dBZ:     "dBZ",
	Unit_km:      "km",
	Unit_mps:     "m/s",
}
'''))
benign("r4-ct-picture-func", (CAT, '''	"OL": {200, 224, 200, 200, 2, 2},  // reflectivity (no clutter detection)
	"OX": {200, 224, 200, 200, 1, 1},  // reflectivity (no clutter detection)
''', '''	"OL": localPicture(2), // reflectivity (no clutter detection)
	"OX": localPicture(1), // reflectivity (no clutter detection)
'''), (CAT, None, '''
func localPicture(res float64) spec {
	return spec{px: 200, py: 224, dx: 200, dy: 200, rx: res, ry: res}
}
'''))
benign("r4-cm-writefile", (C, '''	// create output file
	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	buf := new(bytes.Buffer)
	care(png.Encode(buf, img))
	care(os.WriteFile(out, buf.Bytes(), 0666))
'''), (C, 'import (\n', 'import (\n\t"bytes"\n'))
benign("r4-cm-buffer-copy", (C, '''	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	buf := &bytes.Buffer{}
	care(png.Encode(buf, img))
	_, err = io.Copy(outfile, buf)
	care(err)
	care(outfile.Close())
'''), (C, 'import (\n', 'import (\n\t"bytes"\n\t"io"\n'))
benign("r4-cm-buffer-writeto", (C, '''	care(png.Encode(outfile, img))
	care(outfile.Close())
''', '''	buf := &bytes.Buffer{}
	care(png.Encode(buf, img))
	if _, err := buf.WriteTo(outfile); err != nil {
		log.Fatal(err)
	}
	care(outfile.Close())
'''), (C, 'import (\n', 'import (\n\t"bytes"\n'))
