from benignlib import benign
C, V = "radolan2png/radolan2png.go", "radolan2png/vis/vis.go"
MESH = '''		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
				}
			}
		}
'''
benign("cm-mesh-continue", (C, MESH, '''		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if onLine := e%10 == 0 || n%10 == 0; !onLine {
					continue
				}
				north, east := float64(n)/10, float64(e)/10
				x, y := comp.Project(north, east)
				img.SetRGBA(int(x), int(y), meshColor)
			}
		}
'''))
benign("cm-mesh-lines", (C, MESH, '''		for e := 1; e < 16; e++ { // meridians
			for n := 460; n < 550; n++ {
				x, y := comp.Project(float64(n)/10, float64(e))
				img.Set(int(x), int(y), meshColor)
			}
		}
		for n := 46; n < 55; n++ { // parallels
			for e := 10; e < 160; e++ {
				x, y := comp.Project(float64(n), float64(e)/10)
				img.Set(int(x), int(y), meshColor)
			}
		}
'''))
benign("cm-mesh-swap-loops", (C, MESH, '''		for n := 460; n < 550; n++ { // 0.1 degree steps
			for e := 10; e < 160; e++ {
				if e%10 != 0 && n%10 != 0 {
					continue
				}
				x, y := comp.Project(float64(n)/10, float64(e)/10)
				img.Set(int(x), int(y), meshColor)
			}
		}
'''))
benign("cm-mesh-const", (C, MESH, '''		const step = 10 // per degree
		for e := 1 * step; e < 16*step; e++ {
			for n := 46 * step; n < 55*step; n++ {
				if e%step == 0 || n%step == 0 {
					x, y := comp.Project(float64(n)/step, float64(e)/step)
					img.Set(int(x), int(y), meshColor)
				}
			}
		}
'''))
OVERLAY = '''	// draw borders
	if comp.HasProjection {
		// print grid dimensions
		fmt.Printf("detected grid: %.1f km * %.1f km\\n", float64(comp.Dx)*comp.Rx, float64(comp.Dy)*comp.Ry)

		for _, b := range border {
			// convert border points to data indices
			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(x), int(y), borderColor)
		}

		// draw mesh
''' + MESH + '''	}

'''
benign("cm-overlay-helper", (C, OVERLAY, '''	overlay(img, comp)

'''), (C, None, '''
// overlay draws the borders and a mesh.
func overlay(img draw.Image, comp *radolan.Composite) {
	if !comp.HasProjection {
		return
	}

	// print grid dimensions
	fmt.Printf("detected grid: %.1f km * %.1f km\\n", float64(comp.Dx)*comp.Rx, float64(comp.Dy)*comp.Ry)

	for _, b := range border {
		x, y := comp.Project(b[0], b[1])
		img.Set(int(x), int(y), borderColor)
	}

	for e := 10; e < 160; e++ { // 0.1 degree steps
		for n := 460; n < 550; n++ {
			if e%10 == 0 || n%10 == 0 {
				x, y := comp.Project(float64(n)/10, float64(e)/10)
				img.Set(int(x), int(y), meshColor)
			}
		}
	}
}
'''), (C, '"image/color"', '"image/color"\n\t"image/draw"'))
SCALE = '''		max := 200.0
		if comp.Interval <= time.Hour {
			max = 100.0
		}
		if comp.Interval >= time.Hour*24*7 {
			max = 400.0
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
'''
benign("cm-scale-switch", (C, SCALE, '''		var max float64
		switch i := comp.Interval; {
		case i >= 7*24*time.Hour:
			max = 400
		case i > time.Hour:
			max = 200
		default:
			max = 100
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
'''))
benign("cm-scale-const", (C, SCALE, '''		heatmap = vis.Heatmap(minRain, maxRain(comp.Interval), vis.Log)
'''), (C, None, '''
const (
	minRain = 0.1
	week    = 7 * 24 * time.Hour
)

func maxRain(interval time.Duration) float64 {
	if interval <= time.Hour {
		return 100
	}
	if interval < week {
		return 200
	}
	return 400
}
'''))
benign("cm-scale-hours", (C, SCALE, '''		max := 200.0
		if hours := comp.Interval.Hours(); hours <= 1 {
			max = 100.0
		} else if hours >= 24*7 {
			max = 400.0
		}
		heatmap = vis.Heatmap(0.1, max, vis.Log)
'''), (C, '	"os"\n	"time"\n', '	"os"\n'))
benign("cm-unit-map", (C, '''	case radolan.Unit_dBZ:
		heatmap = vis.HeatmapReflectivity
	case radolan.Unit_km:
		heatmap = vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		heatmap = vis.HeatmapRadialVelocity
	}
''', '''	default:
		heatmap = scales[comp.DataUnit]
	}
'''), (C, None, '''
var scales = map[radolan.Unit]vis.ColorFunc{
	radolan.Unit_dBZ: vis.HeatmapReflectivity,
	radolan.Unit_km:  vis.Graymap(0, 15, vis.Id),
	radolan.Unit_mps: vis.HeatmapRadialVelocity,
}
'''))
benign("cm-unit-ifs", (C, '''	switch comp.DataUnit {
	case radolan.Unit_mm:
''' + SCALE + '''	case radolan.Unit_dBZ:
		heatmap = vis.HeatmapReflectivity
	case radolan.Unit_km:
		heatmap = vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		heatmap = vis.HeatmapRadialVelocity
	}
''', '''	unit := comp.DataUnit
	if unit == radolan.Unit_mm {
''' + SCALE + '''	} else if unit == radolan.Unit_dBZ {
		heatmap = vis.HeatmapReflectivity
	} else if unit == radolan.Unit_km {
		heatmap = vis.Graymap(0, 15, vis.Id)
	} else if unit == radolan.Unit_mps {
		heatmap = vis.HeatmapRadialVelocity
	}
'''))
OUT = '''	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
'''
benign("cm-bufio", (C, OUT, '''	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	w := bufio.NewWriter(outfile)
	care(png.Encode(w, img))
	care(w.Flush())
	care(outfile.Close())
}
'''), (C, 'import (\n', 'import (\n\t"bufio"\n'))
benign("cm-openfile", (C, OUT, '''	outfile, err := os.OpenFile(out, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
}
'''))
benign("cm-encode-err", (C, OUT, '''	outfile, err := os.Create(out)
	care(err)

	// write image to output file
	err = png.Encode(outfile, img)
	if cerr := outfile.Close(); err == nil {
		err = cerr
	}
	care(err)
}
'''))
benign("cm-defer-close", (C, OUT, '''	outfile, err := os.Create(out)
	care(err)
	defer func() {
		care(outfile.Close())
	}()

	// write image to output file
	care(png.Encode(outfile, img))
}
'''))
benign("cm-open-helper", (C, '''	infile, err := os.Open(in)
	care(err)
	defer infile.Close()

	// create new composite
	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp := read(in)
'''), (C, "	outfile, err := os.Create(out)\n", "	outfile, err := os.Create(out)\n"), (C, None, '''
// read parses a file.
func read(name string) *radolan.Composite {
	file, err := os.Open(name)
	care(err)
	defer file.Close()

	comp, err := radolan.NewComposite(file)
	care(err)
	return comp
}
'''))
benign("cm-args", (C, '''	if len(os.Args) < 3 {
		fmt.Printf("radolan2png converts radolan composite files to png images."+
			"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
		return
	}

	convert(os.Args[1], os.Args[2])
''', '''	args := os.Args
	if len(args) <= 2 {
		usage()
		return
	}

	in, out := args[1], args[2]
	convert(in, out)
'''), (C, None, '''
func usage() {
	fmt.Printf("radolan2png converts radolan composite files to png images."+
		"\\n\\n\\tUsage: %s <input> <output.png>\\n\\n", os.Args[0])
}
'''))
benign("cm-return-error", (C, '''	convert(os.Args[1], os.Args[2])
''', '''	care(convert(os.Args[1], os.Args[2]))
'''), (C, "func convert(in, out string) {", "func convert(in, out string) error {"), (C, '''	infile, err := os.Open(in)
	care(err)
''', '''	infile, err := os.Open(in)
	if err != nil {
		return err
	}
'''), (C, '''	comp, err := radolan.NewComposite(infile)
	care(err)
''', '''	comp, err := radolan.NewComposite(infile)
	if err != nil {
		return err
	}
'''), (C, OUT, '''	outfile, err := os.Create(out)
	if err != nil {
		return err
	}

	// write image to output file
	if err := png.Encode(outfile, img); err != nil {
		return err
	}
	return outfile.Close()
}
'''))
benign("cm-care-early", (C, '''	if err != nil {
		log.Fatal(err)
	}
''', '''	if err == nil {
		return
	}
	log.Fatal(err)
'''))
benign("cm-care-fprintln", (C, '''		log.Fatal(err)
''', '''		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
'''), (C, '	"log"\n', ''))
# ---------------------------------------------------------------- vis
GRAY = '''		val = compression(val)

		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
'''
HEAT = '''		val = compression(val)
		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 { // limit
			p = 1
		}
'''
benign("vi-gray-else", (V, GRAY, '''		v := compression(val)
		p := (v - min) / (max - min)

		var l uint8
		switch {
		case v < min || p != p: // too small or no data
		case p > 1:
			l = 0xFF
		default:
			l = uint8(0xFF * p)
		}
		return color.RGBA{l, l, l, 0xFF}
'''))
benign("vi-relative-helper", (V, GRAY, '''		p, ok := relative(compression(val), min, max)
		if !ok {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		l := uint8(0xFF * p)
		return color.RGBA{l, l, l, 0xFF}
'''), (V, HEAT, '''		p, ok := relative(compression(val), min, max)
		if !ok {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
'''), (V, None, '''
// relative is the position of a value within a range; ok is false below it and
// without data.
func relative(val, min, max float64) (p float64, ok bool) {
	if val < min {
		return 0, false
	}
	p = (val - min) / (max - min)
	if p != p { // no data
		return 0, false
	}
	if p > 1 {
		p = 1
	}
	return p, true
}
'''))
benign("vi-min-builtin", (V, '''		if p > 1 { // limit
			p = 1
		}
''', '''		p = math.Min(p, 1) // limit
'''))
benign("vi-nan-first", (V, GRAY, '''		val = compression(val)
		if math.IsNaN(val) || val < min {
			return color.RGBA{A: 0xFF} // black
		}

		p := (val - min) / (max - min)
		if math.IsNaN(p) {
			return color.RGBA{A: 0xFF} // black
		}
		if 1 < p {
			p = 1
		}

		l := uint8(255 * p)
		return color.RGBA{R: l, G: l, B: l, A: 255}
'''))
benign("vi-hue", (V, '''		h := math.Mod(360-(330*p)+240, 360)
''', '''		h := math.Mod(600-330*p, 360)
'''))
benign("vi-hsl-ifs", (V, '''		var rr, gg, bb float64
		switch int(hh) {
		case 0:
			rr, gg, bb = c, x, 0
		case 1:
			rr, gg, bb = x, c, 0
		case 2:
			rr, gg, bb = 0, c, x
		case 3:
			rr, gg, bb = 0, x, c
		case 4:
			rr, gg, bb = x, 0, c
		case 5:
			rr, gg, bb = c, 0, x
		}
''', '''		var rr, gg, bb float64
		sector := int(hh)
		if sector == 0 {
			rr, gg = c, x
		} else if sector == 1 {
			rr, gg = x, c
		} else if sector == 2 {
			gg, bb = c, x
		} else if sector == 3 {
			gg, bb = x, c
		} else if sector == 4 {
			rr, bb = x, c
		} else if sector == 5 {
			rr, bb = c, x
		}
'''))
benign("vi-chan-helper", (V, '''		r, g, b := uint8(0xFF*(rr+m)), uint8(0xFF*(gg+m)), uint8(0xFF*(bb+m))

		return color.RGBA{r, g, b, 0xFF}
''', '''		channel := func(v float64) uint8 { return uint8(0xFF * (v + m)) }

		return color.RGBA{channel(rr), channel(gg), channel(bb), 0xFF}
'''))
benign("vi-lightness", (V, '''		s := 1.0          // saturation
		l := 0.5*p + 0.25 // lightness
''', '''		const s = 1.0      // saturation
		l := p/2 + 1.0/4.0 // lightness
'''))
benign("vi-image-layer-var", (V, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	data := c.DataZ[layer]
	for y := range img.Rect.Dy() {
		row := data[y]
		for x := range img.Rect.Dx() {
			img.SetRGBA(x, y, fn(float64(row[x])))
		}
	}
'''))
benign("vi-image-bounds", (V, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	for y := rec.Min.Y; y < rec.Max.Y; y++ {
		for x := rec.Min.X; x < rec.Max.X; x++ {
			col := fn(float64(c.DataZ[layer][y][x]))
			img.Set(x, y, col)
		}
	}
'''))
benign("vi-image-single-loop", (V, '''	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
		}
	}
''', '''	for i := 0; i < c.Dx*c.Dy; i++ {
		x, y := i%c.Dx, i/c.Dx
		img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
	}
'''))
benign("vi-image-down", (V, '''	for y := 0; y < c.Dy; y++ {
''', '''	for y := c.Dy - 1; y >= 0; y-- {
'''))
RAD = '''		base := math.Max(math.Abs(min), math.Abs(max))
		p := compression(math.Abs(val)) / compression(base)

		if p > 1 {
			p = 1
		}
		lev := uint8(0xFF * p)

		var non byte = 0x00
		if math.Abs(val) <= 1 {
			lev = 0xFF
			non = 0xCC
		}

		if val < 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}

		return color.RGBA{lev, non, non, 0xFF}
'''
benign("vi-radial-hoist", (V, '''	return func(val float64) color.RGBA {
		if val != val {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

''' + RAD, '''	base := compression(math.Max(math.Abs(min), math.Abs(max)))

	return func(val float64) color.RGBA {
		if val != val {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

''' + RAD.replace('''		base := math.Max(math.Abs(min), math.Abs(max))
''', '').replace("compression(base)", "base")))
benign("vi-radial-color", (V, '''		if val < 0 {
			return color.RGBA{non, lev, lev, 0xFF}
		}

		return color.RGBA{lev, non, non, 0xFF}
''', '''		col := color.RGBA{lev, non, non, 0xFF}
		if val < 0 {
			col.R, col.G, col.B = non, lev, lev
		}
		return col
'''))
# ---------------------------------------------------------------- projection
P = "projection.go"
benign("pj-minres-or", (P, '''	for rdx&1 == 0 && rdy&1 == 0 {
''', '''	for (rdx|rdy)&1 == 0 {
'''))
benign("pj-minres-cond", (P, '''	rdx, rdy = dx, dy

	if rdx == 0 || rdy == 0 {
		return
	}
	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	for dx != 0 && dy != 0 && dx%2 == 0 && dy%2 == 0 {
		dx /= 2
		dy /= 2
	}
	return dx, dy
'''))
benign("pj-minres-recursive", (P, '''	rdx, rdy = dx, dy

	if rdx == 0 || rdy == 0 {
		return
	}
	for rdx&1 == 0 && rdy&1 == 0 {
		rdx >>= 1
		rdy >>= 1
	}
	return
''', '''	for {
		if dx == 0 || dy == 0 || dx&1 != 0 || dy&1 != 0 {
			return dx, dy
		}
		dx, dy = dx>>1, dy>>1
	}
'''))
benign("pj-corner-returns", (P, '''		originTop, originLeft = 54.5877, 02.0715 // N, E
		edgeBottom, edgeRight = 47.0705, 14.6209 // N, E
''', '''		return 54.5877, 02.0715, 47.0705, 14.6209, nil
'''))
benign("pj-corner-table", (P, '''	switch detectedGrid {
	case nationalGrid: // described in [1]
		originTop, originLeft = 54.5877, 02.0715 // N, E
		edgeBottom, edgeRight = 47.0705, 14.6209 // N, E
	case nationalPictureGrid: // (pg) described in [4]
		originTop, originLeft = 54.66218275, 1.900684377 // N, E
		edgeBottom, edgeRight = 46.98044293, 14.73300934 // N, E
	case extendedNationalGrid: // described in [1]
		originTop, originLeft = 55.5482, 03.0889 // N, E
		edgeBottom, edgeRight = 46.1827, 15.4801 // N, E
	case DE1200Grid: // described in [6]
		if c.Format >= 5 {
			originTop, originLeft = 55.86208711, 1.463301510 // N, E
			edgeBottom, edgeRight = 45.68460578, 16.58086935 // N, E
		} else {
			originTop, originLeft = 55.86584289, 1.435612143 // N, E
			edgeBottom, edgeRight = 45.68358331, 16.60186543 // N, E
		}
	case middleEuropeanGrid: // described in [1]
		originTop, originLeft = 56.5423, -0.8654 // N, E
		edgeBottom, edgeRight = 43.8736, 18.2536 // N, E
	default:
		err = errNoProjection
	}
	return
''', '''	corners, ok := gridCorners[detectedGrid]
	if !ok {
		return 0, 0, 0, 0, errNoProjection
	}
	if detectedGrid == DE1200Grid && c.Format >= 5 { // described in [6]
		corners = [4]float64{55.86208711, 1.463301510, 45.68460578, 16.58086935}
	}
	return corners[0], corners[1], corners[2], corners[3], nil
'''), (P, '''// cornerPoints returns''', '''// gridCorners are the top, left, bottom and right coordinates of the grids (N, E, N, E)
var gridCorners = map[grid][4]float64{
	nationalGrid:         {54.5877, 02.0715, 47.0705, 14.6209},             // described in [1]
	nationalPictureGrid:  {54.66218275, 1.900684377, 46.98044293, 14.73300934}, // (pg) described in [4]
	extendedNationalGrid: {55.5482, 03.0889, 46.1827, 15.4801},             // described in [1]
	DE1200Grid:           {55.86584289, 1.435612143, 45.68358331, 16.60186543}, // described in [6]
	middleEuropeanGrid:   {56.5423, -0.8654, 43.8736, 18.2536},             // described in [1]
}

// cornerPoints returns'''))
benign("pj-format-helper", (P, '''	if c.Format >= 5 {
		if detectedGrid == DE1200Grid {
			c.proj_wgs84 = proj_DE1200_WGS84
		} else {
			return
		}
	}
''', '''	switch {
	case !c.ellipsoid():
	case detectedGrid == DE1200Grid:
		c.proj_wgs84 = proj_DE1200_WGS84
	default:
		return
	}
'''), (P, None, '''
// ellipsoid: the composite uses WGS84 coordinates.
func (c *Composite) ellipsoid() bool { return c.Format > 4 }
'''))
benign("pj-unknown-early", (P, '''	if c.Rx == 0 || c.Ry == 0 { // resolution is not defined by catalog
		c.Rx = math.NaN()
		c.Ry = math.NaN()
	}
	c.offx = math.NaN()
	c.offy = math.NaN()
''', '''	nan := math.NaN()
	c.offx, c.offy = nan, nan
	if known := c.Rx != 0 && c.Ry != 0; !known { // resolution is not defined by catalog
		c.Rx, c.Ry = nan, nan
	}
'''))
benign("pj-wgs-method", ("projection_wgs84.go", '''	p := c.proj_wgs84
	lat := north
	lon := east

	lat *= degToRad
	lon *= degToRad

	sinLat := math.Sin(lat)

	s := p.k_0 * math.Tan(0.5*(math.Pi/2-lat)) / math.Pow(((1-p.ecc*sinLat)/(1+p.ecc*sinLat)), 0.5*p.ecc)

	x = p.x_0 + (s * math.Sin(lon-p.lon_0))
	y = p.y_0 - (s * math.Cos(lon-p.lon_0))

	x = (x / p.scale)
	y = (y / -p.scale)

	// offset correction
	x -= c.offx
	y -= c.offy

	// scaling to image
	x /= c.Rx
	y /= c.Ry

	return
}
''', '''	x, y = c.proj_wgs84.forward(north*degToRad, east*degToRad)

	// offset correction and scaling to image
	return (x - c.offx) / c.Rx, (y - c.offy) / c.Ry
}

// forward projects coordinates given in radians to kilometers, y pointing downwards.
func (p *projection) forward(lat, lon float64) (x, y float64) {
	sinLat := math.Sin(lat)
	lon -= p.lon_0

	s := p.k_0 * math.Tan(0.5*(math.Pi/2-lat)) / math.Pow(((1-p.ecc*sinLat)/(1+p.ecc*sinLat)), 0.5*p.ecc)

	x = (p.x_0 + s*math.Sin(lon)) / p.scale
	y = -(p.y_0 - s*math.Cos(lon)) / p.scale
	return
}
'''))
benign("pj-sphere-const", ("projection_sphere.go", '''	rad := func(deg float64) float64 {
		return deg * (math.Pi / 180.0)
	}

	lamda0, phi0 := rad(junctionEast), rad(junctionNorth)
	lamda, phi := rad(east), rad(north)
''', '''	const (
		lamda0 = junctionEast * degToRad
		phi0   = junctionNorth * degToRad
	)
	lamda, phi := east*degToRad, north*degToRad
'''))
benign("pj-dummy", ("radolan.go", '''	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}
	comp.calibrateProjection()
	return
''', '''	comp = new(Composite)
	comp.Product = product
	comp.Dx, comp.Dy = dx, dy
	comp.Format = format
	comp.calibrateProjection()
	return comp
'''))
# ---------------------------------------------------------------- library
R = "radolan.go"
LOOP = '''	for {
		_, err := tarReader.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
'''
benign("ra-errors-is", (R, '''		if err == io.EOF {
			break
		}
''', '''		if errors.Is(err, io.EOF) {
			break
		}
'''), (R, '	"compress/bzip2"\n', '	"compress/bzip2"\n	"errors"\n'))
benign("ra-archive-switch", (R, LOOP, '''entries:
	for {
		switch _, err := tarReader.Next(); err {
		case nil:
		case io.EOF:
			break entries
		default:
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
'''))
benign("ra-archive-wrap", (R, '''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
''', '''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, fmt.Errorf("radolan.NewComposites: %w", err)
		}
'''))
benign("ra-archive-for-init", (R, LOOP, '''	for _, err := tarReader.Next(); err != io.EOF; _, err = tarReader.Next() {
		if err != nil {
			return nil, err
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
'''))
benign("ra-sort-stable", (R, "sort.Slice(cs,", "sort.SliceStable(cs,"))
benign("ra-sort-slices", (R, "	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })\n", "	slices.SortFunc(cs, func(a, b *Composite) int { return a.ForecastTime.Compare(b.ForecastTime) })\n"), (R, '	"sort"\n', '	"slices"\n'))
benign("ra-sort-helper", (R, "	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })\n", "	sortByForecast(cs)\n"), (R, None, '''
// sortByForecast sorts composites in chronological order
func sortByForecast(cs []*Composite) {
	sort.Slice(cs, func(i, j int) bool {
		a, b := cs[i].ForecastTime, cs[j].ForecastTime
		return b.After(a)
	})
}
'''))
benign("ra-composite-steps", (R, '''	err = comp.parseHeader(reader)
	if err != nil {
		return
	}

	err = comp.parseData(reader)
	if err != nil {
		return
	}
	comp.arrangeData()

	comp.calibrateProjection()
''', '''	for _, step := range []func(*bufio.Reader) error{comp.parseHeader, comp.parseData} {
		if err = step(reader); err != nil {
			return
		}
	}
	comp.arrangeData()

	comp.calibrateProjection()
'''))
benign("ra-composite-parse", (R, '''	err = comp.parseHeader(reader)
	if err != nil {
		return
	}

	err = comp.parseData(reader)
	if err != nil {
		return
	}
	comp.arrangeData()

	comp.calibrateProjection()

	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}

	return
''', '''	if err = comp.parse(reader); err != nil {
		return comp, err
	}
	if comp.DataUnit == Unit_unknown {
		return comp, ErrUnknownUnit
	}
	return comp, nil
'''), (R, None, '''
// parse reads header and data.
func (c *Composite) parse(reader *bufio.Reader) error {
	if err := c.parseHeader(reader); err != nil {
		return err
	}
	if err := c.parseData(reader); err != nil {
		return err
	}
	c.arrangeData()
	c.calibrateProjection()
	return nil
}
'''))
benign("ra-newerror", (R, '	return fmt.Errorf("radolan.%s: %s", function, reason)', '	return errors.New("radolan." + function + ": " + reason)'), (R, '	"compress/bzip2"\n	"fmt"\n', '	"compress/bzip2"\n	"errors"\n'))
benign("ra-atz-helper", (R, '''	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {
		return NaN
	}
	return c.DataZ[z][y][x]
''', '''	if !(within(x, c.Dx) && within(y, c.Dy) && within(z, c.Dz)) {
		return NaN
	}
	return c.DataZ[z][y][x]
'''), (R, None, '''
func within(i, n int) bool { return 0 <= i && i < n }
'''))
# ---------------------------------------------------------------- header
H = "header.go"
benign("hd-unit-direct", (H, '''	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	c.DataUnit = unitCatalog[c.Product] // Unit_unknown by default
'''))
benign("hd-unit-else", (H, '''	c.DataUnit = Unit_unknown
	if unit, ok := unitCatalog[c.Product]; ok {
		c.DataUnit = unit
	}
''', '''	unit, ok := unitCatalog[c.Product]
	if !ok {
		unit = Unit_unknown
	}
	c.DataUnit = unit
'''))
LEVEL = '''	if lv, ok := section["LV"]; ok {
		if len(lv) < 2 {
			return newError("parseHeader", "level field too short")
		}

		var cnt int
		if _, err = fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
			return newError("parseHeader", "could not parse level count: "+err.Error())
		}

		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
	}
'''
benign("hd-level-helper", (H, LEVEL, '''	if lv, ok := section["LV"]; ok {
		c.level, err = parseLevels(lv)
		if err != nil {
			return err
		}
	}
'''), (H, None, '''
// parseLevels parses the level table.
func parseLevels(lv string) ([]float32, error) {
	if len(lv) < 2 {
		return nil, newError("parseHeader", "level field too short")
	}

	var cnt int
	if _, err := fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
		return nil, newError("parseHeader", "could not parse level count: "+err.Error())
	}
	lv = lv[2:]

	if len(lv) != cnt*5 { // fortran format I2 + F5.1
		return nil, newError("parseHeader", "invalid level format: "+lv)
	}

	levels := make([]float32, cnt)
	for i := 0; i < cnt; i++ {
		var v float32
		if _, err := fmt.Sscanf(lv[5*i:5*(i+1)], "%f", &v); err != nil {
			return nil, newError("parseHeader", "invalid level value: "+err.Error())
		}
		levels[i] = v
	}
	return levels, nil
}
'''))
benign("hd-level-append", (H, '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		c.level = []float32{}
		for n := 0; n < cnt; n++ {
			var v float32
			beg := 2 + 5*n
			if _, err = fmt.Sscanf(lv[beg:beg+5], "%f", &v); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
			c.level = append(c.level, v)
		}
'''))
benign("hd-level-rest", (H, '''		c.level = make([]float32, cnt)
		for i := range c.level {
			n := i * 5
			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
		}
''', '''		c.level = make([]float32, cnt)
		lv = lv[2:]
		for i := range c.level {
			if _, err = fmt.Sscanf(lv[:5], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
			lv = lv[5:]
		}
'''))
benign("hd-date-concat", (H, '''	date := header[2:8] + header[13:17] // cut WMO number
	c.CaptureTime, err = time.Parse("0215040106", date)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''', '''	ddhhmm, mmyy := header[2:8], header[13:17] // cut WMO number
	captured, err := time.Parse("0215040106", ddhhmm+mmyy)
	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
	c.CaptureTime = captured
'''))
benign("hd-minutes-helper", (H, '''		min := 0
		if _, err := fmt.Sscanf(vv, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
''', '''		ahead, err := minutes(vv)
		if err != nil {
			return newError("parseHeader", "could not parse forecast time: "+err.Error())
		}
		c.ForecastTime = c.CaptureTime.Add(ahead)
'''), (H, '''		min := 0
		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}

		c.Interval = time.Duration(min) * time.Minute
''', '''		if c.Interval, err = minutes(intr); err != nil {
			return newError("parseHeader", "could not parse interval: "+err.Error())
		}
'''), (H, None, '''
// minutes parses a number of minutes.
func minutes(s string) (time.Duration, error) {
	var n int
	_, err := fmt.Sscanf(s, "%d", &n)
	return time.Duration(n) * time.Minute, err
}
'''))
benign("hd-interval-decade", (H, '''		c.Interval = time.Duration(min) * time.Minute
		switch c.Product {
		case "W1", "W2", "W3", "W4":
			c.Interval *= 10
		}
''', '''		unit := time.Minute
		if p := c.Product; p == "W1" || p == "W2" || p == "W3" || p == "W4" {
			unit = 10 * time.Minute
		}
		c.Interval = time.Duration(min) * unit
'''))
benign("hd-terminator", (H, '''	header, err := reader.ReadString('\\x03')
	if err != nil || len(header) < 22 { // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}

	// Split header segments
	section := splitHeader(header[:len(header)-1]) // without delimiter
''', '''	raw, err := reader.ReadBytes('\\x03')
	if err != nil {
		return newError("parseHeader", "header corrupted: no delimiter")
	}
	if len(raw) < 22 { // smaller length makes no sense
		return newError("parseHeader", "header corrupted: too short")
	}
	header := string(raw)

	// Split header segments
	section := splitHeader(header[:len(header)-1]) // without delimiter
'''))
benign("hd-length-local", (H, '''	if _, err := fmt.Sscanf(section["BY"], "%d", &c.dataLength); err != nil {
		return newError("parseHeader", "could not parse data length: "+err.Error())
	}
	c.dataLength -= len(header) // remove header length including delimiter
''', '''	total := 0
	if _, err := fmt.Sscanf(section["BY"], "%d", &total); err != nil {
		return newError("parseHeader", "could not parse data length: "+err.Error())
	}
	c.dataLength = total - len(header) // remove header length including delimiter
'''))
# ---------------------------------------------------------------- data
READROW = '''// readRow reads n bytes.
func readRow(rd *bufio.Reader, n int) ([]byte, error) {
	row := make([]byte, n)
	if _, err := io.ReadFull(rd, row); err != nil {
		return nil, newError("readRow", err.Error())
	}
	return row, nil
}
'''
benign("dt-read-row", ("littleendian.go", '''	line = make([]byte, c.Dx*2)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineLittleEndian", err.Error())
	}
	return
''', '''	return readRow(rd, 2*c.Dx)
'''), ("singlebyte.go", '''	line = make([]byte, c.Dx)
	_, err = io.ReadFull(rd, line)
	if err != nil {
		err = newError("readLineSingleByte", err.Error())
	}
	return
''', '''	return readRow(rd, c.Dx)
'''), ("singlebyte.go", '	"io"\n', ''), ("littleendian.go", None, "\n" + READROW))
benign("dt-whole-image", ("singlebyte.go", '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineSingleByte(reader)
		if err != nil {
			return err
		}

		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}

	return nil
''', '''	for i := len(c.PlainData) - 1; i >= 0; i-- { // write vertically flipped
		line, err := c.readLineSingleByte(reader)
		if err == nil {
			err = c.decodeSingleByte(c.PlainData[i], line)
		}
		if err != nil {
			return err
		}
	}

	return nil
'''))
benign("dt-flipped-index", ("littleendian.go", '''	last := len(c.PlainData) - 1
	for i := range c.PlainData {
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}

		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped
		if err != nil {
			return err
		}
	}
''', '''	for y := c.Py; y > 0; y-- { // bottom row first
		line, err := c.readLineLittleEndian(reader)
		if err != nil {
			return err
		}
		if err := c.decodeLittleEndian(c.PlainData[y-1], line); err != nil {
			return err
		}
	}
'''))
benign("dt-convert-helper", ("littleendian.go", '''	conv := c.rvp6Raw(value) // set decimal point

	// little endian encoded formats are also used for mm/h
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	// Even though this format supports negative values and custom
	// precision they do not make use of this and we still have to subtract
	// the bias and scale it (RADVOR FX, dBZ)
	return toDBZ(conv)
''', '''	return c.scaled(value)
'''), ("singlebyte.go", '''	conv := c.rvp6Raw(int(value)) // set decimal point

	// not sure if single byte formats are even used for other things than dBZ (RX, dBZ)
	if c.DataUnit != Unit_dBZ {
		return conv
	}

	return toDBZ(conv)
''', '''	return c.scaled(int(value))
'''), ("littleendian.go", None, '''
// scaled converts a raw value to the unit of the composite.
func (c *Composite) scaled(raw int) float32 {
	v := c.rvp6Raw(raw) // set decimal point
	if c.DataUnit == Unit_dBZ {
		v = toDBZ(v)
	}
	return v
}
'''))
benign("dt-flag-consts", ("littleendian.go", '''	var value int = 0x0F & int(tuple[1])
	value = (value << 8) + int(tuple[0])

	if tuple[1]&(1<<5) != 0 { // error code: no-data
		return NaN
	}

	if tuple[1]&(1<<6) != 0 { // flag: negative value
		value *= -1
	}
''', '''	const (
		magnitude = 0x0FFF
		missing   = 0x2000
		negative  = 0x4000
	)
	raw := int(tuple[0]) | int(tuple[1])<<8
	if raw&missing != 0 {
		return NaN
	}
	value := raw & magnitude
	if raw&negative != 0 {
		value = -value
	}
'''))
benign("dt-encoding-switch", ("data.go", '''	if c.level != nil {
		return runlength
	}
	if c.dataLength == values*2 {
		return littleEndian
	}
	if c.dataLength == values {
		return singleByte
	}

	return unknown
''', '''	switch {
	case c.level != nil:
		return runlength
	case values*2 == c.dataLength:
		return littleEndian
	case values == c.dataLength:
		return singleByte
	default:
		return unknown
	}
'''))
benign("dt-arrange-layers", ("data.go", '''	if c.Py%c.Dy == 0 { // multiple layers are linked downwards
		c.DataZ = make([][][]float32, c.Py/c.Dy)
		for i := range c.DataZ {
			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers
		}
	} else { // only use bottom most part of plain data
		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation
	}

	c.Dz = len(c.DataZ)
	c.Data = c.DataZ[0] // alias
''', '''	layers := c.Py / c.Dy
	top := 0
	if c.Py%c.Dy != 0 { // only use bottom most part of plain data
		layers = 1
		top = c.Py - c.Dy // strip elevation
	}
	c.DataZ = make([][][]float32, layers)
	for z := 0; z < layers; z++ {
		beg := top + z*c.Dy
		c.DataZ[z] = c.PlainData[beg : beg+c.Dy]
	}

	c.Dz = layers
	c.Data = c.DataZ[0] // alias
'''))
benign("dt-limit-helper", ("data.go", '''	if c.Px <= 0 || c.Py <= 0 {
		return newError("parseData", "parsed header data required")
	}
	if c.Px > maxDimension || c.Py > maxDimension {
		return newError("parseData", "image dimensions exceed limit")
	}
''', '''	for _, d := range [...]int{c.Px, c.Py} {
		if d <= 0 {
			return newError("parseData", "parsed header data required")
		}
		if d > maxDimension {
			return newError("parseData", "image dimensions exceed limit")
		}
	}
'''))
L = "runlength.go"
benign("rl-decode-byte", (L, '''			runlength := int(value >> 4)
			value &= 0x0F

			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			level := c.rvp6Runlength(value & 0x0F)
			for n := value >> 4; n > 0; n-- {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = level
				dstpos++
			}
'''))
benign("rl-end-check", (L, '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			end := dstpos + runlength
			for ; dstpos < end; dstpos++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
			}
'''))
benign("rl-slice-run", (L, '''			for j := 0; j < runlength; j++ {
				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}

				dst[dstpos] = c.rvp6Runlength(value)
				dstpos++
			}
''', '''			if runlength == 0 {
				break
			}
			if dstpos+runlength > len(dst) {
				return newError("decodeRunlength", "destination size exceeded")
			}
			run := dst[dstpos : dstpos+runlength]
			for j := range run {
				run[j] = c.rvp6Runlength(value)
			}
			dstpos += runlength
'''))
benign("rl-readslice", (L, '''	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	if len(line) == 0 {
		return
	}
	return line[:len(line)-1], err
'''))
benign("rl-readstring", (L, '''	line, err = rd.ReadBytes('\\x0A')
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
	return
''', '''	line, err = rd.ReadBytes('\\n')
	if err != nil {
		return nil, newError("readLineRunlength", err.Error())
	}
	return bytes.TrimSuffix(line, []byte{'\\n'}), nil
'''), (L, '	"bufio"\n', '	"bufio"\n	"bytes"\n'))
K = "conversion.go"
