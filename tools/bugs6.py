from __main__ import bug
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

bug("b6-le-line-reuse", "C14|C10", (LE, "	last := len(c.PlainData) - 1\n", "	last := len(c.PlainData) - 1\n	var prev []byte\n"), (LE, '''		err = c.decodeLittleEndian(c.PlainData[last-i], line)''', '''		if len(line) > 1 && line[0] == 0xFF && line[1] == 0xFF && prev != nil {
			line = prev // damaged row
		}
		prev = line
		err = c.decodeLittleEndian(c.PlainData[last-i], line)'''))
bug("b6-rl-level-shared", "C29", (R, "	level     []float32", "	level     []float32"), (H, "		c.level = make([]float32, cnt)\n", "		if cap(levelBuf) < cnt {\n			levelBuf = make([]float32, cnt)\n		}\n		c.level = levelBuf[:cnt]\n"), (H, "// parseHeader parses", "var levelBuf []float32\n\n// parseHeader parses"))
bug("b6-nan-mutable", "C29|C46|C12", (L, "		dst[i] = NaN\n", "		dst[i] = NaN\n		if NaN == NaN {\n			NaN = 0\n		}\n"))
bug("b6-grid-order", "C25", (P, "	if mx, my := minRes(900, 900); dx == mx && dy == my {\n", "	if mx, my := minRes(900, 900); dx%mx == 0 && dx == dy && dx > 0 && dx <= 225*3 {\n		_ = my\n"))
bug("b6-corner-lat", "C26", (P, "originTop, originLeft = 56.5423, -0.8654", "originTop, originLeft = 56.5423, 0.8654"))
bug("b6-res-abs", "C26", (P, "	c.Ry = (resy) / float64(c.Dy)\n", "	c.Ry = (resy) / float64(c.Dx)\n"))
bug("b6-sphere-lat-clip", "C27", (SPH, "	lamda, phi := rad(east), rad(north)\n", "	lamda, phi := rad(east), rad(math.Min(north, 58))\n"))
bug("b6-dz-data", "C05", (D, "	c.Data = c.DataZ[0] // alias\n", "	c.Data = c.DataZ[c.Dz-1] // alias\n"))
bug("b6-at-mask", "C04", (R, "	return c.AtZ(x, y, 0)\n", "	return c.AtZ(x, y, c.Dz-1)\n"))
bug("b6-vv-hours", "C16", (H, "c.CaptureTime.Add(time.Duration(min) * time.Minute)", "c.CaptureTime.Add(time.Duration(min%1440) * time.Minute)"))
bug("b6-vv-32", "C16", (H, '''		min := 0
		if _, err := fmt.Sscanf(vv,''', '''		var min int8
		if _, err := fmt.Sscanf(vv,'''))
bug("b6-by-header", "C15|C18", (H, "	c.dataLength -= len(header) // remove", "	c.dataLength -= len(strings.TrimSpace(header)) // remove"), (H, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
bug("b6-hd-lower-x", "C17|C40|C20", (H, '"%dx%d"', '"%dx%dkm"'))
bug("b6-hd-vs-hex", "C18", (H, 'fmt.Sscanf(vs, "%d", &c.Format)', 'fmt.Sscanf(vs, "%v", &c.Format)'))
bug("b6-hd-level-f64", "C18", (H, '''			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
''', '''			if _, err = fmt.Sscanf(lv[n+2:n+7], "%f", &c.level[i]); err != nil {
				if strings.TrimSpace(lv[n+2:n+7]) == "" {
					continue // unused level
				}
				return newError("parseHeader", "invalid level value: "+err.Error())
			}
'''), (H, '	"fmt"\n', '	"fmt"\n	"strings"\n'))
bug("b6-cat-px", "C22", (CAT, '	"PZ": {200, 2400, 200, 200, 2, 2}', '	"PZ": {200, 2400, 200, 200, 2, 1}'))
bug("b6-img-col", "C32", (V, "	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n", "	for y := range c.DataZ[layer] {\n		for x := 0; x < c.Dx && x < len(c.DataZ); x++ {\n"))
bug("b6-img-parallel", "C29|C42", (V, "	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n", '''	var wg sync.WaitGroup
	for y := 0; y < c.Dy; y++ {
		wg.Add(1)
		go func(y int) {
			defer wg.Done()
			for x := 0; x < c.Dx; x++ {
				img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
			}
		}(y)
	}
	wg.Wait()
'''), (V, '	"math"\n', '	"math"\n	"sync"\n'))
bug("b6-gray-round", "C33|C34|C44", (V, "		l := uint8(0xFF * p)\n", "		l := uint8(0x100 * p)\n"))
bug("b6-heat-log-swap", "C43|C36", (V, "	HeatmapAccumulatedDay = Heatmap(0.1, 200, Log)", "	HeatmapAccumulatedDay = Heatmap(0.1, 200, math.Log1p)"))
bug("b6-radial-base-max", "C34|C44", (V, "math.Max(math.Abs(min), math.Abs(max))", "math.Min(math.Abs(min), math.Abs(max))"))
bug("b6-cm-dbz-short", "C36", (C, "		heatmap = vis.HeatmapReflectivity\n", "		heatmap = vis.HeatmapReflectivity\n		if comp.Interval > 0 {\n			heatmap = vis.HeatmapReflectivityShort\n		}\n"))
bug("b6-cm-nounit", "C45", (C, "	case radolan.Unit_dBZ:\n", "	case radolan.Unit_dBZ, radolan.Unit_unknown:\n"))
bug("b6-cm-rename", "C45|C35", (C, "	outfile, err := os.Create(out)\n", "	os.Rename(out, out+\"~\")\n	outfile, err := os.Create(out)\n"))
bug("b6-cm-mesh-list", "C37", (C, '''		for e := 10; e < 160; e++ { // 0.1 degree steps
			for n := 460; n < 550; n++ {
				if e%10 == 0 || n%10 == 0 {
					x, y := comp.Project(float64(n)/10, float64(e)/10)
					img.Set(int(x), int(y), meshColor)
				}
			}
		}
''', '''		for _, pt := range meshPoints() {
			x, y := comp.Project(pt[0], pt[1])
			img.Set(int(x), int(y), meshColor)
		}
'''), (C, "// care exits", '''func meshPoints() [][2]float64 {
	var pts [][2]float64
	for e := 10; e < 160; e++ { // 0.1 degree steps
		for n := 460; n < 550; n++ {
			if e%10 == 0 || n%10 == 0 && e > 10 {
				pts = append(pts, [2]float64{float64(n) / 10, float64(e / 10)})
			}
		}
	}
	return pts
}

// care exits'''))
bug("b6-archive-limit", "C09", (R, "		cs = append(cs, c)\n", "		if len(cs) < 1000 {\n			cs = append(cs, c)\n		}\n"))
bug("b6-archive-err-eof", "C09|C06", (R, '''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
''', '''		c, err := NewComposite(tarReader)
		if err != nil {
			return cs, err
		}
'''))
bug("b6-err-shadow", "C06|C08|C20", (R, '''	err = comp.parseData(reader)
	if err != nil {
		return
	}
''', '''	if err := comp.parseData(reader); err != nil && comp.DataUnit != Unit_unknown {
		return comp, err
	}
'''))
bug("b6-rl-empty", "C06|C12", (L, '''	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
''', '''	if err != nil && len(line) == 0 {
		err = newError("readLineRunlength", err.Error())
	} else {
		err = nil
	}
'''))
bug("b6-string-default", "C39", (CAT, '''	return []string{"unknown unit", "mm", "dBZ", "km", "m/s"}[u]
''', '''	names := []string{"unknown unit", "mm", "dBZ", "km", "m/s"}
	return names[int(u)%(len(names)-1)]
'''))
bug("b6-dummy-format", "C41|C28", (R, "	comp.calibrateProjection()\n	return\n}\n\n// At", '''	if product != "" {
		comp.calibrateProjection()
	}
	return
}

// At'''))
