from __main__ import bug
H, D, L, LE, SB, P, R, V, C, CONV, CAT, SPH, WGS = ("header.go", "data.go", "runlength.go", "littleendian.go", "singlebyte.go", "projection.go", "radolan.go",
    "radolan2png/vis/vis.go", "radolan2png/radolan2png.go", "conversion.go", "catalog.go", "projection_sphere.go", "projection_wgs84.go")

bug("b3-alloc-declared", "C02", (SB, '''	line = make([]byte, c.Dx)
''', '''	line = make([]byte, c.dataLength)[:c.Dx]
'''))
bug("b3-alloc-level-neg", "C02|C01", (H, '''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

		c.level = make([]float32, cnt)
''', '''		c.level = make([]float32, cnt)
		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
			return newError("parseHeader", "invalid level format: "+lv)
		}

'''))
bug("b3-minres", "C03", (P, '''	if rdx == 0 || rdy == 0 {
''', '''	if rdx == 0 && rdy != 0 {
'''))
bug("b3-cap-resync", "C03", (L, '''		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
''', '''		for len(line) == 0 { // resync
			line, err = c.readLineRunlength(reader)
		}
		if err != nil {
			return err
		}

		err = c.decodeRunlength(c.PlainData[i], line)
'''))
bug("b3-at-z", "C04", (R, '''z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {''', '''z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz && c.Dz > 0 {'''))
bug("b3-at-neg", "C04", (R, '''	if x < 0 || y < 0 || z < 0 ||''', '''	if x|y < 0 || z < 0 ||'''))
bug("b3-at-swap", "C04", (R, '''	return c.AtZ(x, y, 0)
''', '''	if c.Dz == 0 || x < 0 || x >= c.Dx || y < 0 || y >= c.Dy {
		return NaN
	}
	return c.DataZ[c.Dz-1][y][x]
'''))
bug("b3-rows-extra", "C05", (D, '''	c.PlainData = make([][]float32, c.Py)
''', '''	c.PlainData = make([][]float32, c.Py, c.Py+1)
	if c.Py%2 == 1 {
		c.PlainData = c.PlainData[:c.Py+1]
	}
'''))
bug("b3-data-alias", "C05", (D, '''	c.Data = c.DataZ[0] // alias
''', '''	c.Data = c.PlainData[:c.Dy] // alias
'''))
bug("b3-unknown-early", "C08", (R, '''	comp.calibrateProjection()

	if comp.DataUnit == Unit_unknown {
		err = ErrUnknownUnit
	}

	return
''', '''	if comp.DataUnit == Unit_unknown {
		return comp, ErrUnknownUnit
	}

	comp.calibrateProjection()
	return
'''))
bug("b3-unknown-masks", "C08", (R, '''	err = comp.parseData(reader)
	if err != nil {
		return
	}
''', '''	err = comp.parseData(reader)
	if err != nil {
		if comp.DataUnit == Unit_unknown {
			err = ErrUnknownUnit
		}
		return
	}
'''))
bug("b3-unknown-nil", "C08", (R, '''		err = ErrUnknownUnit
''', '''		comp, err = nil, ErrUnknownUnit
''')) 
bug("b3-archive-capture", "C09", (R, '''cs[i].ForecastTime.Before(cs[j].ForecastTime)''', '''cs[i].CaptureTime.Before(cs[j].CaptureTime)'''))
bug("b3-archive-desc", "C09", (R, '''cs[i].ForecastTime.Before(cs[j].ForecastTime)''', '''!cs[i].ForecastTime.Before(cs[j].ForecastTime)'''))
bug("b3-le-bit7", "C10", (LE, '''	if tuple[1]&(1<<5) != 0 { // error code: no-data
''', '''	if tuple[1]&(1<<5) != 0 || tuple[1]&0xC0 == 0xC0 { // error code: no-data
'''))
bug("b3-le-unit", "C10", (LE, '''	if c.DataUnit != Unit_dBZ {
		return conv
	}
''', '''	if c.DataUnit != Unit_dBZ && c.DataUnit != Unit_unknown {
		return conv
	}
'''))
bug("b3-sb-unit", "C11", (SB, '''	if c.DataUnit != Unit_dBZ {
		return conv
	}
''', '''	if c.DataUnit != Unit_dBZ && c.precision != 0 {
		return conv
	}
'''))
bug("b3-rl-hi", "C12", (L, '''runlength := int(value >> 4)''', '''runlength := int(value>>4) & 0x0F
			if offset && i > 1 {
				runlength = 0
			}'''))
bug("b3-rl-offset-off", "C12", (L, '''			offset = value == 255     // see if next byte will be also offset
''', '''			offset = value == 255 && dstpos < len(dst)
'''))
bug("b3-rl-lo", "C12", (L, '''	return c.level[value]
''', '''	return c.level[int(value)%len(c.level)] + 0*c.level[0]
'''))
bug("b3-rl-fill-zero", "C13", (L, '''		dst[i] = NaN
''', '''		if i > 0 {
			dst[i] = NaN
		}
'''))
bug("b3-rl-silent", "C13", (L, '''				if dstpos >= len(dst) {
					return newError("decodeRunlength", "destination size exceeded")
				}
''', '''				if dstpos >= len(dst) {
					if value == 0 {
						break
					}
					return newError("decodeRunlength", "destination size exceeded")
				}
'''))
bug("b3-rl-offset-min", "C13", (L, '''			if value < 16 {
''', '''			if value < 16 && value > 0 {
'''))
bug("b3-sb-skip-last", "C14|C11", (SB, '''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
	}
''', '''	for i, v := range line {
		dst[i] = c.rvp6SingleByte(v)
		if i > 4000 {
			break
		}
	}
'''))
bug("b3-le-swaprows", "C14", (LE, '''c.decodeLittleEndian(c.PlainData[last-i], line)''', '''c.decodeLittleEndian(c.PlainData[(last-i)^(last&i&1)], line)'''))
bug("b3-prec-default", "C18", (H, '''	// Parse Level''', '''	// Parse Level'''))
bug("b3-prec-def", "C18", (H, '''	if prec, ok := section["E"]; ok { // not that nice
''', '''	if c.DataUnit == Unit_mm && section["INT"] == "" {
		c.precision = -1
	}
	if prec, ok := section["E"]; ok { // not that nice
'''))
bug("b3-level-break", "C20|C18", (H, '''				return newError("parseHeader", "invalid level value: "+err.Error())
''', '''				break
'''))
bug("b3-level-short", "C20", (H, '''		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1
''', '''		if len(lv) < cnt*5+2 || cnt < 0 { // fortran format I2 + F5.1
'''))
bug("b3-dims-dummy", "C20", (D, '''	if c.Px <= 0 || c.Py <= 0 {
''', '''	if c.Px < 0 || c.Py < 0 || c.Px+c.Py == 0 {
'''))
bug("b3-lv-err", "C20", (H, '''		if _, err = fmt.Sscanf(lv[:2], "%d", &cnt); err != nil {
			return newError(''', '''		if _, err = fmt.Sscanf(lv[:2], "%d", &cnt); err != nil && lv[:2] != "  " {
			return newError('''))
bug("b3-capture-default", "C20", (H, '''	if err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
''', '''	if err != nil && date != "0000000000" {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
'''))
bug("b3-bg-e", "C20", (H, '''		if _, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil {
''', '''		if n, err := fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx); err != nil && n < 2 && c.Dy <= 0 {
'''))
bug("b3-gp-local", "C17", (H, '''	if dim, ok := section["GP"]; ok {
''', '''	if _, local := dimensionCatalog[c.Product]; local && len(section["GP"]) < 3 {
		v := dimensionCatalog[c.Product]
		c.Px, c.Py = v.px, v.py
		c.Dx, c.Dy = v.dx, v.dy
		c.Rx, c.Ry = v.rx, v.ry
	} else if dim, ok := section["GP"]; ok {
'''))
bug("b3-bg-both", "C17", (H, '''	} else if dim, ok := section["BG"]; ok {
''', '''	} else if dim, ok := section["BG"]; ok && dimensionCatalog[c.Product].px == 0 {
'''))
bug("b3-split-lower", "C19", (H, '''			if i == 0 {
				return // no key prefixing value
			}
''', '''			if i == 0 && c != ' ' {
				return // no key prefixing value
			}
'''))
bug("b3-zr-joss", "C24", (CONV, '''NewZR(300, 1.50)''', '''NewZR(300, 1.40)'''))
bug("b3-zr-clamp", "C24", (CONV, '''	c4 := 10.0 * math.Log10(A)
''', '''	c4 := 10.0 * math.Log10(A)
	if A < 1 {
		c4 = 0
	}
'''))
bug("b3-toDBZ-neg", "C23", (CONV, '''	return rvp6/2.0 - 32.5
''', '''	if rvp6 < 0 {
		return -32.5
	}
	return rvp6/2.0 - 32.5
''')) 
bug("b3-img-missing", "C32", (V, '''	if layer < 0 || layer >= c.Dz {
		return img
	}
''', '''	if layer < 0 || layer >= c.Dz {
		for i := 3; i < len(img.Pix); i += 4 {
			img.Pix[i] = 0xFF
		}
		return img
	}
'''))
bug("b3-img-empty", "C32", (V, '''	if layer < 0 || layer >= c.Dz {
		return img
	}
''', '''	if layer < 0 || layer >= c.Dz {
		return image.NewRGBA(image.Rect(0, 0, 0, 0))
	}
'''))
bug("b3-img-neg", "C32|C03|C01", (V, '''	if layer < 0 || layer >= c.Dz {
		return img
	}
''', '''	if layer < 0 {
		layer = 0
	}
	if layer >= c.Dz {
		return img
	}
'''))
bug("b3-img-alpha", "C32", (V, '''			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
''', '''			if col := fn(float64(c.DataZ[layer][y][x])); col.R|col.G|col.B != 0 {
				img.Set(x, y, col)
			}
'''))
bug("b3-grid-format", "C25", (P, '''	if c.Format >= 5 {
		if detectedGrid''', '''	if c.Format == 5 {
		if detectedGrid'''))
bug("b3-corner-me", "C26", (P, '''originTop, originLeft = 56.5423, -0.8654''', '''originTop, originLeft = 56.5432, -0.8654'''))
bug("b3-res-sq", "C26", (P, '''	c.Ry = (resy) / float64(c.Dy)
''', '''	c.Ry = (resy) / float64(c.Dy)
	if c.Dx != c.Dy {
		c.Rx = (resx) / float64(c.Dx-c.Dx%2)
	}
'''))
bug("b3-offx-order", "C26", (P, '''	c.offx = 0.0
	c.offy = 0.0
''', '''	c.offx = 0.0
	c.offy = 1e-3
'''))
bug("b3-wgs-k0", "C27", (WGS, '''	k_0:   11862667.042661695,''', '''	k_0:   11862667.042661695 * 1.0001,'''))
bug("b3-proj-early", "C28", (P, '''	if !c.HasProjection {
		x, y = math.NaN(), math.NaN()
		return
	}
''', '''	if !c.HasProjection && c.Dz > 0 {
		x, y = math.NaN(), math.NaN()
		return
	}
'''))
bug("b3-cmd-care", "C35", (C, '''	outfile, err := os.Create(out)
	care(err)
''', '''	outfile, err := os.Create(out)
	if os.IsExist(err) {
		return
	}
	care(err)
'''))
bug("b3-cmd-open", "C35|C45", (C, '''	infile, err := os.Open(in)
	care(err)
''', '''	infile, err := os.Open(in)
	if err != nil {
		infile = os.Stdin
	}
'''))
bug("b3-cmd-mm", "C36", (C, '''	case radolan.Unit_km:
		heatmap''', '''	case radolan.Unit_km, radolan.Unit_unknown:
		heatmap''')) 
bug("b3-cmd-dbz", "C36", (C, '''		heatmap = vis.HeatmapReflectivity
''', '''		heatmap = vis.HeatmapReflectivity
		if comp.Product == "RX" {
			heatmap = vis.HeatmapReflectivityWide
		}
'''))
bug("b3-cmd-order", "C37", (C, '''		for _, b := range border {
''', '''		for i, b := range border {
			if i%len(border) == 0 && comp.Dx < 100 {
				continue
			}
'''))
bug("b3-cmd-54", "C37", (C, '''n := 460; n < 550; n++''', '''n := 460; n < 549; n++'''))
bug("b3-gray-low", "C34|C33", (V, '''		if val < min {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}

		p := (val - min) / (max - min)
		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l''', '''		p := (val - min) / (max - min)
		if p != p || p < -1 { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 {
			p = 1
		}

		l'''))
bug("b3-heat-nan-hue", "C34|C33", (V, '''		if p != p { // no data
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
		if p > 1 { // limit
			p = 1
		}
		h :=''', '''		if p != p { // no data
			p = 0
		}
		if p > 1 { // limit
			p = 1
		}
		h :='''))
bug("b3-radial-nan", "C34|C33", (V, '''		if val != val {
			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black
		}
''', '''		if val != val {
			return color.RGBA{0x00, 0x00, 0x00, 0x00}
		}
'''))
bug("b3-radial-inf", "C34|C33", (V, '''		if p > 1 {
			p = 1
		}
		lev := uint8(0xFF * p)
''', '''		if p > 1 && p < 1e6 {
			p = 1
		}
		lev := uint8(0xFF * p)
'''))
bug("b3-accept-dimlimit", "C40", (D, '''const maxDimension = 1 << 13''', '''const maxDimension = 4000'''))
bug("b3-accept-prec", "C40|C18", (H, '''			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
''', '''			return newError("parseHeader", "could not parse precision: "+err.Error())
		}
		if c.precision > 0 {
			return newError("parseHeader", "implausible precision")
		}
'''))
bug("b3-accept-fc", "C40", (H, '''		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
''', '''		if min%5 != 0 {
			return newError("parseHeader", "implausible forecast time")
		}
		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)
'''))
bug("b3-accept-rl", "C40", (L, '''		case i == 0: // skip useless line number
''', '''		case i == 0: // skip useless line number
			if value > 127 {
				return newError("decodeRunlength", "invalid line number")
			}
'''))
bug("b3-accept-area", "C40", (D, '''	if c.Px > maxDimension || c.Py > maxDimension {
''', '''	if c.Px > maxDimension || c.Py > maxDimension || c.Px*c.Py > 1<<22 {
'''))
bug("b3-accept-len", "C40|C15", (D, '''	if c.dataLength == values {
''', '''	if c.dataLength == values && c.precision == 0 {
'''))
bug("b3-accept-unit", "C40|C08", (D, '''	if c.dataLength == values*2 {
''', '''	if c.dataLength == values*2 && c.DataUnit != Unit_mps {
'''))
