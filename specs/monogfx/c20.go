package ibeam_lib_monogfx

// ---- C20: text metrics bound the ink; rendering is translation and scale consistent
//
// Character level: DrawChar is compared with itself (size 1 at another position) for an arbitrary pixel, for every stored character.
// Step level: writeChar advances the cursor by exactly its glyph and draws it exactly once at the cursor.
// String level: RenderText and StrWidth are folds of the same step over the same characters; the box and the relations follow by the invariants below.

// vMul: k*h for 0 <= k <= 9, linear in h
func vMul(k, h int) int {
	switch k {
	case 0:
		return 0
	case 1:
		return h
	case 2:
		return 2 * h
	case 3:
		return 3 * h
	case 4:
		return 4 * h
	case 5:
		return 5 * h
	case 6:
		return 6 * h
	case 7:
		return 7 * h
	case 8:
		return 8 * h
	}
	return 9 * h
}

// the canvas is large enough that the character cell at (x,y) is not clipped
func vRoom(img *MonoImg, x, y, h, v int) bool {
	return VInv(img) && img.bbox_x == 0 && img.bbox_y == 0 && img.bbox_width == img.Width && img.bbox_height == img.Height &&
		x >= 0 && y >= 0 && x+9*h < img.Width && y+9*v < img.Height
}

func vScale(img *MonoImg, fontNum int, prop bool, c byte, x, y, x1, y1, h, v int, k, r, dx, dy int, color bool) {
	vAssume(h >= 1 && h < 1<<10 && v >= 1 && v < 1<<10 && vRoom(img, x, y, h, v) && vRoom(img, x1, y1, 1, 1))
	img.SetFont(fontNum, prop)
	vAbstract(img.imgBytes)
	w, lh := int(img.GetCharWidth(c)), int(img.fontBBHeight)
	// an arbitrary pixel relative to the cursor, as cell (k,r) plus offset (dx,dy) inside the enlarged cell
	vAssume(k >= 0 && k < w && r >= 0 && r < lh && dx >= 0 && dx < h && dy >= 0 && dy < v)
	keep := color == img.invertPixels
	VGX, VGY, VGPix = x1+k, y1+r, keep
	img.DrawChar(x1, y1, c, color, color, 1, 1)
	lit1 := VGPix != keep
	VGX, VGY, VGPix = x+vMul(k, h)+dx, y+vMul(r, v)+dy, keep
	img.DrawChar(x, y, c, color, color, h, v)
	lit2 := VGPix != keep
	vReach("renders at both sizes")
	vAssert("the enlarged rendering is the size 1 rendering enlarged, wherever the cursor is", lit1 == lit2)
}

//govc:unit C20
//govc:enum fontNum=0..2
//govc:enum prop=0..1
//govc:enum c=32..127
//govc:shards 8
//govc:nosafety
//govc:replace MonoImg.DrawPixel=ct_DrawPixel MonoImg.FillRect=ct_FillRect
func vc_GlyphScale(img *MonoImg, fontNum int, prop bool, c byte, x, y, x1, y1, h, v int, k, r, dx, dy int, color bool) {
	vScale(img, fontNum, prop, c, x, y, x1, y1, h, v, k, r, dx, dy, color)
}

// characters without a stored glyph: one symbolic character stands for all
//govc:unit C20
//govc:enum fontNum=0..2
//govc:enum prop=0..1
//govc:replace MonoImg.DrawPixel=ct_DrawPixel MonoImg.FillRect=ct_FillRect
func vc_GlyphScaleUnknown(img *MonoImg, fontNum int, prop bool, c byte, x, y, x1, y1, h, v int, k, r, dx, dy int, color bool) {
	vAssume(c < 32 || c > 127)
	vScale(img, fontNum, prop, c, x, y, x1, y1, h, v, k, r, dx, dy, color)
}

// ghost record of the character drawn
var VGDrawn, VGDX, VGDY, VGDH, VGDV int
var VGDC byte
var VGDCol, VGDBg bool

func ct_DrawCharRec(img *MonoImg, x int, y int, c byte, color bool, bg bool, textsizeH int, textsizeV int) {
	VGDrawn++
	VGDX, VGDY, VGDH, VGDV, VGDC, VGDCol, VGDBg = x, y, textsizeH, textsizeV, c, color, bg
}

// writeChar: exactly one glyph at the cursor, then the cursor advances by glyph width times size plus spacing
//govc:unit C20 C18
//govc:enum fontNum=0..2
//govc:replace MonoImg.DrawChar=ct_DrawCharRec MonoImg.GetCharWidth=ct_GetCharWidth
func vc_writeChar(img *MonoImg, fontNum int, prop bool, c byte) {
	img.SetFont(fontNum, prop)
	vAssume(vSmall(img.cursor_x) && vSmall(img.cursor_y) && img.textsizeH >= 1 && img.textsizeH < 1<<20 && img.textsizeV > -1<<20 && img.textsizeV < 1<<20)
	vAssume(vGlyph(img, c))
	VGDrawn = 0
	cx, cy, h, vv, sp, ls := img.cursor_x, img.cursor_y, img.textsizeH, img.textsizeV, int(img.charSpacingCompensation), int(img.lineSpacingCompensation)
	col, bg := img.textcolor, img.textbgcolor
	img.writeChar(c)
	vReach("returns")
	if c == 10 {
		vAssert("line feed draws nothing and starts a new line", VGDrawn == 0 && img.cursor_x == 0 && img.cursor_y == cy+vv*int(img.fontBBHeight)+ls)
	} else if c == 13 {
		vAssert("carriage return is ignored", VGDrawn == 0 && img.cursor_x == cx && img.cursor_y == cy)
	} else {
		vAssert("one glyph is drawn at the cursor with the current size and colour", VGDrawn == 1 && VGDX == cx && VGDY == cy && VGDH == h && VGDV == vv && VGDC == c && VGDCol == col && VGDBg == bg)
		vAssert("the cursor advances by the glyph width times the size plus the spacing", img.wrap || img.cursor_x == cx+h*int(VGW)+sp && img.cursor_y == cy)
	}
	vAssert("writeChar keeps size, spacing and colour", img.textsizeH == h && img.textsizeV == vv && int(img.charSpacingCompensation) == sp && img.textcolor == col && img.textbgcolor == bg)
}

// VGSum: advance of the characters seen so far; VGCount: their number
var VGSum, VGCount int

func ct_GetCharWidthSum(img *MonoImg, c byte) byte {
	w := vAnyByte("glyph width of " + "character")
	vAssume(w >= 1 && w <= img.fontBBWidth+1)
	VGSum += int(w)*img.textsizeH + int(img.charSpacingCompensation)
	VGCount++
	return w
}

// StrWidth is the sum of the advances minus one size step; nothing is changed
//govc:unit C20
//govc:replace MonoImg.GetCharWidth=ct_GetCharWidthSum
func vc_StrWidth(img *MonoImg, str string) {
	VGSum, VGCount = 0, 0
	vAssume(img.textsizeH >= 1 && img.textsizeH < 1<<20)
	vInvariant("StrWidth", func(width int) bool { return width == VGSum })
	h := img.textsizeH
	w := img.StrWidth(str)
	vReach("returns")
	vAssert("string width is the sum of the character advances minus one size step", w == VGSum-h)
}

//govc:unit C20
//govc:enum fontNum=0..2
func vc_LineHeight(img *MonoImg, fontNum int, prop bool) {
	img.SetFont(fontNum, prop)
	vAssume(img.textsizeV >= 1 && img.textsizeV < 1<<20)
	r := img.LineHeight()
	vReach("returns")
	vAssert("line height covers one enlarged cell", int(r) == img.textsizeV*int(img.fontBBHeight)+int(img.lineSpacingCompensation))
}

// VGX0, VGY0: cursor before rendering
var VGX0, VGY0 int

// contract of writeChar without wrapping for a character other than CR/LF: ink inside its cell, cursor advanced by the same amount StrWidth counts
func ct_writeCharInk(img *MonoImg, c byte) {
	if c == 13 {
		VGSum += vAdvance(img) // StrWidth counts a carriage return as well
		return
	}
	a := vAdvance(img)
	if VGX >= img.cursor_x && VGX < img.cursor_x+a && VGY >= img.cursor_y && VGY < img.cursor_y+int(img.LineHeight()) && vAnyBool("glyph pixel") {
		VGPix = vAnyBool("its value")
	}
	img.cursor_x += a
	VGSum += a
}
func vAdvance(img *MonoImg) int {
	a := vAnyInt("advance")
	vAssume(a >= 0 && a < 1<<40)
	return a
}

// the ink of a string lies in the box [cursor, cursor + sum of advances) x [cursor, cursor + line height)
//govc:unit C20
//govc:replace MonoImg.writeChar=ct_writeCharInk
func vc_RenderTextBox(img *MonoImg, str string) {
	vAssume(vSmall(img.cursor_x) && vSmall(img.cursor_y) && img.textsizeV >= 1 && img.textsizeV < 1<<20)
	VGSum = 0
	before := VGPix
	x0, y0, lh := img.cursor_x, img.cursor_y, int(img.LineHeight())
	vInvariant("RenderText", func() bool {
		return img.cursor_x >= x0 && img.cursor_x <= x0+VGSum && img.cursor_y == y0 &&
			(VGPix == before || VGX >= x0 && VGX < x0+VGSum && VGY >= y0 && VGY < y0+lh)
	})
	img.RenderText(str)
	vReach("returns")
	vAssert("ink lies inside the box of the summed advances and the line height", VGPix == before || VGX >= x0 && VGX < x0+VGSum && VGY >= y0 && VGY < y0+lh)
}

// one step of the simulation between a size 1 rendering and an enlarged one at another cursor: the enlarged cursor stays at the enlarged offset
//govc:unit C20
//govc:enum fontNum=0..2
//govc:replace MonoImg.DrawChar=ct_DrawCharRec MonoImg.GetCharWidth=ct_GetCharWidth
func vc_StepScale(a, b *MonoImg, fontNum int, prop bool, c byte, ax, bx int) {
	a.SetFont(fontNum, prop)
	b.SetFont(fontNum, prop)
	vAssume(c != 10 && !a.wrap && !b.wrap && a.textsizeH == 1 && b.textsizeH >= 1 && b.textsizeH < 1<<10)
	vAssume(a.charSpacingCompensation == 0 && b.charSpacingCompensation == 0)
	vAssume(vSmall(a.cursor_x) && vSmall(b.cursor_x) && vSmall(ax) && vSmall(bx) && vGlyph(a, c))
	vAssume(b.cursor_x-bx == b.textsizeH*(a.cursor_x-ax))
	h, ay, by := b.textsizeH, a.cursor_y, b.cursor_y
	VGDrawn = 0
	a.writeChar(c)
	n1 := VGDrawn
	dx := VGDX
	b.writeChar(c)
	vReach("both steps return")
	vAssert("both renderings draw the same glyph or none", VGDrawn == 2*n1)
	vAssert("the enlarged glyph is drawn at the enlarged offset", n1 == 0 || VGDX-bx == h*(dx-ax))
	vAssert("the cursors stay related", b.cursor_x-bx == h*(a.cursor_x-ax) && a.cursor_y == ay && b.cursor_y == by)
}

// one step of the translation simulation, any spacing
//govc:unit C20
//govc:enum fontNum=0..2
//govc:replace MonoImg.DrawChar=ct_DrawCharRec MonoImg.GetCharWidth=ct_GetCharWidth
func vc_StepMove(a, b *MonoImg, fontNum int, prop bool, c byte, d, e int) {
	a.SetFont(fontNum, prop)
	b.SetFont(fontNum, prop)
	vAssume(c != 10 && !a.wrap && !b.wrap && a.textsizeH == b.textsizeH && a.textsizeH >= 1 && a.textsizeH < 1<<10)
	vAssume(a.charSpacingCompensation == b.charSpacingCompensation)
	vAssume(vSmall(a.cursor_x) && vSmall(b.cursor_x) && vSmall(a.cursor_y) && vSmall(d) && vSmall(e) && vGlyph(a, c))
	vAssume(b.cursor_x == a.cursor_x+d && b.cursor_y == a.cursor_y+e)
	VGDrawn = 0
	a.writeChar(c)
	n1 := VGDrawn
	dx, dy := VGDX, VGDY
	b.writeChar(c)
	vReach("both steps return")
	vAssert("both renderings draw the same glyph or none", VGDrawn == 2*n1)
	vAssert("the glyph is drawn at the moved position", n1 == 0 || VGDX == dx+d && VGDY == dy+e)
	vAssert("the cursors stay related", b.cursor_x == a.cursor_x+d && b.cursor_y == a.cursor_y+e)
}

// RenderText hands the characters to writeChar one by one, in order, and does nothing else
func ct_writeCharSeq(img *MonoImg, c byte) { VGCount++ }

//govc:unit C20
//govc:replace MonoImg.writeChar=ct_writeCharSeq
func vc_RenderTextFold(img *MonoImg, str string) {
	VGCount = 0
	cx, cy := img.cursor_x, img.cursor_y
	img.RenderText(str)
	vReach("returns")
	vAssert("RenderText itself moves no cursor", img.cursor_x == cx && img.cursor_y == cy)
}
