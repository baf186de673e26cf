package ibeam_lib_monogfx

// ---- C16: drawing never escapes the canvas or its clip region

// VGX, VGY: one arbitrary pixel of the canvas (physical coordinates); VGPix: its current value.
// A drawing function is verified for every choice of that pixel, hence for all pixels.
var VGX, VGY int
var VGPix bool

const vBig = 1 << 40 // coordinates and sizes stay below this bound: no 64-bit overflow

func vSmall(v int) bool { return v > -vBig && v < vBig }

// the data structure invariant of a canvas
func VInv(img *MonoImg) bool {
	return img.Width >= 0 && img.Width < 1<<20 && img.Height >= 0 && img.Height < 1<<20 &&
		img.widthInBytes*8 >= img.Width && img.widthInBytes*8 < img.Width+8 &&
		len(img.imgBytes) == img.widthInBytes*img.Height &&
		vSmall(img.bbox_x) && vSmall(img.bbox_y) && vSmall(img.bbox_width) && vSmall(img.bbox_height)
}

// the pixel (px,py) lies on the canvas and inside the clip rectangle
func VClip(img *MonoImg, px, py int) bool {
	return px >= 0 && px < img.Width && py >= 0 && py < img.Height &&
		px >= img.bbox_x && px < img.bbox_x+img.bbox_width &&
		py >= img.bbox_y && py < img.bbox_y+img.bbox_height
}

// VBit: bit of the buffer at physical column cx (padding columns included) of row cy
func VBit(img *MonoImg, cx, cy int) bool {
	return img.imgBytes[cy*img.widthInBytes+cx/8]&(128>>(cx%8)) > 0
}

// DrawPixel against the byte buffer, for an arbitrary bit (cx,cy) of it, padding included.
//govc:unit C16 C17 C18
func vc_DrawPixel(img *MonoImg, x, y int, color bool, cx, cy int) {
	vAssume(VInv(img) && vSmall(x) && vSmall(y))
	vAssume(cy >= 0 && cy < img.Height && cx >= 0 && cx < img.widthInBytes*8)
	before := VBit(img, cx, cy)
	w, h, wb, n := img.Width, img.Height, img.widthInBytes, len(img.imgBytes)
	bx, by, bw, bh, inv := img.bbox_x, img.bbox_y, img.bbox_width, img.bbox_height, img.invertPixels
	img.DrawPixel(x, y, color)
	after := VBit(img, cx, cy)
	vReach("DrawPixel returns")
	hit := cx == x+img.bbox_x && cy == y+img.bbox_y && VClip(img, cx, cy)
	vAssert("DrawPixel sets exactly the clipped addressed pixel", !hit || after == (color != img.invertPixels))
	vAssert("DrawPixel changes no other bit of the buffer", hit || after == before)
	vAssert("DrawPixel keeps canvas size", img.Width == w && img.Height == h && img.widthInBytes == wb && len(img.imgBytes) == n)
	vAssert("DrawPixel keeps clip state", img.bbox_x == bx && img.bbox_y == by && img.bbox_width == bw && img.bbox_height == bh && img.invertPixels == inv)
}

// contract used by callers of DrawPixel
func ct_DrawPixel(img *MonoImg, x int, y int, color bool) {
	vRequire("DrawPixel is called with coordinates below 2^40", vSmall(x) && vSmall(y))
	if x+img.bbox_x == VGX && y+img.bbox_y == VGY && VClip(img, VGX, VGY) {
		VGPix = color != img.invertPixels
	}
}

func vRect(img *MonoImg, x, y, w, h int) bool {
	lx, ly := VGX-img.bbox_x, VGY-img.bbox_y
	return lx >= x && lx < x+w && ly >= y && ly < y+h
}

//govc:unit C16 C18
//govc:replace MonoImg.DrawPixel=ct_DrawPixel
func vc_DrawFastVLine(img *MonoImg, x, y, h int, color bool) {
	vAssume(VInv(img) && vSmall(x*4) && vSmall(y*4) && vSmall(h*4))
	vAbstract(img.imgBytes)
	before := VGPix
	img.DrawFastVLine(x, y, h, color)
	vReach("returns")
	hit := vRect(img, x, y, 1, h) && VClip(img, VGX, VGY)
	vAssert("VLine sets exactly the clipped pixels of the line", VGPix == (hit && color != img.invertPixels || !hit && before))
}

//govc:unit C16 C18
//govc:replace MonoImg.DrawPixel=ct_DrawPixel
func vc_DrawFastHLine(img *MonoImg, x, y, w int, color bool) {
	vAssume(VInv(img) && vSmall(x*4) && vSmall(y*4) && vSmall(w*4))
	vAbstract(img.imgBytes)
	before := VGPix
	img.DrawFastHLine(x, y, w, color)
	vReach("returns")
	hit := vRect(img, x, y, w, 1) && VClip(img, VGX, VGY)
	vAssert("HLine sets exactly the clipped pixels of the line", VGPix == (hit && color != img.invertPixels || !hit && before))
}

func ct_DrawFastVLine(img *MonoImg, x, y, h int, color bool) {
	vRequire("DrawFastVLine is called with coordinates below 2^38", vSmall(x*4) && vSmall(y*4) && vSmall(h*4))
	if vRect(img, x, y, 1, h) && VClip(img, VGX, VGY) {
		VGPix = color != img.invertPixels
	}
}
func ct_DrawFastHLine(img *MonoImg, x, y, w int, color bool) {
	vRequire("DrawFastHLine is called with coordinates below 2^38", vSmall(x*4) && vSmall(y*4) && vSmall(w*4))
	if vRect(img, x, y, w, 1) && VClip(img, VGX, VGY) {
		VGPix = color != img.invertPixels
	}
}

//govc:unit C16 C18
//govc:replace MonoImg.DrawPixel=ct_DrawPixel MonoImg.DrawFastVLine=ct_DrawFastVLine MonoImg.DrawFastHLine=ct_DrawFastHLine
func vc_FillRect(img *MonoImg, x, y, w, h int, color bool) {
	vAssume(VInv(img) && vSmall(x*8) && vSmall(y*8) && vSmall(w*8) && vSmall(h*8))
	vAbstract(img.imgBytes)
	before := VGPix
	img.FillRect(x, y, w, h, color)
	vReach("returns")
	hit := vRect(img, x, y, w, h) && VClip(img, VGX, VGY)
	vAssert("FillRect sets exactly the clipped pixels of the rectangle", VGPix == (hit && color != img.invertPixels || !hit && before))
}

func ct_FillRect(img *MonoImg, x, y, w, h int, color bool) {
	vRequire("FillRect is called with coordinates below 2^37", vSmall(x*8) && vSmall(y*8) && vSmall(w*8) && vSmall(h*8))
	if vRect(img, x, y, w, h) && VClip(img, VGX, VGY) {
		VGPix = color != img.invertPixels
	}
}

//govc:unit C16 C18
//govc:replace MonoImg.DrawPixel=ct_DrawPixel MonoImg.DrawFastVLine=ct_DrawFastVLine MonoImg.DrawFastHLine=ct_DrawFastHLine
func vc_DrawCircleHelper(img *MonoImg, x0, y0, r, corner int, color bool) {
	vAssume(VInv(img) && vSmall(x0*16) && vSmall(y0*16) && vSmall(r*16) && corner >= 0 && corner < 256)
	vAbstract(img.imgBytes)
	before := VGPix
	vInvariant("DrawCircleHelper", func() bool {
		in := vRect(img, x0-r, y0-r, 2*r+1, 2*r+1) && VClip(img, VGX, VGY)
		return VGPix == before || in && VGPix == (color != img.invertPixels)
	})
	img.DrawCircleHelper(x0, y0, r, corner, color)
	vReach("returns")
	in := vRect(img, x0-r, y0-r, 2*r+1, 2*r+1) && VClip(img, VGX, VGY)
	vAssert("circle corner stays inside its box", in || VGPix == before)
	vAssert("circle corner draws the requested colour only", VGPix == before || VGPix == (color != img.invertPixels))
}

//govc:unit C16 C18
//govc:replace MonoImg.DrawPixel=ct_DrawPixel MonoImg.DrawFastVLine=ct_DrawFastVLine MonoImg.DrawFastHLine=ct_DrawFastHLine
func vc_FillCircleHelper(img *MonoImg, x0, y0, r, corner, delta int, color bool) {
	vAssume(VInv(img) && vSmall(x0*16) && vSmall(y0*16) && vSmall(r*16) && vSmall(delta*16) && corner >= 0 && corner < 256)
	vAbstract(img.imgBytes)
	before := VGPix
	vInvariant("FillCircleHelper", func() bool {
		lx, ly := VGX-img.bbox_x, VGY-img.bbox_y
		in := (lx >= x0 && lx <= x0+r && corner&1 > 0 || lx <= x0 && lx >= x0-r && corner&2 > 0) && ly >= y0-r && ly < y0+r+1+delta && VClip(img, VGX, VGY)
		return VGPix == before || in && VGPix == (color != img.invertPixels)
	})
	img.FillCircleHelper(x0, y0, r, corner, delta, color)
	vReach("returns")
	lx, ly := VGX-img.bbox_x, VGY-img.bbox_y
	in := (lx >= x0 && lx <= x0+r && corner&1 > 0 || lx <= x0 && lx >= x0-r && corner&2 > 0) && ly >= y0-r && ly < y0+r+1+delta && VClip(img, VGX, VGY)
	vAssert("filled corner stays inside its box", in || VGPix == before)
	vAssert("filled corner draws the requested colour only", VGPix == before || VGPix == (color != img.invertPixels))
}

func ct_DrawCircleHelper(img *MonoImg, x0, y0, r, corner int, color bool) {
	vRequire("DrawCircleHelper is called with coordinates below 2^36", vSmall(x0*16) && vSmall(y0*16) && vSmall(r*16) && corner >= 0 && corner < 256)
	if vRect(img, x0-r, y0-r, 2*r+1, 2*r+1) && VClip(img, VGX, VGY) && vAnyBool("circle pixel drawn") {
		VGPix = color != img.invertPixels
	}
}

func ct_FillCircleHelper(img *MonoImg, x0, y0, r, corner, delta int, color bool) {
	vRequire("FillCircleHelper is called with coordinates below 2^36", vSmall(x0*16) && vSmall(y0*16) && vSmall(r*16) && vSmall(delta*16) && corner >= 0 && corner < 256)
	lx, ly := VGX-img.bbox_x, VGY-img.bbox_y
	in := (lx >= x0 && lx <= x0+r && corner&1 > 0 || lx <= x0 && lx >= x0-r && corner&2 > 0) && ly >= y0-r && ly < y0+r+1+delta && VClip(img, VGX, VGY)
	if in && vAnyBool("corner pixel drawn") {
		VGPix = color != img.invertPixels
	}
}

// the pixel may only change inside the rectangle: for 0 <= r, 2r <= w, 2r <= h
//govc:unit C16 C18
//govc:replace MonoImg.DrawCircleHelper=ct_DrawCircleHelper MonoImg.DrawFastVLine=ct_DrawFastVLine MonoImg.DrawFastHLine=ct_DrawFastHLine
func vc_DrawRoundRect(img *MonoImg, x, y, w, h, r int, color bool) {
	vAssume(VInv(img) && vSmall(x*64) && vSmall(y*64) && vSmall(w*64) && vSmall(h*64) && vSmall(r*64))
	vAbstract(img.imgBytes)
	before := VGPix
	img.DrawRoundRect(x, y, w, h, r, color)
	vReach("returns")
	fits := r >= 0 && 2*r < w && 2*r < h
	in := vRect(img, x, y, w, h) && VClip(img, VGX, VGY)
	vAssert("rounded rectangle stays inside its box", !fits || in || VGPix == before)
	vAssert("rounded rectangle stays inside the clip rectangle", VClip(img, VGX, VGY) || VGPix == before)
	vAssert("rounded rectangle draws the requested colour only", VGPix == before || VGPix == (color != img.invertPixels))
	straight := vRect(img, x+r, y, w-2*r, 1) || vRect(img, x+r, y+h-1, w-2*r, 1) || vRect(img, x, y+r, 1, h-2*r) || vRect(img, x+w-1, y+r, 1, h-2*r)
	vAssert("rounded rectangle draws its straight edges", !(straight && VClip(img, VGX, VGY)) || VGPix == (color != img.invertPixels))
}

//govc:unit C16 C18
//govc:replace MonoImg.FillCircleHelper=ct_FillCircleHelper MonoImg.FillRect=ct_FillRect
func vc_FillRoundRect(img *MonoImg, x, y, w, h, r int, color bool) {
	vAssume(VInv(img) && vSmall(x*64) && vSmall(y*64) && vSmall(w*64) && vSmall(h*64) && vSmall(r*64))
	vAbstract(img.imgBytes)
	before := VGPix
	img.FillRoundRect(x, y, w, h, r, color)
	vReach("returns")
	fits := r >= 0 && 2*r < w && 2*r < h
	in := vRect(img, x, y, w, h) && VClip(img, VGX, VGY)
	vAssert("filled rounded rectangle stays inside its box", !fits || in || VGPix == before)
	vAssert("filled rounded rectangle stays inside the clip rectangle", VClip(img, VGX, VGY) || VGPix == before)
	vAssert("filled rounded rectangle draws the requested colour only", VGPix == before || VGPix == (color != img.invertPixels))
	mid := vRect(img, x+r, y, w-2*r, h)
	vAssert("filled rounded rectangle fills its middle", !(mid && VClip(img, VGX, VGY)) || VGPix == (color != img.invertPixels))
}

// vGlyphW: glyph width of the proportional or fixed font as GetCharWidth must report it, within [1, fontBBWidth+1]
//govc:unit C16 C18 C20
//govc:enum fontNum=0..2
func vc_GetCharWidth(img *MonoImg, fontNum int, prop bool, c byte) {
	img.SetFont(fontNum, prop)
	w := img.GetCharWidth(c)
	s := img.GetCharStart(c)
	vReach("returns")
	vAssert("glyph width is between 1 and the cell width plus one", w >= 1 && w <= img.fontBBWidth+1)
	vAssert("glyph start and width stay inside the stored columns", int(s)+int(w)-1 <= int(img.fontBBWidth-img.fontTight))
	vAssert("unknown characters take the cell", c >= 32 && c <= 127 || w == img.fontBBWidth && s == 0)
	vAssert("glyph of the fixed font is the cell", prop || w == img.fontBBWidth && s == 0)
	vAssert("printable characters are the ASCII range", img.fontASCIIstart == 32 && img.fontASCIIend == 127)
}

//govc:unit C16
//govc:replace MonoImg.DrawPixel=ct_DrawPixel
func vc_DrawBitmap(img *MonoImg, x, y int, bitmap []byte, w, h int, color, inverted, all bool) {
	vAssume(VInv(img) && vSmall(x*4) && vSmall(y*4) && vSmall(w*4) && vSmall(h*4) && w < 1<<30 && h < 1<<30)
	vAbstract(img.imgBytes)
	before := VGPix
	vInvariant("DrawBitmap", func() bool {
		return VGPix == before || vRect(img, x, y, w, h) && VClip(img, VGX, VGY)
	})
	img.DrawBitmap(x, y, bitmap, w, h, color, inverted, all)
	vReach("returns")
	vAssert("bitmap stays inside its box and the clip rectangle", VGPix == before || vRect(img, x, y, w, h) && VClip(img, VGX, VGY))
}

// VGW, VGS: width and first column of the character being drawn
var VGW, VGS byte

func vGlyph(img *MonoImg, c byte) bool {
	return VGW >= 1 && VGW <= img.fontBBWidth+1 && int(VGS)+int(VGW)-1 <= int(img.fontBBWidth-img.fontTight) &&
		(c >= 32 && c <= 127 && img.renderProportional || VGW == img.fontBBWidth && VGS == 0)
}
func ct_GetCharWidth(img *MonoImg, c byte) byte {
	vAssume(vGlyph(img, c))
	return VGW
}
func ct_GetCharStart(img *MonoImg, c byte) byte {
	vAssume(vGlyph(img, c))
	return VGS
}

//govc:unit C16 C18
//govc:enum fontNum=0..2
//govc:replace MonoImg.DrawPixel=ct_DrawPixel MonoImg.FillRect=ct_FillRect MonoImg.GetCharWidth=ct_GetCharWidth MonoImg.GetCharStart=ct_GetCharStart
func vc_DrawChar(img *MonoImg, fontNum int, prop bool, x, y int, c byte, color, bg bool, h, v int, f []byte) {
	vAssume(VInv(img) && vSmall(x*16) && vSmall(y*16) && h > -1<<20 && h < 1<<20 && v > -1<<20 && v < 1<<20)
	img.SetFont(fontNum, prop)
	vAbstract(img.imgBytes)
	vAssume(len(f) == len(img.font)) // the contents of the font do not matter here
	img.font = f
	before := VGPix
	vInvariant("DrawChar", func() bool {
		return VGPix == before || vRect(img, x, y, int(VGW)*h, int(img.fontBBHeight)*v) && VClip(img, VGX, VGY)
	})
	img.DrawChar(x, y, c, color, bg, h, v)
	vReach("returns")
	vAssert("character stays inside its cell and the clip rectangle", VGPix == before || vRect(img, x, y, int(VGW)*h, int(img.fontBBHeight)*v) && VClip(img, VGX, VGY))
}

func ct_DrawChar(img *MonoImg, x int, y int, c byte, color bool, bg bool, textsizeH int, textsizeV int) {
	if VClip(img, VGX, VGY) && vAnyBool("character touches the pixel") {
		VGPix = vAnyBool("colour of the character pixel")
	}
}

//govc:unit C16 C18
//govc:replace MonoImg.DrawChar=ct_DrawChar MonoImg.GetCharWidth=ct_GetCharWidthAny
func vc_RenderText(img *MonoImg, str string) {
	vAssume(VInv(img))
	vAbstract(img.imgBytes)
	before := VGPix
	n, w, h, wb := len(img.imgBytes), img.Width, img.Height, img.widthInBytes
	bx, by, bw, bh, inv := img.bbox_x, img.bbox_y, img.bbox_width, img.bbox_height, img.invertPixels
	vInvariant("RenderText", func() bool { return VGPix == before || VClip(img, VGX, VGY) })
	img.RenderText(str)
	vReach("returns")
	vAssert("text stays inside the clip rectangle", VGPix == before || VClip(img, VGX, VGY))
	vAssert("text keeps the canvas", len(img.imgBytes) == n && img.Width == w && img.Height == h && img.widthInBytes == wb)
	vAssert("text keeps the clip state", img.bbox_x == bx && img.bbox_y == by && img.bbox_width == bw && img.bbox_height == bh && img.invertPixels == inv)
}
func ct_GetCharWidthAny(img *MonoImg, c byte) byte {
	w := vAnyByte("glyph width")
	vAssume(w >= 1 && w <= img.fontBBWidth+1)
	return w
}

// a new canvas satisfies the invariant, is blank, and its clip rectangle is the canvas
//govc:unit C16 C17
func vc_NewImage(img *MonoImg, width, height, at, px, py int) {
	vAssume(width >= 0 && width < 1<<20 && height >= 0 && height < 1<<20)
	img.NewImage(width, height)
	vReach("returns")
	vAssert("a new canvas satisfies the canvas invariant", VInv(img) && img.Width == width && img.Height == height)
	vAssert("a new canvas is not clipped", !(px >= 0 && px < width && py >= 0 && py < height) || VClip(img, px, py))
	vAssume(at >= 0 && at < len(img.imgBytes))
	vAssert("a new canvas is blank", img.imgBytes[at] == 0)
}
