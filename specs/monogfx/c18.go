package ibeam_lib_monogfx

// ---- C18: what the drawing operations do to one arbitrary pixel of a tile

// Reads clause: pixels and inversion flag are touched by DrawPixel only. With DrawPixel's contract (pixel = colour XOR inversion inside the clip
// rectangle) it follows that whether an operation touches a pixel, and with which colour, is a function of its arguments and the remaining
// canvas state: the uninterpreted functions below.
//govc:unit C18
func vc_DrawingReads() {
	vReadsOnly("drawing operations do not touch the size and the colours", "MonoImg.OLEDPixelColor,MonoImg.OLEDBckgColor,MonoImg.Width,MonoImg.Height", "DrawPixel,RenderText",
		"FillRect,DrawRoundRect,FillRoundRect,DrawCircleHelper,FillCircleHelper,DrawFastVLine,DrawFastHLine,DrawBitmap,StrWidth,LineHeight,GetCharWidth,GetCharStart,SetFont,SetTextSize,SetTextColor,SetCursor,SetCharSpacingCompensation,SetTextWrap,SetBoundingBox,InvertPixels")
	vReadsOnly("drawing operations reach the pixels and the inversion flag through DrawPixel only", "MonoImg.imgBytes,MonoImg.invertPixels", "DrawPixel",
		"FillRect,DrawRoundRect,FillRoundRect,DrawCircleHelper,FillCircleHelper,DrawFastVLine,DrawFastHLine,DrawChar,RenderText,DrawBitmap,StrWidth,LineHeight,GetCharWidth,GetCharStart,SetFont,SetTextSize,SetTextColor,SetCursor,SetCharSpacingCompensation,SetTextWrap,SetBoundingBox")
}

const vTileLim = 1 << 30

func vTileCoord(v int) bool { return v > -vTileLim && v < vTileLim }

func vDraw(img *MonoImg, hit, color bool) {
	if hit && VClip(img, VGX, VGY) {
		VGRaw, VGInvW = 0, 0
		if color {
			VGRaw = 1
		}
		if img.invertPixels {
			VGInvW = 1
		}
	}
}

// the pixel of the last write: colour asked for, inversion flag at that time
var VGRaw, VGInvW int

func VTilePix() bool { return VGRaw != VGInvW }
func CtDrawPixelT(img *MonoImg, x int, y int, color bool) {
	vRequire("coordinates are below 2^30", vTileCoord(x) && vTileCoord(y))
	vDraw(img, vRect(img, x, y, 1, 1), color)
}
func CtFillRectT(img *MonoImg, x, y, w, h int, color bool) {
	vRequire("coordinates are below 2^30", vTileCoord(x) && vTileCoord(y) && vTileCoord(w) && vTileCoord(h))
	vDraw(img, vRect(img, x, y, w, h), color)
}
func CtVLineT(img *MonoImg, x, y, h int, color bool) {
	vRequire("coordinates are below 2^30", vTileCoord(x) && vTileCoord(y) && vTileCoord(h))
	vDraw(img, vRect(img, x, y, 1, h), color)
}
func CtHLineT(img *MonoImg, x, y, w int, color bool) {
	vRequire("coordinates are below 2^30", vTileCoord(x) && vTileCoord(y) && vTileCoord(w))
	vDraw(img, vRect(img, x, y, w, 1), color)
}

// as proved by vc_DrawRoundRect
func CtDrawRoundRectT(img *MonoImg, x, y, w, h, r int, color bool) {
	vRequire("coordinates are below 2^30", vTileCoord(x) && vTileCoord(y) && vTileCoord(w) && vTileCoord(h) && vTileCoord(r))
	fits := r >= 0 && 2*r < w && 2*r < h
	straight := vRect(img, x+r, y, w-2*r, 1) || vRect(img, x+r, y+h-1, w-2*r, 1) || vRect(img, x, y+r, 1, h-2*r) || vRect(img, x+w-1, y+r, 1, h-2*r)
	vDraw(img, straight || (!fits || vRect(img, x, y, w, h)) && vUFBool("DrawRoundRect", "imgBytes,invertPixels", img, x, y, w, h, r, color, VGX, VGY), color)
}

// as proved by vc_FillRoundRect
func CtFillRoundRectT(img *MonoImg, x, y, w, h, r int, color bool) {
	vRequire("coordinates are below 2^30", vTileCoord(x) && vTileCoord(y) && vTileCoord(w) && vTileCoord(h) && vTileCoord(r))
	fits := r >= 0 && 2*r < w && 2*r < h
	mid := vRect(img, x+r, y, w-2*r, h)
	if x == 0 && y == img.bbox_height-3 && h == 3 && r == 0 {
		VGBar = 0
		if vRect(img, x, y, w, h) {
			VGBar = 1
		}
	}
	vDraw(img, mid || (!fits || vRect(img, x, y, w, h)) && vUFBool("FillRoundRect", "imgBytes,invertPixels", img, x, y, w, h, r, color, VGX, VGY), color)
}

// as proved by vc_DrawBitmap
func CtDrawBitmapT(img *MonoImg, x int, y int, bitmap []byte, w int, h int, color bool, inverted bool, drawAllPixels bool) {
	vRequire("coordinates are below 2^30", vTileCoord(x) && vTileCoord(y) && vTileCoord(w) && vTileCoord(h))
	vDraw(img, vRect(img, x, y, w, h) && vUFBool("DrawBitmap hits", "imgBytes,invertPixels", img, x, y, bitmap, w, h, color, inverted, drawAllPixels, VGX, VGY),
		vUFBool("DrawBitmap colour", "imgBytes,invertPixels", img, x, y, bitmap, w, h, color, inverted, drawAllPixels, VGX, VGY))
}

// as proved by vc_DrawChar and vc_RenderText
func CtDrawCharT(img *MonoImg, x int, y int, c byte, color bool, bg bool, textsizeH int, textsizeV int) {
	vDraw(img, vUFBool("DrawChar hits", "imgBytes,invertPixels", img, x, y, c, color, bg, textsizeH, textsizeV, VGX, VGY), vUFBool("DrawChar colour", "imgBytes,invertPixels", img, x, y, c, color, bg, textsizeH, textsizeV, VGX, VGY))
}

// is the pixel in the last bar drawn in the three bottom rows of the active area
var VGBar int

// the last text drawn, the cursor at that time and the width of that text; the same of the text before it; number of texts
var VGText, VGPrev string
var VGCurX, VGTextW, VGPrevX, VGPrevW, VGTextN int

func CtRenderTextT(img *MonoImg, str string) {
	VGPrev, VGPrevX, VGPrevW = VGText, VGCurX, VGTextW
	VGText, VGCurX, VGTextW, VGTextN = str, img.cursor_x, CtStrWidthT(img, str), VGTextN+1
	vDraw(img, vUFBool("RenderText hits", "imgBytes,invertPixels", img, str, VGX, VGY), vUFBool("RenderText colour", "imgBytes,invertPixels", img, str, VGX, VGY))
	x, y := vUFInt("RenderText x", "imgBytes,invertPixels", img, str), vUFInt("RenderText y", "imgBytes,invertPixels", img, str)
	img.cursor_x, img.cursor_y = x, y
}
func CtStrWidthT(img *MonoImg, str string) int {
	w := vUFInt("StrWidth", "imgBytes,invertPixels,cursor_x,cursor_y,textcolor,textbgcolor,bbox_x,bbox_y,bbox_width,bbox_height,OLEDBckgColor,OLEDPixelColor", img, str)
	vAssume(w > -vTileLim && w < vTileLim)
	return w
}
