package rawpanellib

import (
	monogfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C18: tile rendering. One arbitrary pixel (monogfx.VGX, VGY) of the tile is followed through the drawing operations,
// which are replaced by their contracts (specs/monogfx/c16.go, c18.go).

func vTile(width, height, shrink, border int) {
	vAssume(width >= 0 && width <= 1<<16 && height >= 0 && height <= 1<<16 && shrink >= 0 && shrink <= 3 && border >= 0 && border <= 3)
	vAssume(monogfx.VGX >= 0 && monogfx.VGX < width && monogfx.VGY >= 0 && monogfx.VGY < height)
	monogfx.VGRaw, monogfx.VGInvW = 0, 0
}
func vTileStyle(t *rwp.HWCText) {
	if t.TextStyling != nil {
		vAssume(t.TextStyling.TitleBarPadding <= 3)
	}
}

// rendering is total, the image has the requested size, and the inverted rendering is the complement
//govc:unit C18
//govc:enum pairs=0,1
//govc:replace monogfx:MonoImg.FillRect=monogfx.CtFillRectT monogfx:MonoImg.DrawRoundRect=monogfx.CtDrawRoundRectT monogfx:MonoImg.FillRoundRect=monogfx.CtFillRoundRectT monogfx:MonoImg.DrawFastHLine=monogfx.CtHLineT monogfx:MonoImg.DrawFastVLine=monogfx.CtVLineT monogfx:MonoImg.DrawPixel=monogfx.CtDrawPixelT monogfx:MonoImg.DrawBitmap=monogfx.CtDrawBitmapT monogfx:MonoImg.DrawChar=monogfx.CtDrawCharT monogfx:MonoImg.RenderText=monogfx.CtRenderTextT monogfx:MonoImg.StrWidth=monogfx.CtStrWidthT
func vc_TileInvert(t *rwp.HWCText, pairs bool, width, height, shrink, border int) {
	vTile(width, height, shrink, border)
	vTileStyle(t)
	vAssume((t.PairMode > 0) == pairs)
	t.Inverted = false
	a := WriteDisplayTileNew(t, width, height, shrink, border)
	vReach("returns")
	vAssert("the image has the requested size", a.Width == width && a.Height == height)
	plain := monogfx.VTilePix()
	raw, inv := monogfx.VGRaw, monogfx.VGInvW
	x0, x1, y0, y1 := border, width-border, border, height-border
	if border == 0 {
		x1, y1 = width-shrink&1, height-shrink>>1&1
	}
	in := monogfx.VGX >= x0 && monogfx.VGX < x1 && monogfx.VGY >= y0 && monogfx.VGY < y1
	vAssert("no pixel outside the active area is lit", in || !plain)
	monogfx.VGRaw, monogfx.VGInvW = 0, 0
	t.Inverted = true
	WriteDisplayTileNew(t, width, height, shrink, border)
	vAssert("the inverted rendering asks for the same colours", raw == monogfx.VGRaw)
	vAssert("the inverted rendering writes each pixel with the opposite inversion", inv != monogfx.VGInvW)
}

// the picture and the size depend on the arguments only: what was rendered before makes no difference
//govc:unit C18
//govc:enum pairs=0,1
//govc:replace monogfx:MonoImg.FillRect=monogfx.CtFillRectT monogfx:MonoImg.DrawRoundRect=monogfx.CtDrawRoundRectT monogfx:MonoImg.FillRoundRect=monogfx.CtFillRoundRectT monogfx:MonoImg.DrawFastHLine=monogfx.CtHLineT monogfx:MonoImg.DrawFastVLine=monogfx.CtVLineT monogfx:MonoImg.DrawPixel=monogfx.CtDrawPixelT monogfx:MonoImg.DrawBitmap=monogfx.CtDrawBitmapT monogfx:MonoImg.DrawChar=monogfx.CtDrawCharT monogfx:MonoImg.RenderText=monogfx.CtRenderTextT monogfx:MonoImg.StrWidth=monogfx.CtStrWidthT
func vc_TileAgain(t, u *rwp.HWCText, pairs bool, width, height, shrink, border int) {
	vTile(width, height, shrink, border)
	vTileStyle(t)
	vTileStyle(u)
	vAssume((t.PairMode > 0) == pairs)
	WriteDisplayTileNew(t, width, height, shrink, border)
	raw, inv := monogfx.VGRaw, monogfx.VGInvW
	WriteDisplayTileNew(u, width, height, shrink, border)
	monogfx.VGRaw, monogfx.VGInvW = 0, 0
	WriteDisplayTileNew(t, width, height, shrink, border)
	vReach("returns")
	vAssert("a rendering is the same after another rendering", raw == monogfx.VGRaw && inv == monogfx.VGInvW)
}

var vPalette = []byte{0b111111, 0b000000, 0b111111, 0b111101, 0b110000, 0b110101, 0b110011, 0b010011, 0b110100, 0b111100, 0b000011, 0b000111, 0b011011, 0b001111, 0b011100, 0b001100, 0b001101, 0b101010, 0b010101}

func vLevel(x uint32) int {
	if x > 255 {
		x = 255
	}
	return int(x) / 85
}
func vSix(c *rwp.Color) int {
	if c.ColorRGB != nil {
		return vLevel(c.ColorRGB.Red)*16 + vLevel(c.ColorRGB.Green)*4 + vLevel(c.ColorRGB.Blue)
	}
	if c.ColorIndex != nil {
		if i := int(c.ColorIndex.Index & 31); i < len(vPalette) {
			return int(vPalette[i])
		}
		return 63
	}
	return 0
}

// the requested six bit colour: RGB first, then the index into the palette (unknown indices: default colour)
//govc:unit C18
func vc_ConvertToColor(c *rwp.Color) {
	r := convertToColorRGB16bit(*c)
	vReach("returns")
	vAssert("the six bit colour is the one requested", r == vSix(c))
}
func ct_convertToColor(c rwp.Color) int { return vSix(&c) }

// the state is not changed; colours requested are the colours of the image
//govc:unit C18
//govc:enum pairs=0,1
//govc:replace monogfx:MonoImg.FillRect=monogfx.CtFillRectT monogfx:MonoImg.DrawRoundRect=monogfx.CtDrawRoundRectT monogfx:MonoImg.FillRoundRect=monogfx.CtFillRoundRectT monogfx:MonoImg.DrawFastHLine=monogfx.CtHLineT monogfx:MonoImg.DrawFastVLine=monogfx.CtVLineT monogfx:MonoImg.DrawPixel=monogfx.CtDrawPixelT monogfx:MonoImg.DrawBitmap=monogfx.CtDrawBitmapT monogfx:MonoImg.DrawChar=monogfx.CtDrawCharT monogfx:MonoImg.RenderText=monogfx.CtRenderTextT monogfx:MonoImg.StrWidth=monogfx.CtStrWidthT convertToColorRGB16bit=ct_convertToColor
func vc_TileColours(t *rwp.HWCText, pairs bool, width, height, shrink, border int) {
	vTile(width, height, shrink, border)
	vTileStyle(t)
	vAssume((t.PairMode > 0) == pairs)
	var img monogfx.MonoImg
	img.SetOLEDPixelColor(63)
	img.SetOLEDBckgColor(0)
	if t.PixelColor != nil {
		img.SetOLEDPixelColor(vSix(t.PixelColor))
	}
	if t.BackgroundColor != nil {
		img.SetOLEDBckgColor(vSix(t.BackgroundColor))
	}
	a := WriteDisplayTileNew(t, width, height, shrink, border)
	vReach("returns")
	vUnchanged("the state is not changed")
	vAssert("the pixel colour is the requested one", a.OLEDPixelColor == img.OLEDPixelColor)
	vAssert("the background colour is the requested one", a.OLEDBckgColor == img.OLEDBckgColor)
}

func vFit(width, height, shrink, border int) (int, int) {
	if border > 0 {
		return width - 2*border, height - 2*border
	}
	return width - shrink%2, height - shrink/2%2
}

// one line of text, two lines of text: the text boxes (vc_RenderTextBox of C20: all ink is inside) are centred to within one pixel
//govc:unit C18
//govc:enum two=0,1
//govc:replace monogfx:MonoImg.FillRect=monogfx.CtFillRectT monogfx:MonoImg.DrawRoundRect=monogfx.CtDrawRoundRectT monogfx:MonoImg.FillRoundRect=monogfx.CtFillRoundRectT monogfx:MonoImg.DrawFastHLine=monogfx.CtHLineT monogfx:MonoImg.DrawFastVLine=monogfx.CtVLineT monogfx:MonoImg.DrawPixel=monogfx.CtDrawPixelT monogfx:MonoImg.DrawBitmap=monogfx.CtDrawBitmapT monogfx:MonoImg.DrawChar=monogfx.CtDrawCharT monogfx:MonoImg.RenderText=monogfx.CtRenderTextT monogfx:MonoImg.StrWidth=monogfx.CtStrWidthT
func vc_TileCentre(t *rwp.HWCText, two bool, width, height, shrink, border int) {
	vTile(width, height, shrink, border)
	vTileStyle(t)
	t.Formatting = 10
	n := 1
	if two {
		t.Formatting, n = 11, 2
	}
	monogfx.VGTextN = 0
	a := WriteDisplayTileNew(t, width, height, shrink, border)
	vReach("returns")
	aw, _ := vFit(width, height, shrink, border)
	vAssert("the lines are drawn once each", monogfx.VGTextN == n)
	x, w := monogfx.VGCurX, monogfx.VGTextW
	vAssert("a line that fits is centred to within one pixel", vImp(w <= aw && w >= 0, 2*x+w <= aw && 2*x+w >= aw-1))
	if two {
		x, w = monogfx.VGPrevX, monogfx.VGPrevW
		vAssert("a first line that fits is centred to within one pixel", vImp(w <= aw && w >= 0, 2*x+w <= aw && 2*x+w >= aw-1))
		vAssert("the texts are the text lines", monogfx.VGText == t.Textline2 && monogfx.VGPrev == t.Textline1)
	} else {
		vAssert("the text is the title", monogfx.VGText == t.Title)
	}
	_ = a
}

// lemma, proved by vc_Quotients
func vQuotients(a, b, d int) {
	vRequire("quotients of ordered numbers by a positive one", a <= b && d > 0)
	vAssume(float64(a)/float64(d) <= float64(b)/float64(d))
}

//govc:unit C18
func vc_Quotients(a, b, d int) {
	vAssume(a <= b && d > 0)
	vAssert("quotients are ordered", float64(a)/float64(d) <= float64(b)/float64(d))
}

// the strength bar: with a larger value no pixel of it goes out
//govc:unit C18
//govc:enum pairs=0,1
//govc:replace monogfx:MonoImg.FillRect=monogfx.CtFillRectT monogfx:MonoImg.DrawRoundRect=monogfx.CtDrawRoundRectT monogfx:MonoImg.FillRoundRect=monogfx.CtFillRoundRectT monogfx:MonoImg.DrawFastHLine=monogfx.CtHLineT monogfx:MonoImg.DrawFastVLine=monogfx.CtVLineT monogfx:MonoImg.DrawPixel=monogfx.CtDrawPixelT monogfx:MonoImg.DrawBitmap=monogfx.CtDrawBitmapT monogfx:MonoImg.DrawChar=monogfx.CtDrawCharT monogfx:MonoImg.RenderText=monogfx.CtRenderTextT monogfx:MonoImg.StrWidth=monogfx.CtStrWidthT
func vc_TileBar(t *rwp.HWCText, v1, v2 int32, pairs bool, width, height, shrink, border int) {
	vAssume(v1 <= v2)
	vAssert("ordered as 64 bit integers", int(v1) <= int(v2))
	vAssume(t.Scale != nil && t.Scale.ScaleType == 1 && t.Scale.RangeHigh > t.Scale.RangeLow)
	vAssert("the range as 64 bit integer", int(t.Scale.RangeHigh)-int(t.Scale.RangeLow) > 0)
	vTile(width, height, shrink, border)
	vTileStyle(t)
	vAssume((t.PairMode > 0) == pairs)
	t.Inverted = false
	aw, _ := vFit(width, height, shrink, border)
	lo, diff := int(t.Scale.RangeLow), int(t.Scale.RangeHigh)-int(t.Scale.RangeLow)
	vQuotients(int(v1)-lo, int(v2)-lo, diff)
	p1, p2 := float64(int(v1)-lo)/float64(diff), float64(int(v2)-lo)/float64(diff)
	vAssert("lemma: products with the width too", vImp(aw > 0, p1*float64(aw) <= p2*float64(aw)))
	vAssert("lemma: whole columns too", vImp(aw > 0, int(p1*float64(aw)) <= int(p2*float64(aw))))
	t.IntegerValue = v1
	monogfx.VGBar = 0
	WriteDisplayTileNew(t, width, height, shrink, border)
	bar, raw := monogfx.VGBar, monogfx.VGRaw
	t.IntegerValue = v2
	monogfx.VGBar, monogfx.VGRaw, monogfx.VGInvW = 0, 0, 0
	WriteDisplayTileNew(t, width, height, shrink, border)
	vReach("returns")
	vAssert("the bar covers the pixel still", bar <= monogfx.VGBar)
	vAssert("without value text no pixel goes out", vImp(t.Formatting == rwp.HWCText_FMT_HIDE, raw <= monogfx.VGRaw))
}
