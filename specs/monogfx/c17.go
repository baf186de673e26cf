package ibeam_lib_monogfx

import (
	"image"
	"image/color"
)

// ---- C17: pixel format conversions

// documented mapping of a six-bit colour xxrrggbb to bbbbbggggggrrrrr
func v565(c int) uint16 {
	r, g, b := (c/16%4)*31/3, (c/4%4)*63/3, (c%4)*31/3
	return uint16(b*2048 + g*32 + r)
}

//govc:unit C17 C18
//govc:enum c=0..63
func vc_SetOLEDColors(img *MonoImg, c int, hi int) {
	vAssume(hi >= 0 && hi < 1<<40)
	p0, b0 := img.OLEDPixelColor, img.OLEDBckgColor
	img.SetOLEDPixelColor(hi*64 + c)
	vAssert("pixel colour is the documented RGB565 value of the six colour bits", img.OLEDPixelColor == v565(c))
	vAssert("setting the pixel colour keeps the background colour", img.OLEDBckgColor == b0)
	img.OLEDPixelColor = p0
	img.SetOLEDBckgColor(hi*64 + c)
	vReach("returns")
	vAssert("background colour is the documented RGB565 value of the six colour bits", img.OLEDBckgColor == v565(c))
	vAssert("setting the background colour keeps the pixel colour", img.OLEDPixelColor == p0)
}

// luma of an RGB565 colour (bbbbbggggggrrrrr); the products stay below 2^32: 19595*31*2114 + 38470*63*1040 + 7471*31*2114 + 32768 < 2^32
func vLuma(c uint16) byte {
	r, g, b := uint32(c&31)*2114, uint32(c/32&63)*1040, uint32(c/2048&31)*2114
	return byte((19595*r + 38470*g + 7471*b + 32768) / 16777216)
}

//govc:unit C17
func vc_RGB16BitToGray(c uint16) {
	r := RGB16BitToGray(c)
	vReach("returns")
	vAssert("grey value is the luma of the colour", r == vLuma(c))
}

// a canvas with arbitrary contents
func vCanvas(img *MonoImg, w, h int, data []byte) {
	vAssume(len(data) >= (w+7)/8*h)
	e := img.CreateFromBytes(w, h, data)
	vAssert("sufficient data is accepted", e == nil)
}

func vData(data []byte, w, x, y int) bool { return data[y*((w+7)/8)+x/8]&(128>>(x%8)) != 0 }

// bounded: widths 0..9 and 16, 17, heights 0..2, all contents and colours
//govc:unit C17
//govc:enum w=0..9,16,17
//govc:enum h=0..2
func vc_GetImgSliceRGB(img *MonoImg, w, h int, data []byte, fg, bg uint16, x, y int) {
	vCanvas(img, w, h, data)
	img.OLEDPixelColor, img.OLEDBckgColor = fg, bg
	s := img.GetImgSliceRGB()
	vReach("returns")
	vAssert("RGB export has two bytes per pixel", len(s) == w*h*2)
	if x >= 0 && x < w && y >= 0 && y < h {
		e := bg
		if vData(data, w, x, y) {
			e = fg
		}
		vAssert("RGB export gives the pixel its colour", s[2*(y*w+x)] == byte(e>>8) && s[2*(y*w+x)+1] == byte(e))
	}
}

//govc:unit C17
//govc:enum w=0,2,4,6,8,10,16,18
//govc:enum h=0..3
//govc:replace RGB16BitToGray=ct_RGB16BitToGray
func vc_GetImgSliceGray(img *MonoImg, w, h int, data []byte, fg, bg uint16, x, y int) {
	vCanvas(img, w, h, data)
	img.OLEDPixelColor, img.OLEDBckgColor = fg, bg
	s := img.GetImgSliceGray()
	vReach("returns")
	vAssert("grey export has half a byte per pixel", len(s) == w*h/2)
	if x >= 0 && x < w && y >= 0 && y < h {
		e := ct_RGB16BitToGray(bg) >> 4
		if vData(data, w, x, y) {
			e = ct_RGB16BitToGray(fg) >> 4
		}
		g := s[(y*w+x)/2] >> 4
		if x%2 == 1 {
			g = s[(y*w+x)/2] & 15
		}
		vAssert("grey export gives the pixel the luma of its colour", g == e)
	}
}

// any function of the colour: the luma itself is proved in vc_RGB16BitToGray
func ct_RGB16BitToGray(c uint16) byte { return vGrayOf(c) }
func vGrayOf(c uint16) byte           { return byte(c>>3) ^ byte(c>>9) }

// ghost destination of image conversion: VGX, VGY one arbitrary pixel
var VGSet bool
var VGRed, VGGreen, VGBlue, VGAlpha uint32

func ct_RGBASet(p *image.RGBA, x, y int, c color.Color) {
	if x == VGX && y == VGY && x >= p.Rect.Min.X && x < p.Rect.Max.X && y >= p.Rect.Min.Y && y < p.Rect.Max.Y {
		VGSet = true
		VGRed, VGGreen, VGBlue, VGAlpha = vColorOf(c)
	}
}
func vColorOf(c color.Color) (uint32, uint32, uint32, uint32) {
	switch k := c.(type) {
	case color.RGBA:
		return uint32(k.R), uint32(k.G), uint32(k.B), uint32(k.A)
	case color.Gray16:
		return uint32(k.Y) / 257, uint32(k.Y) / 257, uint32(k.Y) / 257, 255
	}
	return 1, 2, 3, 4
}
func ct_NewRGBA(r image.Rectangle) *image.RGBA {
	vRequire("image dimensions are not negative", r.Min.X == 0 && r.Min.Y == 0 && r.Max.X >= 0 && r.Max.Y >= 0)
	VGSet = false
	return &image.RGBA{Rect: r}
}

//govc:unit C17
//govc:replace =(*image.RGBA).Set=ct_RGBASet =image.NewRGBA=ct_NewRGBA
func vc_ConvertToImage(img *MonoImg, invert bool) {
	vAssume(VInv(img) && color.White.Y == 0xffff && color.Black.Y == 0) // package color, never assigned by the library
	r := img.ConvertToImage(invert)
	vReach("returns")
	d := r.(*image.RGBA)
	vAssert("image has the size of the canvas", d.Rect.Min.X == 0 && d.Rect.Min.Y == 0 && d.Rect.Max.X == img.Width && d.Rect.Max.Y == img.Height)
	if VGX >= 0 && VGX < img.Width && VGY >= 0 && VGY < img.Height {
		vAssert("every pixel of the image is set", VGSet)
		w := VBit(img, VGX, VGY) == invert
		vAssert("set bits become white when inverted, black otherwise", VGAlpha == 255 && (w && VGRed == 255 && VGGreen == 255 && VGBlue == 255 || !w && VGRed == 0 && VGGreen == 0 && VGBlue == 0))
	}
}

// an arbitrary source image of the given size: bright or dark per pixel
type vImage struct {
	w, h int
	lum  []uint16
}

func (v *vImage) ColorModel() color.Model { return nil }
func (v *vImage) Bounds() image.Rectangle {
	return image.Rectangle{image.Point{0, 0}, image.Point{v.w, v.h}}
}
func (v *vImage) At(x, y int) color.Color {
	if x < 0 || y < 0 || x >= v.w || y >= v.h {
		return vGray{0}
	}
	return vGray{v.lum[y*v.w+x]}
}

type vGray struct{ Y uint16 }

func (c vGray) RGBA() (uint32, uint32, uint32, uint32) {
	return uint32(c.Y), uint32(c.Y), uint32(c.Y), 65535
}

// bounded: widths 0..10, 16, 17, heights 0..2, all contents
//govc:unit C17
//govc:enum w=0..10,16,17
//govc:enum h=0..2
func vc_CreateFromImage(img *MonoImg, w, h int, lum []uint16, x, y int) {
	vAssume(len(lum) == w*h)
	img.CreateFromImage(&vImage{w, h, lum})
	vReach("returns")
	vAssert("canvas has the size of the image", VInv(img) && img.Width == w && img.Height == h)
	if x >= 0 && x < w && y >= 0 && y < h {
		vAssert("a bit is set exactly for a dark pixel", VBit(img, x, y) == (lum[y*w+x] <= 127))
	}
}

// data shorter than declared is reported and keeps the covered part
//govc:unit C17
func vc_CreateFromBytes(img *MonoImg, w, h int, data []byte, at int) {
	vAssume(w >= 0 && w < 1<<20 && h >= 0 && h < 1<<20)
	e := img.CreateFromBytes(w, h, data)
	vReach("returns")
	need := (w + 7) / 8 * h
	vAssert("short data is an error", (e != nil) == (len(data) < need))
	vAssert("the canvas has the declared size", img.Width == w && img.Height == h && img.widthInBytes == (w+7)/8 && len(img.imgBytes) >= need)
	if at >= 0 && at < need {
		if at < len(data) {
			vAssert("covered bytes are kept", img.imgBytes[at] == data[at])
		} else {
			vAssert("uncovered bytes are blank", img.imgBytes[at] == 0)
		}
	}
}
