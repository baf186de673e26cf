package rawpanellib

import (
	"image"
	"image/color"
	"image/draw"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C17: graphics states become images; VGX, VGY one arbitrary pixel of the destination
var VGX, VGY int
var VGSet bool
var VGRed, VGGreen, VGBlue, VGAlpha uint8

func ct_RGBASet(p *image.RGBA, x, y int, c color.Color) {
	if x == VGX && y == VGY && x >= p.Rect.Min.X && x < p.Rect.Max.X && y >= p.Rect.Min.Y && y < p.Rect.Max.Y {
		VGSet = true
		k := c.(color.RGBA)
		VGRed, VGGreen, VGBlue, VGAlpha = k.R, k.G, k.B, k.A
	}
}
func ct_NewRGBA(r image.Rectangle) *image.RGBA {
	vRequire("image dimensions are not negative", r.Min.X == 0 && r.Min.Y == 0 && r.Max.X >= 0 && r.Max.Y >= 0)
	VGSet = false
	return &image.RGBA{Rect: r}
}

func ct_Rect(x0, y0, x1, y1 int) image.Rectangle {
	if x0 > x1 {
		x0, x1 = x1, x0
	}
	if y0 > y1 {
		y0, y1 = y1, y0
	}
	return image.Rectangle{image.Point{x0, y0}, image.Point{x1, y1}}
}
func ct_RGBABounds(p *image.RGBA) image.Rectangle { return p.Rect }

// filling the whole image with black
func ct_DrawBlack(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, op draw.Op) {
	if VGX >= r.Min.X && VGX < r.Max.X && VGY >= r.Min.Y && VGY < r.Max.Y {
		VGRed, VGGreen, VGBlue, VGAlpha = 0, 0, 0, 255
	}
}

// documented expansions: 5 or 6 bits to 8 by v*255/31, v*255/63; 4 bits by v*17
func vExp565(hi, lo byte) (r, g, b uint8) {
	p := int(hi)*256 + int(lo)
	return uint8(p % 32 * 255 / 31), uint8(p / 32 % 64 * 255 / 63), uint8(p / 2048 * 255 / 31)
}

//govc:unit C17
//govc:replace =(*image.RGBA).Set=ct_RGBASet =image.NewRGBA=ct_NewRGBA
func vc_FromRGBBytes(w, h int, data []byte) {
	vAssume(w >= 0 && w < 1<<16 && h >= 0 && h < 1<<16)
	r := CreateImgObjectFromRGBBytes(w, h, data)
	vReach("returns")
	d := r.(*image.RGBA)
	vAssert("image has the declared size", d.Rect.Max.X == w && d.Rect.Max.Y == h)
	if VGX >= 0 && VGX < w && VGY >= 0 && VGY < h {
		i := 2 * (VGY*w + VGX)
		if i+1 < len(data) {
			er, eg, eb := vExp565(data[i], data[i+1])
			vAssert("a covered pixel is set to the expansion of its value", VGSet && VGRed == er && VGGreen == eg && VGBlue == eb && VGAlpha == 255)
		}
	}
}

//govc:unit C17
//govc:replace =(*image.RGBA).Set=ct_RGBASet =image.NewRGBA=ct_NewRGBA
func vc_FromGrayBytes(w, h int, data []byte) {
	vAssume(w >= 0 && w < 1<<16 && h >= 0 && h < 1<<16)
	r := CreateImgObjectFromGrayBytes(w, h, data)
	vReach("returns")
	d := r.(*image.RGBA)
	vAssert("image has the declared size", d.Rect.Max.X == w && d.Rect.Max.Y == h)
	if VGX >= 0 && VGX < w && VGY >= 0 && VGY < h {
		i := VGY*w + VGX
		if i/2 < len(data) {
			n := data[i/2] % 16
			if i%2 == 0 {
				n = data[i/2] / 16
			}
			vAssert("a covered pixel is set to the expansion of its value", VGSet && VGRed == n*17 && VGGreen == n*17 && VGBlue == n*17 && VGAlpha == 255)
		}
	}
}

//govc:unit C17
//govc:enum typ=0..2
//govc:replace =(*image.RGBA).Set=ct_RGBASet =image.NewRGBA=ct_NewRGBA =image/draw.Draw=ct_DrawBlack =image.Rect=ct_Rect =(*image.RGBA).Bounds=ct_RGBABounds
func vc_RwpImgToImage(g *rwp.HWCGfx, typ int, x, y int) {
	vAssume(g.W < 1<<16 && g.H < 1<<16)
	g.ImageType = rwp.HWCGfx_ImageTypeE(typ)
	w, h := int(g.W), int(g.H)
	data := g.ImageData
	r := RwpImgToImage(g, w, h)
	vReach("returns")
	d := r.(*image.RGBA)
	vAssert("image has the declared size", d.Rect.Max.X == w && d.Rect.Max.Y == h)
	if VGX >= 0 && VGX < w && VGY >= 0 && VGY < h {
		switch typ {
		case 0:
			i := VGY*((w+7)/8) + VGX/8
			if i < len(data) {
				e := uint8(0)
				if data[i]&(128>>(VGX%8)) > 0 {
					e = 255
				}
				vAssert("a covered mono pixel is white exactly when its bit is set (red)", VGRed == e)
				vAssert("a covered mono pixel is opaque", VGAlpha == 255)
				vAssert("a covered mono pixel is white exactly when its bit is set (green)", VGGreen == e)
				vAssert("a covered mono pixel is white exactly when its bit is set (blue)", VGBlue == e)
			}
		case 1:
			i := 2 * (VGY*w + VGX)
			if i+1 < len(data) {
				er, eg, eb := vExp565(data[i], data[i+1])
				vAssert("a covered RGB pixel is the expansion of its value (red)", VGRed == er && VGAlpha == 255)
				vAssert("a covered RGB pixel is the expansion of its value (green)", VGGreen == eg)
				vAssert("a covered RGB pixel is the expansion of its value (blue)", VGBlue == eb)
			}
		case 2:
			i := VGY*w + VGX
			if i/2 < len(data) {
				n := data[i/2] % 16
				if i%2 == 0 {
					n = data[i/2] / 16
				}
				vAssert("a covered grey pixel is the expansion of its value", VGRed == n*17 && VGGreen == n*17 && VGBlue == n*17 && VGAlpha == 255)
			}
		}
	}
}
