package rawpanellib

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"testing"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

func vnRGBA(c color.Color) color.RGBA { return color.RGBAModel.Convert(c).(color.RGBA) }

// vnPixel: documented value of pixel (x,y), ok when the data covers it
func vnPixel(g *rwp.HWCGfx, x, y int) (c color.RGBA, ok bool) {
	w := int(g.W)
	switch g.ImageType {
	case rwp.HWCGfx_MONO:
		i := y*((w+7)/8) + x/8
		if i >= len(g.ImageData) {
			return c, false
		}
		if g.ImageData[i]>>(7-x%8)&1 == 1 {
			return color.RGBA{255, 255, 255, 255}, true
		}
		return color.RGBA{0, 0, 0, 255}, true
	case rwp.HWCGfx_RGB16bit:
		i := 2 * (y*w + x)
		if i+1 >= len(g.ImageData) {
			return c, false
		}
		p := int(g.ImageData[i])<<8 | int(g.ImageData[i+1])
		return color.RGBA{uint8((p & 31) * 255 / 31), uint8((p >> 5 & 63) * 255 / 63), uint8((p >> 11 & 31) * 255 / 31), 255}, true
	}
	i := y*w + x
	if i/2 >= len(g.ImageData) {
		return c, false
	}
	n := g.ImageData[i/2] & 15
	if i%2 == 0 {
		n = g.ImageData[i/2] >> 4
	}
	return color.RGBA{n * 17, n * 17, n * 17, 255}, true
}

func vnSame(v *vnT, key, in string, g *rwp.HWCGfx, im image.Image, w, h, dx, dy int, sub bool) {
	if im == nil {
		v.Fail(key+"-nil", in, "no image")
		return
	}
	if b := im.Bounds(); b.Dx() != w || b.Dy() != h {
		v.Fail(key+"-size", in, "image is %dx%d, expected %dx%d", b.Dx(), b.Dy(), w, h)
		return
	}
	for y := 0; y < int(g.H); y++ {
		for x := 0; x < int(g.W); x++ {
			e, ok := vnPixel(g, x, y)
			if !ok || x+dx < 0 || y+dy < 0 || x+dx >= w || y+dy >= h {
				continue
			}
			if a := vnRGBA(im.At(im.Bounds().Min.X+x+dx, im.Bounds().Min.Y+y+dy)); a != e {
				v.Fail(key+"-pixel", in, "pixel (%d,%d) is %v, the stored value expands to %v", x, y, a, e)
				return
			}
		}
	}
}

func TestVN_C17_gfx(t *testing.T) {
	v := vnStart(t, "random graphics states of the three formats, sizes 0..40 (some to 300), data shorter/equal/longer than declared; direct, PNG and target-canvas conversion compared pixel by pixel with an independent expansion; non-trivial: some pixel is covered by the data")
	for v.more() {
		w, h := v.R.Intn(24), v.R.Intn(12)
		switch v.R.Intn(20) {
		case 0:
			w, h = v.R.Intn(300), v.R.Intn(60)
		case 1:
			w = 0
		case 2:
			h = 0
		}
		g := &rwp.HWCGfx{W: uint32(w), H: uint32(h), ImageType: rwp.HWCGfx_ImageTypeE(v.R.Intn(3))}
		n := (w + 7) / 8 * h
		if g.ImageType == rwp.HWCGfx_RGB16bit {
			n = 2 * w * h
		} else if g.ImageType == rwp.HWCGfx_Gray4bit {
			n = (w*h + 1) / 2
		}
		switch v.R.Intn(5) {
		case 0:
			n = v.R.Intn(n + 1)
		case 1:
			n += v.R.Intn(9)
		case 2:
			if n > 0 {
				n--
			}
		}
		g.ImageData = make([]byte, n)
		v.R.Read(g.ImageData)
		if v.R.Intn(10) == 0 {
			g.ImageData = nil
		}
		in := fmt.Sprintf("%v %dx%d data %x", g.ImageType, w, h, g.ImageData)
		before := append([]byte{}, g.ImageData...)
		v.Mark(in)
		v.Case(in, n > 0 && w*h > 0)
		switch g.ImageType {
		case rwp.HWCGfx_RGB16bit:
			v.Guard("panic-rgb", in, func() { vnSame(v, "rgb", "CreateImgObjectFromRGBBytes "+in, g, CreateImgObjectFromRGBBytes(w, h, g.ImageData), w, h, 0, 0, false) })
		case rwp.HWCGfx_Gray4bit:
			v.Guard("panic-gray", in, func() { vnSame(v, "gray", "CreateImgObjectFromGrayBytes "+in, g, CreateImgObjectFromGrayBytes(w, h, g.ImageData), w, h, 0, 0, false) })
		}
		v.Guard("panic-rwp", in, func() { vnSame(v, "rwp", "RwpImgToImage "+in, g, RwpImgToImage(g, w, h), w, h, 0, 0, false) })
		if w > 0 && h > 0 { // PNG knows no empty images
			v.Guard("panic-png", in, func() {
				b, err := ConvertGfxStateToPngBytes(&rwp.HWCState{HWCGfx: g})
				if err != nil {
					v.Fail("png-error", in, "no PNG: %v", err)
					return
				}
				im, err := png.Decode(bytes.NewReader(b))
				if err != nil {
					v.Fail("png-decode", in, "the PNG does not decode: %v", err)
					return
				}
				vnSame(v, "png", "ConvertGfxStateToPngBytes "+in, g, im, w, h, 0, 0, false)
			})
		} else {
			v.Guard("panic-png", in, func() { ConvertGfxStateToPngBytes(&rwp.HWCState{HWCGfx: g}) })
		}
		tw, th := v.R.Intn(40), v.R.Intn(20)
		if tw < w && (w-tw)%2 == 1 {
			tw++ // an odd surplus may be cut on either side
		}
		if th < h && (h-th)%2 == 1 {
			th++
		}
		dx, dy := (tw-w)/2, (th-h)/2
		d := fmt.Sprintf("RwpImgToImage onto %dx%d, %s", tw, th, in)
		v.Guard("panic-target", d, func() { vnSame(v, "target", d, g, RwpImgToImage(g, tw, th), tw, th, dx, dy, true) })
		if !bytes.Equal(before, g.ImageData) {
			v.Fail("input-changed", in, "the image data is changed by the conversion")
		}
	}
}
