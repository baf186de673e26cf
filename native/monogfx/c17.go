package ibeam_lib_monogfx

import (
	"fmt"
	"image"
	"image/color"
	"testing"
)

func vnLuma(c uint16) byte {
	r, g, b := uint64(c&31)*2114, uint64(c>>5&63)*1040, uint64(c>>11&31)*2114
	return byte((19595*r + 38470*g + 7471*b + 32768) >> 24)
}
func vn565(c int) uint16 {
	r, g, b := (c>>4&3)*31/3, (c>>2&3)*63/3, (c&3)*31/3
	return uint16(b<<11 | g<<5 | r)
}

// vnMono builds an image of known bits; padding bits may be anything
func vnMono(v *vnT, w, h int) (*MonoImg, []byte, string) {
	wb := (w + 7) / 8
	data := make([]byte, wb*h+v.Pick(0, 0, 0, 1, 7))
	switch v.R.Intn(4) {
	case 0:
	case 1:
		for i := range data {
			data[i] = 255
		}
	default:
		v.R.Read(data)
	}
	img := &MonoImg{}
	if err := img.CreateFromBytes(w, h, append([]byte{}, data...)); err != nil {
		v.Fail("create-error", fmt.Sprintf("CreateFromBytes(%d,%d,%x)", w, h, data), "sufficient data is refused: %v", err)
	}
	return img, data, fmt.Sprintf("CreateFromBytes(%d,%d,%x)", w, h, data)
}

func TestVN_C17(t *testing.T) {
	v := vnStart(t, "random canvas sizes (odd, zero, up to 300), bit patterns, all 64 six-bit colours and random RGB565 colours; RGB and grey export, image object round trips compared with independent formulas; non-trivial: the canvas has pixels")
	for c := 0; c < 256; c++ {
		img := &MonoImg{}
		img.NewImage(1, 1)
		v.Guard("panic-colour", fmt.Sprint("colour ", c), func() {
			img.SetOLEDPixelColor(c)
			img.SetOLEDBckgColor(c ^ 0x2a)
		})
		v.Case(fmt.Sprint("six-bit colour ", c), true)
		if img.OLEDPixelColor != vn565(c) {
			v.Fail("colour-pixel", fmt.Sprintf("SetOLEDPixelColor(%08b)", c), "RGB565 colour is %016b, documented mapping gives %016b", img.OLEDPixelColor, vn565(c))
		}
		if img.OLEDBckgColor != vn565(c^0x2a) {
			v.Fail("colour-background", fmt.Sprintf("SetOLEDBckgColor(%08b)", c^0x2a), "RGB565 colour is %016b, documented mapping gives %016b", img.OLEDBckgColor, vn565(c^0x2a))
		}
	}
	for c := 0; c < 65536; c++ {
		if g := RGB16BitToGray(uint16(c)); g != vnLuma(uint16(c)) {
			v.Fail("luma", fmt.Sprintf("RGB16BitToGray(%#x)", c), "luma %d, expected %d", g, vnLuma(uint16(c)))
			break
		}
	}
	for v.more() {
		w, h := v.R.Intn(40), v.R.Intn(12)
		switch v.R.Intn(20) {
		case 0:
			w, h = v.R.Intn(300), v.R.Intn(70)
		case 1:
			w = 0
		case 2:
			h = 0
		}
		img, data, desc := vnMono(v, w, h)
		wb := (w + 7) / 8
		bit := func(x, y int) bool { return data[y*wb+x/8]&(128>>(x%8)) != 0 }
		pc, bc := v.R.Intn(64), v.R.Intn(64)
		if v.R.Intn(5) > 0 {
			img.SetOLEDPixelColor(pc)
			img.SetOLEDBckgColor(bc)
			desc += fmt.Sprintf("; SetOLEDPixelColor(%d); SetOLEDBckgColor(%d)", pc, bc)
			if img.OLEDPixelColor != vn565(pc) || img.OLEDBckgColor != vn565(bc) {
				v.Fail("colour", desc, "colours %#x %#x, expected %#x %#x", img.OLEDPixelColor, img.OLEDBckgColor, vn565(pc), vn565(bc))
			}
		} else {
			img.OLEDPixelColor, img.OLEDBckgColor = uint16(v.R.Intn(65536)), uint16(v.R.Intn(65536))
			desc += fmt.Sprintf("; OLEDPixelColor=%#x; OLEDBckgColor=%#x", img.OLEDPixelColor, img.OLEDBckgColor)
		}
		v.Case(desc, w*h > 0)
		fg, bg := img.OLEDPixelColor, img.OLEDBckgColor
		v.Guard("panic-rgb", desc+"; GetImgSliceRGB()", func() {
			s := img.GetImgSliceRGB()
			if len(s) != w*h*2 {
				v.Fail("rgb-size", desc+"; GetImgSliceRGB()", "%d bytes, expected %d", len(s), w*h*2)
				return
			}
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					e := bg
					if bit(x, y) {
						e = fg
					}
					if g := uint16(s[2*(y*w+x)])<<8 | uint16(s[2*(y*w+x)+1]); g != e {
						v.Fail("rgb-pixel", desc+"; GetImgSliceRGB()", "pixel (%d,%d) is %#x, expected %#x", x, y, g, e)
						return
					}
				}
			}
		})
		if w%2 == 0 {
			v.Guard("panic-grey", desc+"; GetImgSliceGray()", func() {
				s := img.GetImgSliceGray()
				if len(s) != w*h/2 {
					v.Fail("grey-size", desc+"; GetImgSliceGray()", "%d bytes, expected %d", len(s), w*h/2)
					return
				}
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						e := vnLuma(bg) >> 4
						if bit(x, y) {
							e = vnLuma(fg) >> 4
						}
						g := s[(y*w+x)/2] >> 4
						if x%2 == 1 {
							g = s[(y*w+x)/2] & 15
						}
						if g != e {
							v.Fail("grey-pixel", desc+"; GetImgSliceGray()", "pixel (%d,%d) is %d, expected %d", x, y, g, e)
							return
						}
					}
				}
			})
		}
		for _, inv := range []bool{true, false} {
			d := fmt.Sprintf("%s; ConvertToImage(%v)", desc, inv)
			v.Guard("panic-toimage", d, func() {
				o := img.ConvertToImage(inv)
				if o.Bounds() != image.Rect(0, 0, w, h) {
					v.Fail("toimage-size", d, "bounds %v, expected %dx%d", o.Bounds(), w, h)
					return
				}
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						e := color.RGBA{0, 0, 0, 255}
						if bit(x, y) == inv {
							e = color.RGBA{255, 255, 255, 255}
						}
						if g := color.RGBAModel.Convert(o.At(x, y)); g != e {
							v.Fail("toimage-pixel", d, "pixel (%d,%d) is %v, expected %v", x, y, g, e)
							return
						}
					}
				}
				b := &MonoImg{}
				b.CreateFromImage(o)
				bs := b.GetImgSlice()
				if b.Width != w || b.Height != h || len(bs) < wb*h {
					v.Fail("roundtrip-size", d+"; CreateFromImage", "%dx%d with %d bytes, expected %dx%d", b.Width, b.Height, len(bs), w, h)
					return
				}
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						if g := bs[y*wb+x/8]&(128>>(x%8)) != 0; g != (bit(x, y) != inv) {
							v.Fail("roundtrip-pixel", d+"; CreateFromImage", "pixel (%d,%d) reads back %v", x, y, g)
							return
						}
					}
				}
			})
		}
	}
}
