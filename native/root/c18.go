package rawpanellib

import (
	"bytes"
	"fmt"
	"testing"

	monogfx "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

func vtI32(v *vnT) int32 {
	switch v.R.Intn(8) {
	case 0:
		return int32([]int{-1 << 31, 1<<31 - 1, -1<<31 + 1, 1 << 30, -1 << 30}[v.R.Intn(5)])
	case 1:
		return int32(v.R.Uint32())
	case 2:
		return int32(v.Int(-1<<31, 1<<31-1))
	}
	return int32(v.R.Intn(2400) - 200)
}
func vtTileStr(v *vnT) string {
	switch v.R.Intn(6) {
	case 0:
		return ""
	case 1:
		return v.Str()
	case 2:
		b := make([]byte, v.R.Intn(60))
		for i := range b {
			b[i] = byte(32 + v.R.Intn(95))
		}
		return string(b)
	case 3:
		return v.PickS("æøå", "日本語", "\x00\x01", "\xff\xfe", "a\nb", "a\r\nb", "il.:|", "WWWW", " ", "  x  ", "ＡＢ", "\u0120\u010a")
	}
	b := make([]byte, 1+v.R.Intn(7))
	for i := range b {
		b[i] = byte(33 + v.R.Intn(94))
	}
	return string(b)
}
func vtFont(v *vnT) *rwp.HWCText_TextStyle_Font {
	if v.R.Intn(4) == 0 {
		return nil
	}
	return &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(v.R.Intn(8)), TextHeight: uint32(v.R.Intn(5)), TextWidth: uint32(v.R.Intn(5))}
}
func vtColor(v *vnT) *rwp.Color {
	switch v.R.Intn(4) {
	case 0:
		return nil
	case 1:
		return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(v.R.Intn(32))}}
	case 2:
		return &rwp.Color{}
	}
	return &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: uint32(v.Int(0, 255)), Green: uint32(v.Int(0, 255)), Blue: uint32(v.Int(0, 255))}}
}
func vtTile(v *vnT) *rwp.HWCText {
	s := &rwp.HWCText{
		IntegerValue: vtI32(v), Formatting: rwp.HWCText_FormattingE(v.R.Intn(16)), StateIcon: rwp.HWCText_StateIconE(v.R.Intn(4)), ModifierIcon: rwp.HWCText_ModifierIconE(v.R.Intn(8)),
		Title: vtTileStr(v), SolidHeaderBar: v.Bool(), Textline1: vtTileStr(v), Textline2: vtTileStr(v), IntegerValue2: vtI32(v), PairMode: rwp.HWCText_PairModeE(v.R.Intn(5)),
		Inverted: v.Bool(), PixelColor: vtColor(v), BackgroundColor: vtColor(v),
	}
	if v.R.Intn(3) == 0 {
		s.Formatting = rwp.HWCText_FormattingE(10 + v.R.Intn(2))
	}
	if v.R.Intn(4) > 0 {
		s.TextStyling = &rwp.HWCText_TextStyle{TitleFont: vtFont(v), TextFont: vtFont(v), FixedWidth: v.Bool(), TitleBarPadding: uint32(v.R.Intn(4)), ExtraCharacterSpacing: uint32(v.R.Intn(4)), UnformattedFontSize: uint32(v.R.Intn(6))}
		if v.Bool() {
			s.TextStyling.FixedWidth, s.TextStyling.ExtraCharacterSpacing = false, 0
		}
	}
	if v.R.Intn(3) > 0 {
		s.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(v.R.Intn(5)), RangeLow: vtI32(v), RangeHigh: vtI32(v), LimitLow: vtI32(v), LimitHigh: vtI32(v)}
		if v.R.Intn(3) == 0 {
			s.Scale.RangeHigh = s.Scale.RangeLow + int32(v.R.Intn(3)-1)
		}
	}
	return s
}

var vtPalette = []byte{0b111111, 0, 0b111111, 0b111101, 0b110000, 0b110101, 0b110011, 0b010011, 0b110100, 0b111100, 0b000011, 0b000111, 0b011011, 0b001111, 0b011100, 0b001100, 0b001101, 0b101010, 0b010101}

// the 16-bit colour (blue high) a colour sub-message requests
func vtOled(c *rwp.Color, none uint16) uint16 {
	if c == nil {
		return none
	}
	var l [3]int
	if c.ColorRGB != nil {
		for i, x := range []uint32{c.ColorRGB.Red, c.ColorRGB.Green, c.ColorRGB.Blue} {
			if x > 255 {
				x = 255
			}
			l[i] = int(x) * 3 / 255
		}
	} else if c.ColorIndex != nil {
		p := vtPalette[0]
		if int(c.ColorIndex.Index&31) < len(vtPalette) {
			p = vtPalette[c.ColorIndex.Index&31]
		}
		l = [3]int{int(p >> 4 & 3), int(p >> 2 & 3), int(p & 3)}
	}
	return uint16(l[2]*31/3<<11 | l[1]*63/3<<5 | l[0]*31/3)
}
func vtLit(b []byte, w, x, y int) bool { return b[y*((w+7)/8)+x/8]>>(7-x%8)&1 == 1 }

// printable text whose first and last character have ink
func vtInk(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return false
		}
	}
	return s != "" && s[0] > 32 && s[len(s)-1] > 32
}

// the font draws something for this character
func vtHasInk(face int, c byte) bool {
	g := monogfx.MonoImg{}
	g.NewImage(16, 16)
	g.SetFont(face, true)
	g.SetTextColor(true)
	g.SetCursor(0, 0)
	g.RenderText(string(rune(c)))
	for _, b := range g.GetImgSlice() {
		if b != 0 {
			return true
		}
	}
	return false
}

func TestVN_C18(t *testing.T) {
	v := vnStart(t, "random text states (all formats and beyond, pairs, icons, scales with degenerate and reversed ranges, fonts, colours, absent sub-messages) on random tile geometries; rendered twice, inverted, with a larger value, on every second case with the one/two-line centring against an independently measured text")
	for v.more() {
		s := vtTile(v)
		g := [][2]int{{64, 32}, {64, 48}, {112, 32}, {128, 32}, {256, 64}, {256, 20}, {48, 24}, {96, 96}, {64, 38}, {0, 0}, {1, 1}, {52, 24}, {8, 64}}[v.R.Intn(13)]
		if v.R.Intn(3) == 0 {
			g = [2]int{v.R.Intn(257), v.R.Intn(65)}
		}
		w, h, shrink, border := g[0], g[1], v.R.Intn(4), v.R.Intn(4)
		if v.Bool() {
			border = 0
		}
		in := fmt.Sprintf("tile %dx%d shrink %d border %d state %s", w, h, shrink, border, vnJSON(s))
		v.Mark(in)
		v.Case(in, true)
		v.Guard("panic", in, func() { vtTileCase(v, s, w, h, shrink, border, in) })
	}
}

func vtTileCase(v *vnT, s *rwp.HWCText, w, h, shrink, border int, in string) {
	render := func(s *rwp.HWCText) ([]byte, *monogfx.MonoImg) {
		im := WriteDisplayTileNew(s, w, h, shrink, border)
		return im.GetImgSlice(), &im
	}
	keep := proto.Clone(s).(*rwp.HWCText)
	b1, im := render(s)
	if !proto.Equal(s, keep) {
		v.Fail("input-changed", in, "the text state was changed: %s", vnJSON(s))
	}
	if im.Width != w || im.Height != h || len(b1) != (w+7)/8*h {
		v.Fail("size", in, "image is %dx%d with %d bytes", im.Width, im.Height, len(b1))
		return
	}
	b2, _ := render(proto.Clone(keep).(*rwp.HWCText))
	if !bytes.Equal(b1, b2) {
		v.Fail("not deterministic", in, "two renderings of the same state differ")
	}
	flip := proto.Clone(keep).(*rwp.HWCText)
	flip.Inverted = !keep.Inverted
	b3, _ := render(flip)
	plain := b1
	if keep.Inverted {
		plain = b3
	}
	x0, x1, y0, y1 := 0, w-shrink&1, 0, h-shrink>>1&1
	if border > 0 {
		x0, x1, y0, y1 = border, w-border, border, h-border
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if vtLit(b1, w, x, y) == vtLit(b3, w, x, y) {
				v.Fail("inversion", in, "pixel %d,%d is the same in the normal and the inverted rendering", x, y)
				return
			}
			if (x < x0 || x >= x1 || y < y0 || y >= y1) && vtLit(plain, w, x, y) {
				v.Fail("outside the active area", in, "pixel %d,%d is lit, the active area is %d..%d x %d..%d", x, y, x0, x1, y0, y1)
				return
			}
		}
	}
	// colours
	rgb := im.GetImgSliceRGB()
	pc, bc := vtOled(keep.PixelColor, 0xFFFF), vtOled(keep.BackgroundColor, 0)
	if len(rgb) != 2*w*h {
		v.Fail("rgb size", in, "RGB export has %d bytes", len(rgb))
		return
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c, e := uint16(rgb[2*(y*w+x)])<<8|uint16(rgb[2*(y*w+x)+1]), bc
			if vtLit(b1, w, x, y) {
				e = pc
			}
			if c != e {
				v.Fail("colours", in, "pixel %d,%d exports as %04x, requested %04x", x, y, c, e)
				return
			}
		}
	}
	aw, ah := x1-x0, y1-y0
	st := keep.TextStyling
	if f := keep.Formatting; (f == 10 || f == 11) && (st == nil || !st.FixedWidth) {
		m := &monogfx.MonoImg{}
		m.NewImage(w, h)
		fh, fv, face, sp, un := 0, 0, 0, 0, 1
		if st != nil {
			sp = int(st.ExtraCharacterSpacing & 3)
			if un = int(st.UnformattedFontSize); un < 1 {
				un = 1
			} else if un > 4 {
				un = 4
			}
			if st.TextFont != nil {
				fh, fv, face = int(st.TextFont.TextWidth&3), int(st.TextFont.TextHeight&3), int(st.TextFont.FontFace&7)
			}
		}
		if fh == 0 {
			fh = un
		}
		if fv == 0 {
			fv = un
		}
		m.SetFont(face, true)
		m.SetTextSize(fh, fv)
		m.SetCharSpacingCompensation(byte(sp))
		lh := int(m.LineHeight())
		lines := []string{keep.Title}
		if f == 11 {
			lines = []string{keep.Textline1, keep.Textline2}
		}
		for i, l := range lines {
			tw := m.StrWidth(l)
			if !vtInk(l) || !vtHasInk(face, l[0]) || !vtHasInk(face, l[len(l)-1]) || tw > aw || lh*len(lines) > ah {
				continue
			}
			one := proto.Clone(keep).(*rwp.HWCText)
			one.Inverted = false
			if f == 11 && i == 0 {
				one.Textline2 = ""
			} else if f == 11 {
				one.Textline1 = ""
			}
			b, _ := render(one)
			left, right, top, bot := aw, aw, -1, 0
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if vtLit(b, w, x, y) {
						if x-x0 < left {
							left = x - x0
						}
						if x1-1-x < right {
							right = x1 - 1 - x
						}
						if top < 0 {
							top = y - y0
						}
						bot = y - y0
					}
				}
			}
			if top < 0 {
				v.Fail("text missing", in, "line %q fits but lights no pixel", l)
			} else if d := left - right; d > 2+sp || d < -2-sp {
				v.Fail("centring", in, "line %q: %d columns free on the left, %d on the right", l, left, right)
			} else if f == 11 && (i == 0 && bot >= ah/2 || i == 1 && top < ah/2) {
				v.Fail("lines overlap", in, "line %d of two covers rows %d..%d of %d", i, top, bot, ah)
			}
		}
	}
	// the strength bar
	if sc := keep.Scale; sc != nil && sc.ScaleType == 1 && sc.RangeHigh > sc.RangeLow && keep.Formatting != 10 && keep.Formatting != 11 {
		lo := proto.Clone(keep).(*rwp.HWCText)
		lo.Formatting, lo.Inverted = rwp.HWCText_FMT_HIDE, false
		hi := proto.Clone(lo).(*rwp.HWCText)
		for k := 0; k < 3; k++ {
			d := int64([]int{1, 10, 1000, 1 << 31, 1 << 20}[v.R.Intn(5)])
			x := int64(lo.IntegerValue) + v.R.Int63n(d+1)
			if x > 1<<31-1 {
				x = 1<<31 - 1
			}
			hi.IntegerValue = int32(x)
			bl, _ := render(lo)
			bh, _ := render(hi)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if vtLit(bl, w, x, y) && !vtLit(bh, w, x, y) {
						v.Fail("strength bar shrinks", in, "pixel %d,%d is lit at value %d and not at %d", x, y, lo.IntegerValue, hi.IntegerValue)
						return
					}
				}
			}
			lo.IntegerValue = lo.IntegerValue/2 - 3
		}
	}
}
