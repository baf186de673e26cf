package ibeam_lib_monogfx

import (
	"bytes"
	"fmt"
	"testing"
)

type vnOp struct {
	Op               string
	X, Y, W, H, R    int
	Color, B1, B2    bool
	C                int
	S                string
	Data             []byte
}

func (o vnOp) String() string { return vnJSON(o) }

func vnCanvas(v *vnT) (img *MonoImg, desc string) {
	img = &MonoImg{}
	w, h := v.R.Intn(40), v.R.Intn(24)
	if v.R.Intn(20) == 0 {
		w, h = v.R.Intn(300), v.R.Intn(80)
	}
	img.NewImage(w, h)
	v.R.Read(img.imgBytes)
	desc = fmt.Sprintf("NewImage(%d,%d) with random contents", w, h)
	if v.Bool() {
		bx, by, bw, bh := v.R.Intn(w+6)-3, v.R.Intn(h+6)-3, v.R.Intn(w+6)-2, v.R.Intn(h+6)-2
		if v.R.Intn(8) == 0 {
			bx, by, bw, bh = v.Int(-50, 50), v.Int(-50, 50), v.Int(-50, 100), v.Int(-50, 100)
		}
		img.SetBoundingBox(bx, by, bw, bh)
		desc += fmt.Sprintf("; SetBoundingBox(%d,%d,%d,%d)", bx, by, bw, bh)
	}
	if v.R.Intn(3) == 0 {
		img.InvertPixels(true)
		desc += "; InvertPixels(true)"
	}
	return
}

func vnCoord(v *vnT, n int) int {
	switch v.R.Intn(12) {
	case 0:
		return v.Int(-1<<20, 1<<20)
	case 1:
		return v.Int(-1<<35, 1<<35)
	case 2:
		return -v.R.Intn(8*n + 40)
	case 3:
		if len(v.hints) > 0 {
			return v.hints[v.R.Intn(len(v.hints))]
		}
	}
	return v.R.Intn(n+12) - 6
}
func vnSize(v *vnT, n int) int {
	switch v.R.Intn(10) {
	case 0:
		return -v.R.Intn(20)
	case 1:
		return v.R.Intn(2000)
	case 2:
		return 0
	}
	return v.R.Intn(n + 10)
}

func TestVN_C16(t *testing.T) {
	v := vnStart(t, "random canvas, clip rectangle, inversion and drawing operation with small, off-canvas, huge and degenerate arguments; every pixel and padding bit compared before/after; non-trivial: the canvas has pixels")
	for v.more() {
		img, desc := vnCanvas(v)
		w, h, wb := img.Width, img.Height, img.widthInBytes
		var pre []string
		ops := []string{"pixel", "vline", "hline", "rect", "rrect", "frrect", "circle", "fcircle", "bitmap", "char", "text"}
		o := vnOp{Op: ops[v.R.Intn(len(ops))], X: vnCoord(v, w), Y: vnCoord(v, h), W: vnSize(v, w), H: vnSize(v, h), R: v.R.Intn(12), Color: v.Bool(), B1: v.Bool(), B2: v.Bool()}
		if v.R.Intn(10) == 0 {
			o.R = -v.R.Intn(5)
		}
		before := append([]byte{}, img.imgBytes...)
		// footprint in clip-relative coordinates: nil = anywhere
		exact := false
		fx0, fy0, fx1, fy1 := 0, 0, 0, 0
		any := false
		setColor := o.Color
		var run func()
		switch o.Op {
		case "pixel":
			exact, fx0, fy0, fx1, fy1 = true, o.X, o.Y, o.X+1, o.Y+1
			run = func() { img.DrawPixel(o.X, o.Y, o.Color) }
		case "vline":
			exact, fx0, fy0, fx1, fy1 = true, o.X, o.Y, o.X+1, o.Y+o.H
			run = func() { img.DrawFastVLine(o.X, o.Y, o.H, o.Color) }
		case "hline":
			exact, fx0, fy0, fx1, fy1 = true, o.X, o.Y, o.X+o.W, o.Y+1
			run = func() { img.DrawFastHLine(o.X, o.Y, o.W, o.Color) }
		case "rect":
			exact, fx0, fy0, fx1, fy1 = true, o.X, o.Y, o.X+o.W, o.Y+o.H
			run = func() { img.FillRect(o.X, o.Y, o.W, o.H, o.Color) }
		case "rrect", "frrect":
			fx0, fy0, fx1, fy1 = o.X, o.Y, o.X+o.W, o.Y+o.H
			any = !(o.R >= 0 && 2*o.R < o.W && 2*o.R < o.H)
			if o.Op == "rrect" {
				run = func() { img.DrawRoundRect(o.X, o.Y, o.W, o.H, o.R, o.Color) }
			} else {
				run = func() { img.FillRoundRect(o.X, o.Y, o.W, o.H, o.R, o.Color) }
			}
		case "circle":
			o.C = v.R.Intn(16)
			fx0, fy0, fx1, fy1 = o.X-o.R, o.Y-o.R, o.X+o.R+1, o.Y+o.R+1
			run = func() { img.DrawCircleHelper(o.X, o.Y, o.R, o.C, o.Color) }
		case "fcircle":
			o.C = v.R.Intn(4)
			o.H = v.R.Intn(10) - 3
			fx0, fy0, fx1, fy1 = o.X-o.R, o.Y-o.R, o.X+o.R+1, o.Y+o.R+1+o.H
			run = func() { img.FillCircleHelper(o.X, o.Y, o.R, o.C, o.H, o.Color) }
		case "bitmap":
			if o.W > 64 {
				o.W = 64
			}
			if o.H > 64 {
				o.H = 64
			}
			o.Data = make([]byte, v.R.Intn(100))
			v.R.Read(o.Data)
			fx0, fy0, fx1, fy1 = o.X, o.Y, o.X+o.W, o.Y+o.H
			run = func() { img.DrawBitmap(o.X, o.Y, o.Data, o.W, o.H, o.Color, o.B1, o.B2) }
		case "char", "text":
			fn, prop := v.R.Intn(3), v.Bool()
			img.SetFont(fn, prop)
			pre = append(pre, fmt.Sprintf("SetFont(%d,%v)", fn, prop))
			th, tv := 1+v.R.Intn(4), v.R.Intn(4)
			img.SetTextSize(th, tv)
			pre = append(pre, fmt.Sprintf("SetTextSize(%d,%d)", th, tv))
			if o.Op == "char" {
				o.C = v.R.Intn(256)
				cw, ch := int(img.GetCharWidth(byte(o.C))), int(img.fontBBHeight)
				fx0, fy0, fx1, fy1 = o.X, o.Y, o.X+cw*img.textsizeH, o.Y+ch*img.textsizeV
				bg := o.Color
				if o.B1 {
					bg = !o.Color
				}
				run = func() { img.DrawChar(o.X, o.Y, byte(o.C), o.Color, bg, img.textsizeH, img.textsizeV) }
			} else {
				any = true
				b := make([]byte, v.R.Intn(10))
				for i := range b {
					b[i] = byte(v.R.Intn(256))
				}
				o.S = string(b)
				wrap := v.Bool()
				img.SetTextWrap(wrap)
				img.SetCursor(o.X, o.Y)
				img.SetTextColor(o.Color)
				sp := byte(v.R.Intn(5))
				img.SetCharSpacingCompensation(sp)
				pre = append(pre, fmt.Sprintf("SetTextWrap(%v);SetCursor;SetTextColor(%v);SetCharSpacingCompensation(%d)", wrap, o.Color, sp))
				run = func() { img.RenderText(o.S) }
			}
		}
		bx, by, bw, bh, inv := img.bbox_x, img.bbox_y, img.bbox_width, img.bbox_height, img.invertPixels
		in := fmt.Sprintf("%s; %v; %s", desc, pre, o)
		v.Case(in, w*h > 0)
		if v.evals%64 == 0 {
			v.Mark(in)
		}
		if !v.Guard("panic in "+o.Op, in, run) {
			continue
		}
		if len(img.imgBytes) != len(before) || img.Width != w || img.Height != h {
			v.Fail("size "+o.Op, in, "the buffer changed its size: %d -> %d bytes, %dx%d -> %dx%d", len(before), len(img.imgBytes), w, h, img.Width, img.Height)
			continue
		}
		if img.bbox_x != bx || img.bbox_y != by || img.bbox_width != bw || img.bbox_height != bh || img.invertPixels != inv {
			v.Fail("state "+o.Op, in, "the clip state changed")
			continue
		}
		if bytes.Equal(before, img.imgBytes) && !exact {
			continue
		}
	scan:
		for py := 0; py < h; py++ {
			for px := 0; px < wb*8; px++ {
				a := before[py*wb+px/8]&(128>>(px%8)) != 0
				b := img.imgBytes[py*wb+px/8]&(128>>(px%8)) != 0
				clip := px < w && px >= bx && px < bx+bw && py >= by && py < by+bh
				foot := any || px-bx >= fx0 && px-bx < fx1 && py-by >= fy0 && py-by < fy1
				if a != b && !(clip && foot) {
					v.Fail("escape "+o.Op, in, "pixel (%d,%d) changed outside footprint and clip rectangle (clip %v, footprint %v, padding %v)", px, py, clip, foot, px >= w)
					break scan
				}
				if exact && clip && foot && b != (setColor != inv) {
					v.Fail("exact "+o.Op, in, "pixel (%d,%d) of the footprint is %v instead of %v", px, py, b, setColor != inv)
					break scan
				}
			}
		}
	}
}
