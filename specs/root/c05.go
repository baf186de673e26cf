package rawpanellib

import (
	"encoding/base64"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C05: graphics transfers

func vIDs(list string) []uint32 {
	var ids []uint32
	for _, p := range strings.Split(list, ",") {
		n, _ := strconv.Atoi(p)
		ids = append(ids, uint32(n))
	}
	return ids
}

// a clean run of any number of lines: exactly one image, at its last line
//
//govc:unit C05 C02
//govc:feas
//govc:enum k=0..2
//govc:enum off=0..1
//govc:class list idlist+
func vc_GfxRun(k, off int, list string, w, h, x, y, m uint32, data []byte) {
	vAssume(!DebugRWPhelpers)
	kw := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}[k]
	img := &rwp.HWCGfx{ImageType: []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}[k], W: w, H: h}
	last := int(m) // the number of the last line
	vAssume(last >= 1 && len(data) > last*170 && len(data) <= last*170+170)
	head := kw + list + "=0/" + vN(last) + "," + vN(int(w)) + "x" + vN(int(h))
	if off == 1 {
		img.XYoffset, img.X, img.Y = true, x, y
		head += "," + vN(int(x)) + "," + vN(int(y))
	}
	b64 := base64.StdEncoding.EncodeToString
	lines := []string{head + ":" + b64(data[:170])}
	img.ImageData = append(img.ImageData, data[:170]...)
	for i := 1; i < last; i++ {
		lines = append(lines, kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
	}
	lines = append(lines, kw+list+"="+vN(last)+":"+b64(data[(last)*170:]))
	img.ImageData = append(img.ImageData, data[(last)*170:]...)
	got := RawPanelASCIIstringsToInboundMessages(lines)
	vAssert("one image", vDeepEq(got, vState(&rwp.HWCState{HWCIDs: vIDs(list), HWCGfx: img})))
	vReach("returns")
}

// an image that fits one line
//
//govc:unit C05 C02
//govc:enum k=0..2
//govc:enum off=0..1
//govc:class list idlist+
func vc_GfxOne(k, off int, list string, w, h, x, y uint32, data []byte) {
	vAssume(!DebugRWPhelpers)
	kw := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}[k]
	img := &rwp.HWCGfx{ImageType: []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}[k], W: w, H: h}
	head := kw + list + "=0/0," + vN(int(w)) + "x" + vN(int(h))
	if off == 1 {
		img.XYoffset, img.X, img.Y = true, x, y
		head += "," + vN(int(x)) + "," + vN(int(y))
	}
	img.ImageData = append(img.ImageData, data...)
	got := RawPanelASCIIstringsToInboundMessages([]string{head + ":" + base64.StdEncoding.EncodeToString(data)})
	vAssert("one image", vDeepEq(got, vState(&rwp.HWCState{HWCIDs: vIDs(list), HWCGfx: img})))
	vReach("returns")
}

// the pieces of an image, put together, are the image
//
//govc:unit C05
func vc_GfxPieces(m uint32, data []byte, i int) {
	last := int(m)
	vAssume(last >= 1 && len(data) > last*170 && len(data) <= last*170+170)
	var all []byte
	all = append(all, data[:170]...)
	for i := 1; i < last; i++ {
		all = append(all, data[i*170:i*170+170]...)
	}
	all = append(all, data[last*170:]...)
	vAssert("as many bytes", len(all) == len(data))
	if i >= 0 && i < len(data) {
		vAssert("the same bytes", all[i] == data[i])
	}
}


// unrelated lines in between are decoded as ever, and disturb nothing
//
//govc:unit C05 C02
//govc:feas
//govc:enum k=0..2
//govc:enum o=0..3
//govc:class list idlist+
func vc_GfxInterleaved(k, o int, list string, w, h, m uint32, data []byte, id, v []uint32) {
	vAssume(!DebugRWPhelpers)
	kw := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}[k]
	img := &rwp.HWCGfx{ImageType: []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}[k], W: w, H: h}
	last := int(m) // the number of the last line
	vAssume(last >= 1 && len(data) > last*170 && len(data) <= last*170+170 && len(id) == last && len(v) == last)
	other := func(i int) string {
		switch o {
		case 0:
			return "HWC#" + vN(int(id[i])) + "=" + vN(int(v[i]))
		case 1:
			return "HWCc#" + vN(int(id[i])) + "=" + vN(int(v[i]))
		case 2:
			return "ping"
		}
		return "PanelBrightness=" + vN(int(v[i]))
	}
	b64 := base64.StdEncoding.EncodeToString
	lines := []string{kw + list + "=0/" + vN(last) + "," + vN(int(w)) + "x" + vN(int(h)) + ":" + b64(data[:170])}
	var want []*rwp.InboundMessage
	img.ImageData = append(img.ImageData, data[:170]...)
	for i := 1; i < last; i++ {
		lines = append(lines, other(i), kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
		want = append(want, vDecIn(other(i))...)
	}
	lines = append(lines, other(0), kw+list+"="+vN(last)+":"+b64(data[(last)*170:]))
	img.ImageData = append(img.ImageData, data[(last)*170:]...)
	want = append(want, vDecIn(other(0))...)
	want = append(want, vState(&rwp.HWCState{HWCIDs: vIDs(list), HWCGfx: img})...)
	got := RawPanelASCIIstringsToInboundMessages(lines)
	vAssert("the other messages and one image", vDeepEq(got, want))
	vReach("returns")
}

// any line that is not a graphics line, once, anywhere
//
//govc:unit C05
//govc:thorough
//govc:feas
//govc:class list idlist+
func vc_GfxOther(list string, w, h, p0, m uint32, data []byte, other string) {
	vAssume(!DebugRWPhelpers)
	img := &rwp.HWCGfx{W: w, H: h}
	p, last := int(p0), int(m)
	vAssume(p >= 1 && p < last && len(data) > last*170 && len(data) <= last*170+170 && !vGfxLine.MatchString(other))
	b64 := base64.StdEncoding.EncodeToString
	lines := []string{"HWCg#" + list + "=0/" + vN(last) + "," + vN(int(w)) + "x" + vN(int(h)) + ":" + b64(data[:170])}
	img.ImageData = append(img.ImageData, data[:170]...)
	for i := 1; i < p; i++ {
		lines = append(lines, "HWCg#"+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
	}
	lines = append(lines, other)
	for i := p; i < last; i++ {
		lines = append(lines, "HWCg#"+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
	}
	lines = append(lines, "HWCg#"+list+"="+vN(last)+":"+b64(data[(last)*170:]))
	img.ImageData = append(img.ImageData, data[(last)*170:]...)
	got := RawPanelASCIIstringsToInboundMessages(lines)
	want := append(vDecIn(other), vState(&rwp.HWCState{HWCIDs: vIDs(list), HWCGfx: img})...)
	vAssert("the other messages and one image", vDeepEq(got, want))
	vReach("returns")
}
