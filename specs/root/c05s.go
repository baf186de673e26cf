package rawpanellib

import (
	"encoding/base64"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// a line out of place, anywhere in a transfer of any length: the image is delivered whole or not at all
//
//govc:unit C05
//govc:feas
//govc:enum k=0..2
//govc:enum how=0..2
//govc:class list idlist+
//govc:class list2 idlist+
func vc_GfxStray(k, how int, list, list2 string, w, h, j, p0, m uint32, data, q []byte) {
	vAssume(!DebugRWPhelpers)
	kws, types := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}, []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}
	kw := kws[k]
	img := &rwp.HWCGfx{ImageType: types[k], W: w, H: h}
	p, last := int(p0), int(m) // the next line in turn, the number of the last line
	vAssume(p >= 1 && p < last && len(data) > last*170 && len(data) <= last*170+170)
	k2 := k
	switch vAssume(j != 0); how {
	case 0: // of the same transfer, but not the next one
		list2 = list
		vAssume(int(j) != p)
	case 1: // for other components
		vAssume(list2 != list)
	case 2: // in another format
		k2 = (k + 1) % 3
	}
	b64 := base64.StdEncoding.EncodeToString
	lines := []string{kw + list + "=0/" + vN(last) + "," + vN(int(w)) + "x" + vN(int(h)) + ":" + b64(data[:170])}
	img.ImageData = append(img.ImageData, data[:170]...)
	for i := 1; i < p; i++ {
		lines = append(lines, kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
	}
	lines = append(lines, kws[k2]+list2+"="+vN(int(j))+":"+b64(q))
	for i := p; i < last; i++ {
		lines = append(lines, kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
	}
	lines = append(lines, kw+list+"="+vN(last)+":"+b64(data[(last)*170:]))
	img.ImageData = append(img.ImageData, data[(last)*170:]...)
	got := RawPanelASCIIstringsToInboundMessages(lines)
	vAssert("the image, or nothing", len(got) == 0 || vDeepEq(got, vState(&rwp.HWCState{HWCIDs: vIDs(list), HWCGfx: img})))
	vReach("returns")
}

// a transfer that begins while another is under way: nothing of the first is delivered, and nothing of the second before its end
//
//govc:unit C05
//govc:feas
//govc:enum k=0..2
//govc:enum k2=0..2
//govc:class list idlist+
//govc:class list2 idlist+
func vc_GfxAbandoned(k, k2 int, list, list2 string, w, h, w2, h2, p0, m, m2 uint32, data, q []byte) {
	vAssume(!DebugRWPhelpers)
	kws := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}
	kw := kws[k]
	p, last := int(p0), int(m)
	vAssume(p >= 1 && p < last && len(data) > last*170 && len(data) <= last*170+170)
	vAssume(m2 != 0 && (k != k2 || list != list2))
	b64 := base64.StdEncoding.EncodeToString
	lines := []string{kw + list + "=0/" + vN(last) + "," + vN(int(w)) + "x" + vN(int(h)) + ":" + b64(data[:170])}
	for i := 1; i < p; i++ {
		lines = append(lines, kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
	}
	lines = append(lines, kws[k2]+list2+"=0/"+vN(int(m2))+","+vN(int(w2))+"x"+vN(int(h2))+":"+b64(q))
	for i := p; i < last; i++ {
		lines = append(lines, kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
	}
	lines = append(lines, kw+list+"="+vN(last)+":"+b64(data[(last)*170:]))
	got := RawPanelASCIIstringsToInboundMessages(lines)
	vAssert("nothing", len(got) == 0)
	vReach("returns")
}

// a line that trails a transfer: the image is delivered once, and not touched again
//
//govc:unit C05
//govc:feas
//govc:enum k=0..2
//govc:enum k2=0..2
//govc:class list idlist+
//govc:class list2 idlist+
func vc_GfxTrailing(k, k2 int, list, list2 string, w, h, j, m uint32, data, q []byte) {
	vAssume(!DebugRWPhelpers)
	kws, types := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}, []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}
	kw := kws[k]
	img := &rwp.HWCGfx{ImageType: types[k], W: w, H: h}
	last := int(m)
	vAssume(last >= 1 && len(data) > last*170 && len(data) <= last*170+170 && j != 0)
	b64 := base64.StdEncoding.EncodeToString
	lines := []string{kw + list + "=0/" + vN(last) + "," + vN(int(w)) + "x" + vN(int(h)) + ":" + b64(data[:170])}
	img.ImageData = append(img.ImageData, data[:170]...)
	for i := 1; i < last; i++ {
		lines = append(lines, kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
	}
	lines = append(lines, kw+list+"="+vN(last)+":"+b64(data[(last)*170:]), kws[k2]+list2+"="+vN(int(j))+":"+b64(q))
	img.ImageData = append(img.ImageData, data[(last)*170:]...)
	got := RawPanelASCIIstringsToInboundMessages(lines)
	vAssert("one image", vDeepEq(got, vState(&rwp.HWCState{HWCIDs: vIDs(list), HWCGfx: img})))
	vReach("returns")
}

// two transfers in a row, to the same components or others: each is delivered at its end, and the second does not touch the first
//
//govc:unit C05
//govc:feas
//govc:enum k=0..2
//govc:enum k2=0..2
//govc:enum more=0..1
//govc:class list idlist+
//govc:class list2 idlist+
func vc_GfxTwice(k, k2, more int, list, list2 string, w, h, w2, h2, m uint32, data, q, q2 []byte) {
	vAssume(!DebugRWPhelpers)
	kws, types := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}, []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}
	kw := kws[k]
	img := &rwp.HWCGfx{ImageType: types[k], W: w, H: h}
	last := int(m)
	vAssume(last >= 1 && len(data) > last*170 && len(data) <= last*170+170)
	b64 := base64.StdEncoding.EncodeToString
	lines := []string{kw + list + "=0/" + vN(last) + "," + vN(int(w)) + "x" + vN(int(h)) + ":" + b64(data[:170])}
	img.ImageData = append(img.ImageData, data[:170]...)
	for i := 1; i < last; i++ {
		lines = append(lines, kw+list+"="+vN(i)+":"+b64(data[i*170:i*170+170]))
		img.ImageData = append(img.ImageData, data[i*170:i*170+170]...)
	}
	lines = append(lines, kw+list+"="+vN(last)+":"+b64(data[(last)*170:]))
	img.ImageData = append(img.ImageData, data[(last)*170:]...)
	want := vState(&rwp.HWCState{HWCIDs: vIDs(list), HWCGfx: img})
	img2 := &rwp.HWCGfx{ImageType: types[k2], W: w2, H: h2}
	head := kws[k2] + list2 + "=0/" + vN(more) + "," + vN(int(w2)) + "x" + vN(int(h2))
	lines = append(lines, head+":"+b64(q))
	img2.ImageData = append(img2.ImageData, q...)
	if more == 1 {
		lines = append(lines, kws[k2]+list2+"=1:"+b64(q2))
		img2.ImageData = append(img2.ImageData, q2...)
	}
	want = append(want, vState(&rwp.HWCState{HWCIDs: vIDs(list2), HWCGfx: img2})...)
	got := RawPanelASCIIstringsToInboundMessages(lines)
	vAssert("two images", vDeepEq(got, want))
	vReach("returns")
}
