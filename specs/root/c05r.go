package rawpanellib

import (
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C05: the streaming reader, one step at a time

// contract of the line decoder: what it was given, and a result nothing is known about
var vDecCalls int
var vDecLines []string
var vDecRes []*rwp.InboundMessage

func ctDecode(lines []string) []*rwp.InboundMessage {
	vDecCalls++
	vDecLines = lines
	return vDecRes
}

// no transfer in progress
func vIdle(ar *ASCIIreader) bool { return ar.HWCGfx_HWClist == "" && ar.HWCGfx_ImageType == "" }

// a transfer in progress: lines 0..count of it are buffered, more are to come
func vActive(ar *ASCIIreader) bool {
	return ar.HWCGfx_HWClist != "" && ar.HWCGfx_ImageType != "" && ar.HWCGfx_count >= 0 && len(ar.HWCGfx) == ar.HWCGfx_count+1 && ar.HWCGfx_count < ar.HWCGfx_max
}

// one graphics line, in any state the reader can be in
//
//govc:unit C05
//govc:enum k=0..2
//govc:enum form=0..2
//govc:class list idlist+
//govc:class pay graph
//govc:replace RawPanelASCIIstringsToInboundMessages=ctDecode
func vc_ReaderGfx(k, form int, list string, idx, max, w, h, x, y uint32, pay string, ar ASCIIreader, out []*rwp.InboundMessage) {
	kw := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}[k]
	line := kw + list + "=" + vN(int(idx))
	last := 2
	if form > 0 {
		last = int(max)
		line += "/" + vN(int(max)) + "," + vN(int(w)) + "x" + vN(int(h))
		if form == 2 {
			line += "," + vN(int(x)) + "," + vN(int(y))
		}
	}
	line = strings.TrimSpace(line + ":" + pay)
	vAssume(vIdle(&ar) || vActive(&ar))
	idle, count, lines, belongs := vIdle(&ar), ar.HWCGfx_count, ar.HWCGfx, ar.HWCGfx_ImageType == kw && ar.HWCGfx_HWClist == list
	if idx != 0 {
		last = ar.HWCGfx_max
	}
	vDecCalls, vDecRes = 0, out
	got := ar.Parse(line)
	vAssert("the reader is idle, or holds lines 0..n of one transfer", vIdle(&ar) || vActive(&ar))
	if idx == 0 {
		lines, count, belongs, idle = nil, -1, true, false
	}
	if !idle && belongs && int(idx) == count+1 { // the next line of the transfer
		all := append(append([]string{}, lines...), line)
		if int(idx) == last {
			vAssert("the last line delivers the transfer, once", vDecCalls == 1 && vDeepEq(got, out))
			vAssert("it consists of its lines, in order", vDeepEq(vDecLines, all))
			vAssert("nothing is left behind", vIdle(&ar))
		} else {
			vAssert("nothing is delivered before the last line", vDecCalls == 0 && len(got) == 0)
			vAssert("the line joins the transfer", !vIdle(&ar) && ar.HWCGfx_ImageType == kw && ar.HWCGfx_HWClist == list && ar.HWCGfx_max == last && vDeepEq(ar.HWCGfx, all))
		}
	} else {
		vAssert("a stray line delivers nothing", vDecCalls == 0 && len(got) == 0)
		vAssert("a stray line joins nothing", vIdle(&ar) || !idle && vDeepEq(ar.HWCGfx, lines))
	}
	vReach("returns")
}

// any other line
//
//govc:unit C05
//govc:replace RawPanelASCIIstringsToInboundMessages=ctDecode
func vc_ReaderOther(line string, ar ASCIIreader, out []*rwp.InboundMessage) {
	vAssume(!vGfxLine.MatchString(strings.TrimSpace(line)))
	vAssume(vIdle(&ar) || vActive(&ar))
	was := ar
	vDecCalls, vDecRes = 0, out
	got := ar.Parse(line)
	vAssert("it is decoded by itself", vDecCalls == 1 && vDeepEq(got, out) && vDeepEq(vDecLines, []string{strings.TrimSpace(line)}))
	vAssert("the transfer in progress is not touched", vIdle(&was) && vIdle(&ar) || vDeepEq(ar, was))
	vReach("returns")
}

// the state survives serialisation
//
//govc:unit C05
func vc_ReaderJSON(ar ASCIIreader) {
	vJSONRoundTrips("the state survives serialisation", ar)
}

// any line, in any state at all (one that was restored from anything)
//
//govc:unit C06 C05
//govc:replace RawPanelASCIIstringsToInboundMessages=ctDecode
func vc_ReaderAny(line string, ar ASCIIreader) {
	ar.Parse(line)
	vReach("returns")
}
