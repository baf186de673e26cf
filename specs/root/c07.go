package rawpanellib

import (
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C07: one line per produced string, whatever text the messages carry (no class is assumed on any input string)

//govc:unit C07 C06
//govc:nonnil msgs msgs[]*.States msgs[]*.Registers
func vc_OneLineIn(msgs []*rwp.InboundMessage) {
	vAssume(!DebugRWPhelpers)
	got := InboundMessagesToRawPanelASCIIstrings(msgs)
	vReach("returns")
	for _, s := range got {
		vAssert("no line feed in any produced string", !strings.Contains(s, "\n"))
	}
}

//govc:unit C07 C06
//govc:nonnil msgs msgs[]*.Events msgs[]*.Registers
func vc_OneLineOut(msgs []*rwp.OutboundMessage) {
	vAssume(!DebugRWPhelpers)
	got := OutboundMessagesToRawPanelASCIIstrings(msgs)
	vReach("returns")
	for _, s := range got {
		vAssert("no line feed in any produced string", !strings.Contains(s, "\n"))
	}
}

//govc:unit C07
func vc_Flatten(s string) {
	f := stripLineBreaks(s)
	vReach("returns")
	vAssert("flat text has no line feed", !strings.Contains(f, "\n"))
	vAssert("flat text keeps every non-white-space character in order", vSquash(f) == vSquash(s))
	g := stripLineBreaksSvg(s)
	vAssert("flat SVG has no line feed", !strings.Contains(g, "\n"))
	vAssert("flat SVG keeps every non-white-space character in order", vSquash(g) == vSquash(s))
}
