package rawpanellib

// ---- C12: is it a binary panel?

import (
	"encoding/binary"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

// The reply is read however it is cut: one frame that fits, and nothing after it; how=1: it breaks off somewhere.
//
//govc:unit C12
//govc:enum how=0..1
//govc:feas
//govc:load encoding/binary
//govc:replace io:ReadFull=CtReadFull
func vc_ReplyFrame(how int, b0, b1, b2, b3 byte, p, rest []byte, cut int) {
	h := []byte{b0, b1, b2, b3}
	n := int(binary.LittleEndian.Uint32(h))
	vAssume(n <= 996 && len(p) >= n)
	p = p[:n]
	in := append(append(append([]byte{}, h...), p...), rest...)
	avail := len(in)
	if how == 1 {
		vAssume(cut >= 0 && cut < 4+n)
		avail = cut
	}
	c := VNet(in, avail, VErrTimeout)
	reply := make([]byte, 1000)
	m, err := readProbeReply(c, reply)
	vReach("returns")
	if how == 0 {
		vAssert("the frame is read and nothing after it", err == nil && m == 4+n && VPos == 4+n)
		vAssert("its length and its payload", vSeqEq(reply[:4], h) && vSeqEq(reply[4:4+n], p))
	} else {
		vAssert("a reply that breaks off is an error", err != nil && m == cut)
	}
	vAssert("nothing is written", len(VOut) == 0)
}

// A line of text (of every length up to the 14th character; the first four are none of a frame that fits), and nothing after
// it; whole, or breaking off anywhere.
//
//govc:unit C12
//govc:enum n=3..14
//govc:enum whole=0..1
//govc:feas
//govc:load encoding/binary
//govc:unroll readProbeReply
//govc:replace io:ReadFull=CtReadFull
func vc_ReplyText(n, whole int, cs [14]byte, rest []byte) {
	line := []byte{}
	for i := 0; i < n; i++ {
		vAssume(cs[i] >= 4 && cs[i] != '\n')
		line = append(line, cs[i])
	}
	line = append(line, '\n')
	if whole == 1 {
		c := VNet(append(line, rest...), n+1+len(rest), VErrTimeout)
		reply := make([]byte, 1000)
		m, err := readProbeReply(c, reply)
		vReach("returns")
		vAssert("the line is read and nothing after it", err == nil && m == n+1 && VPos == n+1)
		vAssert("the characters of the line", vSeqEq(reply[:n+1], line))
		vAssert("nothing is written", len(VOut) == 0)
		return
	}
	for cut := 0; cut <= n; cut++ {
		c := VNet(line, cut, VErrTimeout)
		reply := make([]byte, 1000)
		m, err := readProbeReply(c, reply)
		vReach("returns")
		vAssert("a reply that breaks off is an error", err != nil && m == cut)
		vAssert("the characters of the line", vSeqEq(reply[:cut], line[:cut]))
		vAssert("nothing is written", len(VOut) == 0)
	}
}

// what the probe is answered with: 0 an acknowledge frame, 1 another frame, 2 nothing, 3 the ready word, 4 a map line,
// 5 an error message, 6 any other line of text, 7 part of a line and then nothing
func vReply(class int, h, wire []byte, a string) {
	var text string
	vProbeErr = nil
	switch class {
	case 0, 1:
		n := int(binary.LittleEndian.Uint32(h))
		vAssume(n > 0 && n <= 996 && len(wire) >= n)
		vProbeReply = append(append([]byte{}, h...), wire[:n]...)
		return
	case 2:
		vProbeReply, vProbeErr = nil, VErrTimeout
		return
	case 3:
		text = "RDY" + a + "\n"
	case 4:
		text = "map=" + a + "\n"
	case 5:
		text = "ErrorMsg=" + a + "\n"
	case 6, 7:
		vAssume(len(a) >= 4)
		text = a + "\n"
		if class == 7 {
			text = a
			vProbeErr = VErrTimeout
		}
	}
	vAssume(len(text) <= 1000)
	vProbeReply = []byte(text)
	if class > 5 { // printable
		vAssume(vProbeReply[0] >= 32 && vProbeReply[1] >= 32 && vProbeReply[2] >= 32 && vProbeReply[3] >= 32)
	}
}

// protobuf, for the reply: an acknowledge or anything else
var vAck bool
var vPings int

func ctPing(m proto.Message) ([]byte, error) {
	p, ok := m.(*rwp.InboundMessage)
	vAssert("the probe is a ping", ok && p.FlowMessage == rwp.InboundMessage_PING)
	vAssert("and nothing else", vDeepEq(p, &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_PING}))
	vPings++
	return vPingWire, nil
}
func ctReplyUnmarshal(b []byte, m proto.Message) error {
	p, ok := m.(*rwp.OutboundMessage)
	if ok && vAck {
		p.FlowMessage = rwp.OutboundMessage_ACK
	}
	return nil
}

// The stand-alone detector.
//
//govc:unit C12
//govc:enum class=0..4
//govc:feas
//govc:load encoding/binary time
//govc:class a noLF
//govc:replace readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=ctPing google.golang.org/protobuf/proto:Unmarshal=ctReplyUnmarshal time:Now=CtNow
func vc_Detects(class int, ping, wire []byte, b0, b1, b2, b3 byte, a string) {
	VPeer = VNet(nil, 0, VErrTimeout)
	vAssume(len(ping) < 1<<20)
	vPingWire, vPings, vAck = ping, 0, class == 0
	vReply(class, []byte{b0, b1, b2, b3}, wire, a)
	bin := AutoDetectIfPanelEncodingIsBinary(VPeer, "panel:9923")
	vReach("returns")
	probe := append(VLE32(uint32(len(ping))), ping...)
	vAssert("the panel is probed once", vPings == 1)
	switch class {
	case 0:
		vAssert("an acknowledge makes it binary", bin)
		vAssert("the probe is one frame, and nothing more is written", vSeqEq(VOut, probe))
	case 1:
		vAssert("the probe is one frame", vSeqEq(VOut[:len(probe)], probe))
	default:
		vAssert("silence, the ready word and a map make it an ASCII panel", !bin)
		vAssert("the probe is one frame, flushed by exactly one line feed", vSeqEq(VOut, append(probe, '\n')))
	}
	vAssert("the connection stays open", VCloses == 0)
}

// The reconnecting client.
//
//govc:unit C12
//govc:enum class=0..7
//govc:feas
//govc:load encoding/binary time
//govc:class a noLF
//govc:unroll ConnectToPanel
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=ctPing google.golang.org/protobuf/proto:Unmarshal=ctReplyUnmarshal time:Now=CtNow
func vc_ClientDetects(class int, ping, wire []byte, b0, b1, b2, b3 byte, a string) {
	vConnects(true, nil, 0, VErrTimeout)
	vAssume(len(ping) < 1<<20)
	vPingWire, vPings, vAck = ping, 0, class == 0
	vReply(class, []byte{b0, b1, b2, b3}, wire, a)
	probe := append(VLE32(uint32(len(ping))), ping...)
	vMeanwhile = func() {
		vReach("connected")
		vAssert("the panel is probed once", vPings == 1)
		vAssert("no deadline is left running", !VArmed)
		switch class {
		case 0:
			vAssert("an acknowledge makes it binary", vBinMode)
			vAssert("the probe is one frame, and nothing more is written", vSeqEq(vProbed, probe))
		case 1:
			vAssert("the probe is one frame", vSeqEq(vProbed[:len(probe)], probe))
		default:
			vAssert("silence and text make it an ASCII panel", !vBinMode)
			vAssert("the probe is one frame, flushed by exactly one line feed", vSeqEq(vProbed, append(probe, '\n')))
		}
		if class == 5 {
			vAssert("an error message is handed on", vErrMsg == a)
		} else if class <= 4 {
			vAssert("no error message is made up", vErrMsg == "")
		}
		vStop()
	}
	vRun(VNewCtx(false), nil, nil)
}

var _ = time.Second
