package rawpanellib

// ---- C08 - C11: the reconnecting client

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"sync"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"go.uber.org/atomic"
	"google.golang.org/protobuf/proto"
)

var (
	vProbeReply []byte // what the probe is answered with
	vProbeErr   error
	vExitFlag   bool
	vWaitFor    int // threads the wait group waits for
	vWaitMax    int
	vGot        [][]*rwp.OutboundMessage
	vEvents     []int // callbacks: 1 connect, 2 disconnect, 3 disconnect for good
	vBinMode    bool
	vErrMsg     string
	vToPanel    func() ([]*rwp.InboundMessage, bool)
	vProbed     []byte // what was written before connecting was reported
	vMeanwhile  func() // while the reader runs
	vPingWire   = []byte{8, 1}
)

func ctProbe(c net.Conn, reply []byte) (int, error) {
	p, ok := c.(*VConn)
	vRequire("the new connection is looked at", ok && p == VPeer)
	vRequire("the buffer holds any reply", len(reply) == 1000)
	vAssert("the reply is waited for two seconds", VArmed && VLimit == 2*time.Second)
	copy(reply[:len(vProbeReply)], vProbeReply)
	return len(vProbeReply), vProbeErr
}
func ctExitStore(b *atomic.Bool, v bool) { vExitFlag = v }
func ctExitLoad(b *atomic.Bool) bool     { return vExitFlag }
func ctWgAdd(wg *sync.WaitGroup, n int) {
	vWaitFor += n
	vAssert("never fewer than none to wait for", vWaitFor >= 0)
}
func ctWgDone(wg *sync.WaitGroup) {
	vWaitFor--
	vAssert("never fewer than none to wait for", vWaitFor >= 0)
}

// vConnects: a client about to connect to a panel that sends in, of which avail bytes arrive
func vConnects(bin bool, in []byte, avail int, err error) {
	VPeer = VNet(in, avail, err)
	VDials, VDialErr, VOnDial, VSlept = 0, nil, nil, nil
	vProbeReply, vProbeErr = nil, VErrTimeout
	if bin {
		vProbeReply, vProbeErr = []byte{2, 0, 0, 0, 8, 2}, nil
	}
	vExitFlag, vWaitFor, vGot, vEvents, vBinMode, vErrMsg, vToPanel, vMeanwhile = false, 0, nil, nil, false, "", nil, nil
	VWires = [][]byte{vPingWire}
}

// vRun: the client runs
func vRun(ctx context.Context, wg *sync.WaitGroup, config *ConnectToPanelConfig) {
	var to chan []*rwp.InboundMessage = vChan(func() ([]*rwp.InboundMessage, bool) {
		if vToPanel == nil {
			vNever()
		}
		return vToPanel()
	}, nil)
	from := vChan(nil, func(m []*rwp.OutboundMessage) { vGot = append(vGot, m) })
	ConnectToPanel("panel:9923", to, from, ctx, wg,
		func(e string, bin bool, c net.Conn) {
			p, ok := c.(*VConn)
			vAssert("the connection handed out is the dialled one", ok && p == VPeer)
			vAssert("connect and disconnect alternate", len(vEvents) == 0 || vEvents[len(vEvents)-1] == 2)
			vEvents = append(vEvents, 1)
			vErrMsg, vBinMode = e, bin
			vProbed = VOut
			VOut, VMsgs, VDecs, VRaw = nil, nil, nil, nil
			if vMeanwhile != nil {
				vMeanwhile()
			}
		},
		func(exit bool) {
			vAssert("connect and disconnect alternate", len(vEvents) > 0 && vEvents[len(vEvents)-1] == 1)
			if exit {
				vEvents = append(vEvents, 3)
			} else {
				vEvents = append(vEvents, 2)
			}
		}, config)
}

// (k=2: the payload of the frame before it cannot be decoded.)
// One frame, from any point of the stream at which a frame starts, and the wait for the next one. how=0: it arrives whole;
// 1: it breaks off somewhere (the panel stalls or is lost); 2: the length is beyond the limit. What was sent up to there is
// delivered, whole frames only, each once; a broken frame ends the connection, which is reported and made anew after a pause.
//
//govc:unit C08 C10 C11
//govc:enum k=0..2
//govc:enum how=0..2
//govc:enum wait=0..1
//govc:feas
//govc:load encoding/binary time
//govc:unroll ConnectToPanel ConnectToPanel$1
//govc:maxalloc 500000
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=CtMarshal google.golang.org/protobuf/proto:Unmarshal=CtUnmarshal io:ReadFull=CtReadFull time:Now=CtNow time:Sleep=CtSleep
//govc:replace go.uber.org/atomic:Bool.Store=ctExitStore go.uber.org/atomic:Bool.Load=ctExitLoad sync:WaitGroup.Add=ctWgAdd sync:WaitGroup.Done=ctWgDone
func vc_ClientReadsBinary(k, how, wait int, a0, a1, a2, a3, b0, b1, b2, b3 byte, p0, p []byte, cut, retry int, drop bool) {
	h0, h := []byte{a0, a1, a2, a3}, []byte{b0, b1, b2, b3}
	n0, n := int(binary.LittleEndian.Uint32(h0)), int(binary.LittleEndian.Uint32(h))
	vAssume(len(p0) >= n0 && n0 < 500000 && len(p) >= n)
	p0, p = p0[:n0], p[:n] // payloads of the lengths announced
	var in []byte
	if k > 0 {
		in = append(in, h0...)
		in = append(in, p0...)
	}
	start := len(in)
	in = append(in, h...)
	avail := start + 4 + n
	if how == 2 {
		vAssume(n >= 500000)
	} else {
		vAssume(n < 500000)
		in = append(in, p...)
	}
	if how == 1 {
		vAssume(cut >= 0 && cut < 4+n)
		avail = start + cut
	}
	vConnects(true, in, avail, VErrTimeout)
	if drop {
		VErr = io.EOF
	}
	if k == 2 {
		VBad = 1
	}
	check := func(n int) {
		if k == 2 { // whether anything is delivered for it is open
			vAssert("the frame before is decoded from its own bytes", len(VRaw) >= 1 && vSeqEq(VRaw[0], p0))
			vAssert("one delivery at most for every frame", len(VRaw) == n-1 && len(vGot) >= n-2 && len(vGot) <= n-1)
			if n == 3 {
				m, ok := VDecs[1].(*rwp.OutboundMessage)
				last := vGot[len(vGot)-1]
				vAssert("the message is decoded from its own bytes", vSeqEq(VRaw[1], p))
				vAssert("the message decoded is the one delivered", ok && len(last) == 1 && last[0] == m)
			}
			return
		}
		vAssert("one delivery for every whole frame", len(vGot) == n && len(VDecs) == n && len(VRaw) == n)
		for i := 0; i < n; i++ {
			m, ok := VDecs[i].(*rwp.OutboundMessage)
			vAssert("the message decoded is the one delivered", ok && len(vGot[i]) == 1 && vGot[i][0] == m)
		}
		if k == 1 {
			vAssert("the first message is decoded from its own bytes", vSeqEq(VRaw[0], p0))
		}
		if n == k+1 {
			vAssert("the message is decoded from its own bytes", vSeqEq(VRaw[k], p))
		}
	}
	VWant = func(w int) {
		if VPos == 0 || VPos == start {
			vAssert("no deadline runs while waiting for a frame", !VArmed)
		} else if VPos < start+4+n {
			vAssert("inside a frame the wait is limited", VArmed)
			vAssert("inside a frame the wait is limited to two seconds", VLimit == 2*time.Second)
		} else {
			vAssert("no deadline runs while waiting for the next frame", !VArmed)
			vReach("the next frame is waited for")
			vAssert("only a whole frame is followed by another one", how == 0)
			check(k + 1)
			vAssert("connected, and not disconnected", len(vEvents) == 1 && vBinMode)
			vStop()
		}
	}
	var wg *sync.WaitGroup
	if wait == 1 {
		wg = &sync.WaitGroup{}
	}
	config := &ConnectToPanelConfig{ReConnectionRetryPeriod: retry}
	period := 1
	if retry != 0 {
		period = retry
	}
	vAssume(retry >= 0 && retry < 1000000)
	VOnDial = func() {
		vAssert("it dials the panel it was given", VDialed == "tcp!panel:9923")
		if VDials == 2 {
			vReach("connecting again")
			vAssert("the connection ends only with a broken or over-limit frame", how != 0)
			check(k)
			vAssert("a disconnect is reported, not as cancelled", len(vEvents) == 2 && vEvents[1] == 2)
			vAssert("the connection is closed", VCloses >= 1)
			vAssert("after the retry period", len(VSlept) == 1 && VSlept[0] == time.Duration(period)*time.Second)
			if how == 2 {
				vAssert("nothing of the frame is read", VPos == start+4)
			}
			vGo(0)
			vGo(1)
			vAssert("the threads of the connection end with it", wait == 0 || vWaitFor == 1)
			vAssert("nothing is written", len(VOut) == 0)
			vStop()
		}
	}
	vRun(VNewCtx(false), wg, config)
	vAssert("it does not return", false)
}

// Without the binary protocol: lines, ended by LF or CRLF, from any point at which a line starts; every one is read by the
// converter by itself, without its line end, and what it makes of it is delivered. Then the connection ends.
// form: of the first line - 0 empty, 1 without blanks, 2 any.
//
//govc:unit C08 C11
//govc:enum n=0..2
//govc:enum crlf=0..3
//govc:enum form=0..2
//govc:feas
//govc:load encoding/binary time
//govc:unroll ConnectToPanel ConnectToPanel$1
//govc:class a0 graph+
//govc:class a2 graph+
//govc:class b0 graph+
//govc:class b2 graph+
//govc:class a1 noLF
//govc:class b1 noLF
//govc:replace bufio:NewReader=CtNewReader bufio:Reader.ReadString=CtReadString RawPanelASCIIstringsToOutboundMessages=ctReadLines
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=CtMarshal google.golang.org/protobuf/proto:Unmarshal=CtUnmarshal time:Now=CtNow time:Sleep=CtSleep
//govc:replace go.uber.org/atomic:Bool.Store=ctExitStore go.uber.org/atomic:Bool.Load=ctExitLoad sync:WaitGroup.Add=ctWgAdd sync:WaitGroup.Done=ctWgDone
func vc_ClientReadsASCII(n, crlf, form int, a0, a1, a2, b0, b1, b2, tail string, ra, rb []*rwp.OutboundMessage, eof bool, retry int) {
	a, b := []string{"", a0, a0 + a1 + a2}[form], b0+b1+b2
	end := func(i int) string {
		if crlf>>i&1 == 1 {
			return "\r\n"
		}
		return "\n"
	}
	vConnects(false, nil, 0, VErrTimeout)
	if eof {
		VErr = io.EOF
	}
	VText, VLine, VTail = []string{a + end(0), b + end(1)}[:n], 0, tail
	vReads, vReadOf = [][]*rwp.OutboundMessage{ra, rb}, nil
	want := []string{a, b}[:n]
	check := func() {
		vAssert("one delivery for every line", len(vGot) == n && len(vReadOf) == n)
		for i := 0; i < n; i++ {
			vAssert("the converter reads the line and nothing else", len(vReadOf[i]) == 1 && vReadOf[i][0] == want[i])
			vAssert("what the converter makes of the line is delivered", vSeqEq(vGot[i], vReads[i]))
		}
	}
	VAtEnd = func() {
		vReach("the next line is waited for")
		vAssert("connected, and not disconnected", len(vEvents) == 1 && !vBinMode)
		check()
	}
	config := &ConnectToPanelConfig{ReConnectionRetryPeriod: retry}
	period := 1
	if retry != 0 {
		period = retry
	}
	vAssume(retry >= 0 && retry < 1000000)
	VOnDial = func() {
		if VDials == 2 {
			vReach("connecting again")
			check()
			vAssert("a disconnect is reported, not as cancelled", len(vEvents) == 2 && vEvents[1] == 2)
			vAssert("the connection is closed", VCloses >= 1)
			vAssert("after the retry period", len(VSlept) >= 1 && VSlept[len(VSlept)-1] == time.Duration(period)*time.Second)
			vAssert("nothing is written", len(VOut) == 0)
			vStop()
		}
	}
	vRun(VNewCtx(false), nil, config)
	vAssert("it does not return", false)
}

// what the converter makes of a list of lines
var vReads [][]*rwp.OutboundMessage
var vReadOf [][]string

func ctReadLines(lines []string) []*rwp.OutboundMessage {
	vReadOf = append(vReadOf, lines)
	return vReads[len(vReadOf)-1]
}

// the ping is the first message marshalled, the ones submitted follow
func ctMarshalToo(m proto.Message) ([]byte, error) {
	if len(vEvents) == 0 {
		VMsgs = append(VMsgs, m)
		return vPingWire, nil
	}
	return CtMarshalAll(m)
}

var vLists int

// A list of any number of messages, whatever was written before: exactly its frames are written, complete and in order, and
// the next list is waited for. (The writer carries nothing from list to list.)
//
//govc:unit C09
//govc:enum n=0..1
//govc:enum wait=0..1
//govc:feas
//govc:load encoding/binary time
//govc:unroll ConnectToPanel ConnectToPanel$1
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=ctMarshalToo google.golang.org/protobuf/proto:Unmarshal=CtUnmarshal io:ReadFull=CtReadFull bufio:NewReader=CtNewReader bufio:Reader.ReadString=CtReadString time:Now=CtNow time:Sleep=CtSleep time:NewTimer=CtNewTimer
//govc:replace go.uber.org/atomic:Bool.Store=ctExitStore go.uber.org/atomic:Bool.Load=ctExitLoad sync:WaitGroup.Add=ctWgAdd sync:WaitGroup.Done=ctWgDone
func vc_ClientWritesBinary(n, wait int, ms []*rwp.InboundMessage, ws [][]byte, pre []byte) {
	vConnects(true, nil, 0, VErrTimeout)
	vAssume(len(ms) == len(ws))
	vLists = 0
	vToPanel = func() ([]*rwp.InboundMessage, bool) {
		if vLists == n {
			vNever()
		}
		vLists++
		return ms, true
	}
	var wg *sync.WaitGroup
	if wait == 1 {
		wg = &sync.WaitGroup{}
	}
	vMeanwhile = func() {
		vAssert("one thread writes, one waits for the cancellation", vGos() == 2)
		vAssert("they are counted", wait == 0 || vWaitFor == 3)
		VOut, VWires, VToSend, VSentN = pre, ws, ms, 0
		vGo(0)
		vReach("the next list is waited for")
		want := pre
		if n == 1 {
			for i := range ms {
				want = append(want, VLE32(uint32(len(ws[i])))...)
				want = append(want, ws[i]...)
			}
			vAssert("every message is marshalled once", VSentN == len(ms))
		}
		vAssert("exactly the frames of the messages are written, in order", vSeqEq(VOut, want))
		vAssert("the connection stays open", VCloses == 0)
		out := VOut
		vGo(1)
		vAssert("nothing is written by the other thread", vSeqEq(VOut, out) && VCloses == 0)
		vStop()
	}
	vRun(VNewCtx(false), wg, nil)
}

// Without the binary protocol: the converter's lines, any number, each ended by one line feed.
//
//govc:unit C09
//govc:enum n=0..1
//govc:feas
//govc:load encoding/binary time
//govc:unroll ConnectToPanel ConnectToPanel$1
//govc:replace InboundMessagesToRawPanelASCIIstrings=ctLinesToSend
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=ctMarshalToo google.golang.org/protobuf/proto:Unmarshal=CtUnmarshal io:ReadFull=CtReadFull bufio:NewReader=CtNewReader bufio:Reader.ReadString=CtReadString time:Now=CtNow time:Sleep=CtSleep time:NewTimer=CtNewTimer
//govc:replace go.uber.org/atomic:Bool.Store=ctExitStore go.uber.org/atomic:Bool.Load=ctExitLoad sync:WaitGroup.Add=ctWgAdd sync:WaitGroup.Done=ctWgDone
func vc_ClientWritesASCII(n int, ms []*rwp.InboundMessage, lines []string, pre []byte) {
	vConnects(false, nil, 0, VErrTimeout)
	vLists, vLinesSent, vLinesTo = 0, nil, lines
	vToPanel = func() ([]*rwp.InboundMessage, bool) {
		if vLists == n {
			vNever()
		}
		vLists++
		return ms, true
	}
	vMeanwhile = func() {
		vAssert("one thread writes, one waits for the cancellation", vGos() == 2)
		VOut = pre
		vGo(0)
		vReach("the next list is waited for")
		want := pre
		if n == 1 {
			for i := range lines {
				want = append(want, []byte(lines[i]+"\n")...)
			}
			vAssert("the lines of the list", vSeqEq(vLinesSent, ms))
		}
		vAssert("exactly the lines of the converter are written, each ended by a line feed", vSeqEq(VOut, want))
		vAssert("the connection stays open", VCloses == 0)
		vStop()
	}
	vRun(VNewCtx(false), nil, nil)
}

var vLinesTo []string
var vLinesSent []*rwp.InboundMessage

func ctLinesToSend(ms []*rwp.InboundMessage) []string { vLinesSent = ms; return vLinesTo }

// Cancellation, while connected (where=0: seen before anything else, 1: during the reader's wait, 2: only after the panel was
// lost) or without a connection (3): the connection is closed, reported as cancelled if and only if that ended it, nothing
// follows, the call returns and every thread with it.
//
//govc:unit C11
//govc:enum where=0..3
//govc:enum class=0..7
//govc:feas
//govc:load encoding/binary time
//govc:class a noLF
//govc:unroll ConnectToPanel ConnectToPanel$1
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=ctPing google.golang.org/protobuf/proto:Unmarshal=ctReplyUnmarshal io:ReadFull=CtReadFull bufio:NewReader=CtNewReader bufio:Reader.ReadString=CtReadString time:Now=CtNow time:Sleep=CtSleep time:NewTimer=CtNewTimer
//govc:replace go.uber.org/atomic:Bool.Store=ctExitStore go.uber.org/atomic:Bool.Load=ctExitLoad sync:WaitGroup.Add=ctWgAdd sync:WaitGroup.Done=ctWgDone
func vc_ClientCancelled(where, class int, h0, b0, b1, b2, b3 byte, wire []byte, a string) {
	wg := &sync.WaitGroup{}
	vConnects(true, []byte{h0}, 0, VErrTimeout)
	vPings, vAck = 0, class == 0
	vReply(class, []byte{b0, b1, b2, b3}, wire, a)
	VText, VLine, VTail = nil, 0, ""
	ctx := VNewCtx(where != 1)
	if where == 3 {
		VDialErr = VErrTimeout
	}
	VTimeout = func() { vNever() }
	vMeanwhile = func() {
		if where == 0 {
			vGo(1)
			vAssert("the connection is closed", VCloses == 1)
		}
	}
	seen := func() {
		if where == 1 {
			VCancelled = true
			vGo(1)
			vAssert("the connection is closed", VCloses == 1)
		}
	}
	VWant = func(int) { seen() }
	VAtEnd = seen
	VOnDial = func() {
		if VDials == 2 {
			vReach("connecting again")
			vAssert("only when the cancellation was not seen", where == 2)
			vAssert("the loss is reported, not as cancelled", len(vEvents) == 2 && vEvents[1] == 2)
			vStop()
		}
	}
	vRun(ctx, wg, nil)
	vReach("returns")
	vAssert("it returns only when cancelled", where != 2)
	if where == 3 {
		vAssert("nothing is reported without a connection", len(vEvents) == 0)
	} else {
		vAssert("a disconnect is reported, as cancelled", len(vEvents) == 2 && vEvents[1] == 3)
		vGo(0)
		if where == 0 || where == 1 {
			vAssert("the connection is closed", VCloses >= 1)
		}
	}
	vAssert("nothing is left running", vWaitFor == 0)
	vAssert("nothing is delivered", len(vGot) == 0)
}

// The panel is lost (lost=0) or stalls (1), whatever it answered the probe with: the connection is closed and its loss
// reported, not as cancelled; both threads of it end; it is made anew after the pause.
//
//govc:unit C11
//govc:enum class=0..7
//govc:enum lost=0..1
//govc:feas
//govc:load encoding/binary time
//govc:class a noLF
//govc:unroll ConnectToPanel ConnectToPanel$1
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=ctPing google.golang.org/protobuf/proto:Unmarshal=ctReplyUnmarshal io:ReadFull=CtReadFull bufio:NewReader=CtNewReader bufio:Reader.ReadString=CtReadString time:Now=CtNow time:Sleep=CtSleep time:NewTimer=CtNewTimer
//govc:replace go.uber.org/atomic:Bool.Store=ctExitStore go.uber.org/atomic:Bool.Load=ctExitLoad sync:WaitGroup.Add=ctWgAdd sync:WaitGroup.Done=ctWgDone
func vc_ClientLost(class, lost int, h0, b0, b1, b2, b3 byte, wire []byte, a string, retry int) {
	wg := &sync.WaitGroup{}
	vConnects(true, []byte{h0}, 0, VErrTimeout)
	if lost == 0 {
		VErr = io.EOF
	}
	vPings, vAck = 0, class == 0
	vReply(class, []byte{b0, b1, b2, b3}, wire, a)
	VText, VLine, VTail = nil, 0, ""
	vAssume(retry >= 0 && retry < 1000000)
	period := 1
	if retry != 0 {
		period = retry
	}
	VOnDial = func() {
		if VDials == 2 {
			vReach("connecting again")
			vAssert("a disconnect is reported, not as cancelled", len(vEvents) == 2 && vEvents[0] == 1 && vEvents[1] == 2)
			vAssert("the connection is closed", VCloses >= 1)
			vAssert("after the retry period", len(VSlept) >= 1 && VSlept[len(VSlept)-1] == time.Duration(period)*time.Second)
			vAssert("nothing is delivered", len(vGot) == 0)
			vGo(1)
			vGo(0)
			vAssert("the threads of the connection end with it", vGos() == 2 && vWaitFor == 1)
			vStop()
		}
	}
	vRun(VNewCtx(false), wg, &ConnectToPanelConfig{ReConnectionRetryPeriod: retry})
	vAssert("it does not return", false)
}

// No panel: it is tried again after the retry period; what is submitted meanwhile is dropped.
//
//govc:unit C11
//govc:enum there=0..1
//govc:feas
//govc:load time
//govc:unroll ConnectToPanel
//govc:replace net:Dial=CtDial readProbeReply=ctProbe google.golang.org/protobuf/proto:Marshal=ctMarshalToo google.golang.org/protobuf/proto:Unmarshal=CtUnmarshal io:ReadFull=CtReadFull bufio:NewReader=CtNewReader bufio:Reader.ReadString=CtReadString time:Now=CtNow time:Sleep=CtSleep time:NewTimer=CtNewTimer
//govc:replace go.uber.org/atomic:Bool.Store=ctExitStore go.uber.org/atomic:Bool.Load=ctExitLoad sync:WaitGroup.Add=ctWgAdd sync:WaitGroup.Done=ctWgDone
func vc_ClientAlone(there int, retry int, given bool, ms []*rwp.InboundMessage) {
	vConnects(false, nil, 0, VErrTimeout)
	VDialErr = VErrTimeout
	period := 3
	vAssume(retry >= 0 && retry < 1000000)
	var config *ConnectToPanelConfig
	if given {
		config = &ConnectToPanelConfig{NoConnectionRetryPeriod: retry}
		if retry != 0 {
			period = retry
		}
	}
	vLists, vTimes = 0, 0
	if there == 1 {
		vToPanel = func() ([]*rwp.InboundMessage, bool) { vLists++; return ms, true }
	}
	VTimeout = func() { vTimes++ }
	VOnDial = func() {
		if VDials == 2 {
			vReach("connecting again")
			vAssert("after the retry period, or when something was submitted", vTimes+vLists == 1 && VTimer == time.Duration(period)*time.Second)
			vAssert("nothing is reported", len(vEvents) == 0)
			vStop()
		}
	}
	vRun(VNewCtx(false), nil, config)
	vAssert("it does not return", false)
}

var vTimes int
