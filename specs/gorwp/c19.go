package gorwp

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"time"

	helpers "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C19: the high-level client

// Every message is written as one frame, in order.
//
//govc:unit C19
//govc:enum n=0..3
//govc:feas
//govc:load encoding/binary
//govc:replace google.golang.org/protobuf/proto:Marshal=root.CtMarshal
func vc_WriteBinary(n int, a, b, c *rwp.InboundMessage, wa, wb, wc []byte) {
	rp := &RawPanel{connection: helpers.VNet(nil, 0, nil), binaryPanel: true}
	vAssume(len(wa) < 1<<30 && len(wb) < 1<<30 && len(wc) < 1<<30)
	ms := []*rwp.InboundMessage{a, b, c}[:n]
	ws := [][]byte{wa, wb, wc}[:n]
	helpers.VWires = ws
	rp.writeToPanel(ms)
	var want []byte
	for i := 0; i < n; i++ {
		want = append(want, helpers.VLE32(uint32(len(ws[i])))...)
		want = append(want, ws[i]...)
	}
	vReach("returns")
	vAssert("exactly the frames of the messages are written, in order", vSeqEq(helpers.VOut, want))
	vAssert("every message is marshalled once", len(helpers.VMsgs) == n)
	for i := 0; i < n; i++ {
		m, ok := helpers.VMsgs[i].(*rwp.InboundMessage)
		vAssert("the message itself is marshalled", ok && m == ms[i])
	}
}

var vLines []string
var vLinesOf []*rwp.InboundMessage

func ctLines(ms []*rwp.InboundMessage) []string { vLinesOf = ms; return vLines }

// Without the binary protocol: the converter's lines, each ended by one line feed.
//
//govc:unit C19
//govc:enum n=0..3
//govc:feas
//govc:replace root:InboundMessagesToRawPanelASCIIstrings=ctLines
func vc_WriteASCII(n int, a, b, c string, ms []*rwp.InboundMessage) {
	rp := &RawPanel{connection: helpers.VNet(nil, 0, nil), binaryPanel: false}
	vLines = []string{a, b, c}[:n]
	rp.writeToPanel(ms)
	var want []byte
	for i := 0; i < n; i++ {
		want = append(want, []byte(vLines[i]+"\n")...)
	}
	vReach("returns")
	vAssert("exactly the lines of the converter are written, each ended by a line feed", vSeqEq(helpers.VOut, want))
	vAssert("the lines of the messages handed over", vSeqEq(vLinesOf, ms))
}

// what was handed on to the dispatcher
var got [][]*rwp.OutboundMessage

// One frame, from any point of the stream at which a frame starts, and the wait for the next one. how=0: it arrives whole;
// 1: it breaks off somewhere; 2: the length is beyond the limit.
//
//govc:unit C19
//govc:enum k=0..1
//govc:enum how=0..2
//govc:feas
//govc:load encoding/binary time
//govc:unroll readFromPanel
//govc:maxalloc 500000
//govc:replace google.golang.org/protobuf/proto:Unmarshal=root.CtUnmarshal io:ReadFull=root.CtReadFull time:Now=root.CtNow
func vc_ReadBinary(k, how int, a0, a1, a2, a3, b0, b1, b2, b3 byte, p0, p []byte, cut int) {
	h0, h := []byte{a0, a1, a2, a3}, []byte{b0, b1, b2, b3}
	n0, n := int(binary.LittleEndian.Uint32(h0)), int(binary.LittleEndian.Uint32(h))
	vAssume(len(p0) >= n0 && n0 < 500000 && len(p) >= n)
	p0, p = p0[:n0], p[:n] // payloads of the lengths announced
	var in []byte
	if k == 1 {
		in = append(in, h0...)
		in = append(in, p0...)
	}
	start := len(in)
	in = append(in, h...)
	avail := start + 4 + n
	if how == 2 {
		vAssume(n >= 500000)
	} else {
		vAssume(n < 500000)
		in = append(in, p...)
	}
	if how == 1 {
		vAssume(cut >= 0 && cut < 4+n)
		avail = start + cut
	}
	rp := &RawPanel{connection: helpers.VNet(in, avail, helpers.VErrTimeout), binaryPanel: true}
	helpers.VArmed, helpers.VLimit = true, 2*time.Second // as the detector leaves it
	got = nil
	rp.fromPanel = vChan(nil, func(m []*rwp.OutboundMessage) { got = append(got, m) })
	check := func(n int) {
		vAssert("one delivery for every whole frame", len(got) == n && len(helpers.VDecs) == n && len(helpers.VRaw) == n)
		for i := 0; i < n; i++ {
			m, ok := helpers.VDecs[i].(*rwp.OutboundMessage)
			vAssert("the message decoded is the one delivered", ok && len(got[i]) == 1 && got[i][0] == m)
		}
		if k == 1 {
			vAssert("the first message is decoded from its own bytes", vSeqEq(helpers.VRaw[0], p0))
		}
		if n == k+1 {
			vAssert("the message is decoded from its own bytes", vSeqEq(helpers.VRaw[k], p))
		}
	}
	helpers.VWant = func(w int) {
		if helpers.VPos == 0 || helpers.VPos == start {
			vAssert("no deadline runs while waiting for a frame", !helpers.VArmed)
		} else if helpers.VPos < start+4+n {
			vAssert("inside a frame the wait is limited", helpers.VArmed)
			vAssert("inside a frame the wait is limited to two seconds", helpers.VLimit == 2*time.Second)
		} else {
			vAssert("no deadline runs while waiting for the next frame", !helpers.VArmed)
			vReach("the next frame is waited for")
			vAssert("only a whole frame is followed by another one", how == 0)
			check(k + 1)
			vStop()
		}
	}
	rp.readFromPanel()
	vAssert("reading ends only with a broken or over-limit frame", how != 0)
	if how != 0 {
		vReach("reading ends")
		check(k)
	}
	if how == 2 {
		vAssert("nothing of the frame is read", helpers.VPos == start+4)
	}
}

// what the converter makes of a list of lines
var vReads [][]*rwp.OutboundMessage
var vReadOf [][]string

func ctRead(lines []string) []*rwp.OutboundMessage {
	vReadOf = append(vReadOf, lines)
	return vReads[len(vReadOf)-1]
}

// Lines, ended by LF or CRLF, from any point at which a line starts: every one goes to the converter by itself, without its
// line end, and what the converter makes of it is handed on; acknowledges are not. Then the connection ends.
// form: of the first line - 0 empty, 1 without blanks, 2 any, 3 an acknowledge.
//
//govc:unit C19
//govc:enum n=0..2
//govc:enum crlf=0..3
//govc:enum form=0..3
//govc:feas
//govc:load time
//govc:unroll readFromPanel
//govc:class a0 graph+
//govc:class a2 graph+
//govc:class b0 graph+
//govc:class b2 graph+
//govc:class a1 noLF
//govc:class b1 noLF
//govc:replace bufio:NewReader=root.CtNewReader bufio:Reader.ReadString=root.CtReadString root:RawPanelASCIIstringsToOutboundMessages=ctRead time:Sleep=root.CtSleep
func vc_ReadASCII(n, crlf, form int, a0, a1, a2, b0, b1, b2, tail string, ra, rb []*rwp.OutboundMessage, eof bool) {
	a, b := []string{"", a0, a0 + a1 + a2, "ack"}[form], b0+b1+b2
	end := func(i int) string {
		if crlf>>i&1 == 1 {
			return "\r\n"
		}
		return "\n"
	}
	rp := &RawPanel{connection: helpers.VNet(nil, 0, helpers.VErrTimeout), binaryPanel: false}
	helpers.VArmed, helpers.VLimit = true, 2*time.Second // as the detector leaves it
	if eof {
		helpers.VErr = io.EOF
	}
	helpers.VText, helpers.VLine, helpers.VTail = []string{a + end(0), b + end(1)}[:n], 0, tail
	vReads, vReadOf, got = [][]*rwp.OutboundMessage{ra, rb}, nil, nil
	vAssume(b != "ack" && (form == 3 || a != "ack"))
	want := []string{a, b}[:n]
	if form == 3 && n > 0 {
		want = want[1:]
	}
	helpers.VAtEnd = func() {
		vReach("the next line is waited for")
		vAssert("one delivery for every line", len(got) == len(want) && len(vReadOf) == len(want))
		for i := 0; i < len(want); i++ {
			vAssert("the converter reads the line and nothing else", len(vReadOf[i]) == 1 && vReadOf[i][0] == want[i])
			vAssert("what the converter makes of the line is handed on", vSeqEq(got[i], vReads[i]))
		}
	}
	rp.fromPanel = vChan(nil, func(m []*rwp.OutboundMessage) { got = append(got, m) })
	err := rp.readFromPanel()
	vReach("reading ends")
	vAssert("the end of the connection is reported", err != nil)
	vAssert("nothing is delivered after the last line", len(got) == len(want))
}

// handler invocations, per kind
var (
	vTrig  []*rwp.HWCEvent
	vTrigI []uint32
	vBin   [][3]int
	vPul   [][2]int
	vAbs   [][2]int
	vSpd   [][2]int
	vOrder []int // which kind
	vSent  [][]*rwp.InboundMessage
)

func vHandler() { vAssert("handlers run without a lock held", len(helpers.VHeld) == 0) }

// a client with one handler of every kind, bound to any component
func vClient(it, ib, ip, ia, is uint32) *RawPanel {
	vTrig, vTrigI, vBin, vPul, vAbs, vSpd, vSent, helpers.VHeld = nil, nil, nil, nil, nil, nil, nil, nil
	rp := &RawPanel{connection: helpers.VNet(nil, 0, nil),
		triggerBindings: map[uint32]TriggerFunc{}, binaryBindings: map[uint32]BinaryFunc{}, pulsedBindings: map[uint32]PulsedFunc{},
		absoluteBindings: map[uint32]AbsoluteFunc{}, intensityBindings: map[uint32]IntensityFunc{}}
	rp.State.hwcAvailability = map[uint32]uint32{}
	rp.toPanel = vChan(nil, func(m []*rwp.InboundMessage) { vSent = append(vSent, m) })
	rp.BindTrigger(it, func(id uint32, e *rwp.HWCEvent) { vHandler(); vTrig = append(vTrig, e); vTrigI = append(vTrigI, id) })
	rp.BindBinary(ib, func(id uint32, s BinaryStatus, e BinaryEdge) {
		vHandler()
		vBin = append(vBin, [3]int{int(id), int(s), int(e)})
	})
	rp.BindPulsed(ip, func(id uint32, v int) { vHandler(); vPul = append(vPul, [2]int{int(id), v}) })
	rp.BindAbsolute(ia, func(id uint32, v int) { vHandler(); vAbs = append(vAbs, [2]int{int(id), v}) })
	rp.BindIntensity(is, func(id uint32, v int) { vHandler(); vSpd = append(vSpd, [2]int{int(id), v}) })
	vAssert("no lock is kept", len(helpers.VHeld) == 0)
	return rp
}

// Events: every handler bound to the component is called once per matching event, with what the event says.
//
//govc:unit C19
//govc:enum n=0..2
//govc:feas
//govc:replace sync:RWMutex.Lock=root.CtLock sync:RWMutex.Unlock=root.CtUnlock sync:RWMutex.RLock=root.CtLock sync:RWMutex.RUnlock=root.CtUnlock
func vc_Dispatch(n int, it, ib, ip, ia, is uint32, e0, e1 *rwp.HWCEvent) {
	vAssume(e0 != nil && e1 != nil)
	evs := []*rwp.HWCEvent{e0, e1}[:n]
	rp := vClient(it, ib, ip, ia, is)
	rp.procesMessagesFromPanel([]*rwp.OutboundMessage{{Events: evs}})
	vReach("returns")
	var wt []*rwp.HWCEvent
	var wti []uint32
	var wb [][3]int
	var wp, wa, ws [][2]int
	for _, e := range evs {
		if e.HWCID == it {
			wt, wti = append(wt, e), append(wti, it)
		}
		if e.HWCID == ib && e.Binary != nil {
			p := 0
			if e.Binary.Pressed {
				p = 1
			}
			wb = append(wb, [3]int{int(ib), p, int(uint8(e.Binary.Edge))})
		}
		if e.HWCID == ip && e.Pulsed != nil {
			wp = append(wp, [2]int{int(ip), int(e.Pulsed.Value)})
		}
		if e.HWCID == ia && e.Absolute != nil {
			wa = append(wa, [2]int{int(ia), int(e.Absolute.Value)})
		}
		if e.HWCID == is && e.Speed != nil {
			ws = append(ws, [2]int{int(is), int(e.Speed.Value)})
		}
	}
	vAssert("trigger handlers: once per event, in order, with the event", vSeqEq(vTrig, wt) && vSeqEq(vTrigI, wti))
	vAssert("binary handlers: once per binary event, in order, with state and edge", vSeqEq(vBin, wb))
	vAssert("pulsed handlers: once per pulsed event, in order, with the value", vSeqEq(vPul, wp))
	vAssert("absolute handlers: once per absolute event, in order, with the value", vSeqEq(vAbs, wa))
	vAssert("intensity handlers: once per speed event, in order, with the value", vSeqEq(vSpd, ws))
	vAssert("no lock is kept", len(helpers.VHeld) == 0)
	vAssert("nothing is sent", len(vSent) == 0)
}

// Events: every handler bound to the component is called once per matching event, with what the event says.
//
//govc:unit C19
//govc:feas
//govc:nonnil evs
func vc_DispatchAll(it, ib, ip, ia, is uint32, evs []*rwp.HWCEvent) {
	rp := vClient(it, ib, ip, ia, is)
	rp.procesMessagesFromPanel([]*rwp.OutboundMessage{{Events: evs}})
	vReach("returns")
	var wt []*rwp.HWCEvent
	var wti []uint32
	var wb [][3]int
	var wp, wa, ws [][2]int
	for _, e := range evs {
		if e.HWCID == it {
			wt, wti = append(wt, e), append(wti, it)
		}
		if e.HWCID == ib && e.Binary != nil {
			p := 0
			if e.Binary.Pressed {
				p = 1
			}
			wb = append(wb, [3]int{int(ib), p, int(uint8(e.Binary.Edge))})
		}
		if e.HWCID == ip && e.Pulsed != nil {
			wp = append(wp, [2]int{int(ip), int(e.Pulsed.Value)})
		}
		if e.HWCID == ia && e.Absolute != nil {
			wa = append(wa, [2]int{int(ia), int(e.Absolute.Value)})
		}
		if e.HWCID == is && e.Speed != nil {
			ws = append(ws, [2]int{int(is), int(e.Speed.Value)})
		}
	}
	vAssert("trigger handlers: once per event, in order, with the event", vSeqEq(vTrig, wt) && vSeqEq(vTrigI, wti))
	vAssert("binary handlers: once per binary event, in order, with state and edge", vSeqEq(vBin, wb))
	vAssert("pulsed handlers: once per pulsed event, in order, with the value", vSeqEq(vPul, wp))
	vAssert("absolute handlers: once per absolute event, in order, with the value", vSeqEq(vAbs, wa))
	vAssert("intensity handlers: once per speed event, in order, with the value", vSeqEq(vSpd, ws))
	vAssert("no lock is kept", len(helpers.VHeld) == 0)
	vAssert("nothing is sent", len(vSent) == 0)
}

// The same for any number of messages.
//
//govc:unit C19
//govc:feas
//govc:load encoding/binary
//govc:replace google.golang.org/protobuf/proto:Marshal=root.CtMarshalAll
func vc_WriteBinaryAll(ms []*rwp.InboundMessage, ws [][]byte) {
	rp := &RawPanel{connection: helpers.VNet(nil, 0, nil), binaryPanel: true}
	vAssume(len(ms) == len(ws))
	helpers.VWires, helpers.VToSend, helpers.VSentN = ws, ms, 0
	rp.writeToPanel(ms)
	var want []byte
	for i := range ms {
		want = append(want, helpers.VLE32(uint32(len(ws[i])))...)
		want = append(want, ws[i]...)
	}
	vReach("returns")
	vAssert("every message is marshalled", helpers.VSentN == len(ms))
	vAssert("exactly the frames of the messages are written, in order", vSeqEq(helpers.VOut, want))
}

// The same for any number of lines.
//
//govc:unit C19
//govc:feas
//govc:replace root:InboundMessagesToRawPanelASCIIstrings=ctLines
func vc_WriteASCIIAll(lines []string, ms []*rwp.InboundMessage) {
	rp := &RawPanel{connection: helpers.VNet(nil, 0, nil), binaryPanel: false}
	vLines = lines
	rp.writeToPanel(ms)
	var want []byte
	for _, l := range lines {
		want = append(want, []byte(l+"\n")...)
	}
	vReach("returns")
	vAssert("exactly the lines of the converter are written, each ended by a line feed", vSeqEq(helpers.VOut, want))
}

func vLatest(news bool, now, before string) string {
	if news && now != "" {
		return now
	}
	return before
}

// One message of any content, on a client in any state: pings are answered with exactly one acknowledge, the getters return
// the latest information received, nothing else changes. (Availability reports of up to two components.)
//
//govc:unit C19
//govc:enum n=-1..2
//govc:feas
//govc:replace sync:RWMutex.Lock=root.CtLock sync:RWMutex.Unlock=root.CtUnlock sync:RWMutex.RLock=root.CtLock sync:RWMutex.RUnlock=root.CtUnlock
func vc_State(n int, k0, v0, k1, v1 uint32, msg *rwp.OutboundMessage, model, serial, name, json, svg string, avail map[uint32]uint32, id uint32) {
	vAssume(msg != nil)
	msg.Events, msg.HWCavailability = nil, nil
	if n >= 0 {
		msg.HWCavailability = map[uint32]uint32{}
	}
	if n > 0 {
		msg.HWCavailability[k0] = v0
	}
	if n > 1 {
		vAssume(k0 != k1)
		msg.HWCavailability[k1] = v1
	}
	rp := vClient(1, 2, 3, 4, 5)
	rp.State.model, rp.State.serial, rp.State.name, rp.State.topologyJSON, rp.State.topologySVG = model, serial, name, json, svg
	vAssume(avail != nil)
	rp.State.hwcAvailability = avail
	before, had := avail[id]
	rp.procesMessagesFromPanel([]*rwp.OutboundMessage{msg})
	vReach("returns")
	info, top := msg.PanelInfo != nil, msg.PanelTopology != nil
	wm, ws, wn := model, serial, name
	if info {
		wm, ws, wn = vLatest(true, msg.PanelInfo.Model, model), vLatest(true, msg.PanelInfo.Serial, serial), vLatest(true, msg.PanelInfo.Name, name)
	}
	wj, wsv := json, svg
	if top {
		wj, wsv = vLatest(true, msg.PanelTopology.Json, json), vLatest(true, msg.PanelTopology.Svgbase, svg)
	}
	vAssert("the model is the latest received", rp.State.GetModel() == wm)
	vAssert("the serial is the latest received", rp.State.GetSerial() == ws)
	vAssert("the name is the latest received", rp.State.GetName() == wn)
	vAssert("the topology text is the latest received", rp.State.topologyJSON == wj)
	vAssert("the SVG is the latest received", rp.State.topologySVG == wsv)
	vAssert("initialised exactly when model, serial, topology and SVG have arrived", rp.IsInitialized() == (wm != "" && ws != "" && wj != "" && wsv != ""))
	got, has := rp.State.hwcAvailability[id]
	now, upd := msg.HWCavailability[id]
	if upd {
		vAssert("the availability is the latest received", has && got == now)
	} else {
		vAssert("availability not reported stays", has == had && got == before)
	}
	if msg.FlowMessage == rwp.OutboundMessage_PING {
		vAssert("a ping is answered with one acknowledge", len(vSent) == 1 && len(vSent[0]) == 1 && vSent[0][0].FlowMessage == rwp.InboundMessage_ACK)
	} else {
		vAssert("nothing is sent", len(vSent) == 0)
	}
	vAssert("no handler is called", len(vTrig)+len(vBin)+len(vPul)+len(vAbs)+len(vSpd) == 0)
	vAssert("no lock is kept", len(helpers.VHeld) == 0)
}

var (
	vRounds  int
	vInitOK  bool // IsInitialized at the last look
	vLooks   int
	vExpired bool
)

func ctInitialized(rp *RawPanel) bool {
	vLooks++
	vInitOK = vAnyBool("initialised")
	return vInitOK
}

// Initialisation: the information is asked for once; it succeeds exactly when everything has arrived, and is given up after
// two seconds or when the connection has ended. (Any number of looks: they carry nothing from one to the next.)
//
//govc:unit C19
//govc:feas
//govc:unroll init
//govc:replace RawPanel.IsInitialized=ctInitialized time:NewTicker=root.CtNewTicker time:Ticker.Stop=root.CtTickerStop time:After=root.CtAfter
func vc_Init(cancelled bool) {
	rp := vClient(1, 2, 3, 4, 5)
	vRounds, vInitOK, vLooks, vExpired = 0, false, 0, false
	helpers.VTick = func() {
		vRounds++
		vAssert("nothing but a complete initialisation is taken for success", !vInitOK)
		if vRounds > 2 {
			vStop()
		}
	}
	helpers.VTimeout = func() { vExpired = true }
	err := rp.init(helpers.VNewCtx(cancelled))
	vReach("returns")
	if err == nil {
		vReach("succeeds")
		vAssert("it succeeds only when everything has arrived", vInitOK)
	} else {
		vReach("fails")
		vAssert("it fails only without everything, when the time is over or the connection ended", !vInitOK && (vExpired || cancelled))
	}
	if vExpired {
		vAssert("the time is two seconds", helpers.VTimer == 2*time.Second)
	}
	vAssert("one request is sent", len(vSent) == 1 && len(vSent[0]) == 1 && vSent[0][0].Command != nil)
	c := vSent[0][0].Command
	vAssert("everything needed is asked for", c.SendPanelInfo && c.SendPanelTopology && c.ReportHWCavailability)
}

var (
	vWritten   [][]*rwp.InboundMessage
	vProcessed [][]*rwp.OutboundMessage
	vPings     int
	vReadErr   error
	vCalledOff int
)

func ctWriteToPanel(rp *RawPanel, ms []*rwp.InboundMessage) { vWritten = append(vWritten, ms) }
func ctProcess(rp *RawPanel, ms []*rwp.OutboundMessage) {
	vProcessed = append(vProcessed, ms)
}

// what the reader does while it reads: nothing, until the threads have done their part
var vThreads func()

func ctReadFromPanel(rp *RawPanel) error {
	vAssert("reading starts once, with the writer and the dispatcher running", vGos() == 2)
	if vThreads != nil {
		vThreads()
	}
	return vReadErr
}

// a client whose listening is looked at: w lists to be written, r lists received, then the connection ends
func vListening(rerr error, ws [][]*rwp.InboundMessage, nw int, rs [][]*rwp.OutboundMessage, nr int) *RawPanel {
	rp := vClient(1, 2, 3, 4, 5)
	vWritten, vProcessed, vPings, vReadErr, vCalledOff = nil, nil, 0, rerr, 0
	vRounds, vLooks = 0, 0
	rp.toPanel = vChan(func() ([]*rwp.InboundMessage, bool) {
		if vRounds >= nw {
			vNever()
		}
		vRounds++
		return ws[vRounds-1], true
	}, nil)
	rp.fromPanel = vChan(func() ([]*rwp.OutboundMessage, bool) {
		if vLooks >= nr {
			return nil, false
		}
		vLooks++
		return rs[vLooks-1], true
	}, nil)
	helpers.VTick = func() { vNever() }
	var cancel context.CancelFunc = func() { vCalledOff++ }
	rp.cancel = &cancel
	return rp
}

// Sending: what is submitted is written, every list once, whole and in order, and the next one is waited for; the end of the
// connection and its cancellation close it. (The writer carries nothing from list to list.)
//
//govc:unit C19
//govc:enum n=0..2
//govc:feas
//govc:unroll listen$1
//govc:replace RawPanel.writeToPanel=ctWriteToPanel RawPanel.readFromPanel=ctReadFromPanel time:NewTicker=root.CtNewTicker time:Ticker.Stop=root.CtTickerStop
func vc_ListenWrites(n int, a, b []*rwp.InboundMessage, rerr error) {
	ws := [][]*rwp.InboundMessage{a, b}[:n]
	rp := vListening(rerr, ws, n, nil, 0)
	vThreads = func() {
		vGo(0)
		vReach("the next list is waited for")
		vAssert("submitted lists are written once", len(vWritten) == n)
		for i := 0; i < n; i++ {
			vAssert("in order and whole", vSeqEq(vWritten[i], ws[i]))
		}
		vStop()
	}
	rp.listen(helpers.VNewCtx(false))
}

// Pings: one message of its own, at its time, between the lists.
//
//govc:unit C19
//govc:enum n=0..1
//govc:feas
//govc:unroll listen$1
//govc:replace RawPanel.writeToPanel=ctWriteToPanel RawPanel.readFromPanel=ctReadFromPanel time:NewTicker=root.CtNewTicker time:Ticker.Stop=root.CtTickerStop
func vc_ListenPings(n int, a []*rwp.InboundMessage, rerr error) {
	ws := [][]*rwp.InboundMessage{a}[:n]
	rp := vListening(rerr, ws, n, nil, 0)
	helpers.VTick = func() {
		if vRounds < n || vPings > 0 {
			vNever()
		}
		vPings++
	}
	vThreads = func() {
		vGo(0)
		vReach("the next list is waited for")
		vAssert("a list and one message", len(vWritten) == n+1 && len(vWritten[n]) == 1)
		vAssert("the message is a ping", vWritten[n][0].FlowMessage == rwp.InboundMessage_PING)
		if n == 1 {
			vAssert("the list is written whole", vSeqEq(vWritten[0], a))
		}
		vStop()
	}
	rp.listen(helpers.VNewCtx(false))
}

// Receiving: what is received is dispatched, every list once and in order, up to the end of the connection; only then it is
// called off. Nothing is received any more after the connection was closed.
//
//govc:unit C19
//govc:enum n=0..2
//govc:feas
//govc:unroll listen$2
//govc:replace RawPanel.procesMessagesFromPanel=ctProcess RawPanel.readFromPanel=ctReadFromPanel time:NewTicker=root.CtNewTicker time:Ticker.Stop=root.CtTickerStop
func vc_ListenReads(n int, a, b []*rwp.OutboundMessage, rerr error) {
	rs := [][]*rwp.OutboundMessage{a, b}[:n]
	rp := vListening(rerr, nil, 0, rs, n)
	vThreads = func() {
		vGo(1)
		vAssert("received lists are dispatched once", len(vProcessed) == n)
		for i := 0; i < n; i++ {
			vAssert("in order and whole", vSeqEq(vProcessed[i], rs[i]))
		}
		vAssert("not called off before everything is dispatched", vCalledOff == 0)
	}
	rp.listen(helpers.VNewCtx(false))
	vReach("returns")
	vAssert("the connection is closed, and what was waiting is called off", helpers.VCloses == 1 && vCalledOff == 1 && vClosed(rp.fromPanel))
	vAssert("nothing is written", len(vWritten) == 0)
}

// Cancellation at any moment: what was dispatched and written up to then was, once and in order.
//
//govc:unit C19
//govc:enum which=0..1
//govc:feas
//govc:unroll listen$1 listen$2
//govc:replace RawPanel.writeToPanel=ctWriteToPanel RawPanel.procesMessagesFromPanel=ctProcess RawPanel.readFromPanel=ctReadFromPanel time:NewTicker=root.CtNewTicker time:Ticker.Stop=root.CtTickerStop
func vc_ListenCancelled(which int, w []*rwp.InboundMessage, r []*rwp.OutboundMessage, rerr error) {
	rp := vListening(rerr, [][]*rwp.InboundMessage{w}, 1-which, [][]*rwp.OutboundMessage{r}, which)
	vThreads = func() {
		if which == 0 {
			vGo(0)
		}
		vGo(1)
	}
	rp.listen(helpers.VNewCtx(true))
	vReach("returns")
	vAssert("at most what there was is written", len(vWritten) <= 1 && len(vProcessed) <= 1 && len(vWritten)+len(vProcessed) <= 1)
	if len(vWritten) == 1 {
		vReach("something is written before")
		vAssert("whole", vSeqEq(vWritten[0], w))
	}
	if len(vProcessed) == 1 {
		vReach("something is dispatched before")
		vAssert("whole", vSeqEq(vProcessed[0], r))
	}
	vAssert("the connection is closed, and what was waiting is called off", helpers.VCloses == 1 && vCalledOff == 1 && vClosed(rp.fromPanel))
}

var (
	vBinary  bool
	vInitErr error
	vInits   int
)

func ctDetect(c net.Conn, panel string) bool {
	p, ok := c.(*helpers.VConn)
	vRequire("the new connection is looked at", ok && p == helpers.VPeer && vInits == 0 && vGos() == 0)
	return vBinary
}
func ctInit(rp *RawPanel, ctx context.Context) error {
	vAssert("listening has been started", vGos() == 1 && vInits == 0)
	vInits++
	return vInitErr
}
func ctListen(rp *RawPanel, ctx context.Context) {}

// Connecting: it succeeds exactly when the panel is there and initialisation succeeds; the protocol is the detected one; a
// connection that is not handed out is closed.
//
//govc:unit C19
//govc:feas
//govc:replace net:Dial=root.CtDial root:AutoDetectIfPanelEncodingIsBinary=ctDetect RawPanel.init=ctInit RawPanel.listen=ctListen
func vc_Connect(address string, there, binary, inits bool) {
	helpers.VPeer = helpers.VNet(nil, 0, nil)
	helpers.VDials, helpers.VDialErr, helpers.VOnDial = 0, nil, nil
	vInits, vBinary, vInitErr = 0, binary, nil
	if !there {
		helpers.VDialErr = helpers.VErrTimeout
	}
	if !inits {
		vInitErr = helpers.VErrTimeout
	}
	off := 0
	var cancel context.CancelFunc = func() { off++ }
	rp, err := Connect(address, helpers.VNewCtx(false), cancel)
	vReach("returns")
	vAssert("it is dialled once", helpers.VDials == 1)
	if address != "native" && address != "host" {
		vAssert("the address given", helpers.VDialed == "tcp!"+address)
	}
	vAssert("it succeeds exactly when the panel is there and initialises", (err == nil) == (there && inits) && (rp != nil) == (err == nil))
	if rp != nil {
		vReach("succeeds")
		p, ok := rp.connection.(*helpers.VConn)
		vAssert("the connection is the dialled one, left open", ok && p == helpers.VPeer && helpers.VCloses == 0)
		vAssert("the protocol is the detected one", rp.binaryPanel == binary)
		_, has := rp.State.hwcAvailability[7]
		vAssert("nothing is bound and nothing known", !has && len(rp.triggerBindings) == 0 && len(rp.binaryBindings) == 0 && len(rp.pulsedBindings) == 0 &&
			len(rp.absoluteBindings) == 0 && len(rp.intensityBindings) == 0 && rp.State.model == "" && rp.State.serial == "" && rp.State.topologyJSON == "" && rp.State.topologySVG == "")
		rp.Close()
		vAssert("closing it calls it off", off == 1)
	} else if there {
		vReach("fails with the panel there")
		vAssert("a connection not handed out is closed", helpers.VCloses == 1)
	}
}
