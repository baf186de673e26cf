package rawpanellib

// ---- The connection to a panel, as the network properties see it: a stream of bytes that breaks off somewhere, everything
// written, the read deadline, and whether it was closed. io.ReadFull is taken at its documentation: all bytes asked for, or
// those there are and an error - which is what makes the segmentation of the stream invisible.

import (
	"bufio"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

type VConn struct{}

var (
	VIn     []byte        // what the panel sends
	VAvail  int           // as much of it as arrives
	VPos    int           // read so far
	VErr    error         // how reading ends
	VOut    []byte        // what was written
	VArmed  bool          // a read deadline is set
	VLimit  time.Duration // to this, from the moment it was set
	VCloses int
	VWant   func(n int) // called with every read, before it
	VMsgs   []any       // messages marshalled, in order
	VDecs   []any       // messages decoded into, in order
	VRaw    [][]byte    // the bytes they were decoded from
)

// VNet sets the connection up: a panel that sends in, of which avail bytes arrive
func VNet(in []byte, avail int, err error) *VConn {
	VIn, VAvail, VPos, VErr, VOut, VArmed, VLimit, VCloses = in, avail, 0, err, nil, false, 0, 0
	VWant, VMsgs, VDecs, VRaw, VWires = nil, nil, nil, nil, nil
	VBad, VText, VLine, VTail, VAtEnd = 0, nil, 0, "", nil
	vAssume(io.EOF != nil && VErrTimeout != nil)
	return &VConn{}
}

var VErrTimeout = errors.New("i/o timeout")

func (c *VConn) Read(b []byte) (int, error)         { return vRead(b, 1) }
func (c *VConn) Write(b []byte) (int, error) {
	if VCloses > 0 {
		return 0, VErrTimeout
	}
	VOut = append(VOut, b...)
	return len(b), nil
}
func (c *VConn) Close() error                       { VCloses++; return nil }
func (c *VConn) LocalAddr() net.Addr                { return vAddr{} }
func (c *VConn) RemoteAddr() net.Addr               { return vAddr{} }
func (c *VConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *VConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *VConn) SetReadDeadline(t time.Time) error {
	if t == (time.Time{}) {
		VArmed, VLimit = false, 0
	} else {
		VArmed, VLimit = true, time.Duration(t.Unix())*time.Second+time.Duration(t.Nanosecond())
	}
	return nil
}

type vAddr struct{}

func (vAddr) Network() string { return "tcp" }
func (vAddr) String() string  { return "panel" }

// reads: at least min bytes of the asked ones arrive, or an error
func vRead(b []byte, min int) (int, error) {
	n := len(b)
	if VCloses > 0 {
		return 0, VErrTimeout
	}
	if n > 0 && VWant != nil {
		VWant(n)
	}
	if VPos+n <= VAvail {
		copy(b, VIn[VPos:VPos+n])
		VPos += n
		return n, nil
	}
	m := VAvail - VPos
	copy(b, VIn[VPos:VAvail])
	VPos = VAvail
	return m, VErr
}

func CtReadFull(r io.Reader, b []byte) (int, error) {
	_, ok := r.(*VConn)
	vRequire("reads the connection", ok)
	return vRead(b, len(b))
}

// moments: only how far they lie ahead matters
func CtNow() time.Time        { return time.Unix(0, 0) }
func CtSleep(d time.Duration) { VSlept = append(VSlept, d) }

var VSlept []time.Duration

// protobuf: some bytes stand for every message
func CtMarshal(m proto.Message) ([]byte, error) {
	VMsgs = append(VMsgs, m)
	return vWireOf(len(VMsgs) - 1), nil
}
func CtUnmarshal(b []byte, m proto.Message) error {
	VDecs = append(VDecs, m)
	VRaw = append(VRaw, b)
	if VBad == len(VRaw) {
		return VErrTimeout
	}
	return nil
}

var VBad int // the VBad-th decoding fails

// the bytes the k-th message is written as
func vWireOf(k int) []byte { return VWires[k] }

var VWires [][]byte

func VLE32(n uint32) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

// Text: bufio.Reader at its documentation - ReadString hands out the next line with its line feed, or what there is and an error
var (
	VText  []string // the lines as sent, with their line ends
	VLine  int      // lines handed out
	VTail  string   // what follows them
	VAtEnd func()
	VGiven [][]string // what the converter was asked to read
)

func CtNewReader(r io.Reader) *bufio.Reader {
	_, ok := r.(*VConn)
	vRequire("reads the connection", ok)
	return &bufio.Reader{}
}
func CtReadString(r *bufio.Reader, delim byte) (string, error) {
	vRequire("lines end with a line feed", delim == '\n')
	if VCloses > 0 {
		return "", VErrTimeout
	}
	vAssert("no deadline runs while waiting for a line", !VArmed)
	if VLine < len(VText) {
		VLine++
		return VText[VLine-1], nil
	}
	if VAtEnd != nil {
		VAtEnd()
	}
	return VTail, VErr
}

// Locks: one thread at a time is verified; it must not take a lock it holds and must give back what it took
var VHeld []*sync.RWMutex

func vHolds(m *sync.RWMutex) bool {
	for _, h := range VHeld {
		if h == m {
			return true
		}
	}
	return false
}
func CtLock(m *sync.RWMutex) {
	vAssert("a lock that is held is not taken again", !vHolds(m))
	VHeld = append(VHeld, m)
}
func CtUnlock(m *sync.RWMutex) {
	vAssert("the lock given back is the one taken last", len(VHeld) > 0 && VHeld[len(VHeld)-1] == m)
	VHeld = VHeld[:len(VHeld)-1]
}

// the same for any number of messages: the k-th message marshalled is the k-th of VToSend and becomes VWires[k]
var (
	VToSend []*rwp.InboundMessage
	VSentN  int
)

func CtMarshalAll(m proto.Message) ([]byte, error) {
	k := VSentN
	VSentN++
	p, ok := m.(*rwp.InboundMessage)
	vRequire("the messages are marshalled, each once, in order", ok && k < len(VToSend) && p == VToSend[k])
	return VWires[k], nil
}

// A context: cancelled or not (yet), at the choice of the specification
type VCtx struct{}

var (
	VCancelled bool // may be found cancelled
	VDone      chan struct{}
	VCancels   int
)

func VNewCtx(cancelled bool) *VCtx {
	VCancelled, VCancels = cancelled, 0
	VDone = vChan(func() (struct{}, bool) {
		if !VCancelled {
			vNever()
		}
		return struct{}{}, false
	}, nil)
	return &VCtx{}
}
func (c *VCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *VCtx) Done() <-chan struct{}       { return VDone }
func (c *VCtx) Err() error {
	if VCancelled {
		return VErrTimeout
	}
	return nil
}
func (c *VCtx) Value(key any) any { return nil }

// timers fire when they like; VTick looks at every time they do
var (
	VTick    func()
	VTimeout func()
	VTimer   time.Duration
)

func vTicks(f *func()) chan time.Time {
	return vChan(func() (time.Time, bool) {
		if *f != nil {
			(*f)()
		}
		return time.Time{}, true
	}, nil)
}
func CtNewTicker(d time.Duration) *time.Ticker { return &time.Ticker{C: vTicks(&VTick)} }
func CtTickerStop(t *time.Ticker)              {}
func CtAfter(d time.Duration) <-chan time.Time { VTimer = d; return vTicks(&VTimeout) }
func CtNewTimer(d time.Duration) *time.Timer   { VTimer = d; return &time.Timer{C: vTicks(&VTimeout)} }

// Dialling: the panel is there, or it is not
var (
	VDials   int
	VDialErr error
	VDialed  string
	VPeer    *VConn
	VOnDial  func() // called with every attempt, before it
)

func CtDial(network, address string) (net.Conn, error) {
	VDials++
	VDialed = network + "!" + address
	if VOnDial != nil {
		VOnDial()
	}
	if VDialErr != nil {
		return nil, VDialErr
	}
	return VPeer, nil
}
