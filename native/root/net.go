package rawpanellib

// C08-C12: the TCP client and the detector against a scripted panel on the loopback interface.

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

func vtFrame(m proto.Message) []byte {
	b, _ := proto.Marshal(m)
	return vnFrameRaw(b)
}
func vnFrameRaw(b []byte) []byte {
	h := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

// the panel side: one listener, every accepted connection is handed to the script
type vtNet struct {
	ln  net.Listener
	acc chan *net.TCPConn
}

func vnListen() (*vtNet, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &vtNet{ln: ln, acc: make(chan *net.TCPConn, 16)}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				close(s.acc)
				return
			}
			s.acc <- c.(*net.TCPConn)
		}
	}()
	return s, nil
}
func (s *vtNet) accept(d time.Duration) *net.TCPConn {
	select {
	case c := <-s.acc:
		return c
	case <-time.After(d):
		return nil
	}
}

// the client side
type vnCB struct {
	connect   bool
	errMsg    string
	binary    bool
	cancelled bool
	at        time.Time
}
type vnCli struct {
	mu     sync.Mutex
	cbs    []vnCB
	got    []*rwp.OutboundMessage
	to     chan []*rwp.InboundMessage
	cancel context.CancelFunc
	ctx    context.Context
	wg     sync.WaitGroup
	done   chan struct{} // ConnectToPanel returned
	nilMsg bool
}

func vnClient(addr string, cfg *ConnectToPanelConfig) *vnCli { return vnClientBuf(addr, cfg, 0, nil) }

// vnClientBuf: buf messages fit into the delivery channel, nothing is taken from it before the gate opens
func vnClientBuf(addr string, cfg *ConnectToPanelConfig, buf int, gate chan struct{}) *vnCli {
	c := &vnCli{to: make(chan []*rwp.InboundMessage), done: make(chan struct{})}
	c.ctx, c.cancel = context.WithCancel(context.Background())
	from := make(chan []*rwp.OutboundMessage, buf)
	stop := make(chan struct{})
	go func() {
		if gate != nil {
			select {
			case <-gate:
			case <-stop:
				return
			}
		}
		for {
			select {
			case ms := <-from:
				c.mu.Lock()
				c.got = append(c.got, ms...)
				for _, m := range ms {
					if m == nil {
						c.nilMsg = true
					}
				}
				c.mu.Unlock()
			case <-stop:
				return
			}
		}
	}()
	go func() {
		ConnectToPanel(addr, c.to, from, c.ctx, &c.wg, func(e string, b bool, nc net.Conn) {
			c.mu.Lock()
			c.cbs = append(c.cbs, vnCB{connect: true, errMsg: e, binary: b, at: time.Now()})
			c.mu.Unlock()
		}, func(cancelled bool) {
			c.mu.Lock()
			c.cbs = append(c.cbs, vnCB{cancelled: cancelled, at: time.Now()})
			c.mu.Unlock()
		}, cfg)
		close(c.done)
		close(stop)
	}()
	return c
}
func (c *vnCli) nCB() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.cbs) }
func (c *vnCli) callbacks() []vnCB {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]vnCB{}, c.cbs...)
}
func (c *vnCli) msgs() []*rwp.OutboundMessage {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*rwp.OutboundMessage{}, c.got...)
}
func (c *vnCli) waitCB(n int, d time.Duration) bool {
	return vnWait(d, func() bool { return c.nCB() >= n })
}
func (c *vnCli) waitMsgs(n int, d time.Duration) bool {
	return vnWait(d, func() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.got) >= n })
}
func vnWait(d time.Duration, f func() bool) bool {
	for e := time.Now().Add(d); ; {
		if f() {
			return true
		}
		if time.Now().After(e) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}
func (c *vnCli) stop(d time.Duration) string {
	c.cancel()
	select {
	case <-c.done:
	case <-time.After(d):
		return "ConnectToPanel did not return after cancellation"
	}
	w := make(chan struct{})
	go func() { c.wg.Wait(); close(w) }()
	select {
	case <-w:
	case <-time.After(2 * time.Second):
		return "the wait group did not drain after ConnectToPanel returned"
	}
	return ""
}
func (c *vnCli) story() string {
	var l []string
	for _, e := range c.callbacks() {
		if e.connect {
			l = append(l, fmt.Sprintf("connect(%q,binary=%v)", e.errMsg, e.binary))
		} else {
			l = append(l, fmt.Sprintf("disconnect(%v)", e.cancelled))
		}
	}
	return strings.Join(l, " ")
}

// probe: reads the 6 probe bytes and checks them
func vnProbe(c net.Conn) (string, bool) {
	want := vtFrame(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_PING})
	b := make([]byte, len(want))
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	n, err := io.ReadFull(c, b)
	c.SetReadDeadline(time.Time{})
	if err != nil || !bytes.Equal(b, want) {
		return fmt.Sprintf("the probe is %q (%v), want the single ping frame %q", b[:n], err, want), false
	}
	return "", true
}

var vnAck = vtFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK})

// handshake as a binary (ack) or ASCII (RDY, or silence) panel; false: the client failed the probe
func vnHandshake(c *net.TCPConn, bin bool, silent bool) (string, bool) {
	if w, ok := vnProbe(c); !ok {
		return w, false
	}
	if bin {
		c.Write(vnAck)
		return "", true
	}
	if !silent {
		return vnFlush(c, "RDY\n")
	}
	return vnFlush(c, "")
}

// vnFlush: the panel answers the probe with text and expects the single line feed
func vnFlush(c *net.TCPConn, reply string) (string, bool) {
	c.Write([]byte(reply))
	b := make([]byte, 1)
	c.SetReadDeadline(time.Now().Add(4 * time.Second))
	_, err := io.ReadFull(c, b)
	c.SetReadDeadline(time.Time{})
	if err != nil || b[0] != '\n' {
		return fmt.Sprintf("after the probe the ASCII panel received %q (%v), want one line feed", b, err), false
	}
	return "", true
}

// cut: writes b in random segments with random pauses (at most total pause)
func vtCut(r *rand.Rand, c net.Conn, b []byte, mode int) {
	if len(b) > 20000 && mode > 0 && mode < 3 {
		mode = 3
	}
	pause := 300 * time.Millisecond
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0:
		case 1:
			n = 1
		case 2:
			n = 1 + r.Intn(7)
		default:
			n = 1 + r.Intn(1+len(b))
		}
		if n > len(b) {
			n = len(b)
		}
		if _, err := c.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
		if mode != 0 && r.Intn(3) == 0 && pause > 0 {
			d := time.Duration(r.Intn(3000)) * time.Microsecond
			pause -= d
			time.Sleep(d)
		}
	}
}

func vnQuiet() {}

func vtOutMsg(r *rand.Rand) *rwp.OutboundMessage {
	ev := func() *rwp.HWCEvent {
		e := &rwp.HWCEvent{HWCID: uint32(r.Intn(100)), Timestamp: r.Uint32()}
		switch r.Intn(4) {
		case 0:
			e.Binary = &rwp.BinaryEvent{Pressed: r.Intn(2) == 0, Edge: rwp.BinaryEvent_EdgeID([]int{0, 1, 2, 4, 8, 16}[r.Intn(6)])}
		case 1:
			e.Pulsed = &rwp.PulsedEvent{Value: int32(r.Intn(20) - 10)}
		case 2:
			e.Absolute = &rwp.AbsoluteEvent{Value: uint32(r.Intn(1001))}
		default:
			e.Speed = &rwp.SpeedEvent{Value: int32(r.Intn(1001) - 500)}
		}
		return e
	}
	switch r.Intn(9) {
	case 0:
		return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_FlowMsg(r.Intn(6))}
	case 1:
		return &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{uint32(r.Intn(5)): uint32(r.Intn(3)), 77: 1}}
	case 2:
		return &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: strings.Repeat("m", r.Intn(300)), Serial: fmt.Sprint(r.Int())}}
	case 3:
		b := make([]byte, []int{0, 1, 3, 250, 251, 252, 255, 256, 1000, 4096, 65535, 70000}[r.Intn(12)])
		for i := range b {
			b[i] = byte(' ' + r.Intn(90))
		}
		return &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: string(b)}}
	case 4:
		if r.Intn(6) == 0 {
			return &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: strings.Repeat("x", 499980)}}
		}
		return &rwp.OutboundMessage{}
	}
	m := &rwp.OutboundMessage{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		m.Events = append(m.Events, ev())
	}
	return m
}

func vtOutLine(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return []string{"ping", "ack", "nack", "RDY", "BSY", "list"}[r.Intn(6)]
	case 1:
		return fmt.Sprintf("map=%d:%d", r.Intn(50), r.Intn(3))
	case 2:
		return "_model=" + strings.Repeat("M", 1+r.Intn(5000))
	case 3:
		return "_panelTopology_HWC={\"a\":\"" + strings.Repeat("æ{", r.Intn(3000)) + "\"}"
	case 4:
		return fmt.Sprintf("Msg=text %d with spaces = and : signs", r.Intn(1000))
	case 5:
		return fmt.Sprintf("HWC#%d=Enc:%d", r.Intn(50), r.Intn(11)-5)
	}
	return fmt.Sprintf("HWC#%d=%s", r.Intn(50), []string{"Down", "Up", "Press"}[r.Intn(3)])
}

func vnMsgsEq(a, b []*rwp.OutboundMessage) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
func vtShort(ms []*rwp.OutboundMessage) string {
	s := vnJSON(ms)
	if len(s) > 600 {
		s = s[:300] + " ... " + s[len(s)-300:]
	}
	return fmt.Sprintf("%d messages %s", len(ms), s)
}

// vnSession: a connected client and its panel end; nil if the set-up failed (reported)
func vnSession(v *vnT, key string, bin, silent bool) (*vtNet, *vnCli, *net.TCPConn) {
	return vnSessionBuf(v, key, bin, silent, 0, nil)
}
func vnSessionBuf(v *vnT, key string, bin, silent bool, cap int, gate chan struct{}) (*vtNet, *vnCli, *net.TCPConn) {
	s, err := vnListen()
	if err != nil {
		return nil, nil, nil
	}
	c := vnClientBuf(s.ln.Addr().String(), nil, cap, gate)
	p := s.accept(5 * time.Second)
	if p == nil {
		v.Fail(key, "a listening panel", "the client did not connect")
		c.stop(5 * time.Second)
		s.ln.Close()
		return nil, nil, nil
	}
	if w, ok := vnHandshake(p, bin, silent); !ok {
		v.Fail(key, fmt.Sprintf("binary=%v silent=%v panel", bin, silent), "%s", w)
	} else if !c.waitCB(1, 3*time.Second) {
		v.Fail(key, fmt.Sprintf("binary=%v silent=%v panel", bin, silent), "no connect callback")
	} else if cb := c.callbacks()[0]; !cb.connect || cb.binary != bin {
		v.Fail(key, fmt.Sprintf("binary=%v silent=%v panel", bin, silent), "the first callback is %s", c.story())
	} else {
		return s, c, p
	}
	p.Close()
	s.ln.Close()
	c.stop(5 * time.Second)
	return nil, nil, nil
}

func TestVN_C08(t *testing.T) {
	vnQuiet()
	v := vnStart(t, "a panel on the loopback interface sends random message or line sequences cut into random TCP segments (whole, bytewise, 1-7 bytes, random) with random pauses, also one or two idle periods of 2.3 s between messages, with the receiver taking messages at once, from a buffered channel, or only after everything was sent; what the client delivers is compared with what was sent")
	if s, c, p := vnSession(v, "set-up", false, false); s != nil {
		l := "Msg=ready: "
		p.Write([]byte(l + "\n"))
		want := RawPanelASCIIstringsToOutboundMessages([]string{l})
		c.waitMsgs(1, 2*time.Second)
		if got := c.msgs(); len(got) != 1 || !vnMsgsEq(got, want) {
			v.Fail("ascii-trailing-space", fmt.Sprintf("%q", l), "delivered %s, sent %s", vtShort(got), vtShort(want))
		}
		c.stop(6 * time.Second)
		p.Close()
		s.ln.Close()
	}
	v.Par(48, func(r *rand.Rand, i int) {
		bin := i%2 == 0
		capa := []int{0, 0, 1, 100}[i/2%4]
		var gate chan struct{}
		if capa == 100 {
			gate = make(chan struct{})
		}
		s, c, p := vnSessionBuf(v, "set-up", bin, i%48 == 1, capa, gate)
		if s == nil {
			return
		}
		defer s.ln.Close()
		defer p.Close()
		mode := r.Intn(4)
		n := 1 + r.Intn(12)
		idle := map[int]bool{}
		if i%48 < 24 {
			idle[r.Intn(n)] = true
			if i%48 < 12 {
				idle[r.Intn(n)] = true
			}
		}
		var want []*rwp.OutboundMessage
		var desc []string
		var buf []byte
		flush := func() { vtCut(r, p, buf, mode); buf = nil }
		for k := 0; k < n; k++ {
			if bin {
				m := vtOutMsg(r)
				if mode == 1 && proto.Size(m) > 3000 {
					m = &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}
				}
				want = append(want, m)
				buf = append(buf, vtFrame(m)...)
				desc = append(desc, fmt.Sprintf("frame of %d bytes", proto.Size(m)))
			} else {
				l := vtOutLine(r)
				if mode == 1 && len(l) > 500 {
					l = "HWC#7=Down"
				}
				want = append(want, RawPanelASCIIstringsToOutboundMessages([]string{l})...)
				buf = append(buf, l+[]string{"\n", "\r\n"}[r.Intn(2)]...)
				if len(l) > 60 {
					l = l[:60]
				}
				desc = append(desc, l)
			}
			if idle[k] {
				flush()
				time.Sleep(2300 * time.Millisecond)
				desc = append(desc, "idle 2.3 s")
			} else if r.Intn(3) == 0 {
				flush()
			}
		}
		flush()
		d := fmt.Sprintf("binary=%v cut=%d delivery channel of %d %s", bin, mode, capa, strings.Join(desc, ", "))
		v.Case(d, true)
		if gate != nil {
			close(gate)
		}
		c.waitMsgs(len(want), 4*time.Second)
		time.Sleep(15 * time.Millisecond)
		if got := c.msgs(); !vnMsgsEq(got, want) {
			v.Fail(fmt.Sprintf("delivery-binary=%v", bin), d, "delivered %s, sent %s; callbacks %s", vtShort(got), vtShort(want), c.story())
		}
		if len(c.callbacks()) != 1 {
			v.Fail("callbacks", d, "callbacks %s while the panel stayed connected", c.story())
		}
		if w := c.stop(6 * time.Second); w != "" {
			v.Fail("stop", d, "%s", w)
		}
	})
}

func vtInMsg(r *rand.Rand) *rwp.InboundMessage {
	m := &rwp.InboundMessage{}
	for k := r.Intn(3); k >= 0; k-- {
		st := &rwp.HWCState{HWCIDs: []uint32{uint32(1 + r.Intn(99))}}
		switch r.Intn(4) {
		case 0:
			st.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_StateE(r.Intn(6)), Output: r.Intn(2) == 0}
		case 1:
			st.HWCText = &rwp.HWCText{Title: fmt.Sprintf("t%d", r.Intn(1000)), Formatting: 7, Textline1: strings.Repeat("x", r.Intn(30))}
		case 2:
			b := make([]byte, []int{1, 170, 171, 256, 4096, 30000}[r.Intn(6)])
			r.Read(b)
			st.HWCGfx = &rwp.HWCGfx{W: 64, H: 32, ImageData: b, ImageType: rwp.HWCGfx_RGB16bit}
		default:
			st.HWCColor = &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(r.Intn(18))}}
		}
		m.States = append(m.States, st)
	}
	switch r.Intn(5) {
	case 0:
		m.FlowMessage = rwp.InboundMessage_FlowMsg(r.Intn(4))
	case 1:
		m.Command = &rwp.Command{ClearAll: true, SendPanelInfo: r.Intn(2) == 0, PanelBrightness: &rwp.Brightness{LEDs: uint32(r.Intn(9)), OLEDs: uint32(r.Intn(9))}}
	case 2:
		return &rwp.InboundMessage{}
	}
	return m
}

func TestVN_C09(t *testing.T) {
	vnQuiet()
	v := vnStart(t, "message lists handed to a connected client by one or several goroutines while the panel sends events at the same time, or after 2.3 s without any traffic, or while the panel pauses its reading for 2.3 s; the panel's received byte stream is compared with the frames or lines of the lists in order")
	v.Par(48, func(r *rand.Rand, i int) {
		bin := i%2 == 0
		s, c, p := vnSession(v, "set-up", bin, false)
		if s == nil {
			return
		}
		defer s.ln.Close()
		defer p.Close()
		var rcv bytes.Buffer
		var rmu sync.Mutex
		eof := make(chan struct{})
		slow := r.Intn(4) == 0
		special := i / 2 % 8 // 0: silence before a list, 1: silence right after a frame from the panel, 2: the panel pauses reading, 3: several submitters
		go func() {
			b := make([]byte, 5000)
			if special == 2 {
				slow = false
				time.Sleep(2300 * time.Millisecond)
			}
			for {
				if slow {
					time.Sleep(time.Millisecond)
				}
				n, err := p.Read(b)
				rmu.Lock()
				rcv.Write(b[:n])
				rmu.Unlock()
				if err != nil {
					close(eof)
					return
				}
			}
		}()
		quit := make(chan struct{})
		if special == 1 {
			if bin {
				p.Write(vtFrame(vtOutMsg(r)))
			} else {
				p.Write([]byte(vtOutLine(r) + "\n"))
			}
		}
		go func() { // traffic from the panel
			if special < 2 {
				return
			}
			rr := rand.New(rand.NewSource(int64(i)))
			for {
				select {
				case <-quit:
					return
				default:
				}
				if bin {
					p.Write(vtFrame(vtOutMsg(rr)))
				} else {
					p.Write([]byte(vtOutLine(rr) + "\n"))
				}
				time.Sleep(time.Duration(rr.Intn(2000)) * time.Microsecond)
			}
		}()
		var want []byte
		var desc []string
		ok := true
		if special == 3 {
			vnSubmitters(v, r, bin, c, func() []byte { rmu.Lock(); defer rmu.Unlock(); return append([]byte{}, rcv.Bytes()...) })
			close(quit)
			if w := c.stop(6 * time.Second); w != "" {
				v.Fail("stop", "several submitters", "%s", w)
			}
			return
		}
		silence := -1
		nl := 1 + r.Intn(8)
		if special < 2 {
			silence = nl - r.Intn(nl)
			desc = append(desc, "one list after 2.3 s of silence")
		}
		if special == 2 {
			desc = append(desc, "reading paused")
			big := &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{1}, HWCGfx: &rwp.HWCGfx{W: 400, H: 400, ImageType: rwp.HWCGfx_RGB16bit, ImageData: make([]byte, 320000)}}}}
			r.Read(big.States[0].HWCGfx.ImageData)
			l := []*rwp.InboundMessage{}
			for k := 0; k < 22; k++ {
				l = append(l, big)
			}
			if bin {
				for _, m := range l {
					want = append(want, vtFrame(m)...)
				}
			} else {
				for _, x := range InboundMessagesToRawPanelASCIIstrings(l) {
					want = append(want, x+"\n"...)
				}
			}
			select {
			case c.to <- l:
			case <-time.After(4 * time.Second):
				ok = false
			}
		}
		for k := nl; k > 0 && ok; k-- {
			if k == silence {
				time.Sleep(2300 * time.Millisecond)
			}
			var l []*rwp.InboundMessage
			for j := r.Intn(4); j > 0; j-- {
				l = append(l, vtInMsg(r))
			}
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
			}
			if bin {
				for _, m := range l {
					want = append(want, vtFrame(m)...)
				}
			} else {
				for _, x := range InboundMessagesToRawPanelASCIIstrings(l) {
					want = append(want, x+"\n"...)
				}
			}
			desc = append(desc, fmt.Sprintf("list of %d", len(l)))
			select {
			case c.to <- l:
			case <-time.After(4 * time.Second):
				ok = false
			}
		}
		d := fmt.Sprintf("binary=%v slow=%v %s (%d bytes)", bin, slow, strings.Join(desc, ", "), len(want))
		v.Case(d, len(want) > 0)
		if !ok {
			v.Fail("submit", d, "the client stopped taking messages")
		}
		vnWait(4*time.Second, func() bool { rmu.Lock(); defer rmu.Unlock(); return rcv.Len() >= len(want) })
		time.Sleep(15 * time.Millisecond)
		close(quit)
		rmu.Lock()
		got := append([]byte{}, rcv.Bytes()...)
		rmu.Unlock()
		if !bytes.Equal(got, want) && !(bin && vnFramesEq(got, want)) {
			at := 0
			for at < len(got) && at < len(want) && got[at] == want[at] {
				at++
			}
			v.Fail(fmt.Sprintf("stream-binary=%v", bin), d, "the panel received %d bytes, expected %d; first difference at byte %d: %.80q against %.80q", len(got), len(want), at, got[at:], want[at:])
		}
		if w := c.stop(6 * time.Second); w != "" {
			v.Fail("stop", d, "%s", w)
		}
	})
}

// vnSubmitters: three goroutines hand over lists; every list arrives in one piece, those of one goroutine in order
func vnSubmitters(v *vnT, r *rand.Rand, bin bool, c *vnCli, rcvd func() []byte) {
	var wg sync.WaitGroup
	total := 0
	var cnt [3]int
	for g := 0; g < 3; g++ {
		cnt[g] = 1 + r.Intn(6)
		total += 3 * cnt[g]
	}
	pad := strings.Repeat("x", []int{0, 10, 3000}[r.Intn(3)])
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < cnt[g]; k++ {
				var l []*rwp.InboundMessage
				for j := 0; j < 3; j++ {
					l = append(l, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(1000*g + 10*k + j)}, HWCText: &rwp.HWCText{Title: pad, Formatting: 7}}}})
				}
				select {
				case c.to <- l:
				case <-time.After(4 * time.Second):
				}
			}
		}(g)
	}
	wg.Wait()
	read := func() (ids []int) {
		b := rcvd()
		if !bin {
			ls := strings.Split(string(b), "\n")
			for _, l := range ls[:len(ls)-1] {
				var id int
				if n, _ := fmt.Sscanf(l, "HWCt#%d=", &id); n != 1 {
					id = -1
				}
				ids = append(ids, id)
			}
			return
		}
		for len(b) >= 4 {
			n := int(binary.LittleEndian.Uint32(b))
			if n > len(b)-4 {
				break
			}
			m := &rwp.InboundMessage{}
			if proto.Unmarshal(b[4:4+n], m) != nil || len(m.States) != 1 || len(m.States[0].HWCIDs) != 1 {
				return append(ids, -1)
			}
			ids = append(ids, int(m.States[0].HWCIDs[0]))
			b = b[4+n:]
		}
		return
	}
	vnWait(4*time.Second, func() bool { return len(read()) >= total })
	ids := read()
	d := fmt.Sprintf("binary=%v three submitters with %v lists of 3 messages", bin, cnt)
	v.Case(d, true)
	var next [3]int
	ok := len(ids) == total
	for k := 0; ok && k < total; k += 3 {
		g := ids[k] / 1000
		ok = ids[k] >= 0 && g < 3 && ids[k] == 1000*g+10*next[g] && ids[k+1] == ids[k]+1 && ids[k+2] == ids[k]+2
		if ok {
			next[g]++
		}
	}
	if !ok {
		v.Fail("submitters", d, "the panel received the messages in the order %v", ids)
	}
}

// the frames decode to equal messages (the encoding of map fields may vary)
func vnFramesEq(a, b []byte) bool {
	for len(a) >= 4 && len(b) >= 4 {
		na, nb := int(binary.LittleEndian.Uint32(a)), int(binary.LittleEndian.Uint32(b))
		if na > len(a)-4 || nb > len(b)-4 {
			return false
		}
		x, y := &rwp.InboundMessage{}, &rwp.InboundMessage{}
		if proto.Unmarshal(a[4:4+na], x) != nil || proto.Unmarshal(b[4:4+nb], y) != nil || !proto.Equal(x, y) {
			return false
		}
		a, b = a[4+na:], b[4+nb:]
	}
	return len(a) == 0 && len(b) == 0
}

// vnClosed: the peer closed p (EOF or reset), reading and dropping what still arrives
func vnClosed(p net.Conn, d time.Duration) bool {
	p.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		_, err := p.Read(b)
		if err != nil {
			ne, ok := err.(net.Error)
			return !(ok && ne.Timeout())
		}
	}
}

func TestVN_C10(t *testing.T) {
	vnQuiet()
	v := vnStart(t, "binary streams with over-limit length prefixes (500000 to 2^32-1), frames stalled in the header or the payload at random offsets, frames with empty or invalid payloads, and frames just below the limit; connection drop, reconnect, deliveries and allocation are checked")
	// allocation for an over-limit header, alone in the process
	for _, n := range []uint32{500000, 0x7fffffff, 0xfffffff0} {
		s, c, p := vnSession(v, "set-up", true, false)
		if s == nil {
			return
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		h := make([]byte, 4)
		binary.LittleEndian.PutUint32(h, n)
		p.Write(h)
		d := fmt.Sprintf("length prefix %d", n)
		v.Case(d, true)
		if !c.waitCB(2, 2*time.Second) {
			v.Fail("over-limit-kept", d, "the connection was not dropped: %s", c.story())
		}
		runtime.ReadMemStats(&b)
		if b.TotalAlloc-a.TotalAlloc > 20<<20 || n == 500000 && b.TotalAlloc-a.TotalAlloc > 450000 {
			v.Fail("allocation", d, "%d bytes were allocated after the header", b.TotalAlloc-a.TotalAlloc)
		}
		p.Close()
		s.ln.Close()
		if w := c.stop(8 * time.Second); w != "" {
			v.Fail("stop", d, "%s", w)
		}
	}
	v.Par(40, func(r *rand.Rand, i int) {
		s, c, p := vnSession(v, "set-up", true, false)
		if s == nil {
			return
		}
		defer s.ln.Close()
		defer p.Close()
		var want []*rwp.OutboundMessage
		var desc []string
		good := func(n int) {
			for ; n > 0; n-- {
				m := vtOutMsg(r)
				want = append(want, m)
				p.Write(vtFrame(m))
			}
		}
		good(r.Intn(3))
		broken := true
		lo, hi := 0*time.Second, 1500*time.Millisecond
		kind := i % 5
		var t0 time.Time
		switch kind {
		case 0: // over the limit
			n := []uint32{500000, 500001, 500004, 1 << 20, 1 << 24, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, r.Uint32() | 1<<27}[r.Intn(10)]
			b := make([]byte, 4)
			binary.LittleEndian.PutUint32(b, n)
			b = append(b, vtFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING})...)
			if r.Intn(2) == 0 {
				b = b[:4]
			}
			t0 = time.Now()
			p.Write(b)
			desc = append(desc, fmt.Sprintf("length prefix %d with %d further bytes", n, len(b)-4))
		case 1: // payload stalls
			m := vtOutMsg(r)
			if proto.Size(m) == 0 {
				m = &rwp.OutboundMessage{FlowMessage: 1}
			}
			f := vtFrame(m)
			k := 4 + r.Intn(len(f)-4)
			t0 = time.Now()
			p.Write(f[:k])
			lo, hi = 1800*time.Millisecond, 3500*time.Millisecond
			desc = append(desc, fmt.Sprintf("frame of %d bytes stalled after %d", len(f), k))
		case 2: // header stalls
			k := 1 + r.Intn(3)
			t0 = time.Now()
			p.Write(vtFrame(&rwp.OutboundMessage{FlowMessage: 1})[:k])
			lo, hi = 1800*time.Millisecond, 4500*time.Millisecond
			desc = append(desc, fmt.Sprintf("header stalled after %d bytes", k))
		default: // bad payloads, stream goes on
			broken = false
			for k := 1 + r.Intn(5); k > 0; k-- {
				switch r.Intn(4) {
				case 0:
					want = append(want, &rwp.OutboundMessage{})
					p.Write([]byte{0, 0, 0, 0})
					desc = append(desc, "empty frame")
				case 1, 2:
					b := make([]byte, 1+r.Intn(20))
					r.Read(b)
					b[0] = 0xff // an impossible field key
					want = append(want, nil)
					p.Write(vnFrameRaw(b))
					desc = append(desc, fmt.Sprintf("invalid payload %x", b))
				default:
					m := &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: strings.Repeat("j", 499999-8)}}
					for proto.Size(m) > 499999 {
						m.PanelTopology.Json = m.PanelTopology.Json[:len(m.PanelTopology.Json)-1]
					}
					want = append(want, m)
					p.Write(vtFrame(m))
					desc = append(desc, fmt.Sprintf("frame of %d bytes", proto.Size(m)))
				}
				good(1)
			}
		}
		d := strings.Join(desc, ", ")
		v.Case(d, true)
		cmp := func() {
			got := c.msgs()
			ok := len(got) == len(want)
			for k := 0; ok && k < len(want); k++ {
				ok = got[k] != nil && (want[k] == nil || proto.Equal(got[k], want[k]))
			}
			if !ok && !broken {
				// an invalid payload may also be dropped
				j := 0
				ok = true
				for k := range want {
					if want[k] == nil {
						if j < len(got) && (k+1 >= len(want) || len(got)-j > len(want)-k-1 || false) {
							j++
						}
						continue
					}
					if j >= len(got) || !proto.Equal(got[j], want[k]) {
						ok = false
						break
					}
					j++
				}
				ok = ok && j == len(got)
			}
			if !ok {
				v.Fail(fmt.Sprintf("delivery-%d", kind), d, "delivered %s, sent %s", vtShort(got), vtShort(want))
			}
		}
		if !broken {
			c.waitMsgs(len(want), 2*time.Second)
			time.Sleep(10 * time.Millisecond)
			cmp()
			if c.nCB() != 1 {
				v.Fail("dropped", d, "callbacks %s although no frame was broken", c.story())
			}
		} else {
			if !c.waitCB(2, hi+500*time.Millisecond) {
				v.Fail(fmt.Sprintf("kept-%d", kind), d, "the connection was not dropped within %v: %s", time.Since(t0), c.story())
			} else {
				cbs := c.callbacks()
				if cbs[1].connect || cbs[1].cancelled {
					v.Fail("callback", d, "callbacks %s", c.story())
				}
				if e := cbs[1].at.Sub(t0); e < lo || e > hi {
					v.Fail(fmt.Sprintf("time-%d", kind), d, "dropped after %v, expected between %v and %v", e, lo, hi)
				}
				if !vnClosed(p, time.Second) {
					v.Fail("socket", d, "the socket was left open")
				}
				cmp()
				// reconnect and normal service
				p2 := s.accept(4 * time.Second)
				if p2 == nil {
					v.Fail("reconnect", d, "no new connection: %s", c.story())
				} else {
					defer p2.Close()
					if w, ok := vnHandshake(p2, true, false); !ok {
						v.Fail("reconnect", d, "%s", w)
					} else {
						m := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 9, Binary: &rwp.BinaryEvent{Pressed: true}}}}
						want = append(want, m)
						p2.Write(vtFrame(m))
						c.waitMsgs(len(want), 2*time.Second)
						cmp()
						if r.Intn(2) == 0 { // a second broken frame, on the new connection
							var f []byte
							if r.Intn(2) == 0 {
								f = []byte{0x20, 0xa1, 7, 0, 1, 2, 3}
							} else {
								f = vtFrame(m)
								f = f[:1+r.Intn(len(f)-1)]
							}
							d += fmt.Sprintf(", reconnected, then %x", f)
							p2.Write(f)
							if !c.waitCB(4, 5*time.Second) {
								v.Fail("kept-second", d, "the second connection was not dropped: %s", c.story())
							} else if p3 := s.accept(4 * time.Second); p3 == nil {
								v.Fail("reconnect-second", d, "no third connection: %s", c.story())
							} else {
								if w, ok := vnHandshake(p3, true, false); !ok {
									v.Fail("reconnect-second", d, "%s", w)
								} else {
									want = append(want, m)
									p3.Write(vtFrame(m))
									c.waitMsgs(len(want), 2*time.Second)
									cmp()
								}
								p3.Close()
							}
						}
					}
				}
			}
		}
		if w := c.stop(8 * time.Second); w != "" {
			v.Fail("stop", d, "%s", w)
		}
	})
}

func TestVN_C11(t *testing.T) {
	vnQuiet()
	v := vnStart(t, "cancellation before a connection, during negotiation, while idle, mid-frame, with a writer blocked on a panel that does not read, and during retry waits; panel loss at random byte offsets, also before and during negotiation, followed by reconnection, up to three losses in a row with the default and configured retry periods; callbacks, deliveries, termination, sockets and left-over goroutines are checked")
	v.Par(72, func(r *rand.Rand, i int) {
		kind := i % 12
		bin := r.Intn(2) == 0
		d := fmt.Sprintf("kind %d binary=%v", kind, bin)
		check := func(c *vnCli, d string) {
			for k, e := range c.callbacks() {
				if e.connect != (k%2 == 0) {
					v.Fail("alternate", d, "callbacks %s", c.story())
				}
				if e.cancelled && (k != len(c.callbacks())-1 || c.ctx.Err() == nil) {
					v.Fail("cancelled", d, "callbacks %s", c.story())
				}
			}
		}
		end := func(c *vnCli, d string, bound time.Duration) {
			cbs := c.callbacks()
			connected := len(cbs)%2 == 1
			if w := c.stop(bound); w != "" {
				v.Fail("stop-"+fmt.Sprint(kind), d, "%s (callbacks %s)", w, c.story())
				return
			}
			check(c, d)
			cbs = c.callbacks()
			if connected && len(cbs)%2 == 1 {
				v.Fail("last", d, "no disconnect after the cancellation: %s", c.story())
			}
			if connected && len(cbs) > 0 && !cbs[len(cbs)-1].cancelled {
				v.Fail("not-cancelled", d, "the last disconnect is not reported as cancelled: %s", c.story())
			}
		}
		switch kind {
		case 0: // no panel at all
			s, err := vnListen()
			if err != nil {
				return
			}
			addr := s.ln.Addr().String()
			s.ln.Close()
			c := vnClient(addr, &ConnectToPanelConfig{NoConnectionRetryPeriod: 1 + r.Intn(20)})
			time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
			d += " no panel"
			v.Case(fmt.Sprint(d, r.Intn(1000)), true)
			t0 := time.Now()
			end(c, d, 3*time.Second)
			if time.Since(t0) > 2*time.Second || c.nCB() != 0 {
				v.Fail("retry-wait", d, "%v to return, callbacks %s", time.Since(t0), c.story())
			}
		case 1: // during negotiation
			s, err := vnListen()
			if err != nil {
				return
			}
			defer s.ln.Close()
			c := vnClient(s.ln.Addr().String(), nil)
			p := s.accept(3 * time.Second)
			if p == nil {
				v.Fail("dial", d, "no connection")
				return
			}
			defer p.Close()
			w := r.Intn(2200)
			time.Sleep(time.Duration(w) * time.Millisecond)
			d += fmt.Sprintf(" cancelled %d ms into the negotiation", w)
			v.Case(d, true)
			end(c, d, 6*time.Second)
			if !vnClosed(p, time.Second) {
				v.Fail("socket", d, "the socket was left open")
			}
		case 2, 3, 4, 5: // idle, mid-frame, after traffic, blocked writer
			s, c, p := vnSession(v, "set-up", bin, false)
			if s == nil {
				return
			}
			defer s.ln.Close()
			defer p.Close()
			n := 0
			if kind > 2 {
				for n = r.Intn(4); n > 0; n-- {
					if bin {
						p.Write(vtFrame(vtOutMsg(r)))
					} else {
						p.Write([]byte(vtOutLine(r) + "\n"))
					}
				}
			}
			if kind == 3 {
				if bin {
					f := vtFrame(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: "abcdefgh"}})
					p.Write(f[:1+r.Intn(len(f)-1)])
				} else {
					p.Write([]byte("HWC#1=Do"))
				}
				d += " mid-frame"
			}
			if kind == 5 {
				d += " panel does not read"
				big := &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{1}, HWCGfx: &rwp.HWCGfx{W: 500, H: 500, ImageType: rwp.HWCGfx_RGB16bit, ImageData: make([]byte, 400000)}}}}
				l := []*rwp.InboundMessage{}
				for k := 0; k < 30; k++ {
					l = append(l, big)
				}
				select {
				case c.to <- l:
				case <-time.After(2 * time.Second):
				}
				time.Sleep(time.Duration(300+r.Intn(300)) * time.Millisecond)
			}
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			v.Case(fmt.Sprint(d, r.Intn(100000)), true)
			end(c, d, 5*time.Second)
			if !vnClosed(p, time.Second) {
				v.Fail("socket", d, "the socket was left open")
			}
		case 6, 7: // panel loss, reconnect
			s, c, p := vnSession(v, "set-up", bin, false)
			if s == nil {
				return
			}
			defer s.ln.Close()
			var b []byte
			var ends []int
			var all []*rwp.OutboundMessage
			for k := 1 + r.Intn(4); k > 0; k-- {
				if bin {
					m := vtOutMsg(r)
					for proto.Size(m) > 5000 {
						m = vtOutMsg(r)
					}
					all = append(all, m)
					b = append(b, vtFrame(m)...)
				} else {
					l := fmt.Sprintf("HWC#%d=Down", r.Intn(100))
					all = append(all, RawPanelASCIIstringsToOutboundMessages([]string{l})...)
					b = append(b, l+"\n"...)
				}
				ends = append(ends, len(b))
			}
			k := r.Intn(len(b) + 1)
			n := 0
			for _, e := range ends {
				if e <= k {
					n++
				}
			}
			d += fmt.Sprintf(" panel lost after %d of %d bytes (%d complete)", k, len(b), n)
			v.Case(d, true)
			p.Write(b[:k])
			if r.Intn(3) == 0 && kind == 6 {
				time.Sleep(20 * time.Millisecond)
				p.SetLinger(0) // reset instead of a clean end
			}
			p.Close()
			if !c.waitCB(2, 4*time.Second) {
				v.Fail("loss", d, "no disconnect callback: %s", c.story())
			} else if got := c.msgs(); !vnMsgsEq(got, all[:n]) {
				v.Fail("loss-delivery", d, "delivered %s, completely sent %s", vtShort(got), vtShort(all[:n]))
			}
			if kind == 7 { // cancel during the retry wait
				time.Sleep(time.Duration(r.Intn(900)) * time.Millisecond)
				d += " then cancelled in the retry wait"
				if p2 := func() *net.TCPConn {
					go func() {
						if p2 := s.accept(3 * time.Second); p2 != nil {
							vnHandshake(p2, bin, false)
							if !vnClosed(p2, 4*time.Second) {
								v.Fail("socket-late", d, "a socket opened after the cancellation was left open")
							}
							p2.Close()
						}
					}()
					return nil
				}(); p2 != nil {
					return
				}
				end(c, d, 8*time.Second)
				return
			}
			t0 := time.Now()
			p2 := s.accept(5 * time.Second)
			if p2 == nil {
				v.Fail("reconnect", d, "no reconnection: %s", c.story())
			} else {
				if cb := c.callbacks(); len(cb) > 1 && time.Since(cb[1].at) < 700*time.Millisecond {
					v.Fail("retry-period", d, "reconnected after %v, the period is 1 s", time.Since(t0))
				}
				bin2 := r.Intn(2) == 0
				if w, ok := vnHandshake(p2, bin2, false); !ok {
					v.Fail("reconnect", d, "%s", w)
				} else if !c.waitCB(3, 3*time.Second) {
					v.Fail("reconnect", d, "no second connect callback: %s", c.story())
				} else {
					if bin2 {
						p2.Write(vtFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}))
					} else {
						p2.Write([]byte("ping\n"))
					}
					if !c.waitMsgs(n+1, 2*time.Second) || len(c.msgs()) != n+1 {
						v.Fail("resume", d, "after reconnection: delivered %s", vtShort(c.msgs()))
					}
					select { // and the other direction: only to the new connection
					case c.to <- []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_ACK}}:
						want := []byte("ack\n")
						if bin2 {
							want = vtFrame(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_ACK})
						}
						g := make([]byte, len(want))
						p2.SetReadDeadline(time.Now().Add(2 * time.Second))
						if _, err := io.ReadFull(p2, g); err != nil || !bytes.Equal(g, want) {
							v.Fail("resume-send", d, "a message submitted after reconnection arrived as %q (%v)", g, err)
						}
					case <-time.After(2 * time.Second):
						v.Fail("resume-send", d, "the client does not take messages after reconnection")
					}
				}
			}
			end(c, d, 8*time.Second)
			if p2 != nil {
				if !vnClosed(p2, time.Second) {
					v.Fail("socket", d, "the socket was left open")
				}
				p2.Close()
			}
		case 9, 10: // several losses in a row
			s, err := vnListen()
			if err != nil {
				return
			}
			defer s.ln.Close()
			period := r.Intn(3)
			cfg := &ConnectToPanelConfig{ReConnectionRetryPeriod: period, NoConnectionRetryPeriod: r.Intn(3)}
			if period == 0 {
				period = 1
				if r.Intn(2) == 0 {
					cfg = nil
				}
			}
			c := vnClient(s.ln.Addr().String(), cfg)
			losses := 3
			if period == 2 {
				losses = 2
			}
			d += fmt.Sprintf(" %d losses in a row, retry period %d s", losses, period)
			v.Case(fmt.Sprint(d, r.Intn(100000)), true)
			var p *net.TCPConn
			for k := 0; k <= losses; k++ {
				t := time.Duration(period)*time.Second + 1500*time.Millisecond
				if p = s.accept(t); p == nil {
					v.Fail("retry-late", d, "no connection within %v after loss %d: %s", t, k, c.story())
					break
				}
				if cbs := c.callbacks(); len(cbs) > 1 {
					if e := time.Since(cbs[len(cbs)-1].at); e < time.Duration(period)*time.Second-300*time.Millisecond {
						v.Fail("retry-early", d, "reconnected %v after loss %d", e, k)
					}
				}
				bin := bin // every connection negotiates anew, in whichever way the panel answers
				reply := ""
				w, ok := "", false
				switch how := r.Intn(6); how {
				case 0, 1:
					w, ok = vnHandshake(p, bin, false)
					d += fmt.Sprintf(", binary=%v", bin)
				default:
					bin = false
					reply = []string{"RDY\n", "ErrorMsg=Panel locked to another system\n", "map=1:1\n", "_model=RCP\n"}[how-2]
					d += fmt.Sprintf(", %q", reply)
					if w, ok = vnProbe(p); ok {
						w, ok = vnFlush(p, reply)
					}
				}
				if !ok {
					v.Fail("reconnect", d, "connection %d: %s", k, w)
					break
				}
				if !c.waitCB(2*k+1, 2*time.Second) {
					v.Fail("reconnect", d, "connection %d: callbacks %s", k, c.story())
					break
				}
				if bin {
					p.Write(vtFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}))
				} else {
					p.Write([]byte("ping\n"))
				}
				if !c.waitMsgs(k+1, 2*time.Second) || len(c.msgs()) != k+1 {
					v.Fail("resume", d, "connection %d: delivered %s", k, vtShort(c.msgs()))
				}
				// the other direction: everything submitted now belongs to this connection
				for j := 0; j < 6; j++ {
					want := []byte("ack\n")
					if bin {
						want = vtFrame(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_ACK})
					}
					select {
					case c.to <- []*rwp.InboundMessage{{FlowMessage: rwp.InboundMessage_ACK}}:
					case <-time.After(2 * time.Second):
						v.Fail("resume-send", d, "connection %d: the client does not take messages", k)
						j = 100
						continue
					}
					g := make([]byte, len(want))
					p.SetReadDeadline(time.Now().Add(2 * time.Second))
					if _, err := io.ReadFull(p, g); err != nil || !bytes.Equal(g, want) {
						v.Fail("resume-send", d, "connection %d: message %d submitted arrived as %q (%v)", k, j, g, err)
						break
					}
					p.SetReadDeadline(time.Time{})
				}
				if k == losses {
					break
				}
				if r.Intn(2) == 0 {
					p.SetLinger(0)
				}
				p.Close()
				if !c.waitCB(2*k+2, 3*time.Second) {
					v.Fail("loss", d, "no disconnect callback for loss %d: %s", k, c.story())
					break
				}
				p = nil
			}
			end(c, d, 8*time.Second)
			if p != nil {
				if !vnClosed(p, time.Second) {
					v.Fail("socket", d, "the socket was left open")
				}
				p.Close()
			}
		case 11: // the panel appears late
			s, err := vnListen()
			if err != nil {
				return
			}
			addr := s.ln.Addr().String()
			s.ln.Close()
			period := 1 + r.Intn(3)
			cfg := &ConnectToPanelConfig{NoConnectionRetryPeriod: period}
			if period == 3 && r.Intn(2) == 0 {
				cfg = nil
			}
			t0 := time.Now()
			c := vnClient(addr, cfg)
			time.Sleep(200 * time.Millisecond)
			ln, err := net.Listen("tcp", addr)
			if err != nil {
				c.stop(5 * time.Second)
				return
			}
			d += fmt.Sprintf(" the panel appears after 0.2 s, retry period %d s", period)
			v.Case(fmt.Sprint(d, r.Intn(100000)), true)
			ln.(*net.TCPListener).SetDeadline(time.Now().Add(time.Duration(period)*time.Second + 1500*time.Millisecond))
			nc, err := ln.Accept()
			if err != nil {
				v.Fail("late-panel", d, "no connection after %v: %s", time.Since(t0), c.story())
			} else {
				if e := time.Since(t0); e < time.Duration(period)*time.Second-300*time.Millisecond {
					v.Fail("late-panel-early", d, "connected after %v", e)
				}
				if w, ok := vnHandshake(nc.(*net.TCPConn), bin, false); !ok {
					v.Fail("late-panel", d, "%s", w)
				} else if !c.waitCB(1, 3*time.Second) {
					v.Fail("late-panel", d, "no connect callback")
				}
			}
			end(c, d, 6*time.Second)
			ln.Close()
			if nc != nil {
				nc.Close()
			}
		case 8: // loss before or during negotiation
			s, err := vnListen()
			if err != nil {
				return
			}
			defer s.ln.Close()
			c := vnClient(s.ln.Addr().String(), nil)
			p := s.accept(3 * time.Second)
			if p == nil {
				v.Fail("dial", d, "no connection")
				return
			}
			k := r.Intn(len(vnAck))
			if r.Intn(2) == 0 {
				vnProbe(p)
			}
			p.Write(vnAck[:k])
			p.Close()
			d += fmt.Sprintf(" panel lost after %d bytes of the acknowledge", k)
			v.Case(d, true)
			p2 := s.accept(6 * time.Second)
			if p2 == nil {
				v.Fail("reconnect-neg", d, "no reconnection: %s", c.story())
			} else {
				nb := c.nCB()
				if w, ok := vnHandshake(p2, true, false); !ok {
					v.Fail("reconnect-neg", d, "%s", w)
				} else if !c.waitCB(nb+1, 3*time.Second) {
					v.Fail("reconnect-neg", d, "no connect callback: %s", c.story())
				}
			}
			if len(c.msgs()) != 0 {
				v.Fail("negotiation-delivery", d, "delivered %s", vtShort(c.msgs()))
			}
			end(c, d, 8*time.Second)
			if p2 != nil {
				p2.Close()
			}
		}
	})
	ok := vnWait(5*time.Second, func() bool {
		return !strings.Contains(vnStacks(), "rawpanel-lib.ConnectToPanel")
	})
	if !ok {
		v.Fail("goroutines", "after all scenarios ended", "goroutines of the client are left: %.2000s", vnStacks())
	}
}
func vnStacks() string {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	var l []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "rawpanel-lib.ConnectToPanel") {
			l = append(l, g)
		}
	}
	return strings.Join(l, "\n\n")
}

func TestVN_C12(t *testing.T) {
	vnQuiet()
	v := vnStart(t, "a panel that answers the probe with an acknowledge frame (whole or cut, after 0-1.8 s), stays silent, or answers with the ready word, map lines or other text; the detector and the reconnecting client must classify it and write exactly the specified bytes; what the panel sends after that must be received as sent")
	v.Par(64, func(r *rand.Rand, i int) {
		client := i%2 == 0
		var reply [][]byte
		var gaps []int
		expect := "binary"
		wantErr := ""
		line := ""
		gap := func() int { return []int{0, 0, 1, 20, 100, 300}[r.Intn(6)] }
		delay := []int{0, 0, 5, 50, 200, 700, 1200, 1600}[r.Intn(8)]
		switch k := i / 2 % 8; {
		case k < 3: // acknowledge
			f := vnAck
			if r.Intn(3) == 0 { // with further information in the same message
				f = vtFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK, PanelInfo: &rwp.PanelInfo{Name: strings.Repeat("n", []int{r.Intn(60), r.Intn(300), r.Intn(980)}[r.Intn(3)])}})
			}
			line = fmt.Sprintf("acknowledge frame %x", f)
			for len(f) > 0 {
				n := len(f)
				if r.Intn(3) != 0 {
					n = 1 + r.Intn(len(f))
				}
				reply = append(reply, f[:n])
				gaps = append(gaps, []int{0, 1, 20}[r.Intn(3)])
				f = f[n:]
			}
		case k == 3:
			expect, line = "ascii", "silence"
			delay = 0
		case k < 6:
			expect = "ascii"
			line = []string{"RDY\n", "map=1:1\n", "map=12:0\nmap=13:7\n", "RDY\r\n", "RDY\nmap=1:1\n", "map=123:456\r\n"}[r.Intn(6)]
			reply, gaps = [][]byte{[]byte(line)}, []int{0}
			if r.Intn(4) == 0 {
				n := 1 + r.Intn(3)
				reply, gaps = [][]byte{[]byte(line[:n]), []byte(line[n:])}, []int{gap(), 0}
			}
		default:
			expect = "ascii"
			if !client {
				return
			}
			line = []string{"hello there\n", "ErrorMsg=Panel locked to another system\n", "ErrorMsg=x\r\nmore\n", "ErrorMsg=\n", "nack\n", "ack\n", "BSY\n", "_model=RCP\n", "no\n"}[r.Intn(9)]
			if strings.HasPrefix(line, "ErrorMsg=") {
				wantErr = strings.TrimRight(strings.Split(line[9:], "\n")[0], "\r")
			}
			reply, gaps = [][]byte{[]byte(line)}, []int{0}
		}
		d := fmt.Sprintf("client=%v reply %q in %d parts %v after %d ms", client, line, len(reply), gaps, delay)
		s, err := vnListen()
		if err != nil {
			return
		}
		defer s.ln.Close()
		var c *vnCli
		res := make(chan bool, 1)
		var nc net.Conn
		if client {
			c = vnClient(s.ln.Addr().String(), nil)
		} else {
			nc, err = net.Dial("tcp", s.ln.Addr().String())
			if err != nil {
				return
			}
			defer nc.Close()
			go func() { res <- AutoDetectIfPanelEncodingIsBinary(nc, "panel") }()
		}
		p := s.accept(3 * time.Second)
		if p == nil {
			v.Fail("dial", d, "no connection")
			return
		}
		defer p.Close()
		v.Case(d, true)
		if w, ok := vnProbe(p); !ok {
			v.Fail("probe", d, "%s", w)
		}
		// nothing but the probe before the panel answers
		if delay > 0 {
			p.SetReadDeadline(time.Now().Add(time.Duration(delay) * time.Millisecond))
			if n, _ := p.Read(make([]byte, 10)); n > 0 {
				v.Fail("early", d, "the client wrote %d more bytes before the panel answered", n)
			}
			p.SetReadDeadline(time.Time{})
		}
		for k, b := range reply {
			p.Write(b)
			time.Sleep(time.Duration(gaps[k]) * time.Millisecond)
		}
		var isBin bool
		if client {
			if !c.waitCB(1, 3500*time.Millisecond) {
				v.Fail("no-connect", d, "no connect callback")
				c.stop(5 * time.Second)
				return
			}
			cb := c.callbacks()[0]
			isBin = cb.binary
			if strings.TrimRight(cb.errMsg, "\r") != wantErr {
				v.Fail("error-message", d, "the connect callback received %q, the panel said %q", cb.errMsg, wantErr)
			}
		} else {
			select {
			case isBin = <-res:
			case <-time.After(3500 * time.Millisecond):
				v.Fail("no-result", d, "the detector did not return")
				return
			}
		}
		if isBin != (expect == "binary") {
			v.Fail("class-"+expect+fmt.Sprintf("-client=%v", client), d, "classified as binary=%v", isBin)
		} else {
			b := make([]byte, 20)
			want := ""
			if expect == "ascii" {
				want = "\n"
				p.SetReadDeadline(time.Now().Add(time.Second))
				n, _ := io.ReadFull(p, b[:1])
				b = b[:n]
			} else {
				b = nil
			}
			p.SetReadDeadline(time.Now().Add(40 * time.Millisecond))
			x := make([]byte, 20)
			n, _ := p.Read(x)
			if got := string(b) + string(x[:n]); got != want {
				v.Fail("flush-"+expect, d, "after the probe the panel received %q, want %q", got, want)
			}
		}
		if isBin == (expect == "binary") && (expect == "binary" || line == "silence" || len(reply) == 1 && strings.Count(line, "\n") == 1) {
			mk := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 4711, Binary: &rwp.BinaryEvent{Pressed: true}}}}
			b := []byte("HWC#4711=Down\n")
			if isBin {
				b = vtFrame(mk)
			}
			p.Write(b)
			if client {
				c.waitMsgs(1, 2*time.Second)
				time.Sleep(5 * time.Millisecond)
				if got := c.msgs(); !vnMsgsEq(got, []*rwp.OutboundMessage{mk}) {
					v.Fail("after-"+expect, d, "the panel's next message was received as %s", vtShort(got))
				}
			} else {
				x := make([]byte, len(b))
				nc.SetReadDeadline(time.Now().Add(2 * time.Second))
				n, err := io.ReadFull(nc, x)
				if err != nil || !bytes.Equal(x, b) {
					v.Fail("after-"+expect+"-detector", d, "after the detection the panel's next bytes %q were read as %q (%v)", b, x[:n], err)
				}
			}
		}
		if client {
			if w := c.stop(6 * time.Second); w != "" {
				v.Fail("stop", d, "%s", w)
			}
		}
	})
}
