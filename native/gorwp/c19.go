package gorwp

// C19: the high-level client against a scripted panel on the loopback interface.

import (
	"bufio"
	"context"
	"encoding/binary"
	"fmt"
	"image/color"
	"io"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

const vnTopo = `{"HWc":[{"id":1,"x":10,"y":20,"txt":"One","type":5}],"typeIndex":{"5":{"w":100,"h":50,"in":"b"}}}`
const vnSvg = `<svg width="100" height="100" viewBox="0 0 100 100"><rect x="1"/></svg>`

func vnFrame(m proto.Message) []byte {
	b, _ := proto.Marshal(m)
	h := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

// the scripted panel
type vnPanel struct {
	bin  bool
	ln   net.Listener
	c    net.Conn
	wmu  sync.Mutex
	mu   sync.Mutex
	acks int
	leds map[uint32]int // LED states received per component, and their order
	seq  []uint32
	reqs int
	init []interface{} // what is sent on the first request
	wait time.Duration
	shut bool
	gone chan struct{}
}

func vnStartPanel(bin bool, init []interface{}, wait time.Duration, shut bool) *vnPanel {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil
	}
	p := &vnPanel{bin: bin, ln: ln, leds: map[uint32]int{}, init: init, wait: wait, shut: shut, gone: make(chan struct{})}
	go p.serve()
	return p
}
func (p *vnPanel) addr() string { return p.ln.Addr().String() }
func (p *vnPanel) close() {
	p.ln.Close()
	p.mu.Lock()
	if p.c != nil {
		p.c.Close()
	}
	p.mu.Unlock()
}
func (p *vnPanel) serve() {
	defer close(p.gone)
	c, err := p.ln.Accept()
	if err != nil {
		return
	}
	p.mu.Lock()
	p.c = c
	p.mu.Unlock()
	b := make([]byte, 6)
	if _, err := io.ReadFull(c, b); err != nil {
		return
	}
	rd := bufio.NewReader(c)
	if p.bin {
		c.Write(vnFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}))
		for {
			h := make([]byte, 4)
			if _, err := io.ReadFull(rd, h); err != nil {
				return
			}
			n := binary.LittleEndian.Uint32(h)
			if n > 1<<22 {
				return
			}
			pl := make([]byte, n)
			if _, err := io.ReadFull(rd, pl); err != nil {
				return
			}
			m := &rwp.InboundMessage{}
			if proto.Unmarshal(pl, m) != nil {
				return
			}
			p.mu.Lock()
			if m.FlowMessage == rwp.InboundMessage_ACK {
				p.acks++
			}
			for _, s := range m.States {
				for _, id := range s.HWCIDs {
					if s.HWCMode != nil {
						p.leds[id]++
						p.seq = append(p.seq, id)
					}
				}
			}
			first := m.Command != nil && m.Command.SendPanelInfo
			if first {
				p.reqs++
			}
			p.mu.Unlock()
			if first {
				go p.answer()
			}
		}
	}
	c.Write([]byte("RDY\n"))
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			return
		}
		l = strings.TrimSpace(l)
		var id uint32
		var val int
		p.mu.Lock()
		if l == "ack" {
			p.acks++
		}
		if n, _ := fmt.Sscanf(l, "HWC#%d=%d", &id, &val); n == 2 {
			p.leds[id]++
			p.seq = append(p.seq, id)
		}
		if l == "list" {
			p.reqs++
		}
		p.mu.Unlock()
		if l == "list" {
			go p.answer()
		}
	}
}
func (p *vnPanel) answer() {
	time.Sleep(p.wait)
	for _, x := range p.init {
		p.write(vnBytes(x))
	}
	if p.shut {
		p.c.Close()
	}
}
func vnBytes(x interface{}) []byte {
	switch t := x.(type) {
	case string:
		return []byte(t + "\n")
	case []byte:
		return t
	case *rwp.OutboundMessage:
		return vnFrame(t)
	}
	return nil
}
func (p *vnPanel) write(b []byte) {
	p.wmu.Lock()
	p.c.Write(b)
	p.wmu.Unlock()
}
func (p *vnPanel) cut(r *rand.Rand, b []byte, mode int) {
	pause := 200 * time.Millisecond
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 1:
			n = 1 + r.Intn(3)
		case 2:
			n = 1 + r.Intn(len(b))
		}
		if n > len(b) {
			n = len(b)
		}
		p.write(b[:n])
		b = b[n:]
		if mode > 0 && r.Intn(4) == 0 && pause > 0 {
			d := time.Duration(r.Intn(1500)) * time.Microsecond
			pause -= d
			time.Sleep(d)
		}
	}
}

// the four pieces of initial information, model, serial, topology, svg
func vnInfo(r *rand.Rand, bin bool, have [4]bool) []interface{} {
	var l []interface{}
	if bin {
		pi, pt := &rwp.PanelInfo{Name: "n"}, &rwp.PanelTopology{}
		if have[0] {
			pi.Model = "M1"
		}
		if have[1] {
			pi.Serial = "S1"
		}
		if have[2] {
			pt.Json = vnTopo
		}
		if have[3] {
			pt.Svgbase = vnSvg
		}
		switch r.Intn(3) {
		case 0:
			l = append(l, &rwp.OutboundMessage{PanelInfo: pi, PanelTopology: pt})
		case 1:
			l = append(l, &rwp.OutboundMessage{PanelInfo: pi}, &rwp.OutboundMessage{PanelTopology: pt})
		default:
			l = append(l, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: pi.Model}}, &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: pt.Json}}, &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: pt.Svgbase}}, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Serial: pi.Serial}})
		}
		return l
	}
	for i, s := range []string{"_model=M1", "_serial=S1", "_panelTopology_HWC=" + vnTopo, "_panelTopology_svgbase=" + vnSvg} {
		if have[i] {
			l = append(l, s)
		}
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func vnWait(d time.Duration, f func() bool) bool {
	for e := time.Now().Add(d); ; {
		if f() {
			return true
		}
		if time.Now().After(e) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func vnConnect(p *vnPanel) (*RawPanel, error, context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	rp, err := Connect(p.addr(), ctx, cancel)
	return rp, err, ctx, cancel
}

// an event and its ASCII spelling
func vnEvent(r *rand.Rand, bin bool) (*rwp.HWCEvent, []byte) {
	e := &rwp.HWCEvent{HWCID: uint32(1 + r.Intn(6))}
	line := ""
	switch r.Intn(4) {
	case 0:
		edge := []int{0, 1, 2, 4, 8, 16}[r.Intn(6)]
		e.Binary = &rwp.BinaryEvent{Pressed: r.Intn(2) == 0, Edge: rwp.BinaryEvent_EdgeID(edge)}
		w := map[bool]string{true: "Down", false: "Up"}[e.Binary.Pressed]
		if edge > 0 {
			line = fmt.Sprintf("HWC#%d.%d=%s", e.HWCID, edge, w)
		} else {
			line = fmt.Sprintf("HWC#%d=%s", e.HWCID, w)
		}
	case 1:
		e.Pulsed = &rwp.PulsedEvent{Value: int32(r.Intn(41) - 20)}
		line = fmt.Sprintf("HWC#%d=Enc:%d", e.HWCID, e.Pulsed.Value)
	case 2:
		e.Absolute = &rwp.AbsoluteEvent{Value: uint32(r.Intn(1001))}
		line = fmt.Sprintf("HWC#%d=Abs:%d", e.HWCID, e.Absolute.Value)
	default:
		e.Speed = &rwp.SpeedEvent{Value: int32(r.Intn(1001) - 500)}
		line = fmt.Sprintf("HWC#%d=Speed:%d", e.HWCID, e.Speed.Value)
	}
	if !bin {
		return e, []byte(line + []string{"\n", "\r\n"}[r.Intn(2)])
	}
	return e, nil
}

type vnRec struct {
	mu sync.Mutex
	l  map[string][]string
}

func (c *vnRec) add(k, s string) {
	c.mu.Lock()
	c.l[k] = append(c.l[k], s)
	c.mu.Unlock()
}
func (c *vnRec) str() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := ""
	for _, k := range []string{"trigger", "binary", "pulsed", "absolute", "intensity"} {
		s += k + ": " + strings.Join(c.l[k], " ") + "\n"
	}
	return s
}
func (c *vnRec) event(e *rwp.HWCEvent, id uint32) {
	c.add("trigger", vnEvStr(e))
	if b := e.Binary; b != nil {
		c.add("binary", fmt.Sprintf("%d/%v/%d", id, b.Pressed, b.Edge))
	}
	if x := e.Pulsed; x != nil {
		c.add("pulsed", fmt.Sprintf("%d/%d", id, x.Value))
	}
	if x := e.Absolute; x != nil {
		c.add("absolute", fmt.Sprintf("%d/%d", id, x.Value))
	}
	if x := e.Speed; x != nil {
		c.add("intensity", fmt.Sprintf("%d/%d", id, x.Value))
	}
}
func vnEvStr(e *rwp.HWCEvent) string {
	s := fmt.Sprint(e.HWCID)
	if b := e.Binary; b != nil {
		s += fmt.Sprintf("B%v.%d", b.Pressed, b.Edge)
	}
	if x := e.Pulsed; x != nil {
		s += fmt.Sprintf("P%d", x.Value)
	}
	if x := e.Absolute; x != nil {
		s += fmt.Sprintf("A%d", x.Value)
	}
	if x := e.Speed; x != nil {
		s += fmt.Sprintf("S%d", x.Value)
	}
	return s
}
func (c *vnRec) bind(rp *RawPanel, id uint32) {
	rp.BindTrigger(id, func(h uint32, e *rwp.HWCEvent) {
		if h != e.HWCID {
			c.add("trigger", "wrong-id")
		}
		c.add("trigger", vnEvStr(e))
	})
	rp.BindBinary(id, func(h uint32, s BinaryStatus, e BinaryEdge) { c.add("binary", fmt.Sprintf("%d/%v/%d", h, s == Down, e)) })
	rp.BindPulsed(id, func(h uint32, n int) { c.add("pulsed", fmt.Sprintf("%d/%d", h, n)) })
	rp.BindAbsolute(id, func(h uint32, n int) { c.add("absolute", fmt.Sprintf("%d/%d", h, n)) })
	rp.BindIntensity(id, func(h uint32, n int) { c.add("intensity", fmt.Sprintf("%d/%d", h, n)) })
}

var vnAll = [4]bool{true, true, true, true}

func TestVN_C19(t *testing.T) {
	v := vnStart(t, "a scripted panel in either protocol mode: initial information complete, incomplete, late or cut off by a disconnect; random events, pings and information updates in random segments; handlers that send 1-60 feedback messages per event; over-limit and stalled frames followed by further events; handler calls, acknowledges, getters and the connect result are compared with the script")
	v.Par(48, func(r *rand.Rand, i int) {
		kind := i % 9
		bin := r.Intn(2) == 0
		d := fmt.Sprintf("kind %d binary=%v", kind, bin)
		switch kind {
		case 0, 1: // the connect result
			have := vnAll
			wait := time.Duration([]int{0, 0, 50, 700, 1500}[r.Intn(5)]) * time.Millisecond
			shut := false
			if kind == 1 {
				switch r.Intn(3) {
				case 0:
					have[r.Intn(4)] = false
				case 1:
					have[r.Intn(4)] = false
					shut = true
				default:
					wait = 2600 * time.Millisecond
				}
			}
			ok := have == vnAll && wait < 2*time.Second
			d += fmt.Sprintf(" information %v after %v, panel closes=%v", have, wait, shut)
			v.Case(d, true)
			p := vnStartPanel(bin, vnInfo(r, bin, have), wait, shut)
			if p == nil {
				return
			}
			defer p.close()
			t0 := time.Now()
			rp, err, ctx, cancel := vnConnect(p)
			defer cancel()
			if (err == nil && rp != nil) != ok {
				v.Fail(fmt.Sprintf("connect-%v-shut=%v", ok, shut), d, "Connect returned (%v, %v) after %v", rp != nil, err, time.Since(t0))
			}
			if ok && err == nil {
				if rp.State.GetModel() != "M1" || rp.State.GetSerial() != "S1" || rp.State.GetTopology() == nil || len(rp.State.GetTopology().HWc) != 1 {
					v.Fail("getters-initial", d, "model %q serial %q topology %+v", rp.State.GetModel(), rp.State.GetSerial(), rp.State.GetTopology())
				}
				if ctx.Err() != nil {
					v.Fail("cancelled", d, "the context was cancelled")
				}
			}
			return
		}
		p := vnStartPanel(bin, vnInfo(r, bin, vnAll), 0, false)
		if p == nil {
			return
		}
		defer p.close()
		rp, err, ctx, cancel := vnConnect(p)
		defer cancel()
		if err != nil || rp == nil {
			v.Fail("connect", d, "Connect returned (%v, %v)", rp != nil, err)
			return
		}
		_ = ctx
		want, got := &vnRec{l: map[string][]string{}}, &vnRec{l: map[string][]string{}}
		bound := map[uint32]bool{}
		for id := uint32(1); id < 6; id++ {
			if r.Intn(4) > 0 {
				bound[id] = true
			}
		}
		if kind != 5 {
			for id := range bound {
				got.bind(rp, id)
			}
		}
		mode := r.Intn(3)
		var buf []byte
		pings := 0
		var desc []string
		model, serial, name := "M1", "S1", rp.State.GetName()
		avail := map[uint32]uint32{}
		nHWC := 1
		script := func(n int) {
			for ; n > 0; n-- {
				switch k := r.Intn(10); {
				case k == 0:
					if bin {
						buf = append(buf, vnFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING})...)
					} else {
						buf = append(buf, "ping\n"...)
					}
					pings++
					desc = append(desc, "ping")
				case k == 1:
					s := fmt.Sprintf("x%d", r.Intn(1000))
					w := r.Intn(5)
					var m *rwp.OutboundMessage
					l := ""
					switch w {
					case 0:
						model, m, l = s, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: s}}, "_model="+s
					case 1:
						serial, m, l = s, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Serial: s}}, "_serial="+s
					case 2:
						name, m, l = s, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Name: s}}, "_name="+s
					case 3:
						a, b := uint32(r.Intn(4)), uint32(r.Intn(3))
						avail[a] = b
						m, l = &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{a: b}}, fmt.Sprintf("map=%d:%d", a, b)
					default:
						nHWC = r.Intn(5)
						var hs []string
						for k := 0; k < nHWC; k++ {
							hs = append(hs, fmt.Sprintf(`{"id":%d,"type":5}`, k+1))
						}
						js := `{"HWc":[` + strings.Join(hs, ",") + `],"typeIndex":{"5":{"w":10}}}`
						m, l = &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: js}}, "_panelTopology_HWC="+js
					}
					if bin {
						buf = append(buf, vnFrame(m)...)
					} else {
						buf = append(buf, l+"\n"...)
					}
					desc = append(desc, l)
				case k == 2: // lines and messages without any effect
					if bin {
						buf = append(buf, vnFrame(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK})...)
					} else {
						buf = append(buf, []string{"ack\n", "\n", "nonsense\n", "BSY\n"}[r.Intn(4)]...)
					}
				default:
					if bin {
						m := &rwp.OutboundMessage{}
						for k := 1 + r.Intn(3); k > 0; k-- {
							e, _ := vnEvent(r, true)
							if r.Intn(6) == 0 {
								e2, _ := vnEvent(r, true)
								e2.HWCID = e.HWCID
								proto.Merge(e, e2)
							}
							m.Events = append(m.Events, e)
							if bound[e.HWCID] {
								want.event(e, e.HWCID)
							}
							desc = append(desc, vnEvStr(e))
						}
						switch r.Intn(12) {
						case 0:
							m.FlowMessage = rwp.OutboundMessage_ACK
							desc = append(desc, "(+ack)")
						case 1:
							m.FlowMessage = rwp.OutboundMessage_PING
							pings++
							desc = append(desc, "(+ping)")
						}
						buf = append(buf, vnFrame(m)...)
					} else {
						e, l := vnEvent(r, false)
						buf = append(buf, l...)
						if bound[e.HWCID] {
							want.event(e, e.HWCID)
						}
						desc = append(desc, vnEvStr(e))
					}
				}
				if r.Intn(4) == 0 {
					p.cut(r, buf, mode)
					buf = nil
				}
			}
		}
		flush := func() { p.cut(r, buf, mode); buf = nil }
		check := func(key string) {
			vnWait(3*time.Second, func() bool { return got.str() == want.str() })
			time.Sleep(10 * time.Millisecond)
			if got.str() != want.str() {
				v.Fail(key, d+" "+strings.Join(desc, ","), "handlers received\n%.1500s\nthe panel sent\n%.1500s", got.str(), want.str())
			}
		}
		acks := func() {
			f := func() int { p.mu.Lock(); defer p.mu.Unlock(); return p.acks }
			vnWait(2*time.Second, func() bool { return f() >= pings })
			time.Sleep(10 * time.Millisecond)
			if f() != pings {
				v.Fail("acknowledges", d+" "+strings.Join(desc, ","), "%d pings were answered with %d acknowledges", pings, f())
			}
		}
		switch kind {
		case 8: // events, then the panel disconnects at once
			script(1 + r.Intn(60))
			d += fmt.Sprintf(" cut %d, then the panel disconnects", mode)
			v.Case(d+strings.Join(desc, ","), true)
			flush()
			p.c.(*net.TCPConn).CloseWrite()
			check("dispatch-before-disconnect")
		case 2, 3, 7: // events, pings, information
			script(1 + r.Intn(30))
			flush()
			d += fmt.Sprintf(" cut %d", mode)
			v.Case(d+strings.Join(desc, ","), true)
			check("dispatch")
			acks()
			var m, s, n string
			var nh int
			ok := vnWait(time.Second, func() bool {
				m, s, n, nh = rp.State.GetModel(), rp.State.GetSerial(), rp.State.GetName(), len(rp.State.GetTopology().HWc)
				return m == model && s == serial && n == name && nh == nHWC
			})
			if !ok {
				v.Fail("getters", d+" "+strings.Join(desc, ","), "model %q serial %q name %q, %d components; sent %q %q %q %d", m, s, n, nh, model, serial, name, nHWC)
			}
			rp.State.RLock()
			for a, b := range avail {
				if x, ok := rp.State.hwcAvailability[a]; !ok || x != b {
					v.Fail("availability", d+" "+strings.Join(desc, ","), "availability of %d is %d, the panel said %d", a, x, b)
				}
			}
			rp.State.RUnlock()
		case 4: // feedback from handlers
			n := []int{1, 5, 9, 10, 11, 12, 25, 60}[r.Intn(8)]
			evs := 1 + r.Intn(20)
			var done int
			var mu sync.Mutex
			rp.BindBinary(7, func(h uint32, s BinaryStatus, e BinaryEdge) {
				for k := 0; k < n; k++ {
					if k%2 == 0 {
						rp.SetLEDColor(uint32(100+k), color.RGBA{255, 0, 0, 255}, rwp.HWCMode_ON)
					} else {
						rp.SetLEDColorByIndex(uint32(100+k), rwp.ColorIndex_RED, rwp.HWCMode_ON)
					}
				}
				mu.Lock()
				done++
				mu.Unlock()
			})
			d += fmt.Sprintf(" %d events, each handler call sends %d messages", evs, n)
			v.Case(d, true)
			for k := 0; k < evs; k++ {
				if bin {
					p.write(vnFrame(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 7, Binary: &rwp.BinaryEvent{Pressed: true}}}}))
				} else {
					p.write([]byte("HWC#7=Down\n"))
				}
			}
			script(r.Intn(10))
			flush()
			if !vnWait(4*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return done == evs }) {
				v.Fail("stalled", d, "dispatch stopped: %d of %d handler calls returned", done, evs)
				return
			}
			check("dispatch-feedback")
			var bad string
			if !vnWait(3*time.Second, func() bool {
				p.mu.Lock()
				defer p.mu.Unlock()
				for k := 0; k < n; k++ {
					if p.leds[uint32(100+k)] != evs {
						bad = fmt.Sprintf("component %d: %d states arrived, %d were sent", 100+k, p.leds[uint32(100+k)], evs)
						return false
					}
				}
				return len(p.seq) == n*evs
			}) {
				v.Fail("feedback", d, "%s", bad)
			} else {
				p.mu.Lock()
				for k, id := range p.seq {
					if id != uint32(100+k%n) {
						v.Fail("feedback-order", d, "feedback message %d addresses component %d, want %d", k, id, 100+k%n)
						break
					}
				}
				p.mu.Unlock()
			}
			acks()
		case 5: // registration while events are flowing
			v.Case(d+fmt.Sprint(r.Intn(1000)), true)
			stop := make(chan struct{})
			go func() {
				rr := rand.New(rand.NewSource(int64(i)))
				for {
					select {
					case <-stop:
						return
					default:
					}
					e, l := vnEvent(rr, bin)
					if bin {
						l = vnFrame(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}})
					}
					p.write(l)
				}
			}()
			for k := 0; k < 300; k++ {
				got.bind(rp, uint32(1+k%6))
				if k%50 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			time.Sleep(20 * time.Millisecond)
			close(stop)
			done := make(chan struct{})
			rp.BindTrigger(9, func(uint32, *rwp.HWCEvent) { close(done) })
			time.Sleep(5 * time.Millisecond)
			if bin {
				p.write(vnFrame(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 9, Binary: &rwp.BinaryEvent{}}}}))
			} else {
				p.write([]byte("HWC#9=Up\n"))
			}
			select {
			case <-done:
			case <-time.After(4 * time.Second):
				v.Fail("registered", d, "a handler registered while events were flowing was not called")
			}
		case 6: // broken frames
			if !bin {
				return
			}
			script(r.Intn(6))
			flush()
			check("before-broken")
			bad := []byte{}
			after := time.Duration(0)
			switch r.Intn(3) {
			case 0:
				n := []uint32{500000, 500001, 0xffffffff, 0x7fffffff, 600000}[r.Intn(5)]
				bad = make([]byte, 4)
				binary.LittleEndian.PutUint32(bad, n)
				desc = append(desc, fmt.Sprintf("length prefix %d", n))
			case 1:
				f := vnFrame(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: "abcdefghijkl"}})
				bad = f[:5+r.Intn(len(f)-6)]
				after = 2300 * time.Millisecond
				desc = append(desc, "frame stalled for 2.3 s in its payload")
			default:
				f := vnFrame(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true}}}})
				bad = f[:1+r.Intn(3)]
				after = 2300 * time.Millisecond
				desc = append(desc, "frame stalled for 2.3 s in its header")
			}
			v.Case(d+strings.Join(desc, ","), true)
			p.write(bad)
			time.Sleep(after)
			for k := 0; k < 5; k++ { // must not be dispatched
				var evs []*rwp.HWCEvent
				for id := uint32(1); id < 6; id++ {
					evs = append(evs, &rwp.HWCEvent{HWCID: id, Binary: &rwp.BinaryEvent{Pressed: true, Edge: 4}})
				}
				p.write(vnFrame(&rwp.OutboundMessage{Events: evs}))
			}
			check("after-broken")
			select {
			case <-p.gone:
			case <-time.After(2 * time.Second):
				v.Fail("broken-kept", d+strings.Join(desc, ","), "the connection was not closed after the broken frame")
			}
		}
	})
}

// the same under the race detector: registration and feedback while events are flowing
func TestVN_C19_Race(t *testing.T) {
	v := vnStart(t, "handlers registered from several goroutines and getters read while events are flowing (race detector)")
	v.Par(6, func(r *rand.Rand, i int) {
		bin := i%2 == 0
		p := vnStartPanel(bin, vnInfo(r, bin, vnAll), 0, false)
		if p == nil {
			return
		}
		defer p.close()
		rp, err, _, cancel := vnConnect(p)
		defer cancel()
		d := fmt.Sprintf("binary=%v", bin)
		if err != nil || rp == nil {
			v.Fail("connect", d, "Connect returned (%v, %v)", rp != nil, err)
			return
		}
		v.Case(fmt.Sprint(d, i), true)
		got := &vnRec{l: map[string][]string{}}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(int64(i)))
			for {
				select {
				case <-stop:
					return
				default:
				}
				e, l := vnEvent(rr, bin)
				if bin {
					l = vnFrame(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}, PanelInfo: &rwp.PanelInfo{Name: "x"}, HWCavailability: map[uint32]uint32{1: 1}, PanelTopology: &rwp.PanelTopology{Json: vnTopo}})
				}
				p.write(l)
				runtime.Gosched()
			}
		}()
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < 100; k++ {
					got.bind(rp, uint32(1+(k+g)%6))
					rp.State.GetModel()
					rp.State.GetName()
					rp.State.GetSerial()
					rp.State.GetTopology()
					rp.IsInitialized()
					if k%10 == 0 {
						rp.SetBrightness(3)
						rp.BindBinary(uint32(1+k%6), func(h uint32, s BinaryStatus, e BinaryEdge) { rp.SetLEDColorByIndex(h, rwp.ColorIndex_RED, rwp.HWCMode_ON) })
					}
				}
			}(g)
		}
		time.Sleep(100 * time.Millisecond)
		close(stop)
		wg.Wait()
	})
}
