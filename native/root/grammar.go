package rawpanellib

// An independent reading of the Raw Panel ASCII grammar and of the meaning of messages: both sides are reduced to
// lists of effects (strings), which are then compared. Nothing here calls the code under test.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"

	"sort"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// effect of one message or line; class orders the sections of one message
type vnEff struct {
	class int // 0 flow, 1 command, 2 state, 3 register, 4 event ...
	s     string
}

func vnDigits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}
func vnNum(s string) int64 {
	n, _ := strconv.ParseInt(s, 10, 64)
	return n
}

// "Key#ids=rest"
func vnHash(line string) (key, ids, rest string, ok bool) {
	h := strings.IndexByte(line, '#')
	e := strings.IndexByte(line, '=')
	if h < 0 || e < h+2 {
		return
	}
	for _, c := range line[h+1 : e] {
		if (c < '0' || c > '9') && c != ',' {
			return
		}
	}
	return line[:h], line[h+1 : e], line[e+1:], true
}

func vnQuant(v uint32) uint32 { // 8 bits to 2 bits per channel
	if v >= 255 {
		return 3
	}
	return v * 3 / 255
}

func vnColorNum(v int64) string {
	if v/64%2 == 1 {
		return fmt.Sprintf("rgb(%d,%d,%d)", v/16%4, v/4%4, v%4)
	}
	return fmt.Sprintf("index(%d)", v%32)
}
func vnTextColorNum(v int64) string {
	if s := vnColorNum(v); s != "index(0)" {
		return s
	}
	return "default"
}
func vnColorMsg(rgb *rwp.ColorRGB, idx *rwp.ColorIndex) string {
	if rgb != nil {
		return fmt.Sprintf("rgb(%d,%d,%d)", vnQuant(rgb.Red), vnQuant(rgb.Green), vnQuant(rgb.Blue))
	}
	if idx != nil {
		return fmt.Sprintf("index(%d)", idx.Index)
	}
	return ""
}
func vnTextColor(c *rwp.Color) string {
	if c == nil || c.ColorRGB == nil && (c.ColorIndex == nil || c.ColorIndex.Index == 0) {
		return "default"
	}
	return vnColorMsg(c.ColorRGB, c.ColorIndex)
}

type vnText struct {
	fmt, val                              int64
	si, mi                                int64
	title, l1, l2                         string
	solid                                 bool
	v2, pair                              int64
	sc                                    [5]int64
	face, w, h, tface, tw, th, pad, space int64
	fixed, inv                            bool
	pix, bg                               string
}

func (t vnText) String() string {
	o := fmt.Sprintf("text format=%d", t.fmt)
	unf := t.fmt == 10 || t.fmt == 11
	switch {
	case unf:
		o += fmt.Sprintf(" size=%d", t.val)
	case t.fmt == 7:
	default:
		o += fmt.Sprintf(" value=%d", t.val)
	}
	o += fmt.Sprintf(" icons=%d,%d title=%q", t.si, t.mi, t.title)
	if t.title != "" && !unf {
		o += fmt.Sprintf(" solid=%v", t.solid)
	}
	o += fmt.Sprintf(" labels=%q,%q value2=%d", t.l1, t.l2, t.v2)
	if !unf {
		o += fmt.Sprintf(" pair=%d", t.pair)
	}
	o += fmt.Sprintf(" scale=%d", t.sc[0])
	if t.sc[0] > 0 {
		o += fmt.Sprintf(" ranges=%v", t.sc[1:])
	}
	return o + fmt.Sprintf(" font=%d:%dx%d titlefont=%d:%dx%d fixed=%v padding=%d spacing=%d inverted=%v pixel=%s background=%s",
		t.face, t.w, t.h, t.tface, t.tw, t.th, t.fixed, t.pad, t.space, t.inv, t.pix, t.bg)
}

func vnTextOfLine(s string) vnText {
	f := strings.Split(s, "|")
	for len(f) < 21 {
		f = append(f, "")
	}
	n := func(i int) int64 { return vnNum(f[i]) }
	t := vnText{fmt: n(1), val: n(0), si: n(2) % 4, mi: n(2) / 8 % 8, title: f[3], l1: f[5], l2: f[6], solid: n(4) == 0, v2: n(7), pair: n(8)}
	if t.pair == 0 && (f[6] != "" || f[7] != "") {
		t.pair = 1
	}
	for i := range t.sc {
		t.sc[i] = n(9 + i)
	}
	t.face, t.tface, t.fixed = n(15)%8, n(15)/8%8, n(15)/64%2 == 1
	t.w, t.h, t.tw, t.th = n(16)%4, n(16)/4%4, n(16)/16%4, n(16)/64%4
	t.pad, t.space = n(17)%4, n(17)/4%8
	t.inv = n(18) > 0
	t.pix, t.bg = "default", "default"
	if n(19) > 0 {
		t.pix = vnTextColorNum(n(19))
	}
	if n(20) > 0 {
		t.bg = vnTextColorNum(n(20))
	}
	if f[0] == "" && t.fmt == 0 {
		t.fmt = 7
	}
	return t
}
func vnTextOfMsg(m *rwp.HWCText) vnText {
	t := vnText{fmt: int64(m.Formatting), val: int64(m.IntegerValue), si: int64(m.StateIcon), mi: int64(m.ModifierIcon), title: m.Title, l1: m.Textline1, l2: m.Textline2, solid: m.SolidHeaderBar, v2: int64(m.IntegerValue2), pair: int64(m.PairMode), inv: m.Inverted, pix: vnTextColor(m.PixelColor), bg: vnTextColor(m.BackgroundColor)}
	if s := m.Scale; s != nil {
		t.sc = [5]int64{int64(s.ScaleType), int64(s.RangeLow), int64(s.RangeHigh), int64(s.LimitLow), int64(s.LimitHigh)}
	}
	if s := m.TextStyling; s != nil {
		if f := s.TextFont; f != nil {
			t.face, t.w, t.h = int64(f.FontFace), int64(f.TextWidth), int64(f.TextHeight)
		}
		if f := s.TitleFont; f != nil {
			t.tface, t.tw, t.th = int64(f.FontFace), int64(f.TextWidth), int64(f.TextHeight)
		}
		t.fixed, t.pad, t.space = s.FixedWidth, int64(s.TitleBarPadding), int64(s.ExtraCharacterSpacing)
	}
	if t.fmt == 10 || t.fmt == 11 {
		t.val = int64(m.TextStyling.GetUnformattedFontSize())
	}
	return t
}

func vnImage(typ int64, w, h uint64, off bool, x, y uint64, data []byte) string {
	o := fmt.Sprintf("image type=%d %dx%d", typ, w, h)
	if off {
		o += fmt.Sprintf(" at %d,%d", x, y)
	}
	return o + fmt.Sprintf(" %d bytes %x", len(data), data)
}

var vnInCmds = map[string]string{
	"ActivePanel=1": "ActivatePanel", "list": "SendPanelInfo", "map": "ReportHWCavailability", "PanelTopology?": "SendPanelTopology",
	"BurninProfile?": "SendBurninProfile", "CalibrationProfile?": "SendCalibrationProfile", "NetworkConfig?": "SendNetworkConfig",
	"Registers?": "SendRegisters", "Connections?": "GetConnections", "RunTimeStats?": "GetRunTimeStats", "Clear": "ClearAll",
	"ClearLEDs": "ClearLEDs", "ClearDisplays": "ClearDisplays", "SleepTimer?": "GetSleepTimeout", "WakeUp!": "WakeUp", "Reboot": "Reboot",
}
var vnInNums = map[string]string{
	"HeartBeatTimer": "SetHeartBeatTimer", "DimmedGain": "SetDimmedGain", "PublishSystemStat": "PublishSystemStat", "LoadCPU": "LoadCPU",
	"SleepTimer": "SetSleepTimeout", "SleepMode": "SetSleepMode", "SleepScreenSaver": "SetSleepScreenSaver",
}

// one register line "Mem<id>=v", "Flag#<n>=v", "Shift<id>=v", "State<id>=v"
func vnRegLine(line string) (string, bool) {
	e := strings.IndexByte(line, '=')
	if e < 0 || !vnDigits(line[e+1:]) {
		return "", false
	}
	for i, k := range []string{"Mem", "Flag#", "Shift", "State"} {
		if strings.HasPrefix(line[:e], k) {
			id := line[len(k):e]
			for _, c := range id {
				if (c < '0' || c > '9') && (c < 'A' || c > 'Z') {
					return "", false
				}
			}
			v := vnNum(line[e+1:])
			if i == 1 {
				return vnRegEff(1, strconv.FormatInt(vnNum(id), 10), v), true
			}
			return vnRegEff(i, id, v), true
		}
	}
	return "", false
}
func vnRegEff(kind int, id string, v int64) string {
	if kind == 1 && v > 1 {
		v = 1
	}
	return fmt.Sprintf("register %s[%s]=%d", []string{"MEM", "FLAG", "SHIFT", "STATE"}[kind], id, v)
}

// vnReader: an independent receiver of inbound lines (keeps a graphics transfer across lines)
type vnReader struct {
	on       bool
	key, ids string
	next     int64
	max      int64
	typ      int64
	w, h     uint64
	off      bool
	x, y     uint64
	data     []byte
}

func (r *vnReader) line(line string) (out []vnEff, known bool) {
	st := func(ids, f string) {
		for _, id := range strings.Split(ids, ",") {
			out = append(out, vnEff{2, fmt.Sprintf("#%d %s", uint32(vnNum(id)), f)})
		}
	}
	switch line {
	case "":
		return nil, true
	case "ping", "ack", "nack":
		return []vnEff{{0, "flow " + line}}, true
	}
	if c, ok := vnInCmds[line]; ok {
		return []vnEff{{1, "command " + c}}, true
	}
	if key, ids, rest, ok := vnHash(line); ok {
		switch key {
		case "HWC":
			v := vnNum(rest)
			st(ids, fmt.Sprintf("mode state=%d output=%v blink=%d", v%16, v/32%2 == 1, v/256%16))
			return out, true
		case "HWCx":
			v := vnNum(rest)
			st(ids, fmt.Sprintf("extended %d value=%d", v/4096%16, v%4096))
			return out, true
		case "HWCc":
			st(ids, "color "+vnColorNum(vnNum(rest)))
			return out, true
		case "HWCt":
			st(ids, vnTextOfLine(rest).String())
			return out, true
		case "HWCrawADCValues":
			st(ids, fmt.Sprintf("rawadc %v", vnNum(rest) == 1))
			return out, true
		case "HWCg", "HWCgRGB", "HWCgGray":
			return r.gfx(key, ids, rest)
		}
	}
	if e, ok := vnRegLine(line); ok {
		return []vnEff{{3, e}}, true
	}
	if e := strings.IndexByte(line, '='); e > 0 {
		k, a := line[:e], line[e+1:]
		if c, ok := vnInNums[k]; ok && vnDigits(a) {
			return []vnEff{{1, fmt.Sprintf("command %s(%d)", c, uint32(vnNum(a)))}}, true
		}
		switch k {
		case "Webserver":
			if vnDigits(a) {
				return []vnEff{{1, fmt.Sprintf("command SetWebserverEnabled(%v)", vnNum(a) > 0)}}, true
			}
		case "JSONonOutbound":
			if vnDigits(a) {
				return []vnEff{{1, fmt.Sprintf("command JSONconfig(%v)", vnNum(a) > 0)}}, true
			}
		case "PanelBrightness":
			p := strings.Split(a, ",")
			if len(p) == 1 {
				p = append(p, p[0])
			}
			if len(p) == 2 && vnDigits(p[0]) && vnDigits(p[1]) {
				return []vnEff{{1, fmt.Sprintf("command PanelBrightness(leds %d, oleds %d)", uint32(vnNum(p[0])), uint32(vnNum(p[1])))}}, true
			}
		case "SetCalibrationProfile":
			return []vnEff{{1, fmt.Sprintf("command SetCalibrationProfile(%q)", a)}}, true
		case "SetNetworkConfig":
			n := &rwp.NetworkConfig{}
			if json.Unmarshal([]byte(a), n) == nil {
				return []vnEff{{1, "command SetNetworkConfig(" + vnNet(n) + ")"}}, true
			}
			return nil, false
		case "SimulateEnvironmentalHealth":
			if a == "Normal" || a == "Safemode" || a == "Blocked" {
				return []vnEff{{1, "command SimulateEnvironmentalHealth(" + a + ")"}}, true
			}
		}
	}
	return nil, false
}
func vnNet(n *rwp.NetworkConfig) string {
	return fmt.Sprintf("%v %q %q %q %q %q %v", n.Dhcp, n.Address, n.Netmask, n.Gateway, n.FirstDns, n.SecondDns, n.NoDefaultRoute)
}

func (r *vnReader) gfx(key, ids, rest string) (out []vnEff, known bool) {
	c := strings.IndexByte(rest, ':')
	if c < 0 {
		return nil, false
	}
	head, payload := rest[:c], rest[c+1:]
	part := strings.SplitN(head, "/", 2)
	if !vnDigits(part[0]) {
		return nil, false
	}
	data, err := base64.StdEncoding.DecodeString(payload)
	if err != nil {
		return nil, false
	}
	n := vnNum(part[0])
	if n == 0 {
		*r = vnReader{on: true, key: key, ids: ids, max: 2, w: 64, h: 32, typ: map[string]int64{"HWCg": 0, "HWCgRGB": 1, "HWCgGray": 2}[key]}
		if len(part) == 2 {
			f := strings.Split(part[1], ",") // max , WxH [, x, y]
			wh := strings.Split(f[1], "x")
			r.max, r.w, r.h = vnNum(f[0]), uint64(vnNum(wh[0])), uint64(vnNum(wh[1]))
			if len(f) == 4 {
				r.off, r.x, r.y = true, uint64(vnNum(f[2])), uint64(vnNum(f[3]))
			}
		}
	}
	if !r.on || r.key != key || r.ids != ids || r.next != n {
		return nil, true
	}
	r.data = append(r.data, data...)
	r.next++
	if n == r.max {
		r.on = false
		for _, id := range strings.Split(ids, ",") {
			out = append(out, vnEff{2, fmt.Sprintf("#%d %s", uint32(vnNum(id)), vnImage(r.typ, r.w, r.h, r.off, r.x, r.y, r.data))})
		}
	}
	return out, true
}

func vnFlat(s string) string { return s }

// effects of an inbound message
func vnInMsg(m *rwp.InboundMessage) (out []vnEff) {
	if m == nil {
		return []vnEff{{0, "nil message"}}
	}
	switch m.FlowMessage {
	case rwp.InboundMessage_PING:
		out = append(out, vnEff{0, "flow ping"})
	case rwp.InboundMessage_ACK:
		out = append(out, vnEff{0, "flow ack"})
	case rwp.InboundMessage_NACK:
		out = append(out, vnEff{0, "flow nack"})
	}
	if c := m.Command; c != nil {
		cm := func(on bool, f string, a ...interface{}) {
			if on {
				out = append(out, vnEff{1, "command " + fmt.Sprintf(f, a...)})
			}
		}
		cm(c.ActivatePanel, "ActivatePanel")
		cm(c.SendPanelInfo, "SendPanelInfo")
		cm(c.SendPanelTopology, "SendPanelTopology")
		cm(c.SendRegisters, "SendRegisters")
		cm(c.ReportHWCavailability, "ReportHWCavailability")
		cm(c.SendBurninProfile, "SendBurninProfile")
		cm(c.SendCalibrationProfile, "SendCalibrationProfile")
		cm(c.SendNetworkConfig, "SendNetworkConfig")
		cm(c.ClearAll, "ClearAll")
		cm(c.ClearLEDs, "ClearLEDs")
		cm(c.ClearDisplays, "ClearDisplays")
		cm(c.WakeUp, "WakeUp")
		cm(c.GetSleepTimeout, "GetSleepTimeout")
		cm(c.GetConnections, "GetConnections")
		cm(c.GetRunTimeStats, "GetRunTimeStats")
		cm(c.Reboot, "Reboot")
		if x := c.SetNetworkConfig; x != nil {
			cm(true, "SetNetworkConfig(%s)", vnNet(x))
		}
		cm(c.SetSleepTimeout != nil, "SetSleepTimeout(%d)", c.SetSleepTimeout.GetValue())
		cm(c.SetSleepMode != nil, "SetSleepMode(%d)", c.SetSleepMode.GetMode())
		cm(c.SetSleepScreenSaver != nil, "SetSleepScreenSaver(%d)", c.SetSleepScreenSaver.GetType())
		cm(c.SetWebserverEnabled != nil, "SetWebserverEnabled(%v)", c.SetWebserverEnabled.GetEnabled())
		cm(c.PanelBrightness != nil, "PanelBrightness(leds %d, oleds %d)", c.PanelBrightness.GetLEDs(), c.PanelBrightness.GetOLEDs())
		cm(c.SetHeartBeatTimer != nil, "SetHeartBeatTimer(%d)", c.SetHeartBeatTimer.GetValue())
		cm(c.SetDimmedGain != nil, "SetDimmedGain(%d)", c.SetDimmedGain.GetValue())
		cm(c.PublishSystemStat != nil, "PublishSystemStat(%d)", c.PublishSystemStat.GetPeriodSec())
		cm(c.LoadCPU != nil, "LoadCPU(%d)", c.LoadCPU.GetLevel())
		cm(c.JSONconfig != nil, "JSONconfig(%v)", c.JSONconfig.GetOutbound())
		cm(c.SetCalibrationProfile != nil, "SetCalibrationProfile(%q)", c.SetCalibrationProfile.GetJson())
		if x := c.SimulateEnvironmentalHealth; x != nil && x.RunMode >= 0 && x.RunMode <= 2 {
			cm(true, "SimulateEnvironmentalHealth(%s)", []string{"Normal", "Safemode", "Blocked"}[x.RunMode])
		}
	}
	for _, s := range m.States {
		if s == nil {
			continue
		}
		for _, id := range s.HWCIDs {
			st := func(f string, a ...interface{}) {
				out = append(out, vnEff{2, fmt.Sprintf("#%d ", id) + fmt.Sprintf(f, a...)})
			}
			if x := s.HWCMode; x != nil {
				st("mode state=%d output=%v blink=%d", x.State, x.Output, x.BlinkPattern)
			}
			if x := s.HWCColor; x != nil {
				if c := vnColorMsg(x.ColorRGB, x.ColorIndex); c != "" {
					st("color %s", c)
				}
			}
			if x := s.HWCExtended; x != nil {
				st("extended %d value=%d", x.Interpretation, x.Value)
			}
			if x := s.HWCText; x != nil {
				st("%s", vnTextOfMsg(x))
			}
			if x := s.HWCGfx; x != nil {
				st("%s", vnImage(int64(x.ImageType), uint64(x.W), uint64(x.H), x.XYoffset, uint64(x.X), uint64(x.Y), x.ImageData))
			}
			if x := s.PublishRawADCValues; x != nil {
				st("rawadc %v", x.Enabled)
			}
			if s.Processors != nil {
				st("processors %s", vnJSON(s.Processors))
			}
		}
	}
	for _, r := range m.Registers {
		if r != nil && r.Reg >= 0 && r.Reg <= 3 {
			out = append(out, vnEff{3, vnRegEff(int(r.Reg), r.Id, int64(r.Value))})
		}
	}
	return out
}

// vnSameEff: the effects read from the lines are those of the messages, message by message: sections in the order flow,
// command, state, register; within the command section any order; states and registers in order per component
func vnSameEff(read []vnEff, msgs [][]vnEff) string {
	at := 0
	for mi, m := range msgs {
		if at+len(m) > len(read) {
			return fmt.Sprintf("message %d has effects %v, but only %v is left of what was read", mi, vnEffs(m), vnEffs(read[at:]))
		}
		got := append([]vnEff{}, read[at:at+len(m)]...)
		want := append([]vnEff{}, m...)
		at += len(m)
		for i := 1; i < len(got); i++ {
			if got[i].class < got[i-1].class {
				return fmt.Sprintf("message %d: %q comes after %q", mi, got[i].s, got[i-1].s)
			}
		}
		key := func(e vnEff) string { // order of effects that may not be exchanged is kept by a stable sort
			if e.class == 2 {
				f := strings.Fields(e.s)
				return "2" + f[0] + " " + f[1]
			}
			if e.class == 3 {
				return "3" + e.s[:strings.IndexByte(e.s, '=')]
			}
			return fmt.Sprint(e.class) + e.s
		}
		sort.SliceStable(got, func(i, j int) bool { return key(got[i]) < key(got[j]) })
		sort.SliceStable(want, func(i, j int) bool { return key(want[i]) < key(want[j]) })
		for i := range want {
			if got[i] != want[i] {
				return fmt.Sprintf("message %d means %q, but the lines read as %q", mi, want[i].s, got[i].s)
			}
		}
	}
	if at < len(read) {
		return fmt.Sprintf("the lines have the additional effects %v", vnEffs(read[at:]))
	}
	return ""
}
func vnEffs(e []vnEff) (o []string) {
	for i, x := range e {
		if i == 6 {
			return append(o, "...")
		}
		s := x.s
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		o = append(o, s)
	}
	return
}

// ---------------------------------------------------------------- panel to system

var vnSupport = []string{"ASCII", "Binary", "JSONFeedback", "JSONonInbound", "JSONonOutbound", "System", "RawADCValues", "BurninProfile", "EnvHealth", "Registers", "Calibration", "Processors", "NetworkSettings"}

func vnSupportOf(s *rwp.RawPanelSupport) []bool {
	return []bool{s.ASCII, s.Binary, s.ASCII_JSONfeedback, s.ASCII_Inbound, s.ASCII_Outbound, s.System, s.RawADCValues, s.BurninProfile, s.EnvHealth, s.Registers, s.Calibration, s.Processors, s.NetworkSettings}
}

var vnPanelTypes = []string{"", "BPI", "Physical", "Emulation", "Touch", "Composite"}

// key=text payloads
var vnOutText = map[string]string{"_model": "model", "_serial": "serial", "_version": "version", "_platform": "platform", "_name": "name",
	"_panelTopology_svgbase": "svg", "_panelTopology_HWC": "topology", "_burninProfile": "burnin", "_calibrationProfile": "calibration",
	"_defaultCalibrationProfile": "default calibration", "ErrorMsg": "error", "Msg": "message"}
var vnOutNum = map[string]string{"_sleepTimer": "sleep timer", "_serverModeMaxClients": "max clients", "_heartBeatTimer": "heartbeat", "DimmedGain": "dimmed gain",
	"_bootsCount": "boots", "_totalUptimeMin": "total uptime", "_sessionUptimeMin": "session uptime", "_screenSaverOnMin": "screensaver on"}
var vnStatNames = []string{"CPUUsage", "CPUTemp", "ExtTemp", "CPUVoltage", "CPUFreqCurrent", "CPUFreqMin", "CPUFreqMax", "MemTotal", "MemFree", "MemAvailable", "MemBuffers", "MemCached",
	"UnderVoltageNow", "UnderVoltage", "FreqCapNow", "FreqCap", "ThrottledNow", "Throttled", "SoftTempLimitNow", "SoftTempLimit"}

// system statistics: temperatures in tenths, voltage in hundredths
type vnStat struct {
	f [4]float64 // unused, CPUTemp, ExtTemp, CPUVoltage
	n [20]int64
}

func (s vnStat) String() string {
	o := "sysstat"
	for i, k := range vnStatNames {
		switch {
		case i == 1 || i == 2:
			o += fmt.Sprintf(" %s=%.1f", k, s.f[i]+0)
		case i == 3:
			o += fmt.Sprintf(" %s=%.2f", k, s.f[i]+0)
		default:
			o += fmt.Sprintf(" %s=%d", k, s.n[i])
		}
	}
	return strings.ReplaceAll(o, "-0.0 ", "0.0 ")
}
func vnBit(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
func vnStatOf(s *rwp.SystemStat) (v vnStat) {
	v.f = [4]float64{0, float64(s.CPUTemp), float64(s.ExtTemp), float64(s.CPUVoltage)}
	v.n = [20]int64{int64(s.CPUUsage), 0, 0, 0, int64(s.CPUFreqCurrent), int64(s.CPUFreqMin), int64(s.CPUFreqMax), int64(s.MemTotal), int64(s.MemFree), int64(s.MemAvailable), int64(s.MemBuffers), int64(s.MemCached),
		vnBit(s.UnderVoltageNow), vnBit(s.UnderVoltage), vnBit(s.FreqCapNow), vnBit(s.FreqCap), vnBit(s.ThrottledNow), vnBit(s.Throttled), vnBit(s.SoftTempLimitNow), vnBit(s.SoftTempLimit)}
	return v
}

func vnSplitList(a string) (o []string) {
	for _, x := range strings.Split(a, ";") {
		if x = strings.TrimSpace(x); x != "" {
			o = append(o, x)
		}
	}
	return
}

// vnOutLine: effects of one panel-to-system line
func vnOutLine(line string) (out []string, known bool) {
	switch line {
	case "":
		return nil, true
	case "ping", "ack", "nack":
		return []string{"flow " + line}, true
	case "BSY":
		return []string{"flow busy"}, true
	case "RDY":
		return []string{"flow ready"}, true
	case "list":
		return []string{"flow hello"}, true
	}
	if strings.HasPrefix(line, "HWC#") {
		e := strings.IndexByte(line, '=')
		if e < 0 {
			return nil, false
		}
		id, edge := line[4:e], "0"
		if d := strings.IndexByte(id, '.'); d >= 0 {
			id, edge = id[:d], id[d+1:]
		}
		if !vnDigits(id) || !vnDigits(edge) {
			return nil, false
		}
		n := uint32(vnNum(id))
		k, a, has := strings.Cut(line[e+1:], ":")
		switch k {
		case "Down", "Up", "Press":
			if has {
				return nil, false
			}
			down := fmt.Sprintf("#%d down edge=%d", n, vnNum(edge))
			up := fmt.Sprintf("#%d up edge=%d", n, vnNum(edge))
			return map[string][]string{"Down": {down}, "Up": {up}, "Press": {down, up}}[k], true
		case "Enc", "Abs", "Speed", "Raw":
			if _, err := strconv.ParseInt(a, 10, 64); err != nil {
				return nil, false
			}
			return []string{fmt.Sprintf("#%d %s %d", n, k, vnNum(a))}, true
		}
		return nil, false
	}
	if e, ok := vnRegLine(line); ok {
		return []string{e}, true
	}
	k, a, ok := strings.Cut(line, "=")
	if !ok {
		return nil, false
	}
	if k == "map" {
		p := strings.Split(a, ":")
		if len(p) == 2 && vnDigits(p[0]) && vnDigits(p[1]) {
			return []string{fmt.Sprintf("map %d:%d", uint32(vnNum(p[0])), uint32(vnNum(p[1])))}, true
		}
		return nil, false
	}
	if t, ok := vnOutText[k]; ok {
		if a == "" && (t == "svg" || t == "topology") {
			return nil, true
		}
		return []string{t + " " + strconv.Quote(a)}, true
	}
	if t, ok := vnOutNum[k]; ok {
		if uint32(vnNum(a)) == 0 && (k == "_serverModeMaxClients" || k[1] == 'b' || k[1] == 't' || k[1:4] == "ses" || k[1:4] == "scr") {
			return nil, true // zero is the default of these fields
		}
		return []string{fmt.Sprintf("%s %d", t, uint32(vnNum(a)))}, true
	}
	switch k {
	case "_bluePillReady":
		if vnNum(a) != 0 {
			return []string{"blue pill ready"}, true
		}
		return nil, true
	case "_isSleeping":
		return []string{fmt.Sprintf("sleeping %v", vnNum(a) != 0)}, true
	case "_panelType":
		for i, t := range vnPanelTypes {
			if i > 0 && t == a {
				return []string{"panel type " + t}, true
			}
		}
		return nil, false
	case "_support":
		set := map[string]bool{}
		for _, p := range strings.Split(a, ",") {
			set[p] = true
		}
		for _, s := range vnSupport {
			if set[s] {
				out = append(out, "supports "+s)
			}
		}
		return out, true
	case "_serverModeLockToIP":
		return []string{fmt.Sprintf("locked to %q", vnSplitList(a))}, true
	case "_connections":
		return []string{fmt.Sprintf("connections %q", vnSplitList(a))}, true
	case "EnvironmentalHealth":
		if a == "Normal" || a == "Safemode" || a == "Blocked" {
			return []string{"health " + a}, true
		}
		return nil, false
	case "_networkConfig":
		n := &rwp.NetworkConfig{}
		if json.Unmarshal([]byte(a), n) != nil {
			return nil, false
		}
		return []string{"network " + vnNet(n)}, true
	case "SysStat":
		var v vnStat
		p := strings.Split(a, ":")
		for i := 0; i+1 < len(p); i += 2 {
			for j, k := range vnStatNames {
				if p[i] != k {
					continue
				}
				if j >= 1 && j <= 3 {
					f, _ := strconv.ParseFloat(p[i+1], 32)
					v.f[j] = f
				} else {
					v.n[j] = vnNum(p[i+1])
				}
			}
		}
		return []string{v.String()}, true
	}
	return nil, false
}

// effects of a panel-to-system message, in the order of the encoder's sections
func vnOutMsg(m *rwp.OutboundMessage) (out []string) {
	if m == nil {
		return []string{"nil message"}
	}
	add := func(on bool, f string, a ...interface{}) {
		if on {
			out = append(out, fmt.Sprintf(f, a...))
		}
	}
	switch m.FlowMessage {
	case rwp.OutboundMessage_PING:
		add(true, "flow ping")
	case rwp.OutboundMessage_ACK:
		add(true, "flow ack")
	case rwp.OutboundMessage_NACK:
		add(true, "flow nack")
	case rwp.OutboundMessage_BSY:
		add(true, "flow busy")
	case rwp.OutboundMessage_RDY:
		add(true, "flow ready")
	case rwp.OutboundMessage_HELLO:
		add(true, "flow hello")
	}
	if p := m.PanelInfo; p != nil {
		add(p.Model != "", "model %q", p.Model)
		add(p.Serial != "", "serial %q", p.Serial)
		add(p.SoftwareVersion != "", "version %q", p.SoftwareVersion)
		add(p.Name != "", "name %q", p.Name)
		add(p.Platform != "", "platform %q", p.Platform)
		add(p.BluePillReady, "blue pill ready")
		add(p.MaxClients > 0, "max clients %d", p.MaxClients)
		add(len(p.LockedToIPs) > 0, "locked to %q", p.LockedToIPs)
		add(p.PanelType > 0 && p.PanelType <= 5, "panel type %s", vnPanelTypes[int(p.PanelType)%6])
		if s := p.RawPanelSupport; s != nil {
			for i, b := range vnSupportOf(s) {
				add(b, "supports %s", vnSupport[i])
			}
		}
	}
	if t := m.PanelTopology; t != nil {
		add(t.Svgbase != "", "svg %q", t.Svgbase)
		add(t.Json != "", "topology %q", t.Json)
	}
	add(m.BurninProfile != nil, "burnin %q", m.BurninProfile.GetJson())
	if m.NetworkConfig != nil {
		add(true, "network %s", vnNet(m.NetworkConfig))
	}
	add(m.CalibrationProfile != nil, "calibration %q", m.CalibrationProfile.GetJson())
	add(m.DefaultCalibrationProfile != nil, "default calibration %q", m.DefaultCalibrationProfile.GetJson())
	add(m.SleepTimeout != nil, "sleep timer %d", m.SleepTimeout.GetValue())
	add(m.SleepState != nil, "sleeping %v", m.SleepState.GetIsSleeping())
	add(m.HeartBeatTimer != nil, "heartbeat %d", m.HeartBeatTimer.GetValue())
	add(m.DimmedGain != nil, "dimmed gain %d", m.DimmedGain.GetValue())
	add(m.Connections != nil, "connections %q", m.Connections.GetConnection())
	if r := m.RunTimeStats; r != nil {
		add(r.BootsCount > 0, "boots %d", r.BootsCount)
		add(r.TotalUptime > 0, "total uptime %d", r.TotalUptime)
		add(r.SessionUptime > 0, "session uptime %d", r.SessionUptime)
		add(r.ScreenSaveOnTime > 0, "screensaver on %d", r.ScreenSaveOnTime)
	}
	add(m.ErrorMessage != nil, "error %q", m.ErrorMessage.GetMessage())
	add(m.Message != nil, "message %q", m.Message.GetMessage())
	var ids []int
	for id := range m.HWCavailability {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		add(true, "map %d:%d", id, m.HWCavailability[uint32(id)])
	}
	if e := m.EnvironmentalHealth; e != nil && e.RunMode >= 0 && e.RunMode <= 2 {
		add(true, "health %s", []string{"Normal", "Safemode", "Blocked"}[e.RunMode])
	}
	if m.SysStat != nil {
		add(true, "%s", vnStatOf(m.SysStat))
	}
	for _, e := range m.Events {
		if e == nil {
			continue
		}
		if b := e.Binary; b != nil {
			add(b.Pressed, "#%d down edge=%d", e.HWCID, b.Edge)
			add(!b.Pressed, "#%d up edge=%d", e.HWCID, b.Edge)
		}
		add(e.Pulsed != nil, "#%d Enc %d", e.HWCID, e.Pulsed.GetValue())
		add(e.Absolute != nil, "#%d Abs %d", e.HWCID, e.Absolute.GetValue())
		add(e.Speed != nil, "#%d Speed %d", e.HWCID, e.Speed.GetValue())
		add(e.RawAnalog != nil, "#%d Raw %d", e.HWCID, e.RawAnalog.GetValue())
	}
	for _, r := range m.Registers {
		if r != nil && r.Reg >= 0 && r.Reg <= 3 {
			add(true, "%s", vnRegEff(int(r.Reg), r.Id, int64(r.Value)))
		}
	}
	return out
}

// vnSameOut: per message; identity, profile and statistics in any order, events and registers in order
func vnSameOut(read []string, msgs [][]string) string {
	at := 0
	isEv := func(s string) bool { return s[0] == '#' || strings.HasPrefix(s, "register ") }
	for mi, m := range msgs {
		if at+len(m) > len(read) {
			return fmt.Sprintf("message %d carries %q, but only %q is left of what was read", mi, vnCut(m), vnCut(read[at:]))
		}
		got := append([]string{}, read[at:at+len(m)]...)
		want := append([]string{}, m...)
		at += len(m)
		var ge, we []string
		for _, s := range got {
			if isEv(s) {
				ge = append(ge, s)
			}
		}
		for _, s := range want {
			if isEv(s) {
				we = append(we, s)
			}
		}
		// order between events of one component, and of registers of one kind
		if a, b := strings.Join(ge, ";"), strings.Join(we, ";"); a != b {
			return fmt.Sprintf("message %d carries the events and registers %q, but the lines read as %q", mi, vnCut(we), vnCut(ge))
		}
		sort.Strings(got)
		sort.Strings(want)
		for i := range want {
			if got[i] != want[i] {
				return fmt.Sprintf("message %d carries %.400q, but the lines read as %.400q", mi, want[i], got[i])
			}
		}
	}
	if at < len(read) {
		return fmt.Sprintf("the lines report additionally %q", vnCut(read[at:]))
	}
	return ""
}
func vnCut(a []string) []string {
	if len(a) > 8 {
		a = a[:8]
	}
	var o []string
	for _, s := range a {
		if len(s) > 300 {
			s = s[:300]
		}
		o = append(o, s)
	}
	return o
}


