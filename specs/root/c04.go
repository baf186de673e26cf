package rawpanellib

import (
	"encoding/json"
	"regexp"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C04: what the lines of a panel denote, one production of the grammar per contract

func vDecOut(line string) []*rwp.OutboundMessage {
	return RawPanelASCIIstringsToOutboundMessages([]string{line})
}

func vOneOut(m *rwp.OutboundMessage) []*rwp.OutboundMessage { return []*rwp.OutboundMessage{m} }

func vEv(es ...*rwp.HWCEvent) []*rwp.OutboundMessage {
	return vOneOut(&rwp.OutboundMessage{Events: es})
}

// event lines: HWC#<id>[.<edge>]=<kind>[:<value>]
//
//govc:unit C04
func vc_DecEvent(id uint32, edge uint32, val int) {
	vAssume(!DebugRWPhelpers)
	vAssume(edge <= 0x7fffffff && val >= -2147483648 && val <= 2147483647)
	hw := "HWC#" + vN(int(id))
	down := func(p bool, e uint32) *rwp.HWCEvent {
		return &rwp.HWCEvent{HWCID: id, Binary: &rwp.BinaryEvent{Pressed: p, Edge: rwp.BinaryEvent_EdgeID(e)}}
	}
	for _, w := range []struct {
		suffix string
		e      uint32
	}{{"", 0}, {"." + vN(int(edge)), edge}} {
		vAssert("Down", vDeepEq(vDecOut(hw+w.suffix+"=Down"), vEv(down(true, w.e))))
		vAssert("Up", vDeepEq(vDecOut(hw+w.suffix+"=Up"), vEv(down(false, w.e))))
		vAssert("Press is a press followed by a release", vDeepEq(vDecOut(hw+w.suffix+"=Press"), vEv(down(true, w.e), down(false, w.e))))
	}
	vAssert("Enc", vDeepEq(vDecOut(hw+"=Enc:"+vN(val)), vEv(&rwp.HWCEvent{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: int32(val)}})))
	vAssert("Speed", vDeepEq(vDecOut(hw+"=Speed:"+vN(val)), vEv(&rwp.HWCEvent{HWCID: id, Speed: &rwp.SpeedEvent{Value: int32(val)}})))
	vAssert("Abs", vDeepEq(vDecOut(hw+"=Abs:"+vN(int(edge))), vEv(&rwp.HWCEvent{HWCID: id, Absolute: &rwp.AbsoluteEvent{Value: edge}})))
	vAssert("Raw", vDeepEq(vDecOut(hw+"=Raw:"+vN(int(edge))), vEv(&rwp.HWCEvent{HWCID: id, RawAnalog: &rwp.RawAnalogEvent{Value: edge}})))
	vReach("returns")
}

// any lines at all: no panic, no nil message, and the decoder keeps nothing from one line to the next
//
//govc:unit C04 C06
func vc_DecOutAny(lines []string) {
	vAssume(!DebugRWPhelpers)
	got := RawPanelASCIIstringsToOutboundMessages(lines)
	vReach("returns")
	for _, m := range got {
		vAssert("no nil message", m != nil)
	}
}

//govc:unit C04
func vc_DecOutLocal(lines []string) {
	vAssume(!DebugRWPhelpers)
	got := RawPanelASCIIstringsToOutboundMessages(lines)
	var want []*rwp.OutboundMessage
	for _, l := range lines {
		want = append(want, vDecOut(l)...)
	}
	vAssert("every line is decoded by itself", vDeepEq(got, want))
}

// flow words and the blank line
//
//govc:unit C04
func vc_DecOutFlow() {
	vAssume(!DebugRWPhelpers)
	for _, f := range []struct {
		line string
		flow rwp.OutboundMessage_FlowMsg
	}{{"ping", rwp.OutboundMessage_PING}, {"ack", rwp.OutboundMessage_ACK}, {"nack", rwp.OutboundMessage_NACK},
		{"BSY", rwp.OutboundMessage_BSY}, {"RDY", rwp.OutboundMessage_RDY}, {"list", rwp.OutboundMessage_HELLO}} {
		vAssert(f.line, vDeepEq(vDecOut(f.line), vOneOut(&rwp.OutboundMessage{FlowMessage: f.flow})))
	}
	vAssert("a blank line", len(vDecOut("")) == 0)
	vReach("returns")
}

// map=<original>:<component>
//
//govc:unit C04
func vc_DecMap(a, b uint32) {
	vAssume(!DebugRWPhelpers)
	vAssert("map", vDeepEq(vDecOut("map="+vN(int(a))+":"+vN(int(b))), vOneOut(&rwp.OutboundMessage{HWCavailability: map[uint32]uint32{a: b}})))
	vReach("returns")
}

// lines with a text
//
//govc:unit C04
//govc:class s noLF+
func vc_DecOutText(s string) {
	vAssume(!DebugRWPhelpers)
	type M = rwp.OutboundMessage
	info := func(p *rwp.PanelInfo) *M { return &M{PanelInfo: p} }
	is := func(key string, m *M) { vAssert(key, vDeepEq(vDecOut(key+"="+s), vOneOut(m))) }
	is("_model", info(&rwp.PanelInfo{Model: s}))
	is("_serial", info(&rwp.PanelInfo{Serial: s}))
	is("_version", info(&rwp.PanelInfo{SoftwareVersion: s}))
	is("_platform", info(&rwp.PanelInfo{Platform: s}))
	is("_name", info(&rwp.PanelInfo{Name: s}))
	is("_panelTopology_svgbase", &M{PanelTopology: &rwp.PanelTopology{Svgbase: s}})
	is("_panelTopology_HWC", &M{PanelTopology: &rwp.PanelTopology{Json: s}})
	is("_burninProfile", &M{BurninProfile: &rwp.BurninProfile{Json: s}})
	is("_calibrationProfile", &M{CalibrationProfile: &rwp.CalibrationProfile{Json: s}})
	is("_defaultCalibrationProfile", &M{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: s}})
	is("ErrorMsg", &M{ErrorMessage: &rwp.Message{Message: s}})
	is("Msg", &M{Message: &rwp.Message{Message: s}})
	vReach("returns")
}

// lines with a number
//
//govc:unit C04
func vc_DecOutNum(n uint32) {
	vAssume(!DebugRWPhelpers)
	type M = rwp.OutboundMessage
	is := func(key string, m *M) { vAssert(key, vDeepEq(vDecOut(key+"="+vN(int(n))), vOneOut(m))) }
	is("_bluePillReady", &M{PanelInfo: &rwp.PanelInfo{BluePillReady: n != 0}})
	is("_serverModeMaxClients", &M{PanelInfo: &rwp.PanelInfo{MaxClients: n}})
	is("_isSleeping", &M{SleepState: &rwp.SleepState{IsSleeping: n != 0}})
	is("_sleepTimer", &M{SleepTimeout: &rwp.SleepTimeout{Value: n}})
	is("_heartBeatTimer", &M{HeartBeatTimer: &rwp.HeartBeatTimer{Value: n}})
	is("DimmedGain", &M{DimmedGain: &rwp.DimmedGain{Value: n}})
	is("_bootsCount", &M{RunTimeStats: &rwp.RunTimeStats{BootsCount: n}})
	is("_totalUptimeMin", &M{RunTimeStats: &rwp.RunTimeStats{TotalUptime: n}})
	is("_sessionUptimeMin", &M{RunTimeStats: &rwp.RunTimeStats{SessionUptime: n}})
	is("_screenSaverOnMin", &M{RunTimeStats: &rwp.RunTimeStats{ScreenSaveOnTime: n}})
	vReach("returns")
}

// lines with one of several words; another word reports nothing
//
//govc:unit C04
//govc:class other noLF+
func vc_DecOutWord(other string) {
	vAssume(!DebugRWPhelpers)
	type M = rwp.OutboundMessage
	for _, t := range []struct {
		w string
		t rwp.PanelInfo_PanelTypeE
	}{{"BPI", rwp.PanelInfo_BLUEPILLINSIDE}, {"Physical", rwp.PanelInfo_PHYSICAL}, {"Emulation", rwp.PanelInfo_EMULATION},
		{"Touch", rwp.PanelInfo_TOUCH}, {"Composite", rwp.PanelInfo_COMPOSITE}} {
		vAssert("_panelType="+t.w, vDeepEq(vDecOut("_panelType="+t.w), vOneOut(&M{PanelInfo: &rwp.PanelInfo{PanelType: t.t}})))
		vAssume(other != t.w)
	}
	for _, t := range []struct {
		w string
		t rwp.Environment_RunModeE
	}{{"Normal", rwp.Environment_NORMAL}, {"Safemode", rwp.Environment_SAFEMODE}, {"Blocked", rwp.Environment_BLOCKED}} {
		vAssert("EnvironmentalHealth="+t.w, vDeepEq(vDecOut("EnvironmentalHealth="+t.w), vOneOut(&M{EnvironmentalHealth: &rwp.Environment{RunMode: t.t}})))
		vAssume(other != t.w)
	}
	vAssert("an unknown panel type reports nothing", vNoReport(vDecOut("_panelType="+other)))
	vAssert("an unknown run mode reports nothing", vNoReport(vDecOut("EnvironmentalHealth="+other)))
	vReach("returns")
}

// vNoReport: nothing but empty messages
func vNoReport(ms []*rwp.OutboundMessage) bool {
	return len(ms) == 0 || vDeepEq(ms, vOneOut(&rwp.OutboundMessage{}))
}

// lists separated by semicolons
//
//govc:unit C04
//govc:class s noLF+
func vc_DecOutList(s string) {
	vAssume(!DebugRWPhelpers)
	var l []string
	for _, p := range strings.Split(s, ";") {
		if p = strings.TrimSpace(p); p != "" {
			l = append(l, p)
		}
	}
	vAssert("_serverModeLockToIP", vDeepEq(vDecOut("_serverModeLockToIP="+s), vOneOut(&rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{LockedToIPs: l}})))
	vAssert("_connections", vDeepEq(vDecOut("_connections="+s), vOneOut(&rwp.OutboundMessage{Connections: &rwp.Connections{Connection: l}})))
	vReach("returns")
}

// registers
//
//govc:unit C04
//govc:class id regid
func vc_DecOutReg(id string, num, v uint32) {
	vAssume(!DebugRWPhelpers)
	reg := func(k rwp.Register_RegisterE, id string, v uint32) []*rwp.OutboundMessage {
		return vOneOut(&rwp.OutboundMessage{Registers: []*rwp.Register{{Reg: k, Id: id, Value: v}}})
	}
	val := "=" + vN(int(v))
	vAssert("Mem", vDeepEq(vDecOut("Mem"+id+val), reg(rwp.Register_MEM, id, v)))
	vAssert("Shift", vDeepEq(vDecOut("Shift"+id+val), reg(rwp.Register_SHIFT, id, v)))
	vAssert("State", vDeepEq(vDecOut("State"+id+val), reg(rwp.Register_STATE, id, v)))
	one := uint32(0)
	if v > 0 {
		one = 1
	}
	vAssert("Flag#", vDeepEq(vDecOut("Flag#"+vN(int(num))+val), reg(rwp.Register_FLAG, vN(int(num)), one)))
	vReach("returns")
}

// the network configuration
//
//govc:unit C04
//govc:class s noLF+
func vc_DecOutNet(s string) {
	vAssume(!DebugRWPhelpers)
	n := &rwp.NetworkConfig{}
	err := json.Unmarshal([]byte(s), n)
	vAssume(err == nil)
	vAssert("_networkConfig", vDeepEq(vDecOut("_networkConfig="+s), vOneOut(&rwp.OutboundMessage{NetworkConfig: n})))
	vReach("returns")
}

// capabilities, in any order
//
//govc:unit C04
//govc:class s noLF+
func vc_DecOutSupport(s string) {
	vAssume(!DebugRWPhelpers)
	w := &rwp.RawPanelSupport{}
	for _, p := range strings.Split(s, ",") {
		if p == "ASCII" {
			w.ASCII = true
		}
		if p == "Binary" {
			w.Binary = true
		}
		if p == "JSONFeedback" {
			w.ASCII_JSONfeedback = true
		}
		if p == "JSONonInbound" {
			w.ASCII_Inbound = true
		}
		if p == "JSONonOutbound" {
			w.ASCII_Outbound = true
		}
		if p == "System" {
			w.System = true
		}
		if p == "RawADCValues" {
			w.RawADCValues = true
		}
		if p == "BurninProfile" {
			w.BurninProfile = true
		}
		if p == "EnvHealth" {
			w.EnvHealth = true
		}
		if p == "Registers" {
			w.Registers = true
		}
		if p == "Calibration" {
			w.Calibration = true
		}
		if p == "Processors" {
			w.Processors = true
		}
		if p == "NetworkSettings" {
			w.NetworkSettings = true
		}
	}
	vAssert("_support", vDeepEq(vDecOut("_support="+s), vOneOut(&rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{RawPanelSupport: w}})))
	vReach("returns")
}

// system statistics: one name:value pair, read independently of the converter
func vStatSet(w *rwp.SystemStat, k int, v string) {
	n, _ := strconv.Atoi(v)
	f, _ := strconv.ParseFloat(v, 32)
	switch k {
	case 0:
		w.CPUUsage = uint32(n)
	case 1:
		w.CPUTemp = float32(f)
	case 2:
		w.ExtTemp = float32(f)
	case 3:
		w.CPUVoltage = float32(f)
	case 4:
		w.CPUFreqCurrent = int32(n)
	case 5:
		w.CPUFreqMin = int32(n)
	case 6:
		w.CPUFreqMax = int32(n)
	case 7:
		w.MemTotal = int32(n)
	case 8:
		w.MemFree = int32(n)
	case 9:
		w.MemAvailable = int32(n)
	case 10:
		w.MemBuffers = int32(n)
	case 11:
		w.MemCached = int32(n)
	case 12:
		w.UnderVoltageNow = n == 1
	case 13:
		w.UnderVoltage = n == 1
	case 14:
		w.FreqCapNow = n == 1
	case 15:
		w.FreqCap = n == 1
	case 16:
		w.ThrottledNow = n == 1
	case 17:
		w.Throttled = n == 1
	case 18:
		w.SoftTempLimitNow = n == 1
	case 19:
		w.SoftTempLimit = n == 1
	}
}

var vStatName = [...]string{"CPUUsage", "CPUTemp", "ExtTemp", "CPUVoltage", "CPUFreqCurrent", "CPUFreqMin", "CPUFreqMax", "MemTotal", "MemFree", "MemAvailable", "MemBuffers", "MemCached", "UnderVoltageNow", "UnderVoltage", "FreqCapNow", "FreqCap", "ThrottledNow", "Throttled", "SoftTempLimitNow", "SoftTempLimit"}

// SysStat with up to three fields of any name, in any order, also repeated
//
//govc:unit C04
//govc:enum n=1..3
//govc:class v0 stat+
//govc:class v1 stat+
//govc:class v2 stat+
func vc_DecOutStat(n int, v0, v1, v2 string, k0, k1, k2 int) {
	vAssume(!DebugRWPhelpers)
	vals, keys := []string{v0, v1, v2}, []int{k0, k1, k2}
	line := "SysStat="
	w := &rwp.SystemStat{}
	for i := 0; i < n; i++ {
		vAssume(keys[i] >= 0 && keys[i] < len(vStatName))
		if i > 0 {
			line += ":"
		}
		line += vStatName[keys[i]] + ":" + vals[i]
		vStatSet(w, keys[i], vals[i])
	}
	vAssert("SysStat", vDeepEq(vDecOut(line), vOneOut(&rwp.OutboundMessage{SysStat: w})))
	vReach("returns")
}

// the keywords of the grammar
var vOutKeyword = regexp.MustCompile(`(?s)^(map|_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=.*$`)
var vOutEvent = regexp.MustCompile(`(?s)^HWC#[0-9]+(|\.[0-9]+)=(Down|Up|Press|Enc|Abs|Speed|Raw)(|:.*)$`)
var vOutReg = regexp.MustCompile(`(?s)^(Flag#|Mem|Shift|State)[A-Z0-9]*=.*$`)

// any line with a keyword that is not part of the grammar
//
//govc:unit C04
func vc_DecOutUnknown(s string) {
	vAssume(!DebugRWPhelpers)
	vAssume(s != "ping" && s != "ack" && s != "nack" && s != "BSY" && s != "RDY" && s != "list")
	vAssume(!vOutKeyword.MatchString(s) && !vOutEvent.MatchString(s) && !vOutReg.MatchString(s))
	vAssert("no event and no report", vNoReport(vDecOut(s)))
	vReach("returns")
}
