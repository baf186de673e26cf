package rawpanellib

import (
	"fmt"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C03: the ASCII lines of a panel-to-system message, written down from the protocol grammar

func vSpecOutFlow(m *rwp.OutboundMessage) []string {
	switch m.FlowMessage {
	case rwp.OutboundMessage_PING:
		return []string{"ping"}
	case rwp.OutboundMessage_ACK:
		return []string{"ack"}
	case rwp.OutboundMessage_NACK:
		return []string{"nack"}
	case rwp.OutboundMessage_BSY:
		return []string{"BSY"}
	case rwp.OutboundMessage_RDY:
		return []string{"RDY"}
	case rwp.OutboundMessage_HELLO:
		return []string{"list"}
	}
	return nil
}

func vSpecInfo(p *rwp.PanelInfo) []string {
	var l []string
	text := func(k, s string) {
		if s != "" {
			l = append(l, k+"="+s)
		}
	}
	text("_model", p.Model)
	text("_serial", p.Serial)
	text("_version", p.SoftwareVersion)
	text("_name", p.Name)
	text("_platform", p.Platform)
	if p.BluePillReady {
		l = append(l, "_bluePillReady=1")
	}
	if p.MaxClients > 0 {
		l = append(l, "_serverModeMaxClients="+vN(int(p.MaxClients)))
	}
	if len(p.LockedToIPs) > 0 {
		l = append(l, "_serverModeLockToIP="+strings.Join(p.LockedToIPs, ";"))
	}
	word := func(t rwp.PanelInfo_PanelTypeE, w string) {
		if p.PanelType == t {
			l = append(l, "_panelType="+w)
		}
	}
	word(rwp.PanelInfo_BLUEPILLINSIDE, "BPI")
	word(rwp.PanelInfo_PHYSICAL, "Physical")
	word(rwp.PanelInfo_EMULATION, "Emulation")
	word(rwp.PanelInfo_TOUCH, "Touch")
	word(rwp.PanelInfo_COMPOSITE, "Composite")
	if s := p.RawPanelSupport; s != nil {
		var c []string
		has := func(b bool, w string) {
			if b {
				c = append(c, w)
			}
		}
		has(s.ASCII, "ASCII")
		has(s.Binary, "Binary")
		has(s.ASCII_JSONfeedback, "JSONFeedback")
		has(s.ASCII_Inbound, "JSONonInbound")
		has(s.ASCII_Outbound, "JSONonOutbound")
		has(s.System, "System")
		has(s.RawADCValues, "RawADCValues")
		has(s.BurninProfile, "BurninProfile")
		has(s.EnvHealth, "EnvHealth")
		has(s.Registers, "Registers")
		has(s.Calibration, "Calibration")
		has(s.Processors, "Processors")
		has(s.NetworkSettings, "NetworkSettings")
		l = append(l, "_support="+strings.Join(c, ","))
	}
	return l
}

func vSpecStat(s *rwp.SystemStat) string {
	return "SysStat=CPUUsage:" + vN(int(s.CPUUsage)) +
		":CPUTemp:" + fmt.Sprintf("%.1f", s.CPUTemp) +
		":ExtTemp:" + fmt.Sprintf("%.1f", s.ExtTemp) +
		":CPUVoltage:" + fmt.Sprintf("%.2f", s.CPUVoltage) +
		":CPUFreqCurrent:" + vN(int(s.CPUFreqCurrent)) +
		":CPUFreqMin:" + vN(int(s.CPUFreqMin)) +
		":CPUFreqMax:" + vN(int(s.CPUFreqMax)) +
		":MemTotal:" + vN(int(s.MemTotal)) +
		":MemFree:" + vN(int(s.MemFree)) +
		":MemAvailable:" + vN(int(s.MemAvailable)) +
		":MemBuffers:" + vN(int(s.MemBuffers)) +
		":MemCached:" + vN(int(s.MemCached)) +
		":UnderVoltageNow:" + vBit(s.UnderVoltageNow) +
		":UnderVoltage:" + vBit(s.UnderVoltage) +
		":FreqCapNow:" + vBit(s.FreqCapNow) +
		":FreqCap:" + vBit(s.FreqCap) +
		":ThrottledNow:" + vBit(s.ThrottledNow) +
		":Throttled:" + vBit(s.Throttled) +
		":SoftTempLimitNow:" + vBit(s.SoftTempLimitNow) +
		":SoftTempLimit:" + vBit(s.SoftTempLimit) + ":"
}

func vSpecEvent(e *rwp.HWCEvent) []string {
	var l []string
	id := "HWC#" + vN(int(e.HWCID))
	if b := e.Binary; b != nil {
		edge := ""
		if b.Edge > 0 {
			edge = "." + vN(int(b.Edge))
		}
		if b.Pressed {
			l = append(l, id+edge+"=Down")
		} else {
			l = append(l, id+edge+"=Up")
		}
	}
	if v := e.Pulsed; v != nil {
		l = append(l, id+"=Enc:"+vN(int(v.Value)))
	}
	if v := e.Absolute; v != nil {
		l = append(l, id+"=Abs:"+vN(int(v.Value)))
	}
	if v := e.Speed; v != nil {
		l = append(l, id+"=Speed:"+vN(int(v.Value)))
	}
	if v := e.RawAnalog; v != nil {
		l = append(l, id+"=Raw:"+vN(int(v.Value)))
	}
	return l
}

func vSpecReports(m *rwp.OutboundMessage) []string {
	var l []string
	num := func(k string, n int) { l = append(l, k+"="+vN(n)) }
	text := func(k, s string) { l = append(l, k+"="+s) }
	if t := m.PanelTopology; t != nil {
		text("_panelTopology_svgbase", stripLineBreaksSvg(t.Svgbase))
		text("_panelTopology_HWC", stripLineBreaks(t.Json))
	}
	if p := m.BurninProfile; p != nil {
		text("_burninProfile", stripLineBreaks(p.Json))
	}
	if p := m.NetworkConfig; p != nil {
		text("_networkConfig", networkStringFromConfig(p))
	}
	if p := m.CalibrationProfile; p != nil {
		text("_calibrationProfile", stripLineBreaks(p.Json))
	}
	if p := m.DefaultCalibrationProfile; p != nil {
		text("_defaultCalibrationProfile", stripLineBreaks(p.Json))
	}
	if s := m.SleepTimeout; s != nil {
		num("_sleepTimer", int(s.Value))
	}
	if s := m.SleepState; s != nil {
		text("_isSleeping", vBit(s.IsSleeping))
	}
	if s := m.HeartBeatTimer; s != nil {
		num("_heartBeatTimer", int(s.Value))
	}
	if s := m.DimmedGain; s != nil {
		num("DimmedGain", int(s.Value))
	}
	if c := m.Connections; c != nil {
		text("_connections", strings.Join(c.Connection, ";"))
	}
	if r := m.RunTimeStats; r != nil {
		pos := func(k string, n uint32) {
			if n > 0 {
				num(k, int(n))
			}
		}
		pos("_bootsCount", r.BootsCount)
		pos("_totalUptimeMin", r.TotalUptime)
		pos("_sessionUptimeMin", r.SessionUptime)
		pos("_screenSaverOnMin", r.ScreenSaveOnTime)
	}
	if e := m.ErrorMessage; e != nil {
		text("ErrorMsg", stripLineBreaks(e.Message))
	}
	if e := m.Message; e != nil {
		text("Msg", stripLineBreaks(e.Message))
	}
	for hwc, to := range m.HWCavailability {
		text("map", vN(int(hwc))+":"+vN(int(to)))
	}
	if e := m.EnvironmentalHealth; e != nil {
		if e.RunMode == rwp.Environment_NORMAL {
			text("EnvironmentalHealth", "Normal")
		}
		if e.RunMode == rwp.Environment_SAFEMODE {
			text("EnvironmentalHealth", "Safemode")
		}
		if e.RunMode == rwp.Environment_BLOCKED {
			text("EnvironmentalHealth", "Blocked")
		}
	}
	return l
}

func vSpecOut(msgs []*rwp.OutboundMessage) []string {
	var l []string
	for _, m := range msgs {
		l = append(l, vSpecOutFlow(m)...)
		if m.PanelInfo != nil {
			l = append(l, vSpecInfo(m.PanelInfo)...)
		}
		l = append(l, vSpecReports(m)...)
		if m.SysStat != nil {
			l = append(l, vSpecStat(m.SysStat))
		}
		for _, e := range m.Events {
			l = append(l, vSpecEvent(e)...)
		}
		for _, r := range m.Registers {
			l = append(l, vSpecRegister(r)...)
		}
	}
	return l
}

//govc:unit C03
//govc:nonnil msgs msgs[]*.Events msgs[]*.Registers
//govc:class msgs[]*.Registers[]*.Id regid
//govc:class msgs[]*.PanelInfo*.Model noLF
//govc:class msgs[]*.PanelInfo*.Serial noLF
//govc:class msgs[]*.PanelInfo*.SoftwareVersion noLF
//govc:class msgs[]*.PanelInfo*.Name noLF
//govc:class msgs[]*.PanelInfo*.Platform noLF
//govc:class msgs[]*.PanelInfo*.LockedToIPs[] noLF
//govc:class msgs[]*.Connections*.Connection[] noLF
func vc_EncodeOut(msgs []*rwp.OutboundMessage) {
	vAssume(!DebugRWPhelpers)
	got := OutboundMessagesToRawPanelASCIIstrings(msgs)
	vReach("returns")
	vAssert("the lines are the grammar's spelling of every message, in order", vSeqEq(got, vSpecOut(msgs)))
	vUnchanged("encoding does not change the messages")
}
