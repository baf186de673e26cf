package rawpanellib

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

// printable text that flattening leaves as it is
func vnFlatText(v *vnT) string { return strings.TrimSpace(vnTextStr(v, "\n\r\t\v\f\x00")) }
func vnListText(v *vnT) []string {
	var o []string
	for i := v.Pick(0, 1, 1, 2, 3); i > 0; i-- {
		s := v.PickS("10.0.0.1", "192.168.10.99:4321", "host name", "a,b", "fe80::1", strings.TrimSpace(vnTextStr(v, ";\n\r\t\v\f")))
		if s != "" {
			o = append(o, s)
		}
	}
	return o
}
func vnTenths(v *vnT, div float64) float32 {
	return float32(math.Round(float64(v.Pick(0, 1, -1, 455, v.Int(-2000, 2000), v.R.Intn(100000)))) / div)
}
func vnGenStat(v *vnT) *rwp.SystemStat {
	i := func() int32 { return int32(v.Pick(0, 1, int(vnI32(v)), v.R.Intn(1<<31))) }
	b := v.Bool
	return &rwp.SystemStat{CPUUsage: vnU32(v), CPUTemp: vnTenths(v, 10), ExtTemp: vnTenths(v, 10), CPUVoltage: vnTenths(v, 100), CPUFreqCurrent: i(), CPUFreqMin: i(), CPUFreqMax: i(),
		MemTotal: i(), MemFree: i(), MemAvailable: i(), MemBuffers: i(), MemCached: i(), UnderVoltageNow: b(), UnderVoltage: b(), FreqCapNow: b(), FreqCap: b(), ThrottledNow: b(), Throttled: b(), SoftTempLimitNow: b(), SoftTempLimit: b()}
}
func vnGenEvent(v *vnT) *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: vnU32(v)}
	n := v.R.Intn(5)
	for k := 0; k < 5; k++ {
		if k != n && v.R.Intn(12) != 0 {
			continue
		}
		switch k {
		case 0:
			e.Binary = &rwp.BinaryEvent{Pressed: v.Bool(), Edge: rwp.BinaryEvent_EdgeID(v.Pick(0, 1, 2, 4, 8, 16))}
		case 1:
			e.Pulsed = &rwp.PulsedEvent{Value: vnI32(v)}
		case 2:
			e.Absolute = &rwp.AbsoluteEvent{Value: vnU32(v)}
		case 3:
			e.Speed = &rwp.SpeedEvent{Value: vnI32(v)}
		case 4:
			e.RawAnalog = &rwp.RawAnalogEvent{Value: vnU32(v)}
		}
	}
	return e
}
func vnGenInfo(v *vnT) *rwp.PanelInfo {
	p := &rwp.PanelInfo{PanelType: rwp.PanelInfo_PanelTypeE(v.R.Intn(6)), BluePillReady: v.Bool()}
	s := func() string { return v.PickS("", "", "SK_RCPV2", vnTextStr(v, "\n")) }
	p.Model, p.Serial, p.SoftwareVersion, p.Name, p.Platform = s(), s(), s(), s(), s()
	if v.Bool() {
		p.MaxClients, p.LockedToIPs = vnU32(v), vnListText(v)
	}
	if v.Bool() {
		r := &rwp.RawPanelSupport{}
		for i := range vnSupport {
			*vnSupportField(r, i) = v.Bool()
		}
		p.RawPanelSupport = r
	}
	return p
}
func vnSupportField(s *rwp.RawPanelSupport, i int) *bool {
	return []*bool{&s.ASCII, &s.Binary, &s.ASCII_JSONfeedback, &s.ASCII_Inbound, &s.ASCII_Outbound, &s.System, &s.RawADCValues, &s.BurninProfile, &s.EnvHealth, &s.Registers, &s.Calibration, &s.Processors, &s.NetworkSettings}[i]
}
func vnGenOut1(v *vnT) *rwp.OutboundMessage {
	m := &rwp.OutboundMessage{}
	n := v.Pick(1, 1, 2, 4, 18)
	for ; n > 0; n-- {
		switch v.R.Intn(19) {
		case 0:
			m.FlowMessage = rwp.OutboundMessage_FlowMsg(v.Pick(1, 2, 3, 4, 5, 100))
		case 1:
			m.PanelInfo = vnGenInfo(v)
		case 2:
			svg := v.PickS("<svg/>", `<svg><rect x="0"/> <text>a b</text></svg>`, "<"+vnFlatText(v)+">")
			m.PanelTopology = &rwp.PanelTopology{Svgbase: svg, Json: v.PickS("{}", `{"HWc":[]}`, vnFlatText(v))}
		case 3:
			m.BurninProfile = &rwp.BurninProfile{Json: v.PickS("{}", `{"a": 1}`, vnFlatText(v))}
		case 4:
			m.NetworkConfig = &rwp.NetworkConfig{Dhcp: v.Bool(), Address: v.PickS("", "10.1.2.3"), Netmask: v.PickS("", "255.255.255.0"), Gateway: v.PickS("", "10.0.0.1"), FirstDns: v.PickS("", "8.8.8.8"), SecondDns: v.PickS("", "\"<&>"), NoDefaultRoute: v.Bool()}
		case 5:
			m.CalibrationProfile = &rwp.CalibrationProfile{Json: vnFlatText(v)}
		case 6:
			m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: vnFlatText(v)}
		case 7:
			m.SleepTimeout = &rwp.SleepTimeout{Value: vnU32(v)}
		case 8:
			m.SleepState = &rwp.SleepState{IsSleeping: v.Bool()}
		case 9:
			m.HeartBeatTimer = &rwp.HeartBeatTimer{Value: vnU32(v)}
		case 10:
			m.DimmedGain = &rwp.DimmedGain{Value: vnU32(v)}
		case 11:
			m.Connections = &rwp.Connections{Connection: vnListText(v)}
		case 12:
			m.RunTimeStats = &rwp.RunTimeStats{BootsCount: vnU32(v), TotalUptime: vnU32(v), SessionUptime: vnU32(v), ScreenSaveOnTime: vnU32(v)}
		case 13:
			m.ErrorMessage = &rwp.Message{Message: vnFlatText(v)}
		case 14:
			m.Message = &rwp.Message{Message: vnFlatText(v)}
		case 15:
			m.HWCavailability = map[uint32]uint32{}
			for i := v.R.Intn(6); i >= 0; i-- {
				m.HWCavailability[vnU32(v)] = vnU32(v)
			}
		case 16:
			m.EnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(v.R.Intn(3))}
		case 17:
			m.SysStat = vnGenStat(v)
		default:
			for i := v.R.Intn(3); i >= 0; i-- {
				m.Registers = append(m.Registers, vnGenReg(v))
			}
		}
		if v.R.Intn(3) == 0 {
			for i := v.R.Intn(4); i > 0; i-- {
				m.Events = append(m.Events, vnGenEvent(v))
			}
		}
	}
	return m
}

func TestVN_C03(t *testing.T) {
	v := vnStart(t, "random panel-to-system messages over the ASCII-representable domain; their lines are read by an independent implementation of the grammar")
	check := func(ms []*rwp.OutboundMessage) {
		desc := vnJSON(ms)
		var want [][]string
		nontriv := false
		var keep []*rwp.OutboundMessage
		for _, m := range ms {
			e := vnOutMsg(m)
			nontriv = nontriv || len(e) > 0
			want = append(want, e)
			keep = append(keep, proto.Clone(m).(*rwp.OutboundMessage))
		}
		v.Case(desc, nontriv)
		v.Guard("panic", desc, func() {
			var read []string
			lines := OutboundMessagesToRawPanelASCIIstrings(ms)
			for _, l := range lines {
				e, ok := vnOutLine(l)
				if !ok {
					v.Fail("unreadable", desc, "the line %.300q is not part of the grammar", l)
					return
				}
				read = append(read, e...)
			}
			if d := vnSameOut(read, want); d != "" {
				v.Fail("report", desc, "%s; lines %.400q", d, lines)
			}
			for i := range ms {
				if utf8.ValidString(desc) && !proto.Equal(ms[i], keep[i]) && !vnHasNaN(ms[i]) {
					v.Fail("mutated", desc, "the encoder changed message %d", i)
				}
			}
		})
	}
	one := func(m *rwp.OutboundMessage) { check([]*rwp.OutboundMessage{m}) }
	i32 := []int32{0, 1, -1, 9, -9, 10, -10, 255, 256, -32768, 32767, 65535, 1 << 30, 2147483647, -2147483648}
	u32 := []uint32{0, 1, 9, 10, 255, 65535, 1 << 31, 1<<31 - 1, 1<<32 - 1}
	for _, id := range u32 {
		for _, e := range []int32{0, 1, 2, 4, 8, 16} {
			for _, p := range []bool{false, true} {
				one(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: id, Binary: &rwp.BinaryEvent{Pressed: p, Edge: rwp.BinaryEvent_EdgeID(e)}}}})
			}
		}
		for _, x := range i32 {
			one(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: x}}}})
			one(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: id, Speed: &rwp.SpeedEvent{Value: x}}}})
		}
		for _, x := range u32 {
			one(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: id, Absolute: &rwp.AbsoluteEvent{Value: x}}}})
			one(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: id, RawAnalog: &rwp.RawAnalogEvent{Value: x}}}})
			one(&rwp.OutboundMessage{HWCavailability: map[uint32]uint32{id: x}})
		}
	}
	for s := 0; s < 1<<13; s++ {
		r := &rwp.RawPanelSupport{}
		for i := range vnSupport {
			*vnSupportField(r, i) = s>>uint(i)&1 == 1
		}
		one(&rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{RawPanelSupport: r}})
	}
	for k := 0; k < 6; k++ {
		one(&rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{PanelType: rwp.PanelInfo_PanelTypeE(k)}})
	}
	for v.more() {
		var ms []*rwp.OutboundMessage
		for i := v.Pick(1, 1, 2, 3); i > 0; i-- {
			ms = append(ms, vnGenOut1(v))
		}
		check(ms)
	}
}
func vnHasNaN(m *rwp.OutboundMessage) bool { return false }

// one well-formed panel-to-system line
func vnGenOutLine(v *vnT) string {
	u := func() string { return strconv.FormatUint(uint64(vnU32(v)), 10) }
	s := func() string { return strconv.Itoa(int(vnI32(v))) }
	txt := func() string {
		if t := vnTextStr(v, "\n"); t != "" {
			return t
		}
		return v.PickS("x", " ", "=", "_model=y", "HWC#1=Down", "map=1:2")
	}
	switch v.R.Intn(14) {
	case 0:
		return v.PickS("ping", "ack", "nack", "BSY", "RDY", "list", "")
	case 1, 2, 3, 4:
		edge := v.PickS("", ".0", ".1", ".2", ".4", ".8", ".16")
		switch v.R.Intn(5) {
		case 0, 1:
			return "HWC#" + u() + edge + "=" + v.PickS("Down", "Up", "Press")
		case 2:
			return "HWC#" + u() + "=Enc:" + s()
		case 3:
			return "HWC#" + u() + "=" + v.PickS("Abs", "Raw") + ":" + u()
		}
		return "HWC#" + u() + "=Speed:" + s()
	case 5:
		return "map=" + u() + ":" + u()
	case 6:
		k := []string{}
		for x := range vnOutText {
			k = append(k, x)
		}
		sortStrings(k)
		return k[v.R.Intn(len(k))] + "=" + txt()
	case 7:
		k := []string{}
		for x := range vnOutNum {
			k = append(k, x)
		}
		sortStrings(k)
		return k[v.R.Intn(len(k))] + "=" + u()
	case 8:
		switch v.R.Intn(4) {
		case 0:
			return "_bluePillReady=1"
		case 1:
			return "_isSleeping=" + v.PickS("0", "1")
		case 2:
			return "_panelType=" + vnPanelTypes[1+v.R.Intn(5)]
		}
		return "EnvironmentalHealth=" + v.PickS("Normal", "Safemode", "Blocked")
	case 9:
		var p []string
		for _, i := range v.R.Perm(len(vnSupport)) {
			if v.Bool() {
				p = append(p, vnSupport[i])
			}
			if v.R.Intn(10) == 0 {
				p = append(p, v.PickS("Foo", "ascii", "ASCII ", "Registers2"))
			}
		}
		if len(p) == 0 {
			p = []string{"ASCII"}
		}
		return "_support=" + strings.Join(p, ",")
	case 10:
		var l []string
		for len(l) == 0 {
			l = vnListText(v)
		}
		return v.PickS("_serverModeLockToIP=", "_connections=") + strings.Join(l, v.PickS(";", "; ", ";;"))
	case 11:
		out := "SysStat="
		fields := v.R.Perm(len(vnStatNames))
		fields = fields[:v.Pick(len(fields), len(fields), 1+v.R.Intn(len(fields)))]
		if v.Bool() {
			fields = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19}[v.R.Intn(3):]
		}
		for i, f := range fields {
			val := strconv.Itoa(int(vnI32(v)))
			switch {
			case f == 0:
				val = u()
			case f < 3:
				val = strconv.FormatFloat(float64(vnTenths(v, 10)), 'f', 1, 32)
			case f == 3:
				val = strconv.FormatFloat(float64(vnTenths(v, 100)), 'f', 2, 32)
			case f >= 12:
				val = v.PickS("0", "1")
			}
			out += vnStatNames[f] + ":" + val
			if i < len(fields)-1 || v.Bool() {
				out += ":"
			}
		}
		return out
	case 12:
		return fmt.Sprintf(`_networkConfig={"dhcp":%v,"address":"10.0.0.%d","noDefaultRoute":%v}`, v.Bool(), v.R.Intn(255), v.Bool())
	}
	return vnRegSpell(v)
}
func vnRegSpell(v *vnT) string {
	id := ""
	for i := v.R.Intn(4); i > 0; i-- {
		id += v.PickS("A", "B", "Z", "0", "7", "9", "Q")
	}
	switch v.R.Intn(4) {
	case 0:
		return "Mem" + id + "=" + strconv.Itoa(int(vnU31(v)))
	case 1:
		return "Shift" + id + "=" + strconv.Itoa(int(vnU31(v)))
	case 2:
		return "State" + id + "=" + strconv.Itoa(int(vnU31(v)))
	}
	return "Flag#" + strconv.Itoa(v.R.Intn(300)) + "=" + v.PickS("0", "1", "2", "255")
}

func TestVN_C04(t *testing.T) {
	v := vnStart(t, "sequences of well-formed panel-to-system lines with foreign lines in between; the decoded messages are compared with an independent reading")
	check := func(lines []string) {
		desc := fmt.Sprintf("%q", lines)
		var want, got []string
		for _, l := range lines {
			e, known := vnOutLine(l)
			if known {
				want = append(want, e...)
			}
		}
		v.Case(desc, len(want) > 0)
		v.Guard("panic", desc, func() {
			for _, m := range RawPanelASCIIstringsToOutboundMessages(lines) {
				got = append(got, vnOutMsg(m)...)
			}
			for i := 0; i < len(got) || i < len(want); i++ {
				if i >= len(got) {
					v.Fail("missing", desc, "%.300q is not reported; decoded as %.500q", want[i], vnCut(got))
				} else if i >= len(want) {
					v.Fail("extra", desc, "additionally reported: %.300q", got[i])
				} else if got[i] != want[i] {
					v.Fail("differs", desc, "report %d is %.300q, expected %.300q", i, got[i], want[i])
				} else {
					continue
				}
				return
			}
		})
	}
	for _, id := range []string{"0", "1", "12", "255", "65535", "4294967295"} {
		for _, e := range []string{"", ".0", ".1", ".2", ".4", ".8", ".16"} {
			for _, a := range []string{"Down", "Up", "Press"} {
				check([]string{"HWC#" + id + e + "=" + a})
			}
		}
		for _, x := range []string{"0", "1", "-1", "10", "-10", "2147483647", "-2147483648", "1000"} {
			check([]string{"HWC#" + id + "=Enc:" + x})
			check([]string{"HWC#" + id + "=Speed:" + x})
		}
		for _, x := range []string{"0", "1", "10", "1000", "65535", "2147483648", "4294967295"} {
			check([]string{"HWC#" + id + "=Abs:" + x})
			check([]string{"HWC#" + id + "=Raw:" + x})
			check([]string{"map=" + id + ":" + x})
			for k := range vnOutNum {
				check([]string{k + "=" + x})
			}
		}
	}
	for k := range vnOutText {
		for _, x := range []string{"x", " lead", "a=b", "a:b", "æ", "{\"a\":1}", "HWC#1=Down", "0"} {
			check([]string{k + "=" + x})
		}
	}
	for v.more() {
		var lines []string
		for i := v.Pick(1, 1, 2, 3, 5); i > 0; i-- {
			if v.R.Intn(4) == 0 {
				f := vnForeign(v)
				if _, known := vnOutLine(f); !known && !vnKnownKey(f) {
					lines = append(lines, f)
				}
				continue
			}
			lines = append(lines, vnGenOutLine(v))
		}
		check(lines)
	}
}

// the line starts with a keyword of the grammar (malformed, not foreign)
func vnKnownKey(l string) bool {
	k, _, _ := strings.Cut(l, "=")
	if strings.HasPrefix(k, "HWC#") {
		id := k[4:]
		if d := strings.IndexByte(id, '.'); d >= 0 {
			if !vnDigits(id[d+1:]) {
				return false
			}
			id = id[:d]
		}
		return vnDigits(id)
	}
	if _, ok := vnRegLine(k + "=0"); ok {
		return true
	}
	if vnOutText[k] != "" || vnOutNum[k] != "" {
		return true
	}
	switch k {
	case "map", "_bluePillReady", "_isSleeping", "_panelType", "_support", "_serverModeLockToIP", "_connections", "EnvironmentalHealth", "_networkConfig", "SysStat":
		return true
	}
	return false
}
