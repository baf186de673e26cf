package rawpanellib

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// text without the given bytes
func vnTextStr(v *vnT, not string) string {
	var s string
	switch v.R.Intn(6) {
	case 0:
		return ""
	case 1:
		s = v.PickS("Cam 1", "a", "=", "#", "0", "1", "æøå", "x,y", "a:b", "{", "[", " lead", "trail ", "\t", "%d", "\\n", "\"q\"", "Press", "<a>", "\xff", "\r")
	case 2:
		s = v.Str()
	default:
		for i := v.R.Intn(12); i >= 0; i-- {
			s += string(rune(v.Pick(32+v.R.Intn(95), 32+v.R.Intn(95), 65+v.R.Intn(26), 0x100+v.R.Intn(500))))
		}
	}
	for _, c := range not {
		s = strings.ReplaceAll(s, string(c), "")
	}
	return s
}
func vnI32(v *vnT) int32 {
	return int32(v.Pick(0, 1, -1, v.Int(-20, 20), v.Int(-1000, 1000), 2147483647, -2147483648, v.R.Intn(1<<31), -v.R.Intn(1<<31)))
}
func vnU32(v *vnT) uint32 {
	return uint32(v.Pick(0, 1, 2, v.Int(0, 100), v.R.Intn(1<<31), 1<<31-1, 1<<31, 1<<32-1))
}
func vnU31(v *vnT) uint32 { return uint32(v.Pick(0, 1, 2, 3, v.Int(0, 100), v.R.Intn(1<<31), 1<<31-1)) }

func vnGenColor(v *vnT) (*rwp.ColorRGB, *rwp.ColorIndex) {
	if v.Bool() {
		ch := func() uint32 { return uint32(v.Pick(0, 1, 84, 85, 86, 127, 128, 169, 170, 171, 254, 255, v.R.Intn(256))) }
		return &rwp.ColorRGB{Red: ch(), Green: ch(), Blue: ch()}, nil
	}
	return nil, &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(v.R.Intn(32))}
}

func vnGenText(v *vnT) *rwp.HWCText {
	t := &rwp.HWCText{Formatting: rwp.HWCText_FormattingE(v.R.Intn(13)), IntegerValue: vnI32(v), StateIcon: rwp.HWCText_StateIconE(v.Pick(0, 0, v.R.Intn(4))), ModifierIcon: rwp.HWCText_ModifierIconE(v.Pick(0, 0, v.R.Intn(8))),
		Title: vnTextStr(v, "|\n"), SolidHeaderBar: v.Bool(), Textline1: vnTextStr(v, "|\n"), Inverted: v.Bool()}
	if v.Bool() {
		t.PairMode = rwp.HWCText_PairModeE(v.R.Intn(5))
		if t.PairMode > 0 {
			t.Textline2, t.IntegerValue2 = vnTextStr(v, "|\n"), vnI32(v)
		}
	}
	if v.Bool() {
		t.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(v.R.Intn(4)), RangeLow: vnI32(v), RangeHigh: vnI32(v), LimitLow: vnI32(v), LimitHigh: vnI32(v)}
	}
	font := func() *rwp.HWCText_TextStyle_Font {
		if v.R.Intn(4) == 0 {
			return nil
		}
		return &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(v.R.Intn(8)), TextWidth: uint32(v.R.Intn(4)), TextHeight: uint32(v.R.Intn(4))}
	}
	if v.Bool() || t.Formatting == 10 || t.Formatting == 11 {
		t.TextStyling = &rwp.HWCText_TextStyle{TextFont: font(), TitleFont: font(), FixedWidth: v.Bool(), TitleBarPadding: uint32(v.R.Intn(4)), ExtraCharacterSpacing: uint32(v.R.Intn(8)), UnformattedFontSize: uint32(v.Pick(0, 1, 2, 3, 15, 100))}
	}
	if v.R.Intn(3) == 0 {
		r, i := vnGenColor(v)
		t.PixelColor = &rwp.Color{ColorRGB: r, ColorIndex: i}
	}
	if v.R.Intn(3) == 0 {
		r, i := vnGenColor(v)
		t.BackgroundColor = &rwp.Color{ColorRGB: r, ColorIndex: i}
	}
	if v.R.Intn(3) == 0 { // sparse: the trailing fields empty
		u := &rwp.HWCText{Formatting: t.Formatting, IntegerValue: t.IntegerValue, Title: t.Title, SolidHeaderBar: t.SolidHeaderBar, Textline1: t.Textline1}
		if u.Formatting == 10 || u.Formatting == 11 {
			u.TextStyling = t.TextStyling
		}
		t = u
	}
	if t.Formatting == 0 && t.IntegerValue == 0 && t.Title == "" && t.Textline1 == "" && !t.SolidHeaderBar {
		t.IntegerValue = 1 // an entirely empty text message carries no text state
	}
	return t
}

func vnGenData(v *vnT) []byte {
	n := v.Pick(1, 2, v.R.Intn(30)+1, 169, 170, 171, 339, 340, 341, 510, 511, 170*(1+v.R.Intn(8)), v.R.Intn(1200)+1, 256, 1024)
	d := make([]byte, n)
	v.R.Read(d)
	return d
}
func vnGenGfx(v *vnT) *rwp.HWCGfx {
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(v.R.Intn(3)), W: uint32(v.Pick(0, 1, 64, v.R.Intn(500), 1<<31)), H: uint32(v.Pick(0, 1, 32, v.R.Intn(500), 1<<31)), ImageData: vnGenData(v)}
	if v.Bool() {
		g.XYoffset, g.X, g.Y = true, uint32(v.Pick(0, 1, v.R.Intn(300))), uint32(v.Pick(0, 1, v.R.Intn(300)))
	}
	return g
}
func vnGenIDs(v *vnT) []uint32 {
	n := v.Pick(1, 1, 1, 2, 3, v.R.Intn(6))
	o := []uint32{}
	for i := 0; i < n; i++ {
		o = append(o, uint32(v.Pick(1+v.R.Intn(9), 10+v.R.Intn(200), 0, 1<<31, 1<<32-1, v.R.Intn(100000))))
	}
	return o
}
func vnGenState(v *vnT) *rwp.HWCState {
	s := &rwp.HWCState{HWCIDs: vnGenIDs(v)}
	k := v.R.Intn(7)
	on := func(i int) bool { return k == i || k == 6 && v.Bool() || v.R.Intn(5) == 0 }
	if on(0) {
		s.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_StateE(v.R.Intn(6)), Output: v.Bool(), BlinkPattern: uint32(v.R.Intn(16))}
	}
	if on(1) {
		r, i := vnGenColor(v)
		s.HWCColor = &rwp.HWCColor{ColorRGB: r, ColorIndex: i}
	}
	if on(2) {
		s.HWCExtended = &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(v.R.Intn(16)), Value: uint32(v.Pick(0, 1, 4095, v.R.Intn(4096)))}
	}
	if on(3) {
		s.HWCText = vnGenText(v)
	}
	if on(4) {
		s.HWCGfx = vnGenGfx(v)
	}
	if on(5) {
		s.PublishRawADCValues = &rwp.PublishRawADCValues{Enabled: v.Bool()}
	}
	return s
}
func vnGenReg(v *vnT) *rwp.Register {
	id := ""
	for i := v.R.Intn(4); i > 0; i-- {
		id += v.PickS("A", "B", "Z", "0", "7", "9", "Q")
	}
	r := &rwp.Register{Reg: rwp.Register_RegisterE(v.R.Intn(4)), Id: id, Value: vnU32(v)}
	if r.Reg == 1 {
		r.Id = strconv.Itoa(v.Pick(0, 1, 64, v.R.Intn(1000)))
	}
	return r
}
func vnGenCommand(v *vnT) *rwp.Command {
	c := &rwp.Command{}
	dens := v.Pick(1, 1, 2, 10)
	on := func() bool { return v.R.Intn(20) < dens }
	for _, b := range []*bool{&c.ActivatePanel, &c.SendPanelInfo, &c.SendPanelTopology, &c.SendRegisters, &c.ReportHWCavailability, &c.SendBurninProfile, &c.SendCalibrationProfile, &c.SendNetworkConfig, &c.ClearAll, &c.ClearLEDs, &c.ClearDisplays, &c.WakeUp, &c.GetSleepTimeout, &c.GetConnections, &c.GetRunTimeStats, &c.Reboot} {
		*b = on()
	}
	if on() {
		c.SetNetworkConfig = &rwp.NetworkConfig{Dhcp: v.Bool(), Address: v.PickS("", "10.0.0.1"), Netmask: v.PickS("", "255.0.0.0"), Gateway: v.PickS("", "10.0.0.254"), FirstDns: v.PickS("", "1.1.1.1"), SecondDns: v.PickS("", "8.8.8.8"), NoDefaultRoute: v.Bool()}
	}
	if on() {
		c.SetSleepTimeout = &rwp.SleepTimeout{Value: vnU32(v)}
	}
	if on() {
		c.SetSleepMode = &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(v.R.Intn(3))}
	}
	if on() {
		c.SetSleepScreenSaver = &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(v.R.Intn(5))}
	}
	if on() {
		c.SetWebserverEnabled = &rwp.WebserverState{Enabled: v.Bool()}
	}
	if on() {
		c.PanelBrightness = &rwp.Brightness{LEDs: vnU32(v), OLEDs: vnU32(v)}
	}
	if on() {
		c.SetHeartBeatTimer = &rwp.HeartBeatTimer{Value: vnU32(v)}
	}
	if on() {
		c.SetDimmedGain = &rwp.DimmedGain{Value: vnU32(v)}
	}
	if on() {
		c.PublishSystemStat = &rwp.PublishSystemStat{PeriodSec: vnU32(v)}
	}
	if on() {
		c.LoadCPU = &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(v.R.Intn(5))}
	}
	if on() {
		c.JSONconfig = &rwp.JSONconfig{Outbound: v.Bool()}
	}
	if on() {
		c.SetCalibrationProfile = &rwp.CalibrationProfile{Json: strings.TrimSpace(vnTextStr(v, "\n"))}
	}
	if on() {
		c.SimulateEnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(v.R.Intn(3))}
	}
	return c
}
func vnGenIn(v *vnT) []*rwp.InboundMessage {
	var ms []*rwp.InboundMessage
	for i := v.Pick(1, 1, 1, 2, 3, v.R.Intn(6)); i > 0; i-- {
		m := &rwp.InboundMessage{}
		k := v.R.Intn(6)
		if k == 0 || v.R.Intn(8) == 0 {
			m.FlowMessage = rwp.InboundMessage_FlowMsg(v.R.Intn(4))
		}
		if k == 1 || v.R.Intn(6) == 0 {
			m.Command = vnGenCommand(v)
		}
		if k >= 3 || v.R.Intn(6) == 0 {
			for j := v.Pick(1, 1, 2, 3); j > 0; j-- {
				m.States = append(m.States, vnGenState(v))
			}
		}
		if k == 2 || v.R.Intn(6) == 0 {
			for j := v.Pick(1, 2, 3); j > 0; j-- {
				m.Registers = append(m.Registers, vnGenReg(v))
			}
		}
		ms = append(ms, m)
	}
	return ms
}

// ---------------------------------------------------------------- lines
func vnIDList(v *vnT) string {
	var o []string
	for i := v.Pick(1, 1, 1, 2, 3, 5); i > 0; i-- {
		o = append(o, strconv.Itoa(v.Pick(1+v.R.Intn(9), 10+v.R.Intn(300), 0, v.R.Intn(1<<31), 1<<32-1)))
	}
	return strings.Join(o, ",")
}
func vnDecArg(v *vnT) string {
	return strconv.Itoa(v.Pick(0, 1, 2, 3, 4, v.Int(0, 10000), v.R.Intn(1<<31), 1<<31-1))
}
func vnTextLine(v *vnT) string {
	f := make([]string, 21)
	some := func(i int, s string) {
		if v.R.Intn(3) > 0 {
			f[i] = s
		}
	}
	fm := v.R.Intn(13)
	if v.R.Intn(3) > 0 || fm == 10 || fm == 11 {
		f[1] = strconv.Itoa(fm)
	} else {
		fm = 0
	}
	if fm == 10 || fm == 11 {
		some(0, strconv.Itoa(v.Pick(0, 1, 2, 3, 20)))
	} else {
		some(0, strconv.Itoa(int(vnI32(v))))
	}
	some(2, strconv.Itoa(v.R.Intn(64)))
	some(3, vnTextStr(v, "|\n"))
	some(4, v.PickS("0", "1"))
	some(5, vnTextStr(v, "|\n"))
	some(6, vnTextStr(v, "|\n"))
	some(7, strconv.Itoa(int(vnI32(v))))
	some(8, strconv.Itoa(v.R.Intn(5)))
	some(9, strconv.Itoa(v.R.Intn(4)))
	for i := 10; i < 14; i++ {
		some(i, strconv.Itoa(int(vnI32(v))))
	}
	some(14, v.PickS("", "1"))
	some(15, strconv.Itoa(v.R.Intn(128)))
	some(16, strconv.Itoa(v.R.Intn(256)))
	some(17, strconv.Itoa(v.R.Intn(32)))
	some(18, v.PickS("0", "1"))
	some(19, strconv.Itoa(v.R.Intn(128)))
	some(20, strconv.Itoa(v.R.Intn(128)))
	if v.Bool() {
		for i := 2; i < 21; i++ {
			if v.R.Intn(3) > 0 {
				f[i] = ""
			}
		}
	}
	n := 21
	if v.Bool() { // trailing fields omitted
		n = v.Int(1, 21)
	} else if v.Bool() {
		for n > 1 && f[n-1] == "" {
			n--
		}
	}
	return strings.Join(f[:n], "|")
}
func vnGfxLines(v *vnT) []string {
	key := v.PickS("HWCg#", "HWCgRGB#", "HWCgGray#")
	ids := vnIDList(v)
	parts := 3
	adv := v.R.Intn(3) > 0
	if adv {
		parts = v.Pick(1, 2, 3, 7)
	}
	var o []string
	for i := 0; i < parts; i++ {
		d := make([]byte, v.Pick(1, 2, 3, 10, 86, 170))
		v.R.Read(d)
		h := ""
		if i == 0 && adv {
			h = fmt.Sprintf("/%d,%dx%d", parts-1, v.R.Intn(500), v.R.Intn(500))
			if v.Bool() {
				h += fmt.Sprintf(",%d,%d", v.R.Intn(100), v.R.Intn(100))
			}
		}
		o = append(o, fmt.Sprintf("%s%s=%d%s:%s", key, ids, i, h, base64.StdEncoding.EncodeToString(d)))
	}
	return o
}

// one well-formed inbound line or transfer; json: the effects of a JSON line are those of the encoded value
func vnInLines(v *vnT) (lines []string, effs []vnEff) {
	one := func(s string) ([]string, []vnEff) {
		r := &vnReader{}
		e, ok := r.line(s)
		if !ok {
			panic("generator produced a line outside the grammar: " + s)
		}
		return []string{s}, e
	}
	switch v.R.Intn(13) {
	case 0:
		return one("HWC#" + vnIDList(v) + "=" + strconv.Itoa(v.Pick(v.R.Intn(65536), v.R.Intn(16), v.R.Intn(6)+32)))
	case 1:
		return one("HWCx#" + vnIDList(v) + "=" + strconv.Itoa(v.Pick(v.R.Intn(65536), v.R.Intn(16)<<12+4095)))
	case 2:
		return one("HWCc#" + vnIDList(v) + "=" + strconv.Itoa(v.Pick(v.R.Intn(256), v.R.Intn(65536))))
	case 3, 4, 5:
		return one("HWCt#" + vnIDList(v) + "=" + vnTextLine(v))
	case 6:
		return one("HWCrawADCValues#" + vnIDList(v) + "=" + v.PickS("0", "1"))
	case 7:
		ls := vnGfxLines(v)
		r := &vnReader{}
		for _, l := range ls {
			e, ok := r.line(l)
			if !ok {
				panic(l)
			}
			effs = append(effs, e...)
		}
		return ls, effs
	case 8:
		ks := []string{"ping", "ack", "nack"}
		for k := range vnInCmds {
			ks = append(ks, k)
		}
		sortStrings(ks)
		return one(ks[v.R.Intn(len(ks))])
	case 9:
		ks := []string{"Webserver", "JSONonOutbound", "PanelBrightness"}
		for k := range vnInNums {
			ks = append(ks, k)
		}
		sortStrings(ks)
		k := ks[v.R.Intn(len(ks))]
		a := vnDecArg(v)
		if k == "PanelBrightness" && v.Bool() {
			a += "," + vnDecArg(v)
		}
		return one(k + "=" + a)
	case 10:
		switch v.R.Intn(3) {
		case 0:
			return one("SimulateEnvironmentalHealth=" + v.PickS("Normal", "Safemode", "Blocked"))
		case 1:
			return one("SetCalibrationProfile=" + vnTextStr(v, "\n"))
		}
		b, _ := json.Marshal(&rwp.NetworkConfig{Dhcp: v.Bool(), Address: v.PickS("", "10.0.0.1"), FirstDns: v.PickS("", "1.1.1.1"), NoDefaultRoute: v.Bool(), Gateway: v.PickS("", "g")})
		return one("SetNetworkConfig=" + string(b))
	case 11:
		r := vnGenReg(v)
		return one([]string{"Mem", "Flag#", "Shift", "State"}[r.Reg] + r.Id + "=" + strconv.Itoa(int(r.Value)))
	}
	if v.Bool() {
		s := vnGenState(v)
		b, _ := json.Marshal(s)
		if !validUTF8(s) {
			return nil, nil
		}
		return []string{string(b)}, vnInMsg(&rwp.InboundMessage{States: []*rwp.HWCState{s}})
	}
	ms := vnGenIn(v)
	b, _ := json.Marshal(ms)
	for _, m := range ms {
		for _, s := range m.States {
			if !validUTF8(s) {
				return nil, nil
			}
		}
		if m.Command.GetSetCalibrationProfile() != nil {
			return nil, nil
		}
		effs = append(effs, vnInMsg(m)...)
	}
	return []string{string(b)}, effs
}

var vnKeywords = []string{"HWC", "HWCx", "HWCc", "HWCt", "HWCg", "HWCgRGB", "HWCgGray", "HWCrawADCValues", "HeartBeatTimer", "DimmedGain", "PublishSystemStat", "LoadCPU", "SleepTimer", "SleepMode", "SleepScreenSaver", "Webserver",
	"JSONonOutbound", "PanelBrightness", "SetCalibrationProfile", "SimulateEnvironmentalHealth", "SetNetworkConfig", "Mem", "Flag", "Shift", "State", "map", "_model", "_serial", "_version", "_name", "_isSleeping", "_sleepTimer", "_panelType", "_support", "_connections",
	"_bootsCount", "ErrorMsg", "Msg", "SysStat", "EnvironmentalHealth", "Clear", "Reboot", "list", "ping", "_heartBeatTimer", "_panelTopology_HWC", "Press", "Down"}

// a line whose keyword is not part of either grammar
func vnForeign(v *vnT) string {
	k := vnKeywords[v.R.Intn(len(vnKeywords))]
	switch v.R.Intn(8) {
	case 0:
		k = strings.ToLower(k) + "x"
	case 1:
		k = "X" + k
	case 2:
		k = k + "Foo"
	case 3:
		k = " " + k
	case 4:
		k = strings.ToUpper(k) + "_"
	case 5:
		k = v.PickS("Foo", "HWCz", "HWCq", "_foo", "Sleep", "Panel", "memory", "flag", "HW", "_", "hwc", "?", "SleepTimer!", "Clear All", "_panel", "MessageX")
	case 6:
		i := v.R.Intn(len(k))
		k = k[:i] + "-" + k[i:]
	case 7:
		k = "-" + k
	}
	switch v.R.Intn(5) {
	case 0:
		return k
	case 1:
		return k + "=" + vnDecArg(v)
	case 2:
		return k + "#" + vnIDList(v) + "=" + vnDecArg(v)
	case 3:
		return k + "#" + vnIDList(v) + "=" + v.PickS("Down", "Up", "Press", "Enc:1", "Abs:4")
	}
	return k + "=" + vnTextStr(v, "\n")
}
