package rawpanellib

import (
	"encoding/base64"
	"encoding/json"
	"regexp"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C02: what the lines of a system denote, one production of the grammar per contract

func vDecIn(line string) []*rwp.InboundMessage {
	return RawPanelASCIIstringsToInboundMessages([]string{line})
}

func vOneIn(m *rwp.InboundMessage) []*rwp.InboundMessage { return []*rwp.InboundMessage{m} }

func vCmd(c *rwp.Command) []*rwp.InboundMessage {
	return vOneIn(&rwp.InboundMessage{Command: c})
}

func vState(s *rwp.HWCState) []*rwp.InboundMessage {
	return vOneIn(&rwp.InboundMessage{States: []*rwp.HWCState{s}})
}

// any lines at all: no panic and no nil message
//
//govc:unit C02 C06
func vc_DecInAny(lines []string) {
	vAssume(!DebugRWPhelpers)
	got := RawPanelASCIIstringsToInboundMessages(lines)
	vReach("returns")
	for _, m := range got {
		vAssert("no nil message", m != nil)
	}
}

// flow words, command words and the blank line
//
//govc:unit C02
func vc_DecInWord() {
	vAssume(!DebugRWPhelpers)
	for _, f := range []struct {
		line string
		flow rwp.InboundMessage_FlowMsg
	}{{"ping", rwp.InboundMessage_PING}, {"ack", rwp.InboundMessage_ACK}, {"nack", rwp.InboundMessage_NACK}} {
		vAssert(f.line, vDeepEq(vDecIn(f.line), vOneIn(&rwp.InboundMessage{FlowMessage: f.flow})))
	}
	for _, f := range []struct {
		line string
		c    *rwp.Command
	}{
		{"ActivePanel=1", &rwp.Command{ActivatePanel: true}},
		{"list", &rwp.Command{SendPanelInfo: true}},
		{"map", &rwp.Command{ReportHWCavailability: true}},
		{"PanelTopology?", &rwp.Command{SendPanelTopology: true}},
		{"BurninProfile?", &rwp.Command{SendBurninProfile: true}},
		{"CalibrationProfile?", &rwp.Command{SendCalibrationProfile: true}},
		{"NetworkConfig?", &rwp.Command{SendNetworkConfig: true}},
		{"Registers?", &rwp.Command{SendRegisters: true}},
		{"Connections?", &rwp.Command{GetConnections: true}},
		{"RunTimeStats?", &rwp.Command{GetRunTimeStats: true}},
		{"Clear", &rwp.Command{ClearAll: true}},
		{"ClearLEDs", &rwp.Command{ClearLEDs: true}},
		{"ClearDisplays", &rwp.Command{ClearDisplays: true}},
		{"SleepTimer?", &rwp.Command{GetSleepTimeout: true}},
		{"WakeUp!", &rwp.Command{WakeUp: true}},
		{"Reboot", &rwp.Command{Reboot: true}},
	} {
		vAssert(f.line, vDeepEq(vDecIn(f.line), vCmd(f.c)))
	}
	vAssert("a blank line", len(vDecIn("")) == 0)
	vReach("returns")
}

// commands with a number
//
//govc:unit C02
func vc_DecInNum(n, m uint32) {
	vAssume(!DebugRWPhelpers)
	is := func(key string, c *rwp.Command) { vAssert(key, vDeepEq(vDecIn(key+"="+vN(int(n))), vCmd(c))) }
	is("HeartBeatTimer", &rwp.Command{SetHeartBeatTimer: &rwp.HeartBeatTimer{Value: n}})
	is("DimmedGain", &rwp.Command{SetDimmedGain: &rwp.DimmedGain{Value: n}})
	is("PublishSystemStat", &rwp.Command{PublishSystemStat: &rwp.PublishSystemStat{PeriodSec: n}})
	is("LoadCPU", &rwp.Command{LoadCPU: &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(n)}})
	is("SleepTimer", &rwp.Command{SetSleepTimeout: &rwp.SleepTimeout{Value: n}})
	is("SleepMode", &rwp.Command{SetSleepMode: &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(n)}})
	is("SleepScreenSaver", &rwp.Command{SetSleepScreenSaver: &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(n)}})
	is("Webserver", &rwp.Command{SetWebserverEnabled: &rwp.WebserverState{Enabled: n > 0}})
	is("JSONonOutbound", &rwp.Command{JSONconfig: &rwp.JSONconfig{Outbound: n > 0}})
	is("PanelBrightness", &rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: n, OLEDs: n}})
	vAssert("brightness of both", vDeepEq(vDecIn("PanelBrightness="+vN(int(n))+","+vN(int(m))), vCmd(&rwp.Command{PanelBrightness: &rwp.Brightness{LEDs: n, OLEDs: m}})))
	vReach("returns")
}

// commands with a text or word
//
//govc:unit C02
//govc:class s noLF
//govc:class other noLF
func vc_DecInText(s, other string) {
	vAssume(!DebugRWPhelpers)
	vAssert("SetCalibrationProfile", vDeepEq(vDecIn("SetCalibrationProfile="+s), vCmd(&rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: s}})))
	for _, t := range []struct {
		w string
		t rwp.Environment_RunModeE
	}{{"Normal", rwp.Environment_NORMAL}, {"Safemode", rwp.Environment_SAFEMODE}, {"Blocked", rwp.Environment_BLOCKED}} {
		vAssert("SimulateEnvironmentalHealth="+t.w, vDeepEq(vDecIn("SimulateEnvironmentalHealth="+t.w), vCmd(&rwp.Command{SimulateEnvironmentalHealth: &rwp.Environment{RunMode: t.t}})))
		vAssume(other != t.w)
	}
	vAssert("an unknown run mode has no effect", vNoEffect(vDecIn("SimulateEnvironmentalHealth="+other)))
	n := &rwp.NetworkConfig{}
	err := json.Unmarshal([]byte(s), n)
	vAssume(err == nil)
	vAssert("SetNetworkConfig", vDeepEq(vDecIn("SetNetworkConfig="+s), vCmd(&rwp.Command{SetNetworkConfig: n})))
	vReach("returns")
}

// vNoEffect: nothing but empty messages
func vNoEffect(ms []*rwp.InboundMessage) bool {
	return len(ms) == 0 || vDeepEq(ms, vOneIn(&rwp.InboundMessage{}))
}

// registers
//
//govc:unit C02
//govc:class id regid
func vc_DecInReg(id string, num, v uint32) {
	vAssume(!DebugRWPhelpers)
	reg := func(k rwp.Register_RegisterE, id string, v uint32) []*rwp.InboundMessage {
		return vOneIn(&rwp.InboundMessage{Registers: []*rwp.Register{{Reg: k, Id: id, Value: v}}})
	}
	val := "=" + vN(int(v))
	vAssert("Mem", vDeepEq(vDecIn("Mem"+id+val), reg(rwp.Register_MEM, id, v)))
	vAssert("Shift", vDeepEq(vDecIn("Shift"+id+val), reg(rwp.Register_SHIFT, id, v)))
	vAssert("State", vDeepEq(vDecIn("State"+id+val), reg(rwp.Register_STATE, id, v)))
	one := uint32(0)
	if v > 0 {
		one = 1
	}
	vAssert("Flag#", vDeepEq(vDecIn("Flag#"+vN(int(num))+val), reg(rwp.Register_FLAG, vN(int(num)), one)))
	vReach("returns")
}

// mode, extended value, colour and ADC lines for one to three components
//
//govc:unit C02
//govc:enum k=1..3
func vc_DecInPacked(k int, i0, i1, i2 uint32, value uint16) {
	v := int(value)
	vAssume(!DebugRWPhelpers)
	ids := []uint32{i0, i1, i2}[:k]
	list := vN(int(i0))
	if k > 1 {
		list += "," + vN(int(i1))
	}
	if k > 2 {
		list += "," + vN(int(i2))
	}
	tail := "#" + list + "=" + vN(v)
	vAssert("mode", vDeepEq(vDecIn("HWC"+tail), vState(&rwp.HWCState{HWCIDs: ids,
		HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(v % 16), Output: v/32%2 == 1, BlinkPattern: uint32(v / 256 % 16)}})))
	vAssert("extended value", vDeepEq(vDecIn("HWCx"+tail), vState(&rwp.HWCState{HWCIDs: ids,
		HWCExtended: &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(v / 4096), Value: uint32(v % 4096)}})))
	c := &rwp.HWCColor{}
	if v/64%2 == 1 {
		c.ColorRGB = &rwp.ColorRGB{Red: uint32(v / 16 % 4 * 85), Green: uint32(v / 4 % 4 * 85), Blue: uint32(v % 4 * 85)}
	} else {
		c.ColorIndex = &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(v % 32)}
	}
	vAssert("colour", vDeepEq(vDecIn("HWCc"+tail), vState(&rwp.HWCState{HWCIDs: ids, HWCColor: c})))
	vAssert("ADC values", vDeepEq(vDecIn("HWCrawADCValues"+tail), vState(&rwp.HWCState{HWCIDs: ids, PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: v == 1}})))
	vReach("returns")
}

// ---- text lines: one to twenty-one fields of any text

//govc:unit C02
//govc:enum n=1..21
//govc:class f0 field
//govc:class f1 field
//govc:class f2 field
//govc:class f3 field
//govc:class f4 field
//govc:class f5 field
//govc:class f6 field
//govc:class f7 field
//govc:class f8 field
//govc:class f9 field
//govc:class f10 field
//govc:class f11 field
//govc:class f12 field
//govc:class f13 field
//govc:class f14 field
//govc:class f15 field
//govc:class f16 field
//govc:class f17 field
//govc:class f18 field
//govc:class f19 field
//govc:class f20 field
func vc_DecInTextLine(n int, id uint32, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20 string) {
	vAssume(!DebugRWPhelpers)
	f := []string{f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20}[:n]
	num := func(i int) int {
		if i >= n {
			return 0
		}
		v, _ := strconv.Atoi(f[i])
		return v
	}
	str := func(i int) string {
		if i >= n {
			return ""
		}
		return f[i]
	}
	// the packed fields hold naturals
	bits := func(i int) int {
		v := num(i)
		vAssume(v >= 0)
		return v
	}
	icons, font, size, spacing := bits(2), bits(15), bits(16), bits(17)

	format := num(1)
	vAssume(format >= -1<<31 && format < 1<<31 && num(8) >= -1<<31 && num(8) < 1<<31)
	unformatted := format == 10 || format == 11
	t := &rwp.HWCText{
		IntegerValue:   int32(num(0)),
		Formatting:     rwp.HWCText_FormattingE(format),
		StateIcon:      rwp.HWCText_StateIconE(icons % 4),
		ModifierIcon:   rwp.HWCText_ModifierIconE(icons / 8 % 8),
		Title:          str(3),
		SolidHeaderBar: num(4) == 0 && str(3) != "" && !unformatted,
		Textline1:      str(5),
		Textline2:      str(6),
		IntegerValue2:  int32(num(7)),
		Scale: &rwp.HWCText_ScaleM{
			ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(num(9)),
			RangeLow:  int32(num(10)),
			RangeHigh: int32(num(11)),
			LimitLow:  int32(num(12)),
			LimitHigh: int32(num(13)),
		},
		TextStyling: &rwp.HWCText_TextStyle{
			TextFont:              &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(font % 8), TextWidth: uint32(size % 4), TextHeight: uint32(size / 4 % 4)},
			TitleFont:             &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(font / 8 % 8), TextWidth: uint32(size / 16 % 4), TextHeight: uint32(size / 64 % 4)},
			FixedWidth:            font/64%2 == 1,
			TitleBarPadding:       uint32(spacing % 4),
			ExtraCharacterSpacing: uint32(spacing / 4 % 8),
		},
		Inverted: num(18) > 0,
	}
	switch {
	case unformatted:
		t.IntegerValue = 0
		t.TextStyling.UnformattedFontSize = uint32(num(0))
		if uint32(num(0)) == 0 {
			t.IntegerValue = int32(num(0))
		}
	case str(0) == "" && format == 0:
		t.Formatting = 7
		t.IntegerValue = 0
	case format == 7:
		t.IntegerValue = 0
	}
	if !unformatted {
		pair := num(8)
		if pair <= 0 && (str(6) != "" || str(7) != "") {
			pair = 1
		}
		t.PairMode = rwp.HWCText_PairModeE(pair)
	}
	if c := num(19); c > 0 {
		t.PixelColor = vColorIn(c)
	}
	if c := num(20); c > 0 {
		t.BackgroundColor = vColorIn(c)
	}
	got := vDecIn("HWCt#" + vN(int(id)) + "=" + strings.Join(f, "|"))
	vAssert("text", vDeepEq(got, vState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCText: t})))
	vReach("returns")
}

func vColorIn(v int) *rwp.Color {
	if v/64%2 == 1 {
		return &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: uint32(v / 16 % 4 * 85), Green: uint32(v / 4 % 4 * 85), Blue: uint32(v % 4 * 85)}}
	}
	return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(v % 32)}}
}

// ---- lists of components of any length

//govc:unit C02
//govc:class list idlist+
//govc:class text noLF
func vc_DecInList(list, text string, value uint16) {
	vAssume(!DebugRWPhelpers)
	v := int(value)
	var ids []uint32
	for _, p := range strings.Split(list, ",") {
		n, _ := strconv.Atoi(p)
		ids = append(ids, uint32(n))
	}
	tail := "#" + list + "=" + vN(v)
	vAssert("mode", vDeepEq(vDecIn("HWC"+tail), vState(&rwp.HWCState{HWCIDs: ids,
		HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(v % 16), Output: v/32%2 == 1, BlinkPattern: uint32(v / 256 % 16)}})))
	vAssert("extended value", vDeepEq(vDecIn("HWCx"+tail), vState(&rwp.HWCState{HWCIDs: ids,
		HWCExtended: &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(v / 4096), Value: uint32(v % 4096)}})))
	c := vColorIn(v)
	vAssert("colour", vDeepEq(vDecIn("HWCc"+tail), vState(&rwp.HWCState{HWCIDs: ids, HWCColor: &rwp.HWCColor{ColorRGB: c.ColorRGB, ColorIndex: c.ColorIndex}})))
	vAssert("ADC values", vDeepEq(vDecIn("HWCrawADCValues"+tail), vState(&rwp.HWCState{HWCIDs: ids, PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: v == 1}})))
	got := vDecIn("HWCt#" + list + "=" + text)
	vAssert("a text for the listed components", len(got) == 1 && len(got[0].States) == 1 && got[0].States[0].HWCText != nil && vDeepEq(got[0].States[0].HWCIDs, ids))
	vReach("returns")
}

// ---- JSON lines

//govc:unit C02
//govc:class s any
func vc_DecInJSON(s string) {
	vAssume(!DebugRWPhelpers)
	st := &rwp.HWCState{}
	vAssume(json.Unmarshal([]byte("{"+s), st) == nil)
	vAssert("a state", vDeepEq(vDecIn("{"+s), vState(st)))
	vReach("returns")
}

// a JSON array of messages; null elements are no messages
//
//govc:unit C02
//govc:class s any
func vc_DecInJSONArray(s string) {
	vAssume(!DebugRWPhelpers)
	ms := []*rwp.InboundMessage{}
	vAssume(json.Unmarshal([]byte("["+s), &ms) == nil)
	var want []*rwp.InboundMessage
	for _, m := range ms {
		if m != nil {
			want = append(want, m)
		}
	}
	vAssert("the messages of the array", vDeepEq(vDecIn("["+s), want))
	vReach("returns")
}

// ---- every line is decoded by itself, graphics lines apart

var vGfxLine = regexp.MustCompile(`(?s)^HWCg.*$`)

//govc:unit C02
func vc_DecInLocal(lines []string) {
	vAssume(!DebugRWPhelpers)
	vAssume(vForall(0, len(lines), func(i int) bool { return !vGfxLine.MatchString(lines[i]) }))
	got := RawPanelASCIIstringsToInboundMessages(lines)
	var want []*rwp.InboundMessage
	for _, l := range lines {
		want = append(want, vDecIn(l)...)
	}
	vAssert("every line is decoded by itself", vDeepEq(got, want))
}

// ---- graphics

//govc:unit C02
//govc:enum k=0..2
//govc:class list idlist+
//govc:class p0 noLF
//govc:class p1 noLF
//govc:class p2 noLF
func vc_DecInGfxSimple(k int, list, p0, p1, p2 string) {
	vAssume(!DebugRWPhelpers)
	kw := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}[k]
	img := &rwp.HWCGfx{ImageType: []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}[k], W: 64, H: 32}
	for _, p := range []string{p0, p1, p2} {
		d, err := base64.StdEncoding.DecodeString(p)
		vAssume(err == nil)
		img.ImageData = append(img.ImageData, d...)
	}
	var ids []uint32
	for _, p := range strings.Split(list, ",") {
		n, _ := strconv.Atoi(p)
		ids = append(ids, uint32(n))
	}
	got := RawPanelASCIIstringsToInboundMessages([]string{kw + list + "=0:" + p0, kw + list + "=1:" + p1, kw + list + "=2:" + p2})
	vAssert("one image after the third line", vDeepEq(got, vState(&rwp.HWCState{HWCIDs: ids, HWCGfx: img})))
	vReach("returns")
}

//govc:unit C02
//govc:enum k=0..2
//govc:enum off=0..1
//govc:class list idlist+
//govc:class p0 noLF
//govc:class p1 noLF
//govc:class p2 noLF
func vc_DecInGfx(k, off int, list string, w, h, x, y uint32, p0, p1 string) {
	vAssume(!DebugRWPhelpers)
	kw := []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}[k]
	img := &rwp.HWCGfx{ImageType: []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}[k], W: w, H: h}
	head := kw + list + "=0/1," + vN(int(w)) + "x" + vN(int(h))
	if off == 1 {
		img.XYoffset, img.X, img.Y = true, x, y
		head += "," + vN(int(x)) + "," + vN(int(y))
	}
	for _, p := range []string{p0, p1} {
		d, err := base64.StdEncoding.DecodeString(p)
		vAssume(err == nil)
		img.ImageData = append(img.ImageData, d...)
	}
	var ids []uint32
	for _, p := range strings.Split(list, ",") {
		n, _ := strconv.Atoi(p)
		ids = append(ids, uint32(n))
	}
	got := RawPanelASCIIstringsToInboundMessages([]string{head + ":" + p0, kw + list + "=1:" + p1})
	vAssert("one image after the last line", vDeepEq(got, vState(&rwp.HWCState{HWCIDs: ids, HWCGfx: img})))
	vReach("returns")
}

// ---- lines that are not part of the grammar

var vInKeyword = regexp.MustCompile(`(?s)^(HWC#|HWCx#|HWCc#|HWCt#|HWCrawADCValues#|HWCgRGB#|HWCgGray#|HWCg#)[0-9,]+=.*$`)
var vInCommand = regexp.MustCompile(`(?s)^(HeartBeatTimer|DimmedGain|PublishSystemStat|LoadCPU|SleepTimer|SleepMode|SleepScreenSaver|Webserver|JSONonOutbound|PanelBrightness|SetCalibrationProfile|SimulateEnvironmentalHealth|SetNetworkConfig)=.*$`)
var vInReg = regexp.MustCompile(`(?s)^(Flag#|Mem|Shift|State)[A-Z0-9]*=.*$`)

//govc:unit C02
//govc:class s any
func vc_DecInUnknown(s string) {
	vAssume(!DebugRWPhelpers)
	for _, w := range []string{"ping", "ack", "nack", "ActivePanel=1", "list", "map", "PanelTopology?", "BurninProfile?", "CalibrationProfile?", "NetworkConfig?", "Registers?", "Connections?", "RunTimeStats?", "Clear", "ClearLEDs", "ClearDisplays", "SleepTimer?", "WakeUp!", "Reboot"} {
		vAssume(s != w)
	}
	vAssume(s == "" || s[:1] != "{" && s[:1] != "[")
	vAssume(!vInKeyword.MatchString(s) && !vInCommand.MatchString(s) && !vInReg.MatchString(s))
	vAssert("no effect", vNoEffect(vDecIn(s)))
	vReach("returns")
}
