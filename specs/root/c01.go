package rawpanellib

import (
	"encoding/base64"
	"encoding/json"
	"strconv"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// ---- C01: the ASCII lines of a system-to-panel message, written down from the protocol grammar (one function per line kind)

func vN(n int) string { return strconv.Itoa(n) }

func vBit(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// 8-bit intensity on two bits
func vTwoBits(c uint32) int { return vTwo(int(c)) }
func vTwo(c int) int {
	if c >= 255 {
		return 3
	}
	return c * 3 / 255
}

func vSpecFlow(m *rwp.InboundMessage) []string {
	switch m.FlowMessage {
	case rwp.InboundMessage_PING:
		return []string{"ping"}
	case rwp.InboundMessage_ACK:
		return []string{"ack"}
	case rwp.InboundMessage_NACK:
		return []string{"nack"}
	}
	return nil
}

func vSpecCommand(c *rwp.Command) []string {
	var l []string
	if c == nil {
		return l
	}
	word := func(b bool, w string) {
		if b {
			l = append(l, w)
		}
	}
	word(c.ActivatePanel, "ActivePanel=1")
	word(c.SendPanelInfo, "list")
	word(c.ReportHWCavailability, "map")
	word(c.SendPanelTopology, "PanelTopology?")
	word(c.SendBurninProfile, "BurninProfile?")
	word(c.SendCalibrationProfile, "CalibrationProfile?")
	word(c.SendNetworkConfig, "NetworkConfig?")
	word(c.SendRegisters, "Registers?")
	word(c.GetConnections, "Connections?")
	word(c.GetRunTimeStats, "RunTimeStats?")
	word(c.ClearAll, "Clear")
	word(c.ClearLEDs, "ClearLEDs")
	word(c.ClearDisplays, "ClearDisplays")
	word(c.GetSleepTimeout, "SleepTimer?")
	word(c.WakeUp, "WakeUp!")
	word(c.Reboot, "Reboot")
	if b := c.PanelBrightness; b != nil {
		l = append(l, "PanelBrightness="+vN(int(b.LEDs))+","+vN(int(b.OLEDs)))
	}
	if p := c.SetCalibrationProfile; p != nil {
		l = append(l, "SetCalibrationProfile="+stripLineBreaks(p.Json))
	}
	if n := c.SetNetworkConfig; n != nil {
		j, _ := json.Marshal(n)
		l = append(l, "SetNetworkConfig="+string(j))
	}
	if e := c.SimulateEnvironmentalHealth; e != nil {
		word(e.RunMode == rwp.Environment_NORMAL, "SimulateEnvironmentalHealth=Normal")
		word(e.RunMode == rwp.Environment_SAFEMODE, "SimulateEnvironmentalHealth=Safemode")
		word(e.RunMode == rwp.Environment_BLOCKED, "SimulateEnvironmentalHealth=Blocked")
	}
	if s := c.SetSleepTimeout; s != nil {
		l = append(l, "SleepTimer="+vN(int(s.Value)))
	}
	if s := c.SetSleepMode; s != nil {
		l = append(l, "SleepMode="+vN(int(s.Mode)))
	}
	if s := c.SetSleepScreenSaver; s != nil {
		l = append(l, "SleepScreenSaver="+vN(int(s.Type)))
	}
	if s := c.SetDimmedGain; s != nil {
		l = append(l, "DimmedGain="+vN(int(s.Value)))
	}
	if s := c.SetHeartBeatTimer; s != nil {
		l = append(l, "HeartBeatTimer="+vN(int(s.Value)))
	}
	if s := c.PublishSystemStat; s != nil {
		l = append(l, "PublishSystemStat="+vN(int(s.PeriodSec)))
	}
	if s := c.LoadCPU; s != nil {
		l = append(l, "LoadCPU="+vN(int(s.Level)))
	}
	if s := c.SetWebserverEnabled; s != nil {
		l = append(l, "Webserver="+vBit(s.Enabled))
	}
	if s := c.JSONconfig; s != nil {
		l = append(l, "JSONonOutbound="+vBit(s.Outbound))
	}
	return l
}

// colour field of a text line: rgb in two bits each plus 64, or a palette index
func vColorField(c *rwp.Color) string {
	if c == nil {
		return ""
	}
	if r := c.ColorRGB; r != nil {
		return vN(64 + vTwoBits(r.Red)*16 + vTwoBits(r.Green)*4 + vTwoBits(r.Blue))
	}
	if r := c.ColorIndex; r != nil {
		return vN(int(uint32(r.Index) % 32))
	}
	return "0"
}

func vNonZero(n int) string {
	if n == 0 {
		return ""
	}
	return vN(n)
}

// packed text attributes
func vFontFaces(s *rwp.HWCText_TextStyle) int {
	v := 0
	if f := s.TextFont; f != nil {
		v += int(uint32(f.FontFace) % 8)
	}
	if f := s.TitleFont; f != nil {
		v += int(uint32(f.FontFace)%8) * 8
	}
	if s.FixedWidth {
		v += 64
	}
	return v
}
func vFontSizes(s *rwp.HWCText_TextStyle) int {
	v := 0
	if f := s.TextFont; f != nil {
		v += int(f.TextWidth%4) + int(f.TextHeight%4)*4
	}
	if f := s.TitleFont; f != nil {
		v += int(f.TextWidth%4)*16 + int(f.TextHeight%4)*64
	}
	return v
}

func vSpecText(t *rwp.HWCText) string {
	f := make([]string, 21)
	form := int(t.Formatting)
	switch {
	case form == 7: // no value shown
	case form == 10 || form == 11: // one or two lines of unformatted text: the value is the font size
		if t.TextStyling != nil {
			f[0] = vN(int(t.TextStyling.UnformattedFontSize))
		} else {
			f[0] = "0"
		}
	default:
		f[0] = vN(int(t.IntegerValue))
	}
	if form > 0 && form != 7 {
		f[1] = vN(form)
	}
	if t.StateIcon > 0 || t.ModifierIcon > 0 {
		f[2] = vNonZero(int(uint32(t.StateIcon)%4) + int(uint32(t.ModifierIcon)%8)*8)
	}
	f[3] = t.Title
	if !t.SolidHeaderBar {
		f[4] = "1"
	}
	f[5] = t.Textline1
	f[6] = t.Textline2
	f[7] = vNonZero(int(t.IntegerValue2))
	if t.PairMode > 0 {
		f[8] = vN(int(t.PairMode))
	}
	if s := t.Scale; s != nil && s.ScaleType > 0 {
		f[9] = vN(int(s.ScaleType))
		f[10] = vN(int(s.RangeLow))
		f[11] = vN(int(s.RangeHigh))
		f[12] = vN(int(s.LimitLow))
		f[13] = vN(int(s.LimitHigh))
	}
	if s := t.TextStyling; s != nil {
		f[15] = vNonZero(vFontFaces(s))
		f[16] = vNonZero(vFontSizes(s))
		f[17] = vNonZero(int(s.TitleBarPadding%4) + int(s.ExtraCharacterSpacing%8)*4)
	}
	if t.Inverted {
		f[18] = "1"
	}
	f[19] = vColorField(t.PixelColor)
	f[20] = vColorField(t.BackgroundColor)
	return vImplode(f, "|")
}

func vTextEmpty(t *rwp.HWCText) bool {
	return t.IntegerValue == 0 && t.Formatting == 0 && t.StateIcon == 0 && t.ModifierIcon == 0 && t.Title == "" && !t.SolidHeaderBar &&
		t.Textline1 == "" && t.Textline2 == "" && t.IntegerValue2 == 0 && t.PairMode == 0 && t.Scale == nil && t.TextStyling == nil &&
		!t.Inverted && t.PixelColor == nil && t.BackgroundColor == nil
}

func vSpecGfx(id string, g *rwp.HWCGfx) []string {
	var l []string
	kw := "HWCg#"
	switch g.ImageType {
	case rwp.HWCGfx_RGB16bit:
		kw = "HWCgRGB#"
	case rwp.HWCGfx_Gray4bit:
		kw = "HWCgGray#"
	}
	n := (len(g.ImageData) + 169) / 170
	for i := 0; i < n; i++ {
		s := kw + id + "=" + vN(i)
		if i == 0 {
			s += "/" + vN(n-1) + "," + vN(int(g.W)) + "x" + vN(int(g.H))
			if g.XYoffset {
				s += "," + vN(int(g.X)) + "," + vN(int(g.Y))
			}
		}
		hi := (i + 1) * 170
		if hi > len(g.ImageData) {
			hi = len(g.ImageData)
		}
		l = append(l, s+":"+base64.StdEncoding.EncodeToString(g.ImageData[i*170:hi]))
	}
	return l
}

func vSpecState(s *rwp.HWCState, id string) []string {
	var l []string
	if m := s.HWCMode; m != nil {
		v := uint32(m.State)%8 + m.BlinkPattern%16*256
		if m.Output {
			v += 32
		}
		l = append(l, "HWC#"+id+"="+vN(int(v)))
	}
	if c := s.HWCColor; c != nil {
		if r := c.ColorRGB; r != nil {
			l = append(l, "HWCc#"+id+"="+vN(192+vTwoBits(r.Red)*16+vTwoBits(r.Green)*4+vTwoBits(r.Blue)))
		} else if r := c.ColorIndex; r != nil {
			l = append(l, "HWCc#"+id+"="+vN(128+int(uint32(r.Index)%32)))
		}
	}
	if e := s.HWCExtended; e != nil {
		l = append(l, "HWCx#"+id+"="+vN(int(uint32(e.Interpretation)%16*4096+e.Value%4096)))
	}
	if t := s.HWCText; t != nil && !vTextEmpty(t) {
		l = append(l, "HWCt#"+id+"="+vSpecText(t))
	}
	if g := s.HWCGfx; g != nil {
		l = append(l, vSpecGfx(id, g)...)
	}
	if p := s.PublishRawADCValues; p != nil {
		l = append(l, "HWCrawADCValues#"+id+"="+vBit(p.Enabled))
	}
	if s.Processors != nil { // only exists as JSON
		j, _ := json.Marshal(s)
		l = append(l, string(j))
	}
	return l
}

func vSpecRegister(r *rwp.Register) []string {
	switch r.Reg {
	case rwp.Register_MEM:
		return []string{"Mem" + r.Id + "=" + vN(int(r.Value))}
	case rwp.Register_FLAG:
		return []string{"Flag#" + r.Id + "=" + vN(int(r.Value))}
	case rwp.Register_SHIFT:
		return []string{"Shift" + r.Id + "=" + vN(int(r.Value))}
	case rwp.Register_STATE:
		return []string{"State" + r.Id + "=" + vN(int(r.Value))}
	}
	return nil
}

func vSpecIn(msgs []*rwp.InboundMessage) []string {
	var l []string
	for _, m := range msgs {
		l = append(l, vSpecFlow(m)...)
		l = append(l, vSpecCommand(m.Command)...)
		for _, s := range m.States {
			for _, id := range s.HWCIDs {
				l = append(l, vSpecState(s, vN(int(id)))...)
			}
		}
		for _, r := range m.Registers {
			l = append(l, vSpecRegister(r)...)
		}
	}
	return l
}

//govc:unit C01
//govc:nonnil msgs msgs[]*.States msgs[]*.Registers
//govc:class msgs[]*.Registers[]*.Id regid
func vc_EncodeIn_flow(msgs []*rwp.InboundMessage) {
	vAssume(!DebugRWPhelpers)
	vAssume(vForall(0, len(msgs), func(i int) bool { return len(msgs[i].States) == 0 }))
	got := InboundMessagesToRawPanelASCIIstrings(msgs)
	vReach("returns")
	vAssert("the lines of flow signals, commands and registers are the grammar's spelling of them, in order", vSeqEq(got, vSpecIn(msgs)))
	vUnchanged("encoding does not change the messages")
}

//govc:unit C01
//govc:nonnil msgs msgs[]*.States msgs[]*.Registers
//govc:class msgs[]*.Registers[]*.Id regid
//govc:class msgs[]*.States[]*.HWCText*.Title field
//govc:class msgs[]*.States[]*.HWCText*.Textline1 field
//govc:class msgs[]*.States[]*.HWCText*.Textline2 field
func vc_EncodeIn(msgs []*rwp.InboundMessage) {
	vAssume(!DebugRWPhelpers)
	got := InboundMessagesToRawPanelASCIIstrings(msgs)
	vReach("returns")
	vAssert("the lines are the grammar's spelling of every message, in order", vSeqEq(got, vSpecIn(msgs)))
	vUnchanged("encoding does not change the messages")
}
