package rawpanellib

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// fills a message with random content; depth bounds nesting, absent sub-messages are frequent
func vnFill(r *rand.Rand, str func() string, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	p := 2 + r.Intn(4)
	scalar := func(fd protoreflect.FieldDescriptor) protoreflect.Value {
		ints := []int64{0, 1, 2, 3, 5, 7, 10, 11, 12, 16, 100, -1, -2147483648, 2147483647, int64(r.Intn(40)), int64(r.Int31())}
		n := ints[r.Intn(len(ints))]
		switch fd.Kind() {
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(r.Intn(2) == 0)
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n))
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			return protoreflect.ValueOfInt32(int32(n))
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(uint32(n))
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			return protoreflect.ValueOfInt64(n)
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(uint64(n))
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32([]float32{0, 1.5, -3, float32(math.NaN()), float32(math.Inf(1)), 1e30, float32(math.Copysign(0, -1))}[r.Intn(7)])
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64([]float64{0, 1.5, math.NaN(), math.Inf(-1), 1e300}[r.Intn(5)])
		case protoreflect.StringKind:
			return protoreflect.ValueOfString(str())
		case protoreflect.BytesKind:
			b := make([]byte, []int{0, 1, 3, 170, 171, 340, r.Intn(2000)}[r.Intn(7)])
			r.Read(b)
			return protoreflect.ValueOfBytes(b)
		}
		return protoreflect.Value{}
	}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if r.Intn(p) == 0 {
			continue
		}
		isMsg := fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for n := r.Intn(4); n > 0; n-- {
				k := scalar(fd.MapKey()).MapKey()
				if vd := fd.MapValue(); vd.Kind() == protoreflect.MessageKind {
					x := mp.NewValue()
					if depth > 0 {
						vnFill(r, str, x.Message(), depth-1)
					}
					mp.Set(k, x)
				} else {
					mp.Set(k, scalar(vd))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for n := r.Intn(4); n > 0; n-- {
				if isMsg {
					x := l.NewElement()
					if depth > 0 {
						vnFill(r, str, x.Message(), depth-1)
					}
					l.Append(x)
				} else {
					l.Append(scalar(fd))
				}
			}
		case isMsg:
			if depth > 0 {
				vnFill(r, str, m.Mutable(fd).Message(), depth-1)
			}
		default:
			m.Set(fd, scalar(fd))
		}
	}
}

func vnNilMsg(v *vnT, key, desc string, ms interface{}) {
	x := reflect.ValueOf(ms)
	for i := 0; i < x.Len(); i++ {
		if x.Index(i).IsNil() {
			v.Fail(key, desc, "result %d is nil", i)
			return
		}
	}
}

// arbitrary strings near the grammars
func vnHostile(v *vnT) string {
	var s string
	switch v.R.Intn(10) {
	case 0:
		b := make([]byte, v.R.Intn(40))
		v.R.Read(b)
		return string(b)
	case 1:
		l, _ := vnInLines(v)
		if len(l) > 0 {
			s = l[v.R.Intn(len(l))]
		}
	case 2:
		s = vnGenOutLine(v)
	case 3:
		s = vnForeign(v)
	case 4:
		s = v.PickS("[null]", "[{},null]", "{", "[", "[]", "{}", "[1]", "[[]]", `["x"]`, `{"HWCIDs":null}`, `[{"States":[null]}]`, `[{"Registers":[null],"States":[{"HWCIDs":[1],"HWCText":{"Formatting":10}}]}]`, `{"HWCIDs":[1],"HWCText":null}`, `[null,null,{"Command":{}}]`, `{"HWCIDs":["a"]}`, `{"Processors":{"x":1}}`, `[`+strings.Repeat("[", 2000), `[{"FlowMessage":"x"}, null, 3]`, "null", "[null", "{null}")
	case 5:
		s = v.PickS("HWCg#", "HWCgRGB#", "HWCgGray#") + v.PickS("1", ",", "1,,2", "99999999999999999999", "") + "=" + v.PickS("0", "1", "2", "99999999999999999999", "18446744073709551616") + v.PickS("", "/0,1x1", "/2,0x0,1,1", "/99999999999999999999,99999999999999999999x1", "/1,1x1,", "/") + ":" + v.PickS("", "AAAA", "!!!", "A", "AA==AA", "\x00")
	case 6:
		s = v.PickS("HWC", "HWCx", "HWCc", "HWCt", "HWCrawADCValues", "Mem", "Flag", "Shift", "State") + v.PickS("#", "#1", "#,", "#99999999999999999999", "", "A") + "=" + v.PickS("", "-", "99999999999999999999", "-99999999999999999999", "|||||||||||||||||||||||||", "\xff|\xfe", "0x10", "1e5", "|", "x")
	case 7:
		s = v.PickS("HeartBeatTimer", "DimmedGain", "SleepTimer", "PanelBrightness", "SleepMode", "SetNetworkConfig", "SetCalibrationProfile", "SimulateEnvironmentalHealth", "_networkConfig", "SysStat", "_support", "_connections", "map", "HWC#1", "LoadCPU", "Webserver") + "=" + v.PickS("", "-1", "99999999999999999999", "1,", ",1", "{", "{\"dhcp\":1}", "null", ":", "CPUUsage", "CPUUsage:", "CPUTemp:x:", "CPUTemp:NaN:", ";", "Enc:", "Enc:--", "Raw:5", "Raw", "Abs:99999999999999999999", "1:99999999999999999999")
	case 8:
		s = v.Str()
	default:
		ms := []*rwp.InboundMessage{{}}
		vnFill(v.R, func() string { return v.Str() }, ms[0].ProtoReflect(), 6)
		b, err := json.Marshal(ms)
		if err == nil {
			s = string(b)
			if v.Bool() {
				s = strings.Replace(s, v.PickS("{", "[", "1", "true", ":0"), v.PickS("null", "{", "[]", "-", "\"x\""), 1)
			}
		}
	}
	for k := v.Pick(0, 0, 1, 3); k > 0 && s != ""; k-- {
		i := v.R.Intn(len(s))
		switch v.R.Intn(4) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + string([]byte{byte(v.R.Intn(256))}) + s[i:]
		case 2:
			s = s[:i]
		default:
			s = s[:i] + s[i:] + s[i:]
			if len(s) > 4000 {
				s = s[:4000]
			}
		}
	}
	return s
}

func vnHang(v *vnT, key, desc string, f func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		v.Guard(key, desc, f)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		v.Fail(key+"-hang", desc, "no result after 20 s")
	}
}

func TestVN_C06(t *testing.T) {
	v := vnStart(t, "arbitrary and almost grammatical strings through both decoders and the streaming reader; messages with random field presence, out-of-range enums and integers, as decoded from their own wire bytes, through both encoders")
	lines := func(ls []string) {
		desc := fmt.Sprintf("%.3000q", ls)
		v.Case(desc, len(strings.Join(ls, "")) > 0)
		vnHang(v, "decoders", desc, func() {
			in := RawPanelASCIIstringsToInboundMessages(ls)
			vnNilMsg(v, "nil-inbound", desc, in)
			out := RawPanelASCIIstringsToOutboundMessages(ls)
			vnNilMsg(v, "nil-outbound", desc, out)
			ar := &ASCIIreader{}
			for _, l := range ls {
				vnNilMsg(v, "nil-reader", desc, ar.Parse(l))
			}
			if again := RawPanelASCIIstringsToInboundMessages(ls); vnJSON(in) != vnJSON(again) {
				v.Fail("unstable", desc, "two calls disagree")
			}
		})
	}
	for _, k := range vnKeywords {
		for _, s := range []string{"#1=", "=", "#=", "?", "=1", "#1=1", "=1,2", "#1=0:", "#1=0/0,1x1:", "=:"} {
			lines([]string{k + s})
		}
	}
	lines([]string{"[null]"})
	enc := func(m proto.Message) {
		b, err := proto.Marshal(m)
		if err != nil {
			return
		}
		desc := fmt.Sprintf("%T from wire bytes %x", m, b)
		v.Case(desc, len(b) > 0)
		vnHang(v, "encoders", desc, func() {
			switch m.(type) {
			case *rwp.InboundMessage:
				x := &rwp.InboundMessage{}
				if proto.Unmarshal(b, x) == nil {
					InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{x})
				}
			case *rwp.OutboundMessage:
				x := &rwp.OutboundMessage{}
				if proto.Unmarshal(b, x) == nil {
					OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{x})
				}
			}
		})
	}
	// every sub-message alone, empty and with every enumeration value
	var walk func(mk func() (proto.Message, protoreflect.Message), d int)
	walk = func(mk func() (proto.Message, protoreflect.Message), d int) {
		root, m := mk()
		enc(root)
		if d == 0 {
			return
		}
		fs := m.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			fd := fs.Get(i)
			if fd.IsMap() {
				continue
			}
			if fd.Kind() == protoreflect.MessageKind {
				walk(func() (proto.Message, protoreflect.Message) {
					r, m := mk()
					if fd.IsList() {
						return r, m.Mutable(fd).List().AppendMutable().Message()
					}
					return r, m.Mutable(fd).Message()
				}, d-1)
			} else if fd.Kind() == protoreflect.EnumKind && !fd.IsList() {
				for e := -1; e < 20; e++ {
					r, m := mk()
					m.Set(fd, protoreflect.ValueOfEnum(protoreflect.EnumNumber(e)))
					enc(r)
				}
			}
		}
	}
	walk(func() (proto.Message, protoreflect.Message) { m := &rwp.InboundMessage{}; return m, m.ProtoReflect() }, 3)
	walk(func() (proto.Message, protoreflect.Message) { m := &rwp.OutboundMessage{}; return m, m.ProtoReflect() }, 3)
	walk(func() (proto.Message, protoreflect.Message) {
		m := &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{1}}}}
		return m, m.States[0].ProtoReflect()
	}, 4)
	str := func() string {
		if v.R.Intn(3) == 0 {
			return v.PickS("", "\n", "a\nb", "|", "æ")
		}
		return strings.ToValidUTF8(v.Str(), "")
	}
	for v.more() {
		if v.Bool() {
			var ls []string
			for i := v.Pick(1, 1, 2, 4); i > 0; i-- {
				ls = append(ls, vnHostile(v))
			}
			lines(ls)
			continue
		}
		if v.Bool() {
			m := &rwp.InboundMessage{}
			vnFill(v.R, str, m.ProtoReflect(), v.R.Intn(7))
			if v.Bool() {
				for _, s := range m.States {
					if len(s.HWCIDs) == 0 {
						s.HWCIDs = []uint32{1}
					}
				}
			}
			enc(m)
		} else {
			m := &rwp.OutboundMessage{}
			vnFill(v.R, str, m.ProtoReflect(), v.R.Intn(7))
			enc(m)
		}
	}
}

// concurrent use: same results as one after another; built with the race detector
func TestVN_C06_Race(t *testing.T) {
	v := vnStart(t, "the four converters and separate streaming readers called from 8 goroutines at once under the race detector; results compared with sequential calls")
	for v.more() {
		type job struct {
			lines []string
			in    []*rwp.InboundMessage
			out   []*rwp.OutboundMessage
			want  string
		}
		run := func(j *job) string {
			ar := &ASCIIreader{}
			var st []*rwp.InboundMessage
			for _, l := range j.lines {
				st = append(st, ar.Parse(l)...)
			}
			return fmt.Sprintf("%s %s %s %q %d", vnJSON(RawPanelASCIIstringsToInboundMessages(j.lines)), vnJSON(RawPanelASCIIstringsToOutboundMessages(j.lines)), vnJSON(st),
				InboundMessagesToRawPanelASCIIstrings(j.in), len(OutboundMessagesToRawPanelASCIIstrings(j.out)))
		}
		var jobs []*job
		for i := 0; i < 24; i++ {
			j := &job{in: vnGenIn(v), out: []*rwp.OutboundMessage{vnGenOut1(v)}}
			for k := 0; k < 4; k++ {
				l, _ := vnInLines(v)
				j.lines = append(append(j.lines, l...), vnGenOutLine(v), vnHostile(v))
			}
			jobs = append(jobs, j)
		}
		v.Case(fmt.Sprintf("%.500q", jobs[0].lines), true)
		v.Mark(fmt.Sprintf("%.3000q", jobs[0].lines))
		// the concurrent calls come first: nothing may have been computed before
		var wg sync.WaitGroup
		got := make([][]string, 8)
		for g := 0; g < 8; g++ {
			got[g] = make([]string, len(jobs))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := range jobs {
					k := (i*5 + g*3) % len(jobs)
					got[g][k] = run(jobs[k])
				}
			}(g)
		}
		wg.Wait()
		for k, j := range jobs {
			j.want = run(j)
			for g := range got {
				if got[g][k] != j.want {
					v.Fail("concurrent", fmt.Sprintf("%.2000q %s", j.lines, vnJSON(j.in)), "concurrent result %.1000s differs from the sequential one %.1000s", got[g][k], j.want)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C07

func vnSquash(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

func TestVN_C07(t *testing.T) {
	v := vnStart(t, "messages whose text fields contain line feeds at arbitrary positions; every produced string is one line, and the flattened payloads keep their non-whitespace characters in order")
	str := func() string {
		s := vnTextStr(v, "")
		for k := v.Pick(0, 1, 1, 2, 5); k > 0; k-- {
			i := v.R.Intn(len(s) + 1)
			s = s[:i] + v.PickS("\n", "\n", "\n\n", " \n", "\r\n", "\n\t") + s[i:]
		}
		return strings.ToValidUTF8(s, "?")
	}
	framed := func(desc string, lines []string) {
		for _, l := range lines {
			if strings.Contains(l, "\n") {
				v.Fail("line-feed", desc, "the string %.300q contains a line feed", l)
				return
			}
		}
	}
	flat := func(field, pre, s string, mk func(s string) []string) {
		desc := field + " " + fmt.Sprintf("%q", s)
		v.Case(desc, strings.Contains(s, "\n"))
		v.Guard("panic", desc, func() {
			ls := mk(s)
			framed(desc, ls)
			n := 0
			for _, l := range ls {
				if strings.HasPrefix(l, pre) {
					n++
					if got := vnSquash(l[len(pre):]); got != vnSquash(s) {
						v.Fail("content-"+field, desc, "flattened to %.500q", l[len(pre):])
					}
				}
			}
			if n != 1 {
				v.Fail("missing-"+field, desc, "%d lines start with %s", n, pre)
			}
		})
	}
	out := func(m *rwp.OutboundMessage) []string {
		return OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m})
	}
	all := func(s string) {
		flat("svg", "_panelTopology_svgbase=", s, func(s string) []string { return out(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: s}}) })
		flat("topology", "_panelTopology_HWC=", s, func(s string) []string { return out(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: s}}) })
		flat("burnin", "_burninProfile=", s, func(s string) []string { return out(&rwp.OutboundMessage{BurninProfile: &rwp.BurninProfile{Json: s}}) })
		flat("calibration", "_calibrationProfile=", s, func(s string) []string {
			return out(&rwp.OutboundMessage{CalibrationProfile: &rwp.CalibrationProfile{Json: s}})
		})
		flat("default-calibration", "_defaultCalibrationProfile=", s, func(s string) []string {
			return out(&rwp.OutboundMessage{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: s}})
		})
		flat("error", "ErrorMsg=", s, func(s string) []string { return out(&rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: s}}) })
		flat("message", "Msg=", s, func(s string) []string { return out(&rwp.OutboundMessage{Message: &rwp.Message{Message: s}}) })
		flat("set-calibration", "SetCalibrationProfile=", s, func(s string) []string {
			return InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: s}}}})
		})
	}
	svg := `<svg width="10"><path d="M 0 0 L 10 10 z" fill='#fff'/><text x="1">Some <b>text</b> here</text></svg>`
	js := `{"a": "b c", "list": [1, 2, {"x": null}], "s": ">"}`
	for _, d := range []string{svg, js, "a", "ab", "", "> <"} {
		for i := 0; i <= len(d); i++ {
			all(d[:i] + "\n" + d[i:])
			all(d[:i] + "\r\n  " + d[i:])
		}
	}
	for i := 0; i < len(svg); i += 3 {
		for j := i; j < len(svg); j += 5 {
			s := svg[:i] + "\n" + svg[i:j] + "\n" + svg[j:]
			flat("svg", "_panelTopology_svgbase=", s, func(s string) []string { return out(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: s}}) })
		}
	}
	for v.more() {
		switch v.R.Intn(3) {
		case 0:
			s := str()
			if v.Bool() {
				s = svg
				for k := 1 + v.R.Intn(8); k > 0; k-- {
					i := v.R.Intn(len(s) + 1)
					s = s[:i] + v.PickS("\n", "\n", "\n  ", "\t\n", "\n\n") + s[i:]
				}
			}
			all(s)
		case 1:
			m := &rwp.InboundMessage{}
			vnFill(v.R, str, m.ProtoReflect(), v.R.Intn(7))
			for _, s := range m.States {
				if len(s.HWCIDs) == 0 {
					s.HWCIDs = []uint32{1}
				}
			}
			desc := vnJSON(m)
			v.Case(desc, strings.Contains(desc, `\n`))
			v.Guard("panic", desc, func() { framed(desc, InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m})) })
		default:
			m := &rwp.OutboundMessage{}
			vnFill(v.R, str, m.ProtoReflect(), v.R.Intn(7))
			desc := vnJSON(m)
			v.Case(desc, strings.Contains(desc, `\n`))
			v.Guard("panic", desc, func() { framed(desc, out(m)) })
		}
	}
}
