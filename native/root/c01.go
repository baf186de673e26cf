package rawpanellib

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"unicode/utf8"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

func sortStrings(s []string) { sort.Strings(s) }
func validUTF8(s *rwp.HWCState) bool {
	t := s.HWCText
	return t == nil || utf8.ValidString(t.Title+t.Textline1+t.Textline2)
}

// messages -> lines -> independent reading
func TestVN_C01(t *testing.T) {
	v := vnStart(t, "random system-to-panel messages over the ASCII-representable domain; their lines are read by an independent implementation of the grammar")
	check := func(ms []*rwp.InboundMessage) {
		desc := vnJSON(ms)
		nontriv := false
		var effs [][]vnEff
		for _, m := range ms {
			e := vnInMsg(m)
			nontriv = nontriv || len(e) > 0
			effs = append(effs, e)
		}
		v.Case(desc, nontriv)
		v.Guard("panic", desc, func() {
			cp := proto.Clone
			var keep []*rwp.InboundMessage
			for _, m := range ms {
				keep = append(keep, cp(m).(*rwp.InboundMessage))
			}
			lines := InboundMessagesToRawPanelASCIIstrings(ms)
			var read []vnEff
			r := &vnReader{}
			for _, l := range lines {
				e, ok := r.line(l)
				if !ok {
					v.Fail("unreadable", desc, "the line %.300q is not part of the grammar", l)
					return
				}
				read = append(read, e...)
			}
			if d := vnSameEff(read, effs); d != "" {
				v.Fail("effect", desc, "%s; lines %.400q", d, lines)
			}
			for i := range ms {
				if !proto.Equal(ms[i], keep[i]) {
					v.Fail("mutated", desc, "the encoder changed message %d", i)
				}
			}
		})
	}
	// systematic part
	st := func(s *rwp.HWCState) { check([]*rwp.InboundMessage{{States: []*rwp.HWCState{s}}}) }
	for s := 0; s < 6; s++ {
		for b := 0; b < 16; b++ {
			st(&rwp.HWCState{HWCIDs: []uint32{7}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(s), Output: b%2 == s%2, BlinkPattern: uint32(b)}})
			st(&rwp.HWCState{HWCIDs: []uint32{7, 8}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(s), Output: b%2 != s%2, BlinkPattern: uint32(b)}})
		}
	}
	for i := 0; i < 32; i++ {
		st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i)}}})
		st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCText: &rwp.HWCText{Title: "t", PixelColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i)}}}})
		st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCText: &rwp.HWCText{Title: "t", BackgroundColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(i)}}}})
	}
	for i := 0; i < 256; i++ {
		a := uint32(i)
		for _, c := range []*rwp.ColorRGB{{Red: a}, {Green: a}, {Blue: a}, {Red: a, Green: 255 - a, Blue: a / 2}} {
			st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCColor: &rwp.HWCColor{ColorRGB: c}})
			st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCText: &rwp.HWCText{Title: "t", PixelColor: &rwp.Color{ColorRGB: c}}})
		}
	}
	for i := 0; i < 16; i++ {
		for _, x := range []uint32{0, 1, 255, 256, 2047, 2048, 4094, 4095} {
			st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCExtended: &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(i), Value: x}})
		}
	}
	for n := 1; n <= 520; n++ {
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(i*7 + n)
		}
		st(&rwp.HWCState{HWCIDs: []uint32{3}, HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(n % 3), W: 64, H: 32, XYoffset: n%2 == 0, X: uint32(n % 4 * (1 - n%2)), ImageData: d}})
	}
	for v.more() {
		check(vnGenIn(v))
	}
}

// lines -> messages
func TestVN_C02(t *testing.T) {
	v := vnStart(t, "sequences of well-formed system-to-panel lines in all legal spellings, with foreign lines in between; the decoded messages are compared with an independent reading, in one call and line by line")
	check := func(lines []string, effs []vnEff) {
		desc := fmt.Sprintf("%q", lines)
		v.Case(desc, len(effs) > 0)
		v.Guard("panic", desc, func() {
			cmp := func(how string, ms []*rwp.InboundMessage, want []vnEff) {
				var got []vnEff
				for _, m := range ms {
					got = append(got, vnInMsg(m)...)
				}
				for i := 0; i < len(got) || i < len(want); i++ {
					if i >= len(got) {
						v.Fail(how+"-missing", desc, "%s: the effect %.300q is missing", how, want[i].s)
						return
					}
					if i >= len(want) {
						v.Fail(how+"-extra", desc, "%s: additional effect %.300q", how, got[i].s)
						return
					}
					if got[i] != want[i] {
						v.Fail(how+"-effect", desc, "%s: effect %d is %.300q, expected %.300q", how, i, got[i].s, want[i].s)
						return
					}
				}
			}
			cmp("decode", RawPanelASCIIstringsToInboundMessages(lines), effs)
			for _, l := range lines {
				if strings.TrimSpace(l) != l {
					return // the streaming reader strips white space around lines
				}
			}
			ar := &ASCIIreader{}
			var ms []*rwp.InboundMessage
			for _, l := range lines {
				ms = append(ms, ar.Parse(l)...)
			}
			cmp("stream", ms, effs)
		})
	}
	one := func(l string) {
		e, ok := (&vnReader{}).line(l)
		if !ok {
			t.Fatal(l)
		}
		check([]string{l}, e)
	}
	for i := 0; i < 65536; i += 1 + v.R.Intn(7) {
		one(fmt.Sprintf("HWC#1=%d", i))
		one(fmt.Sprintf("HWCx#1=%d", i))
		if i < 512 || i%37 == 0 {
			one(fmt.Sprintf("HWCc#1=%d", i))
		}
	}
	for i := 0; i < 256; i++ {
		one(fmt.Sprintf("HWCt#1=5||%d|T|||||||||||%d|%d|%d||%d|%d", i%64, i%128, i, i%32, i%128, (i+64)%128))
	}
	for v.more() {
		var lines []string
		var effs []vnEff
		for i := v.Pick(1, 1, 2, 3, 5); i > 0; i-- {
			if v.R.Intn(4) == 0 {
				f := vnForeign(v)
				if _, known := (&vnReader{}).line(f); !known && !strings.HasPrefix(f, "{") && !strings.HasPrefix(f, "[") {
					lines = append(lines, f)
				}
				continue
			}
			l, e := vnInLines(v)
			lines, effs = append(lines, l...), append(effs, e...)
		}
		check(lines, effs)
	}
}
