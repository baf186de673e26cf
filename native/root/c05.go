package rawpanellib

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

// one line of a history: a chunk line (key != "") or a marker line
type vnChunk struct {
	key, ids string
	idx      int
	max      int // chunk 0 only
	hdr      string
	w, h     uint32
	off      bool
	x, y     uint32
	fill     int // additional payload bytes
}

func (c vnChunk) line(pos int) string {
	if c.key == "" {
		return fmt.Sprintf("HWCx#%d=%d", 1000000+pos, pos&0xfff)
	}
	return fmt.Sprintf("%s#%s=%d%s:%s", c.key, c.ids, c.idx, c.hdr, base64.StdEncoding.EncodeToString(c.bytes(pos)))
}
func (c vnChunk) bytes(pos int) []byte {
	b := make([]byte, 4, 4+c.fill)
	binary.BigEndian.PutUint32(b, uint32(pos))
	for i := 0; i < c.fill; i++ {
		b = append(b, byte(i*7+pos))
	}
	return b
}

var vnGfxTypes = map[string]rwp.HWCGfx_ImageTypeE{"HWCg": rwp.HWCGfx_MONO, "HWCgRGB": rwp.HWCGfx_RGB16bit, "HWCgGray": rwp.HWCGfx_Gray4bit}

// checks one history under one feeding discipline
func vnHistory(v *vnT, how string, hist []vnChunk, feed func(lines []string, got func(pos int, ms []*rwp.InboundMessage))) {
	var lines []string
	for i, c := range hist {
		lines = append(lines, c.line(i))
	}
	desc := fmt.Sprintf("%s %.1500q", how, lines)
	type img struct {
		g    *rwp.HWCGfx
		keep *rwp.HWCGfx
		last int
	}
	var imgs []img
	used := map[int]bool{}
	done := map[int]bool{} // last lines of delivered images
	bad := false
	fail := func(key, f string, a ...interface{}) {
		bad = true
		v.Fail(how+"-"+key, desc, f, a...)
	}
	prev := -1 // position of the last effect seen
	v.Guard(how+"-panic", desc, func() {
		feed(lines, func(pos int, ms []*rwp.InboundMessage) {
			for _, m := range ms {
				if m == nil {
					fail("nil", "a nil message was returned")
					return
				}
				for _, s := range m.States {
					if s.HWCExtended != nil && len(s.HWCIDs) == 1 && s.HWCIDs[0] >= 1000000 {
						p := int(s.HWCIDs[0] - 1000000)
						if p <= prev {
							fail("order", "the line %d took effect after line %d", p, prev)
							return
						}
						prev = p
						continue
					}
					g := s.HWCGfx
					if g == nil {
						fail("other", "unexpected state %s", vnJSON(s))
						return
					}
					// which lines does the image consist of?
					d := g.ImageData
					var at []int
					for len(d) > 0 {
						if len(d) < 4 || binary.BigEndian.Uint32(d) >= uint32(len(hist)) {
							fail("bytes", "delivered image bytes are no sequence of complete chunks")
							return
						}
						p := int(binary.BigEndian.Uint32(d))
						c := hist[p]
						if b := c.bytes(p); c.key == "" || len(d) < len(b) || string(d[:len(b)]) != string(b) {
							fail("bytes", "delivered image bytes are no sequence of complete chunks")
							return
						}
						d = d[4+c.fill:]
						at = append(at, p)
					}
					if len(at) == 0 || hist[at[0]].idx != 0 {
						fail("start", "delivered image consists of the lines %v", at)
						return
					}
					c0 := hist[at[0]]
					for k, p := range at {
						c := hist[p]
						if c.key != c0.key || c.ids != c0.ids || c.idx != k || k > 0 && p <= at[k-1] {
							fail("mixed", "delivered image consists of the lines %v", at)
							return
						}
						if used[p] {
							fail("twice", "line %d is part of two delivered images", p)
							return
						}
						used[p] = true
						if k > 0 {
							for q := at[k-1] + 1; q < p; q++ {
								if hist[q].key == c0.key && hist[q].ids == c0.ids && hist[q].idx == 0 {
									fail("transfer", "delivered image consists of the lines %v, but line %d starts another transfer", at, q)
									return
								}
							}
						}
					}
					last := at[len(at)-1]
					if len(at) != c0.max+1 {
						fail("count", "delivered image consists of the lines %v, %d chunks were announced", at, c0.max+1)
						return
					}
					if pos >= 0 && last != pos || last <= prev {
						fail("when", "the image with last line %d was delivered at line %d (after the effect of line %d)", last, pos, prev)
						return
					}
					prev = last
					done[last] = true
					var want []uint32
					for _, i := range strings.Split(c0.ids, ",") {
						want = append(want, uint32(vnNum(i)))
					}
					if fmt.Sprint(want) != fmt.Sprint(s.HWCIDs) || g.ImageType != vnGfxTypes[c0.key] || g.W != c0.w || g.H != c0.h || g.XYoffset != c0.off || g.X != c0.x || g.Y != c0.y {
						fail("header", "delivered image %v for %v does not match its header line %.100q", vnJSON(g), s.HWCIDs, lines[at[0]])
						return
					}
					imgs = append(imgs, img{g, proto.Clone(g).(*rwp.HWCGfx), last})
				}
			}
		})
	})
	if bad {
		return
	}
	for _, i := range imgs {
		if !proto.Equal(i.g, i.keep) {
			v.Fail(how+"-altered", desc, "the image delivered at line %d was altered afterwards", i.last)
			return
		}
	}
	// clean runs
	clean := 0
	for i := 0; i < len(hist); i++ {
		if hist[i].key == "" || hist[i].idx != 0 {
			continue
		}
		c0, n, j := hist[i], 0, i
		for ; j < len(hist); j++ {
			if hist[j].key == "" {
				continue
			}
			if hist[j].key != c0.key || hist[j].ids != c0.ids || hist[j].idx != n || j > i && n == 0 {
				break
			}
			if n == c0.max {
				clean++
				if !done[j] {
					v.Fail(how+"-lost", desc, "the lines %d..%d are a clean transfer, but no image was delivered", i, j)
					return
				}
				break
			}
			n++
		}
	}
	v.Case(desc, clean > 0 || len(imgs) > 0)
}

func vnFeeds(v *vnT, hist []vnChunk) {
	vnHistory(v, "batch", hist, func(lines []string, got func(int, []*rwp.InboundMessage)) {
		got(-1, RawPanelASCIIstringsToInboundMessages(lines))
	})
	vnHistory(v, "stream", hist, func(lines []string, got func(int, []*rwp.InboundMessage)) {
		ar := &ASCIIreader{}
		for i, l := range lines {
			got(i, ar.Parse(l))
		}
	})
	every := v.R.Intn(2) == 0
	vnHistory(v, "restored", hist, func(lines []string, got func(int, []*rwp.InboundMessage)) {
		state := []byte("{}")
		ar := &ASCIIreader{}
		for i, l := range lines {
			if every || v.Bool() {
				state, _ = json.Marshal(ar)
				ar = &ASCIIreader{}
				if err := json.Unmarshal(state, ar); err != nil {
					v.Fail("state", string(state), "%v", err)
				}
			}
			got(i, ar.Parse(l))
		}
	})
}

func vnHead(c vnChunk, max int, off bool) vnChunk {
	c.idx, c.max = 0, max
	if max == 2 && c.fill%2 == 1 {
		c.w, c.h = 64, 32
		return c
	}
	c.w, c.h = uint32(8+max), uint32(1+max)
	c.hdr = fmt.Sprintf("/%d,%dx%d", max, c.w, c.h)
	if off {
		c.off, c.x, c.y = true, uint32(max), uint32(max*3)
		c.hdr += fmt.Sprintf(",%d,%d", c.x, c.y)
	}
	return c
}

func TestVN_C05(t *testing.T) {
	v := vnStart(t, "histories of chunk lines (every payload tagged with its line number) and marker lines, fed as one batch, line by line, and line by line with the reader's state passed through JSON; plus images split by the encoder itself")
	keys := []string{"HWCg", "HWCgRGB", "HWCgGray"}
	// images written by the encoder
	encoded := func(n int, typ rwp.HWCGfx_ImageTypeE, off bool, ids []uint32) {
		d := make([]byte, n)
		v.R.Read(d)
		g := &rwp.HWCGfx{ImageType: typ, W: uint32(v.R.Intn(500)), H: uint32(v.R.Intn(500)), ImageData: d}
		if off {
			g.XYoffset, g.X, g.Y = true, uint32(v.R.Intn(100)), uint32(v.R.Intn(100))
		}
		desc := fmt.Sprintf("%d bytes of type %d for %v", n, typ, ids)
		v.Case(desc, true)
		v.Guard("encoded-panic", desc, func() {
			lines := InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: ids, HWCGfx: g}}}})
			for _, l := range lines {
				p := l[strings.LastIndexByte(l, ':')+1:]
				if b, err := base64.StdEncoding.DecodeString(p); err != nil || len(b) > 170 {
					v.Fail("chunk-size", desc, "the line %.300q carries %d payload bytes (%v)", l, len(b), err)
					return
				}
			}
			var got []string
			collect := func(ms []*rwp.InboundMessage) {
				for _, m := range ms {
					for _, s := range m.GetStates() {
						for _, id := range s.HWCIDs {
							if !proto.Equal(s.HWCGfx, g) {
								v.Fail("encoded", desc, "the image came back as %.300s", vnJSON(s.HWCGfx))
								return
							}
							got = append(got, fmt.Sprint(id))
						}
					}
				}
			}
			same := func(how string) {
				want := ids
				if n == 0 {
					want = nil
				}
				if strings.Join(got, " ") != strings.Trim(fmt.Sprint(want), "[]") {
					v.Fail("encoded-"+how, desc, "%s: images were delivered for %v", how, got)
				}
				got = nil
			}
			collect(RawPanelASCIIstringsToInboundMessages(lines))
			same("batch")
			ar, br := &ASCIIreader{}, &ASCIIreader{}
			for _, l := range lines {
				collect(ar.Parse(l))
			}
			same("stream")
			for _, l := range lines {
				st, _ := json.Marshal(br)
				br = &ASCIIreader{}
				json.Unmarshal(st, br)
				collect(br.Parse(l))
				br.Parse("HWC#1=5")
			}
			same("restored")
		})
	}
	for n := 0; n <= 1050; n++ {
		encoded(n, rwp.HWCGfx_ImageTypeE(n%3), n%2 == 1, []uint32{uint32(n), 77}[:1+n%2])
	}
	for _, n := range []int{170 * 10, 170*10 - 1, 170*10 + 1, 170*11 + 1, 4000, 8192, 170*99 + 1, 170 * 100, 170*100 + 1, 170*127 + 1, 170 * 129, 170*255 + 1, 170 * 257, 65536, 131072} {
		encoded(n, 1, false, []uint32{3, 4, 5})
	}
	// all short histories over a small alphabet
	base := vnChunk{key: "HWCg", ids: "1", fill: 2}
	other := vnChunk{key: "HWCg", ids: "2", fill: 2}
	rgb := vnChunk{key: "HWCgRGB", ids: "1", fill: 2}
	ch := func(c vnChunk, i int) vnChunk { c.idx = i; return c }
	alpha := []vnChunk{vnHead(base, 2, false), ch(base, 1), ch(base, 2), ch(base, 3), vnHead(base, 1, true), vnHead(other, 1, false), ch(other, 1), ch(rgb, 1), vnHead(rgb, 0, false), {}}
	var rec func(h []vnChunk, n int)
	rec = func(h []vnChunk, n int) {
		if n == 0 || !v.more() {
			if len(h) > 0 {
				vnFeeds(v, h)
			}
			return
		}
		for _, a := range alpha {
			rec(append(h[:len(h):len(h)], a), n-1)
		}
	}
	for n := 1; n <= 4; n++ {
		rec(nil, n)
	}
	// random longer histories
	for v.more() {
		ids := []string{"1", "2", "1,2", "12"}[:v.Pick(1, 2, 4)]
		nk := v.Pick(1, 2, 3)
		var h []vnChunk
		for n := v.Pick(3, 6, 10, 20, 40); len(h) < n; {
			c := vnChunk{key: keys[v.R.Intn(nk)], ids: ids[v.R.Intn(len(ids))], fill: v.Pick(0, 1, 2, 10, 166)}
			max := v.Pick(0, 1, 2, 2, 3, 5, 12)
			if v.R.Intn(60) == 0 {
				max = v.Pick(99, 130, 260)
			}
			if v.R.Intn(3) == 0 { // a single line
				if v.Bool() {
					h = append(h, vnHead(c, max, v.Bool()))
				} else {
					c.idx = v.R.Intn(max + 2)
					if c.idx == 0 {
						c = vnChunk{}
					}
					h = append(h, c)
				}
				continue
			}
			// a transfer with an accident
			run := []vnChunk{vnHead(c, max, v.Bool())}
			for i := 1; i <= max; i++ {
				d := c
				d.idx, d.fill = i, v.Pick(0, 1, 2, 10, 166)
				run = append(run, d)
			}
			for k := v.Pick(0, 0, 1, 2); k > 0; k-- {
				i := v.R.Intn(len(run))
				switch v.R.Intn(6) {
				case 0:
					run = append(run[:i:i], run[i+1:]...)
				case 1:
					run = append(run[:i:i], append([]vnChunk{run[i]}, run[i:]...)...)
				case 2:
					j := v.R.Intn(len(run))
					run[i], run[j] = run[j], run[i]
				case 3:
					d := run[i]
					d.ids = v.PickS("1", "2", "9")
					run = append(run[:i:i], append([]vnChunk{d}, run[i:]...)...)
				case 4:
					d := run[i]
					d.key = keys[v.R.Intn(3)]
					run = append(run[:i:i], append([]vnChunk{d}, run[i:]...)...)
				default:
					d := c
					d.idx = max + 1 + v.R.Intn(2)
					run = append(run, d)
				}
				if len(run) == 0 {
					break
				}
			}
			for _, r := range run {
				if v.R.Intn(6) == 0 {
					h = append(h, vnChunk{})
				}
				h = append(h, r)
			}
		}
		vnFeeds(v, h)
	}
}
