package topology

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// an XML element as an independent reader sees it: prefixes kept, text in document order between the children
type vnEl struct {
	name  string
	attrs map[string]string
	order []string
	kids  []*vnEl
	text  []string // text[i]: before child i; last: after the children
}

func vnXMLName(n xml.Name) string {
	if n.Space != "" {
		return n.Space + ":" + n.Local
	}
	return n.Local
}

// vnReadXML: one well-formed document, every attribute name at most once per element
func vnReadXML(s string) (*vnEl, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var root *vnEl
	var st []*vnEl
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch k := t.(type) {
		case xml.StartElement:
			e := &vnEl{name: vnXMLName(k.Name), attrs: map[string]string{}, text: []string{""}}
			for _, a := range k.Attr {
				n := vnXMLName(a.Name)
				if _, ok := e.attrs[n]; ok {
					return nil, fmt.Errorf("attribute %s twice in %s", n, e.name)
				}
				e.attrs[n] = a.Value
				e.order = append(e.order, n)
			}
			if len(st) > 0 {
				p := st[len(st)-1]
				p.kids = append(p.kids, e)
				p.text = append(p.text, "")
			} else if root != nil {
				return nil, fmt.Errorf("two root elements")
			} else {
				root = e
			}
			st = append(st, e)
		case xml.EndElement:
			if len(st) == 0 || st[len(st)-1].name != vnXMLName(k.Name) {
				return nil, fmt.Errorf("unexpected end element %s", vnXMLName(k.Name))
			}
			st = st[:len(st)-1]
		case xml.CharData:
			if len(st) > 0 {
				p := st[len(st)-1]
				p.text[len(p.text)-1] += string(k)
			} else if strings.TrimSpace(string(k)) != "" {
				return nil, fmt.Errorf("text outside the root element")
			}
		}
	}
	if len(st) > 0 || root == nil {
		return nil, fmt.Errorf("unexpected end")
	}
	return root, nil
}
func (e *vnEl) all() string { return strings.Join(e.text, "") }
func (e *vnEl) mixed() bool {
	for i, t := range e.text {
		if i < len(e.text)-1 && strings.TrimSpace(t) != "" {
			return true
		}
	}
	for _, k := range e.kids {
		if k.mixed() {
			return true
		}
	}
	return false
}

// vnKept: what differs between a base element and the same element of the result
func vnKept(a, b *vnEl, kids int) string {
	if a.name != b.name {
		return fmt.Sprintf("element %s became %s", a.name, b.name)
	}
	if len(a.attrs) != len(b.attrs) {
		return fmt.Sprintf("%s: attributes %q became %q", a.name, a.order, b.order)
	}
	for n, v := range a.attrs {
		if w, ok := b.attrs[n]; !ok || v != w {
			return fmt.Sprintf("%s: attribute %s=%q became %q", a.name, n, v, w)
		}
	}
	if x, y := strings.TrimSpace(a.all()), strings.TrimSpace(b.all()); x != y {
		return fmt.Sprintf("%s: text %q became %q", a.name, x, y)
	}
	if len(a.kids) != kids {
		return fmt.Sprintf("%s has %d children, %d in the result", a.name, len(a.kids), kids)
	}
	for i := range a.kids {
		if d := vnKept(a.kids[i], b.kids[i], len(b.kids[i].kids)); d != "" {
			return d
		}
		if x, y := strings.TrimSpace(a.text[i]), strings.TrimSpace(b.text[i]); x != y {
			return fmt.Sprintf("mixed content of %s: text %q before child %d became %q", a.name, x, i, y)
		}
	}
	return ""
}

func vnBase(v *vnT, depth int) string {
	attrs := func() string {
		s := ""
		for i, n := range v.R.Perm(10)[:v.R.Intn(4)] {
			_ = i
			s += []string{` x="1"`, "\n\ty='2'", ` d="M 0 0&#10;L 1 1"`, ` style="fill:#fff; stroke:none"`, " class=\"a\n b\"", ` data-t="&lt;&amp;&quot;'&gt;"`, ` id="g1"`, ` transform="rotate(1)"`, ` xlink:href="#a"`, ` href="#a"`}[n]
		}
		return s
	}
	s := ""
	for n := v.R.Intn(4); n > 0; n-- {
		switch k := v.R.Intn(9); {
		case k < 3 && depth > 0:
			s += "<g" + attrs() + ">" + vnBase(v, depth-1) + "</g>"
		case k == 3:
			s += "<text" + attrs() + ">" + v.PickS("Label", "a &lt; b", " x ", "<![CDATA[1<2]]>") + "</text>"
		case k == 4:
			s += v.PickS("<!-- a comment -->", "\n\n  ", "<!---->")
		case k == 5:
			s += v.PickS("<style>.a{fill:red}</style>", "<style>.a{}<!-- x -->.b{}</style>", "<defs/>", "<title>T</title>", "<inkscape:grid a=\"1\"/>")
		case k == 6 && v.R.Intn(6) == 0:
			s += "<text>one<tspan>two</tspan>" + v.PickS("", "three", " ") + "</text>"
		default:
			s += "<" + v.PickS("path", "rect", "circle", "use") + attrs() + v.PickS("/>", " />", "></path>")
			if strings.HasSuffix(s, "></path>") {
				i := strings.LastIndex(s, "<")
				j := strings.LastIndex(s[:i], "<")
				s = s[:i] + "</" + strings.FieldsFunc(s[j+1:i], func(r rune) bool { return r == ' ' || r == '>' || r == '\n' })[0] + ">"
			}
		}
	}
	return s
}
func vnSvg(v *vnT) string {
	s := v.PickS("", "", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version=\"1.0\"?><!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n", "<!-- c -->")
	root := v.PickS(`<svg>`, `<svg width="100" height="200" viewBox="0 0 100 200">`, "<svg xmlns=\"http://www.w3.org/2000/svg\"\n\txmlns:xlink=\"http://www.w3.org/1999/xlink\"\n\tviewBox=\"0 0 10 10\" >", `<svg xmlns="http://www.w3.org/2000/svg" xmlns:svg="http://www.w3.org/2000/svg" xml:space="preserve">`)
	switch v.R.Intn(8) {
	case 0:
		return s + v.PickS("<svg/>", "<svg></svg>", "<svg  />\n")
	case 1: // invalid
		return v.PickS("", " ", "no xml", "<", "<svg", "<svg>", "<svg><g></svg>", "</svg>", "<svg></svg></svg>", "<svg a=1></svg>", "<svg>&nope;</svg>", "<!-- only a comment -->", "<?xml version=\"1.0\"?>", "<svg></g>", "<svg a=\"<\"/>", "\x00", "<svg>\x01</svg>", "<svg>"+v.Str(), v.Str())
	}
	return s + root + vnBase(v, 3) + "</svg>" + v.PickS("", "\n", "<!-- end -->")
}

func vnAttr(e *vnEl, names ...string) string {
	s := e.name
	for _, n := range names {
		if x, ok := e.attrs[n]; ok {
			s += " " + n + "=" + x
		}
	}
	return s
}

// text as XML can carry it
func vnChars(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF {
			return r
		}
		return 0xFFFD
	}, s)
}
func vnCentre(pos, size int) string { return strconv.Itoa(pos - size/2) }

func vnRot(deg float64, x, y int) string {
	if deg == 0 {
		return ""
	}
	return fmt.Sprintf(" rotated %.3f about %d,%d", deg, x, y)
}
func vnRotOf(e *vnEl) string {
	t, ok := e.attrs["transform"]
	if !ok {
		return ""
	}
	var d float64
	var x, y int
	if n, _ := fmt.Sscanf(t, "rotate(%f %d %d)", &d, &x, &y); n != 3 {
		return " transform " + t
	}
	return vnRot(d, x, y)
}

// what the generated part of the document must contain
func vnExpect(t *Topology, m map[uint32]uint32, labels, ids, types, disp bool) []string {
	var out []string
	for i := range t.HWc {
		c := &t.HWc[i]
		if m != nil && m[c.Id] == 0 {
			continue
		}
		d := vnResolve(t, c)
		rot := vnRot(float64(d.Rotate), c.X, c.Y)
		if d.H > 0 {
			out = append(out, fmt.Sprintf("main HWc%d rect x=%s y=%s width=%d height=%d%s", c.Id, vnCentre(c.X, d.W), vnCentre(c.Y, d.H), d.W, d.H, rot))
		} else {
			out = append(out, fmt.Sprintf("main HWc%d circle cx=%d cy=%d r=%d%s", c.Id, c.X, c.Y, d.W/2, rot))
		}
		for _, s := range d.Sub {
			switch s.ObjType {
			case "r":
				x := fmt.Sprintf("sub rect x=%d y=%d width=%d height=%d", c.X+s.X, c.Y+s.Y, s.W, s.H)
				if s.Rx != 0 {
					x += fmt.Sprintf(" rx=%d", s.Rx)
				}
				if s.Ry != 0 {
					x += fmt.Sprintf(" ry=%d", s.Ry)
				}
				if s.Style != "" {
					x += " style=" + vnChars(s.Style)
				}
				out = append(out, x+rot)
			case "c":
				x := fmt.Sprintf("sub circle cx=%d cy=%d r=%d", c.X+s.X, c.Y+s.Y, s.R)
				if s.Rx != 0 {
					x += fmt.Sprintf(" rx=%d", s.Rx)
				}
				if s.Ry != 0 {
					x += fmt.Sprintf(" ry=%d", s.Ry)
				}
				if s.Style != "" {
					x += " style=" + vnChars(s.Style)
				}
				out = append(out, x+rot)
			}
		}
		opts := map[string]bool{}
		for _, o := range strings.Split(d.Render, ",") {
			opts[o] = true
		}
		if labels || opts["txt"] {
			l := strings.Split(c.Txt, "|")
			n := 1
			if len(l) > 1 && l[1] != "" {
				n = 2
			}
			for _, s := range l[:n] {
				out = append(out, fmt.Sprintf("label at x=%d: %q", c.X, vnChars(s)))
			}
		}
		if types {
			out = append(out, fmt.Sprintf("text %q", fmt.Sprintf("[TYPE=%d]", c.Type)))
		}
		if disp && d.Disp != nil {
			s := fmt.Sprintf("%dx%d", d.Disp.W, d.Disp.H)
			if d.Disp.Type != "" {
				s += " " + d.Disp.Type
			}
			out = append(out, fmt.Sprintf("text %q", vnChars(s)))
		}
		if ids || opts["hwcid"] {
			out = append(out, fmt.Sprintf("id text %d%s", c.Id, rot))
		}
	}
	sort.Strings(out)
	return out
}
func vnFound(es []*vnEl, exp []string) []string {
	var out []string
	for _, e := range es {
		var s string
		switch id, has := e.attrs["id"]; {
		case has:
			if e.name == "rect" {
				s = "main " + id + " " + vnAttr(e, "x", "y", "width", "height")
			} else {
				s = "main " + id + " " + vnAttr(e, "cx", "cy", "r")
			}
			s += vnRotOf(e)
		case e.name == "rect":
			s = "sub " + vnAttr(e, "x", "y", "width", "height", "rx", "ry", "style") + vnRotOf(e)
		case e.name == "circle":
			s = "sub " + vnAttr(e, "cx", "cy", "r", "rx", "ry", "style") + vnRotOf(e)
		case e.name == "text" && e.attrs["font-size"] == "30":
			s = fmt.Sprintf("label at x=%s: %q", e.attrs["x"], e.all())
		case e.name == "text" && e.attrs["font-size"] == "20" && !strings.HasPrefix(e.all(), "["):
			s = "id text " + e.all() + vnRotOf(e)
		default:
			s = fmt.Sprintf("text %q", e.all())
		}
		if len(e.kids) > 0 {
			s += fmt.Sprintf(" with %d children", len(e.kids))
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func TestVN_C15(t *testing.T) {
	v := vnStart(t, "random topologies, availability maps (nil, empty, random subsets masked), render options and base SVG documents (minimal, nested, multi-line attributes, name spaces, CDATA, comments, invalid); the result is read back by an independent XML reader, its base part compared with the base document and its added part with the expected shapes as multisets")
	for v.more() {
		top := vnTop(v)
		js := top.ToJSON()
		svg := vnSvg(v)
		var m map[uint32]uint32
		if v.Bool() {
			m = map[uint32]uint32{}
			for _, c := range top.HWc {
				switch v.R.Intn(3) {
				case 0:
					m[c.Id] = c.Id
				case 1:
					m[c.Id] = uint32(v.Pick(0, 0, 1, 77))
				}
			}
		}
		if v.R.Intn(20) == 0 {
			js = v.PickS("", "null", "[]", "{", js[:len(js)/2], "{\"HWc\":3}")
		}
		labels, ids, types, disp := v.Bool(), v.Bool(), v.R.Intn(3) == 0, v.R.Intn(3) == 0
		if v.R.Intn(3) == 0 {
			labels, ids, types, disp = true, true, false, false
		}
		in := fmt.Sprintf("svg %q map %v labels=%v ids=%v types=%v displays=%v topology %s", svg, m, labels, ids, types, disp, js)
		v.Case(in, len(top.HWc) > 0)
		v.Guard("panic", in, func() {
			want := &Topology{}
			json.Unmarshal([]byte(js), want)
			base, berr := vnReadXML(svg)
			doc := GenerateCompositeSVGdoc(js, svg, m, labels, ids, types, disp)
			if labels && ids && !types && !disp {
				s := GenerateCompositeSVG(js, svg, m)
				if (s == "") != (doc == nil) || doc != nil && s != doc.XMLPretty() {
					v.Fail("string form", in, "GenerateCompositeSVG returned %.300q", s)
				}
			}
			if berr != nil {
				d, bad := xml.NewDecoder(strings.NewReader(svg)), false
				for {
					if _, err := d.Token(); err != nil {
						bad = err != io.EOF
						break
					}
				}
				if doc != nil && bad {
					v.Fail("unparsable base", in, "the base is not XML (%v), the result is %.300q", berr, doc.XML())
				}
				return
			}
			if doc == nil {
				v.Fail("empty", in, "no document for a valid base")
				return
			}
			for _, s := range []string{doc.XMLPretty(), doc.XML()} {
				res, err := vnReadXML(s)
				if err != nil {
					v.Fail("not well-formed", in, "%v in %.1000q", err, s)
					return
				}
				n := len(base.kids)
				if len(res.kids) < n {
					v.Fail("base lost", in, "%d of %d base elements left", len(res.kids), n)
					return
				}
				if d := vnKept(base, res, n); d != "" {
					key := "base changed"
					if strings.HasPrefix(d, "mixed content") {
						key = "mixed content order"
					}
					v.Fail(key, in, "%s", d)
					if key == "base changed" {
						return
					}
				}
				e := vnExpect(want, m, labels, ids, types, disp)
				f := vnFound(res.kids[n:], e)
				if strings.Join(e, "\n") != strings.Join(f, "\n") {
					v.Fail("shapes", in, "found\n%s\nexpected\n%s", strings.Join(f, "\n"), strings.Join(e, "\n"))
				}
			}
		})
	}
}
