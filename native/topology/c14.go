package topology

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"
)

func vnNorm(t *Topology) *Topology { // the equality of topologies: an empty list is the same as no list
	n := vnClone(t)
	if len(n.HWc) == 0 {
		n.HWc = nil
	}
	if len(n.TypeIndex) == 0 {
		n.TypeIndex = nil
	}
	for k, d := range n.TypeIndex {
		if len(d.Sub) == 0 {
			e := vnCloneDef(&d)
			e.Sub = nil
			n.TypeIndex[k] = e
		}
	}
	for i := range n.HWc {
		if o := n.HWc[i].TypeOverride; o != nil && len(o.Sub) == 0 {
			o.Sub = nil
		}
	}
	return n
}

// a well-formed topology: texts are UTF-8, type 0 is not indexed, every other type of a component is
func vnWellFormed(v *vnT, t *Topology) {
	fix := func(s *string) {
		if !utf8.ValidString(*s) {
			*s = strings.ToValidUTF8(*s, "?")
		}
	}
	def := func(d *TopologyHWcTypeDef) {
		fix(&d.In)
		fix(&d.Out)
		fix(&d.Ext)
		fix(&d.Desc)
		fix(&d.Render)
		for i := range d.Sub {
			fix(&d.Sub[i].Style)
			fix(&d.Sub[i].ObjType)
		}
		if d.Disp != nil {
			fix(&d.Disp.Type)
		}
	}
	fix(&t.Title)
	for k, d := range t.TypeIndex {
		def(&d)
		t.TypeIndex[k] = d
	}
	delete(t.TypeIndex, 0)
	for i := range t.HWc {
		fix(&t.HWc[i].Txt)
		if t.HWc[i].TypeOverride != nil {
			def(t.HWc[i].TypeOverride)
		}
		if _, ok := t.TypeIndex[t.HWc[i].Type]; !ok && t.HWc[i].Type != 0 {
			if t.TypeIndex == nil || v.Bool() {
				t.HWc[i].Type = 0
			} else {
				t.TypeIndex[t.HWc[i].Type] = vnDef(v)
				d := t.TypeIndex[t.HWc[i].Type]
				def(&d)
				t.TypeIndex[t.HWc[i].Type] = d
			}
		}
	}
}

func vnSameMeaning(a, b *Topology) string {
	if len(a.HWc) != len(b.HWc) {
		return fmt.Sprintf("%d components instead of %d", len(b.HWc), len(a.HWc))
	}
	if len(a.TypeIndex) != len(b.TypeIndex) {
		return fmt.Sprintf("%d types instead of %d", len(b.TypeIndex), len(a.TypeIndex))
	}
	for i := range a.HWc {
		x, y := a.HWc[i], b.HWc[i]
		dx, dy := vnResolve(a, &x), vnResolve(b, &y)
		if !vnDefEq(&dx, &dy) {
			return fmt.Sprintf("component #%d (id %d, type %d -> %d) resolves to %s instead of %s", i, x.Id, x.Type, y.Type, vnDump(&dy), vnDump(&dx))
		}
		if (x.Type == 0) != (y.Type == 0) {
			return fmt.Sprintf("component #%d (id %d): type %d became %d (0 means disabled)", i, x.Id, x.Type, y.Type)
		}
		x.Type, y.Type = 0, 0
		if vnDump(&x) != vnDump(&y) {
			return fmt.Sprintf("component #%d changed from %s to %s", i, vnDump(&x), vnDump(&y))
		}
	}
	return ""
}

func TestVN_C14(t *testing.T) {
	v := vnStart(t, "random well-formed topologies: JSON round trip and fixpoint for both serialisers, type renumbering in both modes (repeated), section removal")
	for v.more() {
		top := vnTop(v)
		vnWellFormed(v, top)
		in := vnDump(top)
		v.Case(in, len(top.HWc) > 0)
		v.Guard("panic", in, func() {
			for n, ser := range []func() string{top.ToJSON, top.JSONstring} {
				s := ser()
				var p Topology
				if err := json.Unmarshal([]byte(s), &p); err != nil {
					v.Fail("parse", in, "serialiser %d output does not parse: %v\n%s", n, err, s)
					return
				}
				if !reflect.DeepEqual(vnNorm(&p), vnNorm(top)) {
					v.Fail("round trip", in, "serialiser %d: %s parses to %s", n, s, fmt.Sprintf("%+v", vnNorm(&p)))
				}
				s2 := p.ToJSON()
				if n == 1 {
					s2 = p.JSONstring()
				}
				if s2 != s {
					v.Fail("fixpoint", in, "serialiser %d: %s after one round %s", n, s, s2)
				}
			}
			before := vnClone(top)
			w := vnClone(top)
			for round := 0; round < 3; round++ {
				seq := v.Bool()
				w.RandomizeTypes(seq)
				if m := vnSameMeaning(before, w); m != "" {
					v.Fail("renumber", in, "RandomizeTypes(%v), round %d: %s", seq, round, m)
				}
				if seq {
					for i := 1; i <= len(before.TypeIndex); i++ {
						if _, ok := w.TypeIndex[uint32(i)]; !ok {
							v.Fail("sequence", in, "RandomizeTypes(true): type %d missing of 1..%d", i, len(before.TypeIndex))
							break
						}
					}
				}
			}
			// section markers
			c := vnClone(top)
			for i := range c.HWc {
				if v.R.Intn(3) == 0 {
					c.HWc[i].Type = 250
				}
			}
			in2 := vnDump(c)
			ref := vnClone(c)
			c.CleanSections()
			var want []TopologyHWcomponent
			for _, x := range ref.HWc {
				if x.Type != 250 {
					want = append(want, x)
				}
			}
			if vnDump(append([]TopologyHWcomponent{}, want...)) != vnDump(append([]TopologyHWcomponent{}, c.HWc...)) {
				v.Fail("sections", in2, "CleanSections leaves %s instead of %s", vnDump(c.HWc), vnDump(want))
			}
			ref.HWc, c.HWc = nil, nil
			if vnDump(ref) != vnDump(c) {
				v.Fail("sections-other", in2, "CleanSections changed more than the component list")
			}
		})
	}
}

// large type indexes: random ids collide and may come out as 0
func TestVN_C14_large(t *testing.T) {
	v := vnStart(t, "topologies with 1500 to 4000 types, renumbered at random (colliding ids, id 0)")
	for v.more() {
		n := 1500 + v.R.Intn(2500)
		top := &Topology{TypeIndex: map[uint32]TopologyHWcTypeDef{}}
		for i := 1; i <= n; i++ {
			top.TypeIndex[uint32(i)] = TopologyHWcTypeDef{W: i}
			top.HWc = append(top.HWc, TopologyHWcomponent{Id: uint32(i), Type: uint32(i)})
		}
		top.HWc = append(top.HWc, TopologyHWcomponent{Id: uint32(n + 1)}) // a disabled component
		in := fmt.Sprintf("topology with types 1..%d (type i has width i), component i of type i, and one disabled component; RandomizeTypes(false)", n)
		v.Case(in, true)
		types := append([]TopologyHWcomponent{}, top.HWc...)
		v.Guard("panic", in, func() {
			top.RandomizeTypes(false)
			if len(top.TypeIndex) != n || len(top.HWc) != n+1 {
				v.Fail("large-count", in, "%d types and %d components remain", len(top.TypeIndex), len(top.HWc))
				return
			}
			for i := range types {
				c := &top.HWc[i]
				w := i + 1
				if i == n {
					w = 0
				}
				if d := top.TypeIndex[c.Type]; d.W != w || (c.Type == 0) != (i == n) {
					v.Fail("large-def", in, "component %d has type %d of width %d instead of %d", c.Id, c.Type, d.W, w)
					return
				}
			}
		})
	}
}
