package topology

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func vnDefEq(a, b *TopologyHWcTypeDef) bool {
	x, y := vnCloneDef(a), vnCloneDef(b)
	if len(x.Sub) == 0 {
		x.Sub = nil
	}
	if len(y.Sub) == 0 {
		y.Sub = nil
	}
	return reflect.DeepEqual(&x, &y)
}

func TestVN_C13(t *testing.T) {
	v := vnStart(t, "random topologies (indexed, unindexed and disabled types, full, empty and single-attribute overrides) against an independent overlay; all ids and predicates, serialised form compared before and after")
	for v.more() {
		top := vnTop(v)
		ref := vnClone(top)
		in := vnDump(top)
		before := top.ToJSON()
		v.Case(in, len(top.HWc) > 0)
		ids := []uint32{0, 1, 7, 1 << 30}
		for _, c := range ref.HWc {
			ids = append(ids, c.Id, c.Id+1)
		}
		chk := func(key string, ok bool, f string, a ...interface{}) {
			if !ok {
				v.Fail(key, in, f, a...)
			}
		}
		v.Guard("panic", in, func() {
			for _, id := range ids {
				var first *TopologyHWcomponent
				for i := range ref.HWc {
					if ref.HWc[i].Id == id {
						first = &ref.HWc[i]
						break
					}
				}
				x, y := top.GetHWCxy(id)
				txt := top.GetHWCtext(id)
				def, err := top.GetHWCtype(id)
				d2 := top.GetHWCTypeDefinitionFromHWCid(int(id))
				c2 := top.GetHWCDefinitionFromHWCid(int(id))
				if first == nil {
					chk("missing-xy", x == -1 && y == -1, "GetHWCxy(%d) of unknown id = %d,%d", id, x, y)
					chk("missing-text", txt == "", "GetHWCtext(%d) of unknown id = %q", id, txt)
					chk("missing-type", err != nil && def == nil, "GetHWCtype(%d) of unknown id = %v, %v", id, def, err)
					chk("missing-def", d2 != nil && vnDefEq(d2, &TopologyHWcTypeDef{}), "GetHWCTypeDefinitionFromHWCid(%d) of unknown id = %s", id, vnDump(d2))
					chk("missing-comp", c2 != nil && reflect.DeepEqual(*c2, TopologyHWcomponent{}), "GetHWCDefinitionFromHWCid(%d) of unknown id = %s", id, vnDump(c2))
					continue
				}
				want := vnResolve(ref, first)
				_, indexed := ref.TypeIndex[first.Type]
				chk("xy", x == first.X && y == first.Y, "GetHWCxy(%d)=%d,%d want %d,%d", id, x, y, first.X, first.Y)
				chk("text", txt == first.Txt, "GetHWCtext(%d)=%q want %q", id, txt, first.Txt)
				chk("type", err == nil && def != nil && vnDefEq(def, &want), "GetHWCtype(%d)=%s want %s", id, vnDump(def), vnDump(&want))
				chk("comp", c2 != nil && vnDump(c2) == vnDump(first), "GetHWCDefinitionFromHWCid(%d)=%s want %s", id, vnDump(c2), vnDump(first))
				if !indexed {
					chk("unindexed-def", d2 != nil && vnDefEq(d2, &TopologyHWcTypeDef{}), "GetHWCTypeDefinitionFromHWCid(%d) of an unindexed type = %s", id, vnDump(d2))
				} else if d2 == nil {
					chk("def-nil", false, "GetHWCTypeDefinitionFromHWCid(%d) = nil", id)
				} else {
					a, b := vnCloneDef(d2), vnCloneDef(&want)
					base := ref.TypeIndex[first.Type]
					chk("def-desc", (a.Desc == base.Desc || a.Desc == want.Desc) && (a.Render == base.Render || a.Render == want.Render), "GetHWCTypeDefinitionFromHWCid(%d)=%s: description or render hints are neither the type's nor the override's", id, vnDump(d2))
					a.Desc, b.Desc, a.Render, b.Render = "", "", "", ""
					chk("def", vnDefEq(&a, &b), "GetHWCTypeDefinitionFromHWCid(%d)=%s want (shared attributes) %s", id, vnDump(d2), vnDump(&want))
				}
				if def != nil {
					vnPreds(v, def, chk)
				}
				if d2 != nil {
					vnPreds(v, d2, chk)
				}
			}
			for k := range ref.HWc {
				d := top.GetHWCTypeDefinition(k)
				want := vnResolve(ref, &ref.HWc[k])
				g := top.GetTypeDefWithOverride(&top.HWc[k])
				chk("overlay", vnDefEq(&g, &want), "GetTypeDefWithOverride(#%d)=%s want %s", k, vnDump(&g), vnDump(&want))
				if _, ok := ref.TypeIndex[ref.HWc[k].Type]; ok {
					a, b := vnCloneDef(d), vnCloneDef(&want)
					a.Desc, b.Desc, a.Render, b.Render = "", "", "", ""
					chk("def-key", vnDefEq(&a, &b), "GetHWCTypeDefinition(#%d)=%s want (shared attributes) %s", k, vnDump(d), vnDump(&want))
				} else {
					chk("def-key-unindexed", d != nil && vnDefEq(d, &TopologyHWcTypeDef{}), "GetHWCTypeDefinition(#%d) of an unindexed type=%s", k, vnDump(d))
				}
			}
			d := top.GetHWCTypeDefinition(len(top.HWc))
			chk("def-range", d != nil && vnDefEq(d, &TopologyHWcTypeDef{}), "GetHWCTypeDefinition(out of range)=%s", vnDump(d))
			var wi, wd []uint32
			for i := range ref.HWc {
				wi = append(wi, ref.HWc[i].Id)
				if d := vnResolve(ref, &ref.HWc[i]); d.Disp != nil {
					wd = append(wd, ref.HWc[i].Id)
				}
			}
			chk("ids", fmt.Sprint(top.GetHWCs()) == fmt.Sprint(wi), "GetHWCs=%v want %v", top.GetHWCs(), wi)
			chk("displays", fmt.Sprint(top.GetHWCsWithDisplay()) == fmt.Sprint(wd), "GetHWCsWithDisplay=%v want %v", top.GetHWCsWithDisplay(), wd)
			after := top.ToJSON()
			chk("mutation", before == after && reflect.DeepEqual(vnClone(top), ref), "look-ups changed the topology:\nbefore %s\nafter  %s", before, after)
		})
	}
}

func vnPreds(v *vnT, d *TopologyHWcTypeDef, chk func(string, bool, string, ...interface{})) {
	tok := d.In
	if i := strings.IndexByte(tok, ','); i >= 0 {
		tok = tok[:i]
	}
	in := func(l ...string) bool {
		for _, x := range l {
			if x == tok {
				return true
			}
		}
		return false
	}
	b := in("b", "b4", "b2h", "b2v", "pb")
	s := vnDump(d)
	chk("tok", d.GetInputType() == tok, "GetInputType of %s = %q", s, d.GetInputType())
	chk("button", d.IsButton() == b, "IsButton of %s = %v", s, d.IsButton())
	chk("binary", d.IsBinary() == (b || in("gpi")), "IsBinary of %s = %v", s, d.IsBinary())
	chk("pulsed", d.IsPulsed() == in("p", "pb"), "IsPulsed of %s = %v", s, d.IsPulsed())
	chk("absolute", d.IsAbsolute() == in("av", "ah", "ar", "a"), "IsAbsolute of %s = %v", s, d.IsAbsolute())
	chk("intensity", d.IsIntensity() == in("iv", "ih", "ir", "i"), "IsIntensity of %s = %v", s, d.IsIntensity())
	chk("display", d.HasDisplay() == (d.Disp != nil) && d.DisplayInfo() == d.Disp, "HasDisplay/DisplayInfo of %s", s)
	chk("motor", d.IsMotorized() == (d.Ext == "pos"), "IsMotorized of %s = %v", s, d.IsMotorized())
	chk("led", d.HasLED() == (d.Out == "rgb" || d.In == "rg" || d.In == "rb" || d.In == "mono"), "HasLED of %s = %v", s, d.HasLED())
	n := 0
	if strings.Contains(d.Ext, "steps") {
		n = len(d.Sub)
	}
	chk("ledbar", d.LedBarSteps() == n, "LedBarSteps of %s = %d", s, d.LedBarSteps())
	if d.Ext != "steps" {
		chk("steps0", d.HasSteps() == 0, "HasSteps of %s = %d", s, d.HasSteps())
	} else if len(d.Sub) > 0 {
		lo, hi := d.Sub[0].Idx, d.Sub[0].Idx
		for _, e := range d.Sub {
			if e.Idx < lo {
				lo = e.Idx
			}
			if e.Idx > hi {
				hi = e.Idx
			}
		}
		chk("steps", d.HasSteps() == hi-lo+1, "HasSteps of %s = %d want %d", s, d.HasSteps(), hi-lo+1)
	}
	chk("pred-mutation", vnDump(d) == s, "predicates changed %s into %s", s, vnDump(d))
}
