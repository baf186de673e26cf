package topology

// ---- C13: look-ups resolve base type plus override, never mutate

func vSameSub(a, b []TopologyHWcTypeDefSubEl) bool {
	return len(a) == len(b) && vForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}
func vSameDisp(a, b *TopologyHWcTypeDef_Display) bool {
	return a == nil && b == nil || a != nil && b != nil && *a == *b
}

// got is base overlaid with the non-empty attributes of o (all documented attributes)
func vResolved(got, base, o *TopologyHWcTypeDef) bool {
	return vResolvedShared(got, base, o) &&
		got.Desc == vPickS(o != nil && o.Desc != "", o, base).Desc &&
		got.Render == vPickS(o != nil && o.Render != "", o, base).Render
}
func vPickS(c bool, o, base *TopologyHWcTypeDef) *TopologyHWcTypeDef {
	if c {
		return o
	}
	return base
}

// the attributes both resolvers overlay
func vResolvedShared(got, base, o *TopologyHWcTypeDef) bool {
	return got.W == vPickS(o != nil && o.W > 0, o, base).W &&
		got.H == vPickS(o != nil && o.H > 0, o, base).H &&
		got.Subidx == vPickS(o != nil && o.Subidx > 0, o, base).Subidx &&
		got.Out == vPickS(o != nil && o.Out != "", o, base).Out &&
		got.In == vPickS(o != nil && o.In != "", o, base).In &&
		got.Ext == vPickS(o != nil && o.Ext != "", o, base).Ext &&
		got.Rotate == vPickS(o != nil && o.Rotate != 0, o, base).Rotate &&
		vSameDisp(got.Disp, vPickS(o != nil && o.Disp != nil, o, base).Disp) &&
		vSameSub(got.Sub, vPickS(o != nil && len(o.Sub) > 0, o, base).Sub)
}
func vEmptyDef(d *TopologyHWcTypeDef) bool {
	return d != nil && d.W == 0 && d.H == 0 && d.Out == "" && d.In == "" && d.Desc == "" && d.Ext == "" && d.Subidx == 0 &&
		d.Rotate == 0 && d.Disp == nil && len(d.Sub) == 0 && d.Render == ""
}

//govc:unit C13
func vc_GetTypeDefWithOverride(top *Topology, c *TopologyHWcomponent) {
	vAssume(top != nil && c != nil)
	base := top.TypeIndex[c.Type]
	got := top.GetTypeDefWithOverride(c)
	vReach("returns")
	vAssert("the resolved definition is the base type overlaid with every non-empty override attribute", vResolved(&got, &base, c.TypeOverride))
	vUnchanged("GetTypeDefWithOverride changes nothing")
}

// j: the first component carrying the id
func vFirst(top *Topology, j int, hwc uint32) bool {
	return j >= 0 && j < len(top.HWc) && top.HWc[j].Id == hwc && vForall(0, j, func(i int) bool { return top.HWc[i].Id != hwc })
}
func vNone(top *Topology, hwc uint32) bool {
	return vForall(0, len(top.HWc), func(i int) bool { return top.HWc[i].Id != hwc })
}

//govc:unit C13
func vc_GetHWCtype(top *Topology, hwc uint32, j int) {
	vAssume(top != nil && vFirst(top, j, hwc))
	base := top.TypeIndex[top.HWc[j].Type]
	got, err := top.GetHWCtype(hwc)
	vReach("returns")
	vAssert("GetHWCtype finds a present id", err == nil && got != nil)
	vAssert("GetHWCtype resolves the first component with the id", vResolved(got, &base, top.HWc[j].TypeOverride))
	vUnchanged("GetHWCtype changes nothing")
}

//govc:unit C13
func vc_lookups_missing(top *Topology, hwc uint32) {
	vAssume(top != nil && vNone(top, hwc))
	got, err := top.GetHWCtype(hwc)
	vReach("returns")
	vAssert("GetHWCtype reports an unknown id", err != nil && got == nil)
	x, y := top.GetHWCxy(hwc)
	vAssert("GetHWCxy of an unknown id is -1,-1", x == -1 && y == -1)
	vAssert("GetHWCtext of an unknown id is empty", top.GetHWCtext(hwc) == "")
	vUnchanged("look-ups of unknown ids change nothing")
}

//govc:unit C13
func vc_GetHWCxy(top *Topology, hwc uint32, j int) {
	vAssume(top != nil && vFirst(top, j, hwc))
	x, y := top.GetHWCxy(hwc)
	t := top.GetHWCtext(hwc)
	vReach("returns")
	vAssert("GetHWCxy returns the component's coordinates", x == top.HWc[j].X && y == top.HWc[j].Y)
	vAssert("GetHWCtext returns the component's label", t == top.HWc[j].Txt)
	vUnchanged("GetHWCxy changes nothing")
}

//govc:unit C13
func vc_GetHWCs(top *Topology, i int) {
	vAssume(top != nil)
	l := top.GetHWCs()
	vReach("returns")
	vAssert("GetHWCs lists every component", len(l) == len(top.HWc))
	if i >= 0 && i < len(l) {
		vAssert("GetHWCs lists the ids in order", l[i] == top.HWc[i].Id)
	}
	vUnchanged("GetHWCs changes nothing")
}

//govc:unit C13
func vc_GetHWCTypeDefinition(top *Topology, k int) {
	vAssume(top != nil && k >= 0)
	got := top.GetHWCTypeDefinition(k)
	vReach("returns")
	vAssert("a definition is always returned", got != nil)
	if k >= len(top.HWc) {
		vAssert("out of range key resolves to the empty definition", vEmptyDef(got))
	} else if base, ok := top.TypeIndex[top.HWc[k].Type]; !ok {
		vAssert("unindexed type resolves to the empty definition", vEmptyDef(got))
	} else {
		vAssert("GetHWCTypeDefinition overlays the shared attributes", vResolvedShared(got, &base, top.HWc[k].TypeOverride))
		o := top.HWc[k].TypeOverride
		vAssert("description and render hints come from the base type or the override", (got.Desc == base.Desc || o != nil && o.Desc != "" && got.Desc == o.Desc) && (got.Render == base.Render || o != nil && o.Render != "" && got.Render == o.Render))
		other := top.GetTypeDefWithOverride(&top.HWc[k])
		vAssert("both resolvers agree on size", got.W == other.W && got.H == other.H)
		vAssert("both resolvers agree on kinds", got.In == other.In && got.Out == other.Out && got.Ext == other.Ext)
		vAssert("both resolvers agree on handle, rotation and display", got.Subidx == other.Subidx && got.Rotate == other.Rotate && vSameDisp(got.Disp, other.Disp))
		vAssert("both resolvers agree on sub elements", vSameSub(got.Sub, other.Sub))
	}
	vUnchanged("GetHWCTypeDefinition changes nothing")
}

//govc:unit C13
func vc_ByHWCid(top *Topology, hwc int, j int) {
	vAssume(top != nil && hwc >= 0 && hwc < 1<<32 && vFirst(top, j, uint32(hwc)))
	c := top.GetHWCDefinitionFromHWCid(hwc)
	vReach("returns")
	vAssert("GetHWCDefinitionFromHWCid returns the first component with the id", c != nil && c.Id == top.HWc[j].Id && c.X == top.HWc[j].X && c.Y == top.HWc[j].Y && c.Txt == top.HWc[j].Txt && c.Type == top.HWc[j].Type && c.UIparent == top.HWc[j].UIparent && c.UIyang == top.HWc[j].UIyang)
	got := top.GetHWCTypeDefinitionFromHWCid(hwc)
	base, ok := top.TypeIndex[top.HWc[j].Type]
	if ok {
		vAssert("GetHWCTypeDefinitionFromHWCid resolves the first component with the id", got != nil && vResolvedShared(got, &base, top.HWc[j].TypeOverride))
	} else {
		vAssert("GetHWCTypeDefinitionFromHWCid of an unindexed type is empty", vEmptyDef(got))
	}
	vUnchanged("id look-ups change nothing")
}

//govc:unit C13
func vc_ByHWCid_missing(top *Topology, hwc int) {
	vAssume(top != nil && hwc >= 0 && hwc < 1<<32 && vNone(top, uint32(hwc)))
	c := top.GetHWCDefinitionFromHWCid(hwc)
	vReach("returns")
	vAssert("GetHWCDefinitionFromHWCid of an unknown id is the empty component", c != nil && c.Id == 0 && c.X == 0 && c.Y == 0 && c.Txt == "" && c.Type == 0 && c.TypeOverride == nil)
	vAssert("GetHWCTypeDefinitionFromHWCid of an unknown id is the empty definition", vEmptyDef(top.GetHWCTypeDefinitionFromHWCid(hwc)))
	vUnchanged("id look-ups change nothing")
}

// token of an input kind: everything before the first comma
//govc:unit C13
func vc_Predicates(d *TopologyHWcTypeDef, tok, rest string, comma bool) {
	vAssume(d != nil)
	vStrClass(tok, "noComma")
	d.In = tok
	if comma {
		d.In = tok + "," + rest
	}
	button := tok == "b" || tok == "b4" || tok == "b2h" || tok == "b2v" || tok == "pb"
	vReach("start")
	vAssert("GetInputType is the first token", d.GetInputType() == tok)
	vAssert("IsButton", d.IsButton() == button)
	vAssert("IsBinary", d.IsBinary() == (button || tok == "gpi"))
	vAssert("IsPulsed", d.IsPulsed() == (tok == "p" || tok == "pb"))
	vAssert("IsAbsolute", d.IsAbsolute() == (tok == "av" || tok == "ah" || tok == "ar" || tok == "a"))
	vAssert("IsIntensity", d.IsIntensity() == (tok == "iv" || tok == "ih" || tok == "ir" || tok == "i"))
}

//govc:unit C13
func vc_Predicates2(d *TopologyHWcTypeDef) {
	vAssume(d != nil)
	vReach("start")
	vAssert("HasDisplay", d.HasDisplay() == (d.Disp != nil))
	vAssert("DisplayInfo", d.DisplayInfo() == d.Disp)
	vAssert("IsMotorized", d.IsMotorized() == (d.Ext == "pos"))
	vAssert("HasLED", d.HasLED() == (d.Out == "rgb" || d.In == "rg" || d.In == "rb" || d.In == "mono"))
	vAssert("HasSteps without steps", vImp(d.Ext != "steps", d.HasSteps() == 0))
	vUnchanged("predicates change nothing")
}

func vContainsSteps(ext string) bool { return ext == "steps" }

//govc:unit C13
func vc_LedBarSteps(d *TopologyHWcTypeDef, pre, post string, mode int) {
	vAssume(d != nil)
	vStrClass(pre, "noS")
	vStrClass(post, "noS")
	if mode == 0 {
		d.Ext = pre + "steps" + post
		vAssert("LedBarSteps of a steps component", d.LedBarSteps() == len(d.Sub))
	} else {
		d.Ext = pre
		vAssert("LedBarSteps of another component", d.LedBarSteps() == 0)
	}
	vReach("end")
}

// GetHWCsWithDisplay: exactly the components whose resolved type has a display, in order
//govc:unit C13
func vc_GetHWCsWithDisplay(top *Topology) {
	vAssume(top != nil)
	l := top.GetHWCsWithDisplay()
	want := []uint32{}
	for i := range top.HWc {
		d := top.GetTypeDefWithOverride(&top.HWc[i])
		if d.Disp != nil {
			want = append(want, top.HWc[i].Id)
		}
	}
	vReach("returns")
	vAssert("GetHWCsWithDisplay lists exactly the components with a display", vSeqEq(l, want))
	vUnchanged("GetHWCsWithDisplay changes nothing")
}
