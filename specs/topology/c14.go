package topology

// ---- C14: transformations preserve the panel's meaning

// Every serialised struct type can be read back unchanged by encoding/json: exported fields under distinct names, no field
// dropped, omission only of values that read back as the same zero value.
//govc:unit C14
func vc_JSONShape(t *Topology) {
	vReach("start")
	vJSONRoundTrips("every field of a topology survives JSON", t)
}

// both serialisers are exactly the JSON encoding of the topology
//govc:unit C14
func vc_Serialisers(t *Topology) {
	vAssume(t != nil)
	a := t.ToJSON()
	vAssert("ToJSON is the JSON encoding of the topology", vIsJSONOf(a, t))
	b := t.JSONstring()
	vReach("end")
	vAssert("JSONstring is the JSON encoding of the topology", vIsJSONOf(b, t))
	vUnchanged("serialising changes nothing")
}

func vSameComp(a, b *TopologyHWcomponent) bool {
	return a.Id == b.Id && a.X == b.X && a.Y == b.Y && a.Txt == b.Txt && a.Type == b.Type && a.TypeOverride == b.TypeOverride && a.UIparent == b.UIparent && a.UIyang == b.UIyang
}

// CleanSections on every list of five or fewer components, by position of the markers (bounded in length, not in content).
//govc:unit C14
//govc:enum n=0..5
//govc:enum mask=0..31
//govc:shards 2
func vc_CleanSections(t *Topology, n, mask int, a, b, c, d, e TopologyHWcomponent) {
	vAssume(t != nil && mask < 1<<n)
	l := []TopologyHWcomponent{}
	all := []TopologyHWcomponent{a, b, c, d, e}
	want := []TopologyHWcomponent{}
	for i := 0; i < n; i++ {
		h := all[i]
		if mask>>i&1 == 1 {
			h.Type = 250
		} else {
			vAssume(h.Type != 250)
			want = append(want, h)
		}
		l = append(l, h)
	}
	t.HWc = l
	title := t.Title
	t.CleanSections()
	vReach("end")
	vAssert("exactly the marker components are deleted", len(t.HWc) == len(want))
	for i := range want {
		vAssert("the others keep their order and content", vSameComp(&t.HWc[i], &want[i]))
	}
	vAssert("nothing else changes", t.Title == title)
}

// Sequential renumbering of every type index of m types (bounded in m) for any component list.
//govc:unit C14
//govc:enum m=0..3
func vc_RandomizeTypesSeq(t *Topology, m int, k1, k2, k3 uint32, d1, d2, d3 TopologyHWcTypeDef, i int) {
	vAssume(t != nil && k1 != 0 && k2 != 0 && k3 != 0 && k1 != k2 && k1 != k3 && k2 != k3)
	ti := map[uint32]TopologyHWcTypeDef{}
	if m > 0 {
		ti[k1] = d1
	}
	if m > 1 {
		ti[k2] = d2
	}
	if m > 2 {
		ti[k3] = d3
	}
	t.TypeIndex = ti
	vAssume(i >= 0 && i < len(t.HWc))
	old := t.HWc[i]
	n := len(t.HWc)
	_, indexed := ti[old.Type]
	vAssume(old.Type == 0 || indexed)
	before := t.GetTypeDefWithOverride(&old)
	t.RandomizeTypes(true)
	vReach("end")
	vAssert("the number of types is unchanged", len(t.TypeIndex) == m)
	for j := 1; j <= m; j++ {
		_, ok := t.TypeIndex[uint32(j)]
		vAssert("sequential renumbering produces the ids 1..n", ok)
	}
	vAssert("the number of components is unchanged", len(t.HWc) == n)
	now := t.HWc[i]
	after := t.GetTypeDefWithOverride(&t.HWc[i])
	vAssert("resolved size is unchanged", before.W == after.W && before.H == after.H)
	vAssert("resolved kinds are unchanged", before.In == after.In && before.Out == after.Out && before.Ext == after.Ext)
	vAssert("resolved texts are unchanged", before.Desc == after.Desc && before.Render == after.Render)
	vAssert("resolved handle, rotation and display are unchanged", before.Subidx == after.Subidx && before.Rotate == after.Rotate && vSameDisp(before.Disp, after.Disp))
	vAssert("resolved sub elements are unchanged", vSameSub(before.Sub, after.Sub))
	now.Type = old.Type
	vAssert("the component itself is unchanged", vSameComp(&now, &old))
}
