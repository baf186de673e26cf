package topology

import (
	"encoding/json"
	"fmt"
)

func vnSub(v *vnT) []TopologyHWcTypeDefSubEl {
	var out []TopologyHWcTypeDefSubEl
	n := v.R.Intn(4)
	if v.R.Intn(4) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		out = append(out, TopologyHWcTypeDefSubEl{ObjType: v.PickS("r", "c", "d", "", "x"), X: v.Int(-200, 200), Y: v.Int(-200, 200), W: v.Pick(0, 0, 5, v.Int(0, 300)), H: v.Pick(0, 5, v.Int(0, 300)),
			R: v.Pick(0, 7, v.Int(0, 100)), Rx: v.Pick(0, 3, v.Int(0, 20)), Ry: v.Pick(0, 4, v.Int(0, 20)), Style: v.PickS("", "", "fill:rgb(1,2,3);", "a<b&\"'"), Idx: v.Pick(0, 0, 1, 2, 5, -3, v.Int(-20, 40))})
	}
	return out
}
func vnDisp(v *vnT) *TopologyHWcTypeDef_Display {
	if v.R.Intn(3) == 0 {
		return nil
	}
	return &TopologyHWcTypeDef_Display{W: v.Pick(0, 64, 96, v.Int(0, 300)), H: v.Pick(0, 32, v.Int(0, 300)), Subidx: v.Pick(-1, 0, 1, v.Int(-1, 5)), Type: v.PickS("", "gray", "color", "text"), Shrink: v.R.Intn(4), Border: v.R.Intn(4)}
}

var vnKinds = []string{"", "b", "b4", "b2h", "b2v", "pb", "p", "gpi", "av", "ah", "ar", "a", "iv", "ih", "ir", "i", "rg", "rb", "mono", "b,rg", "pb,x", "p,", ",b", "bb", "b5", "a v", "iv,ih", "gpi,b", "px", "av,", " b", "b ", "B", "mono,b"}

func vnDef(v *vnT) TopologyHWcTypeDef {
	return TopologyHWcTypeDef{W: v.Pick(0, 100, v.Int(-5, 500)), H: v.Pick(0, 0, 50, v.Int(-5, 500)), Out: v.PickS("", "rgb", "mono", "rgb,x", "RGB", v.Str()), In: v.PickS(append(vnKinds, v.Str())...), Desc: v.PickS("", "A desc", "x\ny<&>", v.Str()),
		Ext: v.PickS("", "pos", "steps", "xsteps", "steps,pos", "pos,", "step", v.Str()), Subidx: v.Pick(0, 1, -1, v.Int(-2, 5)), Rotate: float32(v.Pick(0, 0, 90, 45, -30)) + float32(v.Pick(0, 1))/2, Disp: vnDisp(v), Sub: vnSub(v), Render: v.PickS("", "txt", "hwcid", "txt,hwcid", v.Str())}
}

func vnTop(v *vnT) *Topology {
	t := &Topology{Title: v.PickS("", "Title", "T<>&\"", v.Str())}
	if v.R.Intn(12) > 0 {
		t.TypeIndex = map[uint32]TopologyHWcTypeDef{}
	}
	var keys []uint32
	nt := v.R.Intn(6)
	if t.TypeIndex == nil {
		nt = 0
	}
	for i := 0; i < nt; i++ {
		k := uint32(v.Pick(1, 2, 3, 4, 5, 6, 250, i+1, i+1, v.Int(1, 1000)))
		keys = append(keys, k)
		t.TypeIndex[k] = vnDef(v)
	}
	n := v.R.Intn(8)
	id := 0
	for i := 0; i < n; i++ {
		c := TopologyHWcomponent{X: v.Int(-10, 3000), Y: v.Int(-10, 2000), Txt: v.PickS("", "A", "A|B", "A|B|C", "x<&>|", "|y", v.Str())}
		id++
		c.Id = uint32(v.Pick(id, id, id, id, id, v.Int(0, 12), 1<<31+7))
		if len(keys) > 0 {
			c.Type = keys[v.R.Intn(len(keys))]
		}
		switch v.R.Intn(9) {
		case 0:
			c.Type = 0
		case 1:
			c.Type = uint32(v.Int(0, 300))
		case 2:
			c.Type = 250
		}
		switch v.R.Intn(5) {
		case 0:
			d := vnDef(v)
			c.TypeOverride = &d
		case 1:
			c.TypeOverride = &TopologyHWcTypeDef{}
		case 2: // a single attribute overridden
			d := vnDef(v)
			o := &TopologyHWcTypeDef{}
			switch v.R.Intn(11) {
			case 0:
				o.W = d.W
			case 1:
				o.H = d.H
			case 2:
				o.Out = d.Out
			case 3:
				o.In = d.In
			case 4:
				o.Desc = d.Desc
			case 5:
				o.Ext = d.Ext
			case 6:
				o.Subidx = d.Subidx
			case 7:
				o.Rotate = d.Rotate
			case 8:
				o.Disp = d.Disp
			case 9:
				o.Sub = d.Sub
			case 10:
				o.Render = d.Render
			}
			c.TypeOverride = o
		}
		if v.R.Intn(4) == 0 {
			c.UIparent, c.UIyang = uint32(v.Int(0, 5)), uint32(v.Int(0, 5))
		}
		t.HWc = append(t.HWc, c)
	}
	return t
}

func vnDump(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x)
	}
	return string(b)
}
func vnClone(t *Topology) *Topology { // deep copy
	n := &Topology{Title: t.Title}
	if t.TypeIndex != nil {
		n.TypeIndex = map[uint32]TopologyHWcTypeDef{}
		for k := range t.TypeIndex {
			d := t.TypeIndex[k]
			n.TypeIndex[k] = vnCloneDef(&d)
		}
	}
	if t.HWc != nil {
		n.HWc = []TopologyHWcomponent{}
	}
	for _, c := range t.HWc {
		if c.TypeOverride != nil {
			d := vnCloneDef(c.TypeOverride)
			c.TypeOverride = &d
		}
		n.HWc = append(n.HWc, c)
	}
	return n
}
func vnCloneDef(d *TopologyHWcTypeDef) TopologyHWcTypeDef {
	n := TopologyHWcTypeDef{W: d.W, H: d.H, Out: d.Out, In: d.In, Desc: d.Desc, Ext: d.Ext, Subidx: d.Subidx, Rotate: d.Rotate, Render: d.Render}
	if d.Disp != nil {
		x := *d.Disp
		n.Disp = &x
	}
	if d.Sub != nil {
		n.Sub = append([]TopologyHWcTypeDefSubEl{}, d.Sub...)
	}
	return n
}

// vnResolve: base type overlaid with the non-empty attributes of the override
func vnResolve(t *Topology, c *TopologyHWcomponent) TopologyHWcTypeDef {
	b := t.TypeIndex[c.Type]
	r := vnCloneDef(&b)
	o := c.TypeOverride
	if o == nil {
		return r
	}
	if o.W > 0 {
		r.W = o.W
	}
	if o.H > 0 {
		r.H = o.H
	}
	if o.Subidx > 0 {
		r.Subidx = o.Subidx
	}
	if o.Out != "" {
		r.Out = o.Out
	}
	if o.In != "" {
		r.In = o.In
	}
	if o.Ext != "" {
		r.Ext = o.Ext
	}
	if o.Desc != "" {
		r.Desc = o.Desc
	}
	if o.Render != "" {
		r.Render = o.Render
	}
	if o.Rotate != 0 {
		r.Rotate = o.Rotate
	}
	if o.Disp != nil {
		x := *o.Disp
		r.Disp = &x
	}
	if len(o.Sub) > 0 {
		r.Sub = append([]TopologyHWcTypeDefSubEl{}, o.Sub...)
	}
	return r
}
