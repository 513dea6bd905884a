package artnet

func H_C16_send(g *vGen) (f []string) {
	c := gState(g)
	if g.Intn(2) == 0 {
		c.updateNode(gCfg(g))
	}
	if len(gInv(c)) > 0 && g.Intn(4) > 0 {
		return nil
	}
	for _, n := range c.Nodes {
		for _, b := range n.DMXBuffer {
			if b != nil {
				b.Stale = g.Intn(2) == 0
			}
		}
	}
	s := gTake(c)
	a := gAddr(g)
	if g.Intn(2) == 0 {
		for x := range c.OutputAddress {
			a = x
			break
		}
	}
	var d [512]byte
	g.Read(d[:])
	n, ok := c.OutputAddress[a]
	if ok && g.Intn(3) == 0 && n.DMXBuffer[a] != nil {
		d = n.DMXBuffer[a].Data
	}
	g.note("SendDMXToAddress(%v), routed: %v", a, ok)
	c.SendDMXToAddress(d, a)
	if ok {
		if !gOut(n.Node, a) {
			return nil
		}
		b := n.DMXBuffer[a]
		if b == nil {
			return []string{"a routed universe has no stored frame"}
		}
		if b.Data != d {
			f = append(f, "the stored frame is not the one given")
		}
		if !b.Stale {
			f = append(f, "the frame is not marked for transmission")
		}
	}
	if len(c.Nodes) != len(s.nodes) {
		return append(f, "the node list changed")
	}
	for i, x := range c.Nodes {
		if x != s.nodes[i] {
			return append(f, "the node list changed")
		}
		var but *dmxBuffer
		if ok && x == n {
			but = n.DMXBuffer[a]
		}
		f = append(f, gNodeSame(s, x, but)...)
	}
	return append(f, gRoutes(c, s, gNone, gNone)...)
}
