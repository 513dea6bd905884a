package artnet

func vSnapCN17(n *ControlledNode) *ControlledNode { return vDeepCopy(n).(*ControlledNode) }

// The frame built for a universe of a node; x is any buffer.
//
//verif:needs ControlledNode.dmxUpdate
func C17_frame(n *ControlledNode, a Address, x *dmxBuffer, i int) {
	vRequire(n != nil && !vHeld(&n.nodeLock) && x != nil && 0 <= i && i < 512)
	buf, ok := n.DMXBuffer[a]
	vRequire(!ok || buf != nil)
	o := vSnapCN17(n)
	ox := vSnapBuf17(x)
	b, err := n.dmxUpdate(a)
	vEnsure("a frame is built exactly for the universes of the node", (err == nil) == ok)
	if err == nil {
		vReach("built")
		want := o.Sequence + 1
		if want == 0 {
			want = 1
		}
		vEnsure("the sequence number advances by one and never is 0", n.Sequence == want)
		vEnsure("the frame is an ArtDmx message for that universe", len(b) == 530 && vFrameHead(b, a))
		vEnsure("it carries the node's sequence number", len(b) == 530 && b[12] == want)
		vEnsure("it carries the stored frame", len(b) == 530 && b[18+i] == buf.Data[i])
	} else {
		vReach("unknown")
		vEnsure("without a frame the sequence number stays", n.Sequence == o.Sequence)
	}
	vEnsure("stored frames are not changed", x.Data == ox.Data && x.Stale == ox.Stale && x.LastUpdate.Equal(ox.LastUpdate))
	vEnsure("the destination is not changed", vSame(n.UDPAddress.IP, o.UDPAddress.IP) && n.UDPAddress.Port == o.UDPAddress.Port && vSame(n.DMXBuffer, o.DMXBuffer))
	vEnsure("the lock is released", !vHeld(&n.nodeLock))
}

func vSnapBuf17(b *dmxBuffer) *dmxBuffer { return vDeepCopy(b).(*dmxBuffer) }

func vFrameHead(b []byte, a Address) bool {
	return b[0] == 'A' && b[1] == 'r' && b[2] == 't' && b[3] == '-' && b[4] == 'N' && b[5] == 'e' && b[6] == 't' && b[7] == 0 &&
		b[8] == 0 && b[9] == 0x50 && b[10] == 0 && b[11] == 14 && b[13] == 0 && b[14] == a.SubUni && b[15] == a.Net && b[16] == 2 && b[17] == 0
}

// vDest: frames for the node go to its IP, port 6454.
func vDest(n *ControlledNode) bool {
	return len(n.UDPAddress.IP) == 4 && vIPKey(n.UDPAddress.IP) == vIPKey(n.Node.IP) && n.UDPAddress.Port == 6454
}

func vDests(c *Controller) bool {
	return vForall(0, len(c.Nodes), func(i int) bool { return vDest(c.Nodes[i]) })
}

// Destinations and sequence numbers over announcements and removals.
func C17_announcement_known(c *Controller, cfg NodeConfig, k, j int) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(0 <= k && k < len(c.Nodes) && 0 <= j && j < len(c.Nodes))
	vRequire(vIPKey(c.Nodes[k].Node.IP) == vIPKey(cfg.IP))
	vRequire(vDests(c))
	vInv("not found so far", func(i int) bool {
		return vForall(0, i, func(j int) bool { return vIPKey(c.Nodes[j].Node.IP) != vIPKey(cfg.IP) })
	})
	n := c.Nodes[j]
	o := vSnapCN17(n)
	c.updateNode(cfg)
	vEnsure("every node is still sent to at its own IP", vDests(c))
	vEnsure("sequence numbers go on", n.Sequence == o.Sequence)
	vReach("end")
}

func C17_announcement_first(c *Controller, cfg NodeConfig) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	vRequire(vDests(c))
	c.updateNode(cfg)
	vEnsure("every node is sent to at its own IP", vDests(c))
	vReach("end")
}

func C17_announcement_new(c *Controller, cfg NodeConfig, j int) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	vRequire(0 <= j && j < len(c.Nodes))
	vRequire(vDests(c))
	n := c.Nodes[j]
	o := vSnapCN17(n)
	c.updateNode(cfg)
	vEnsure("every node is sent to at its own IP", vDests(c))
	vEnsure("sequence numbers go on", n.Sequence == o.Sequence)
	vReach("end")
}

// What the update loop transmits for a universe is the frame stored for it, sent to the node it leads to. m is any node.
func C17_transmission(c *Controller, m *ControlledNode, i int) {
	vRequire(vTickReady(c) && 0 <= i && i < 512)
	vInv("routes", func() bool { return vTickRoutes(c) })
	vIter(func(depth int) {
		sends := vSends(c.cNode.sendCh)
		if depth != 2 {
			vEnsure("only frames for routed universes are transmitted", sends == 0)
			return
		}
		a := vRangeKey()
		n := c.OutputAddress[a]
		was := vAtStart(n).(*ControlledNode).Sequence
		want := was + 1
		if want == 0 {
			want = 1
		}
		vEnsure("at most one frame per universe and tick", sends <= 1)
		vEnsure("the sequence number advances by one per frame and never is 0", n.Sequence == was && sends == 0 || n.Sequence == want && sends == 1)
		vEnsure("no other node's sequence number advances", m == n || m == nil || m.Sequence == vAtStart(m).(*ControlledNode).Sequence)
		vEnsure("what is transmitted is an ArtDmx message for that universe", vAllSent(c.cNode.sendCh, func(p netPayload) bool { return len(p.data) == 530 && vFrameHead(p.data, a) }))
		vEnsure("it carries the node's sequence number", vAllSent(c.cNode.sendCh, func(p netPayload) bool { return len(p.data) == 530 && p.data[12] == want }))
		vEnsure("it carries the frame stored for that universe", vAllSent(c.cNode.sendCh, func(p netPayload) bool { return len(p.data) == 530 && p.data[18+i] == n.DMXBuffer[a].Data[i] }))
		vEnsure("it is sent to the node the universe leads to", vAllSent(c.cNode.sendCh, func(p netPayload) bool {
			return vSame(p.address.IP, n.UDPAddress.IP) && p.address.Port == n.UDPAddress.Port
		}))
		if sends > 0 {
			vReach("sent")
		}
	})
	vMonitor(&c.nodeLock, vTickKeys, func() bool { return vTickRoutes(c) })
	c.dmxUpdateLoop()
}
