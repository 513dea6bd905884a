package artnet

func vSnapBuf(b *dmxBuffer) *dmxBuffer          { return vDeepCopy(b).(*dmxBuffer) }
func vSnapCN(n *ControlledNode) *ControlledNode { return vDeepCopy(n).(*ControlledNode) }

func vBufSame(a, b *dmxBuffer) bool {
	return a.Data == b.Data && a.Stale == b.Stale && a.LastUpdate.Equal(b.LastUpdate)
}

// vNodeKept: nothing about the node but the contents of its buffers differs.
func vNodeKept(n, o *ControlledNode, a Address) bool {
	return n.LastSeen.Equal(o.LastSeen) && n.Sequence == o.Sequence && vSame(n.DMXBuffer, o.DMXBuffer) && vSame(n.DMXBuffer[a], o.DMXBuffer[a]) &&
		vSame(n.UDPAddress.IP, o.UDPAddress.IP) && n.UDPAddress.Port == o.UDPAddress.Port &&
		vSame(n.Node.IP, o.Node.IP) && vSame(n.Node.OutputPorts, o.Node.OutputPorts) && vSame(n.Node.InputPorts, o.Node.InputPorts) && n.Node.Name == o.Node.Name && n.Node.Type == o.Node.Type
}

func vTablesKept(c, o *Controller, a Address) bool {
	m, ok := c.OutputAddress[a]
	x, had := o.OutputAddress[a]
	i, iok := c.InputAddress[a]
	y, ihad := o.InputAddress[a]
	return vSame(c.Nodes, o.Nodes) && vSame(c.OutputAddress, o.OutputAddress) && vSame(c.InputAddress, o.InputAddress) &&
		ok == had && (!ok || vSame(m, x)) && iok == ihad && (!iok || vSame(i, y))
}

// Sending to a routed universe a; b is any universe, k any position in the node list, x any other buffer.
func C16_routed(c *Controller, dmx [512]byte, a, b Address, k int, x *dmxBuffer) {
	vAssumeInv(c)
	n, ok := c.OutputAddress[a]
	vRequire(ok)
	vRequire(0 <= k && k < len(c.Nodes) && x != nil && x != n.DMXBuffer[a])
	o := vSnapController(c)
	ox := vSnapBuf(x)
	c.SendDMXToAddress(dmx, a)
	buf := n.DMXBuffer[a]
	vEnsure("the universe's frame is the one given", buf != nil && buf.Data == dmx)
	vEnsure("it is marked for transmission", buf != nil && buf.Stale)
	vEnsure("no other frame is changed", vBufSame(x, ox))
	vEnsure("no route is changed", vTablesKept(c, o, b))
	vEnsure("no node is changed", vSame(c.Nodes[k], o.Nodes[k]) && vNodeKept(c.Nodes[k], o.Nodes[k], b))
	vEnsure("the locks are released", !vHeld(&c.nodeLock) && !vHeld(&n.nodeLock))
	vReach("end")
}

func C16_unknown(c *Controller, dmx [512]byte, a, b Address, k int, x *dmxBuffer) {
	vAssumeInv(c)
	_, ok := c.OutputAddress[a]
	vRequire(!ok)
	vRequire(0 <= k && k < len(c.Nodes) && x != nil)
	o := vSnapController(c)
	ox := vSnapBuf(x)
	c.SendDMXToAddress(dmx, a)
	vEnsure("no frame is changed", vBufSame(x, ox))
	vEnsure("no route is changed", vTablesKept(c, o, b))
	vEnsure("no node is changed", vSame(c.Nodes[k], o.Nodes[k]) && vNodeKept(c.Nodes[k], o.Nodes[k], b))
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	vReach("end")
}

// A universe that a known node has only just announced can be sent to at once.
func C16_just_announced(c *Controller, cfg NodeConfig, k int, p int, dmx [512]byte) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(0 <= k && k < len(c.Nodes))
	vRequire(vIPKey(c.Nodes[k].Node.IP) == vIPKey(cfg.IP))
	vRequire(0 <= p && p < len(cfg.OutputPorts))
	vNotFound16(c, cfg)
	n := c.Nodes[k]
	a := cfg.OutputPorts[p].Address
	c.updateNode(cfg)
	m, ok := c.OutputAddress[a]
	vLemma("an announced universe is routed to its node", ok && m == n)
	vLemma("an announced universe has a buffer", n.DMXBuffer[a] != nil)
	c.SendDMXToAddress(dmx, a)
	buf := n.DMXBuffer[a]
	vEnsure("the universe's frame is the one given", buf != nil && buf.Data == dmx && buf.Stale)
	vReach("end")
}

func vNotFound16(c *Controller, cfg NodeConfig) {
	vInv("not found so far", func(i int) bool {
		return vForall(0, i, func(j int) bool { return vIPKey(c.Nodes[j].Node.IP) != vIPKey(cfg.IP) })
	})
}
