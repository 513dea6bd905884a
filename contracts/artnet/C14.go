package artnet

import "time"

func vSnapCN14(n *ControlledNode) *ControlledNode { return vDeepCopy(n).(*ControlledNode) }
func vSnapBuf14(b *dmxBuffer) *dmxBuffer          { return vDeepCopy(b).(*dmxBuffer) }

// vDescribes: the description of a node is exactly cfg.
func vDescribes(n *ControlledNode, cfg NodeConfig) bool {
	a, b := n.Node, cfg
	return a.OEM == b.OEM && a.Version == b.Version && a.BiosVersion == b.BiosVersion && a.Manufacturer == b.Manufacturer && a.Type == b.Type &&
		a.Name == b.Name && a.Description == b.Description && vSame(a.Ethernet, b.Ethernet) && vIPKey(a.IP) == vIPKey(b.IP) && vSame(a.BindIP, b.BindIP) &&
		a.BindIndex == b.BindIndex && a.Port == b.Port && vSame(a.Report, b.Report) && a.Status1 == b.Status1 && a.Status2 == b.Status2 &&
		a.BaseAddress == b.BaseAddress && vSame(a.InputPorts, b.InputPorts) && vSame(a.OutputPorts, b.OutputPorts)
}

// vUntouched: a node other than the announcing one is as it was, including its frame for universe a.
func vUntouched(n, o *ControlledNode, a Address) bool {
	return n.LastSeen.Equal(o.LastSeen) && n.Sequence == o.Sequence && vSame(n.DMXBuffer, o.DMXBuffer) && vSame(n.DMXBuffer[a], o.DMXBuffer[a]) &&
		vSame(n.UDPAddress.IP, o.UDPAddress.IP) && n.UDPAddress.Port == o.UDPAddress.Port && vSame(n.Node.IP, o.Node.IP) && vDescribes(n, o.Node)
}

func vOutRouteKept(c, o *Controller, a Address) bool {
	m, ok := c.OutputAddress[a]
	x, had := o.OutputAddress[a]
	return ok == had && (!ok || vSame(m, x))
}

func vInRouteKept(c, o *Controller, a Address) bool {
	m, ok := c.InputAddress[a]
	x, had := o.InputAddress[a]
	return ok == had && (!ok || vSame(m, x))
}

// The announcement of a node known at position k; j is any position, b any universe, p any port index, x any buffer.
func C14_known(c *Controller, cfg NodeConfig, k, j, p int, b Address, x *dmxBuffer) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(0 <= k && k < len(c.Nodes) && 0 <= j && j < len(c.Nodes) && 0 <= p && x != nil)
	vRequire(vIPKey(c.Nodes[k].Node.IP) == vIPKey(cfg.IP))
	vInv("not found so far", func(i int) bool {
		return vForall(0, i, func(j int) bool { return vIPKey(c.Nodes[j].Node.IP) != vIPKey(cfg.IP) })
	})
	n, m := c.Nodes[k], c.Nodes[j]
	o, on, om, ox := vSnapController(c), vSnapCN14(n), vSnapCN14(m), vSnapBuf14(x)
	count := len(c.Nodes)
	t0 := time.Now()
	err := c.updateNode(cfg)
	t1 := time.Now()
	vEnsure("an announcement is accepted", err == nil)
	vEnsure("the nodes listed stay the same", len(c.Nodes) == count && c.Nodes[k] == n && c.Nodes[j] == m)
	vEnsure("the node has the announced description", vDescribes(n, cfg))
	vEnsure("the node was seen just now", !n.LastSeen.Before(t0) && !n.LastSeen.After(t1))
	vEnsure("every announced output universe leads to the node", p >= len(cfg.OutputPorts) || c.OutputAddress[cfg.OutputPorts[p].Address] == n)
	vEnsure("every announced input universe leads to the node", p >= len(cfg.InputPorts) || c.InputAddress[cfg.InputPorts[p].Address] == n)
	vEnsure("an output universe it does not announce does not lead to it", c.OutputAddress[b] != n || vCfgOut(cfg, b))
	vEnsure("an input universe it does not announce does not lead to it", c.InputAddress[b] != n || vCfgIn(cfg, b))
	vEnsure("every other node stays unchanged", m == n || vUntouched(m, om, b))
	vEnsure("output universes not mentioned keep their route", vAnnouncesOut(on, b) || vCfgOut(cfg, b) || vOutRouteKept(c, o, b))
	vEnsure("input universes not mentioned keep their route", vAnnouncesIn(on, b) || vCfgIn(cfg, b) || vInRouteKept(c, o, b))
	vEnsure("the frame of a continuing universe is kept", !vAnnouncesOut(on, b) || !vCfgOut(cfg, b) || on.DMXBuffer[b] == nil || vSame(n.DMXBuffer[b], on.DMXBuffer[b]))
	vEnsure("no stored frame changes", x.Data == ox.Data && x.Stale == ox.Stale && x.LastUpdate.Equal(ox.LastUpdate))
	vReach("end")
}

// The announcement of a node not known yet.
func C14_new(c *Controller, cfg NodeConfig, j, p int, b Address, x *dmxBuffer) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	vRequire(0 <= j && j < len(c.Nodes) && x != nil)
	m := c.Nodes[j]
	o, om, ox := vSnapController(c), vSnapCN14(m), vSnapBuf14(x)
	count := len(c.Nodes)
	err := c.updateNode(cfg)
	vEnsure("an announcement is accepted", err == nil)
	vEnsure("the nodes listed before stay listed", len(c.Nodes) == count+1 && c.Nodes[j] == m)
	vEnsure("every other node stays unchanged", vUntouched(m, om, b))
	vEnsure("output universes not mentioned keep their route", vCfgOut(cfg, b) || vOutRouteKept(c, o, b))
	vEnsure("input universes not mentioned keep their route", vCfgIn(cfg, b) || vInRouteKept(c, o, b))
	vEnsure("no stored frame changes", x.Data == ox.Data && x.Stale == ox.Stale && x.LastUpdate.Equal(ox.LastUpdate))
	vReach("end")
}

func C14_new_entry(c *Controller, cfg NodeConfig, p int, b Address) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	vRequire(0 <= p)
	count := len(c.Nodes)
	t0 := time.Now()
	c.updateNode(cfg)
	t1 := time.Now()
	vEnsure("the node is listed", len(c.Nodes) == count+1 && c.Nodes[count] != nil)
	n := c.Nodes[count]
	vEnsure("the node has the announced description", vDescribes(n, cfg))
	vEnsure("the node was seen just now", !n.LastSeen.Before(t0) && !n.LastSeen.After(t1))
	vEnsure("every announced output universe leads to the node", p >= len(cfg.OutputPorts) || c.OutputAddress[cfg.OutputPorts[p].Address] == n)
	vEnsure("every announced input universe leads to the node", p >= len(cfg.InputPorts) || c.InputAddress[cfg.InputPorts[p].Address] == n)
	vEnsure("an output universe it does not announce does not lead to it", c.OutputAddress[b] != n || vCfgOut(cfg, b))
	vEnsure("an input universe it does not announce does not lead to it", c.InputAddress[b] != n || vCfgIn(cfg, b))
	vReach("end")
}
