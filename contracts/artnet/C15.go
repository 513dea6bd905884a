package artnet

import "time"

func vSnapCN15(n *ControlledNode) *ControlledNode { return vDeepCopy(n).(*ControlledNode) }
func vSnapBuf15(b *dmxBuffer) *dmxBuffer          { return vDeepCopy(b).(*dmxBuffer) }

// vUntouched15: the node is as it was, including its frame for universe a.
func vUntouched15(n, o *ControlledNode, a Address) bool {
	return n.LastSeen.Equal(o.LastSeen) && n.Sequence == o.Sequence && vSame(n.DMXBuffer, o.DMXBuffer) && vSame(n.DMXBuffer[a], o.DMXBuffer[a]) &&
		vSame(n.UDPAddress.IP, o.UDPAddress.IP) && n.UDPAddress.Port == o.UDPAddress.Port && vSame(n.Node.IP, o.Node.IP) &&
		vSame(n.Node.OutputPorts, o.Node.OutputPorts) && vSame(n.Node.InputPorts, o.Node.InputPorts) && n.Node.Name == o.Node.Name &&
		n.Node.Description == o.Node.Description && n.Node.Type == o.Node.Type && n.Node.BaseAddress == o.Node.BaseAddress
}

func vOutKept15(c, o *Controller, a Address) bool {
	m, ok := c.OutputAddress[a]
	x, had := o.OutputAddress[a]
	return ok == had && (!ok || vSame(m, x))
}

func vInKept15(c, o *Controller, a Address) bool {
	m, ok := c.InputAddress[a]
	x, had := o.InputAddress[a]
	return ok == had && (!ok || vSame(m, x))
}

// Deleting the node at position k; j is any position, b any universe, x any buffer.
//
//verif:needs Controller.deleteNode
func C15_delete_known(c *Controller, cfg NodeConfig, k, j int, b Address, x *dmxBuffer) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4)
	vRequire(0 <= k && k < len(c.Nodes) && 0 <= j && j < len(c.Nodes) && x != nil)
	vRequire(vIPKey(c.Nodes[k].Node.IP) == vIPKey(cfg.IP))
	vInv("not found so far", func(i int) bool {
		return vForall(0, i, func(j int) bool { return vIPKey(c.Nodes[j].Node.IP) != vIPKey(cfg.IP) })
	})
	n, m := c.Nodes[k], c.Nodes[j]
	o, on, om, ox := vSnapController(c), vSnapCN15(n), vSnapCN15(m), vSnapBuf15(x)
	count := len(c.Nodes)
	err := c.deleteNode(cfg)
	vEnsure("deleting a known node succeeds", err == nil)
	vEnsure("one node is removed", len(c.Nodes) == count-1)
	vEnsure("the nodes before it keep their place", j >= k || j < len(c.Nodes) && c.Nodes[j] == m)
	vEnsure("the nodes after it move up by one", j <= k || j-1 < len(c.Nodes) && c.Nodes[j-1] == m)
	vEnsure("no universe leads to it", c.OutputAddress[b] != n && c.InputAddress[b] != n)
	vEnsure("no other node is touched", m == n || vUntouched15(m, om, b))
	vEnsure("output universes it does not announce keep their route", vAnnouncesOut(on, b) || vOutKept15(c, o, b))
	vEnsure("input universes it does not announce keep their route", vAnnouncesIn(on, b) || vInKept15(c, o, b))
	vEnsure("no stored frame changes", x.Data == ox.Data && x.Stale == ox.Stale && x.LastUpdate.Equal(ox.LastUpdate))
	vReach("end")
}

//verif:needs Controller.deleteNode
func C15_delete_unknown(c *Controller, cfg NodeConfig, j int, b Address, x *dmxBuffer) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	vRequire(0 <= j && j < len(c.Nodes) && x != nil)
	m := c.Nodes[j]
	o, om, ox := vSnapController(c), vSnapCN15(m), vSnapBuf15(x)
	count := len(c.Nodes)
	err := c.deleteNode(cfg)
	vEnsure("deleting an unknown node is an error", err != nil)
	vEnsure("the nodes listed stay the same", len(c.Nodes) == count && c.Nodes[j] == m)
	vEnsure("no node is touched", vUntouched15(m, om, b))
	vEnsure("no route changes", vOutKept15(c, o, b) && vInKept15(c, o, b))
	vEnsure("no stored frame changes", x.Data == ox.Data && x.Stale == ox.Stale && x.LastUpdate.Equal(ox.LastUpdate))
	vReach("end")
}

//verif:needs Controller.deleteNode
func C15_delete_empty(c *Controller, cfg NodeConfig) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(c.Nodes) == 0)
	err := c.deleteNode(cfg)
	vEnsure("deleting an unknown node is an error", err != nil)
	vEnsure("nothing is listed", len(c.Nodes) == 0)
}

func vExpired(n *ControlledNode, at time.Time) bool {
	return n.LastSeen.Add(7 * time.Second).Before(at)
}
