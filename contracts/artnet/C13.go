package artnet

import "net"

func vCheckInv(c *Controller) {
	vEnsure("tables are separate", c.OutputAddress != nil && c.InputAddress != nil && !vSame(c.OutputAddress, c.InputAddress))
	vEnsure("listed nodes are well formed", vNodesShape(c))
	vEnsure("no node is listed twice", vNodesDistinct(c))
	vEnsure("no IP is listed twice", vIPsDistinct(c))
	vEnsure("output universes lead to listed nodes announcing them, with a buffer", vOutRoutes(c))
	vEnsure("input universes lead to listed nodes announcing them", vInRoutes(c))
	vEnsure("every universe has a buffer of its own", vBuffersOwn(c))
}

// An announcement of a node the controller knows (at index k) or does not know.
func C13_announcement_known(c *Controller, cfg NodeConfig, k int) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(0 <= k && k < len(c.Nodes))
	vRequire(vIPKey(c.Nodes[k].Node.IP) == vIPKey(cfg.IP))
	vNotFound(c, cfg)
	c.updateNode(cfg)
	vReach("end")
	vCheckInv(c)
}

func C13_announcement_new(c *Controller, cfg NodeConfig) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	c.updateNode(cfg)
	vReach("end")
	vCheckInv(c)
}

func vNotFound(c *Controller, cfg NodeConfig) {
	vInv("not found so far", func(i int) bool {
		return vForall(0, i, func(j int) bool { return vIPKey(c.Nodes[j].Node.IP) != vIPKey(cfg.IP) })
	})
}

//verif:needs Controller.deleteNode
func C13_removal_known(c *Controller, cfg NodeConfig, k int) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4)
	vRequire(0 <= k && k < len(c.Nodes))
	vRequire(vIPKey(c.Nodes[k].Node.IP) == vIPKey(cfg.IP))
	vNotFound(c, cfg)
	c.deleteNode(cfg)
	vReach("end")
	vCheckInv(c)
}

//verif:needs Controller.deleteNode
func C13_removal_new(c *Controller, cfg NodeConfig) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	c.deleteNode(cfg)
	vReach("end")
	vCheckInv(c)
}

// A new controller knows no nodes.
func C13_new(name string, ip net.IP, log Logger) {
	vRequire(vSymbolic() && log != nil && len(ip) == 4)
	c := NewController(name, ip, log)
	vEnsure("no node is known", c != nil && len(c.Nodes) == 0)
	vEnsure("the lock is free", !vHeld(&c.nodeLock))
	vReach("end")
}

// Starting it, for the first time or again (whether it succeeds or not).
func vStartable(c *Controller) bool {
	n := c.cNode
	return n != nil && n.log != nil && !vHeld(&n.shutdownLock) && len(n.Config.InputPorts) <= 4 && len(n.Config.OutputPorts) <= 4 && n.callbacks != nil
}

func C13_start_first(c *Controller) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(c != nil && c.log != nil && !vHeld(&c.nodeLock) && len(c.Nodes) == 0 && vStartable(c))
	vTasks()
	c.Start()
	vReach("end")
	vCheckInv(c)
	vEnsure("the lock is free", !vHeld(&c.nodeLock))
}

func C13_start_again(c *Controller) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vAssumeInv(c)
	vRequire(vStartable(c))
	vTasks()
	c.Start()
	vReach("end")
	vCheckInv(c)
	vEnsure("the lock is free", !vHeld(&c.nodeLock))
}
