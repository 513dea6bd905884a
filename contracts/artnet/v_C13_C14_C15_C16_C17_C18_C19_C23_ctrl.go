package artnet

import "net"

// The representation invariant of a controller's tables.

func vIPKey(ip net.IP) uint32 {
	return uint32(ip[0])<<24 | uint32(ip[1])<<16 | uint32(ip[2])<<8 | uint32(ip[3])
}

// vSnapController is the controller's state at the moment of the call.
func vSnapController(c *Controller) *Controller { return vDeepCopy(c).(*Controller) }

func vNodesShape(c *Controller) bool { return vShape(c.Nodes) }

func vShape(l []*ControlledNode) bool {
	return vForall(0, len(l), func(i int) bool {
		n := l[i]
		return n != nil && n.DMXBuffer != nil && len(n.Node.OutputPorts) <= 4 && len(n.Node.InputPorts) <= 4 && len(n.Node.IP) == 4
	})
}

// vNodesDistinct: no two entries are the same node, share buffers or have the same IP.
func vNodesDistinct(c *Controller) bool {
	return vForall(0, len(c.Nodes), func(i int) bool {
		return vForall(0, len(c.Nodes), func(j int) bool {
			return i == j || (c.Nodes[i] != c.Nodes[j] && !vSame(c.Nodes[i].DMXBuffer, c.Nodes[j].DMXBuffer))
		})
	})
}

func vIPsDistinct(c *Controller) bool {
	return vForall(0, len(c.Nodes), func(i int) bool {
		return vForall(0, len(c.Nodes), func(j int) bool {
			return i == j || vIPKey(c.Nodes[i].Node.IP) != vIPKey(c.Nodes[j].Node.IP)
		})
	})
}

// vListed: n is in the node list. (The second disjunct only helps the solver to find the index again after
// elements have moved down by one.)
func vListed(c *Controller, n *ControlledNode) bool { return vListedIn(c.Nodes, n) }

func vListedIn(l []*ControlledNode, n *ControlledNode) bool {
	return vExists(0, len(l)+1, func(i int) bool {
		return i < len(l) && l[i] == n || i > 0 && l[i-1] == n
	})
}

func vAnnouncesOut(n *ControlledNode, a Address) bool {
	return vExists(0, 4, func(k int) bool { return k < len(n.Node.OutputPorts) && n.Node.OutputPorts[k].Address == a })
}

func vAnnouncesIn(n *ControlledNode, a Address) bool {
	return vExists(0, 4, func(k int) bool { return k < len(n.Node.InputPorts) && n.Node.InputPorts[k].Address == a })
}

func vCfgOut(cfg NodeConfig, a Address) bool {
	return vExists(0, 4, func(k int) bool { return k < len(cfg.OutputPorts) && cfg.OutputPorts[k].Address == a })
}

func vCfgIn(cfg NodeConfig, a Address) bool {
	return vExists(0, 4, func(k int) bool { return k < len(cfg.InputPorts) && cfg.InputPorts[k].Address == a })
}

func vOutRoutes(c *Controller) bool {
	return vForallAddr(func(a Address) bool {
		n, ok := c.OutputAddress[a]
		return !ok || n != nil && vListed(c, n) && vAnnouncesOut(n, a) && n.DMXBuffer[a] != nil
	})
}

func vInRoutes(c *Controller) bool {
	return vForallAddr(func(a Address) bool {
		n, ok := c.InputAddress[a]
		return !ok || n != nil && vListed(c, n) && vAnnouncesIn(n, a)
	})
}

// vBuffersOwn: no two universes (of one node or of two) share a DMX buffer.
func vBuffersOwn(c *Controller) bool {
	return vForall(0, len(c.Nodes), func(i int) bool {
		return vForall(0, len(c.Nodes), func(j int) bool {
			return vForallAddr(func(a Address) bool {
				return vForallAddr(func(b Address) bool {
					x, y := c.Nodes[i].DMXBuffer[a], c.Nodes[j].DMXBuffer[b]
					return i == j && a == b || x == nil || y == nil || x != y
				})
			})
		})
	})
}

// vPos: where a node was in the list when the operation began (a ghost inverse of the list).
func vPos(n *ControlledNode) int { return vGhost("pos", n) }

// vOwned: the listed nodes have positions of their own, and their buffers and IPs belong to these positions
// (so no node, buffer or IP occurs twice).
func vOwned(c *Controller) bool { return vOwnedIn(c.Nodes) }

func vOwnedIn(l []*ControlledNode) bool {
	return vForall(0, len(l), func(i int) bool {
		n := l[i]
		return vGhost("bufsOf", n.DMXBuffer) == vPos(n) && vGhost("ipOf", vIPKey(n.Node.IP)) == vPos(n) && !vHeld(&n.nodeLock)
	}) && vForall(0, len(l), func(i int) bool {
		return vForallAddr(func(a Address) bool {
			n := l[i]
			x := n.DMXBuffer[a]
			return x == nil || vGhost("bufNode", x) == vPos(n) && vGhost("bufNet", x) == int(a.Net) && vGhost("bufSub", x) == int(a.SubUni)
		})
	})
}

func vPosDistinct(c *Controller) bool {
	return vForall(0, len(c.Nodes), func(i int) bool {
		return vForall(0, len(c.Nodes), func(j int) bool { return i == j || vPos(c.Nodes[i]) != vPos(c.Nodes[j]) })
	})
}

// vAssumeInv assumes the representation invariant. Distinctness is assumed as the existence of inverse
// functions (position of a node, owner of a buffer), which is the same thing.
func vAssumeInv(c *Controller) {
	vRequire(c != nil && c.log != nil && c.OutputAddress != nil && c.InputAddress != nil)
	vRequire(!vSame(c.OutputAddress, c.InputAddress))
	vRequire(!vHeld(&c.nodeLock))
	vRequire(vNodesShape(c))
	if vSymbolic() {
		vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vPos(c.Nodes[i]) == i }))
		vRequire(vOwned(c))
	} else {
		vRequire(vNodesDistinct(c) && vIPsDistinct(c) && vBuffersOwn(c))
		vGhostInit(c)
	}
	vRequire(vOutRoutes(c) && vInRoutes(c))
}

func vGhostInit(c *Controller) {
	vGhosts = map[uintptr]int{}
	for i, n := range c.Nodes {
		vGhostSet(n, i)
	}
}
