package artnet

import (
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

const vSharedKeys = "Controller.Nodes Controller.OutputAddress Controller.InputAddress ControlledNode dmxBuffer M:Address>*ControlledNode M:Address>*dmxBuffer A:*ControlledNode"

// Sending a frame.
func C19_send(c *Controller, dmx [512]byte, a Address) {
	vAssumeInv(c)
	n, ok := c.OutputAddress[a]
	vGuard(&c.nodeLock, vSharedKeys)
	c.SendDMXToAddress(dmx, a)
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	vEnsure("the node's lock is released", !ok || !vHeld(&n.nodeLock))
	vReach("end")
}

// Announcements and removals.
func C19_announcement_known(c *Controller, cfg NodeConfig, k int) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(0 <= k && k < len(c.Nodes))
	vRequire(vIPKey(c.Nodes[k].Node.IP) == vIPKey(cfg.IP))
	vGuard(&c.nodeLock, vSharedKeys)
	c.updateNode(cfg)
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	vReach("end")
}

func C19_announcement_new(c *Controller, cfg NodeConfig) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vRequire(vForall(0, len(c.Nodes), func(i int) bool { return vIPKey(c.Nodes[i].Node.IP) != vIPKey(cfg.IP) }))
	vGuard(&c.nodeLock, vSharedKeys)
	c.updateNode(cfg)
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	vReach("end")
}

//verif:needs Controller.deleteNode
func C19_removal(c *Controller, cfg NodeConfig) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4)
	vGuard(&c.nodeLock, vSharedKeys)
	err := c.deleteNode(cfg)
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	if err == nil {
		vReach("deleted")
	} else {
		vReach("unknown")
	}
}

func C19_gc(c *Controller) {
	vAssumeInv(c)
	vInv("well formed", func() bool { return vNodesShape(c) })
	vInv("inside", func(i int) bool { return i < len(c.Nodes) })
	vGuard(&c.nodeLock, vSharedKeys)
	c.gcNode()
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	vReach("end")
}

// The update task.
func C19_updates(c *Controller) {
	vRequire(vTickReady(c))
	vInv("routes", func() bool { return vTickRoutes(c) })
	vIter(func(depth int) {
		if depth == 1 || depth == -1 {
			vEnsure("the lock is released between ticks", !vHeld(&c.nodeLock))
		}
		if vSends(c.cNode.sendCh) > 0 {
			vReach("sent")
		}
	})
	vMonitor(&c.nodeLock, vTickKeys, func() bool { return vTickRoutes(c) })
	vGuard(&c.nodeLock, vSharedKeys)
	c.dmxUpdateLoop()
}

// The polling task touches the shared state only through announcements and clean-up (above).
func C19_polling(c *Controller) {
	vRequire(c != nil && c.log != nil && !vHeld(&c.nodeLock) && c.cNode != nil && c.pollTicker != nil && c.gcTicker != nil)
	vContract("Controller.updateNode", func(c *Controller, cfg NodeConfig, err error) bool { return true })
	vContract("Controller.gcNode", func(c *Controller) bool { return true })
	vContract("ConfigFromArtPollReply", func(p packet.ArtPollReplyPacket, cfg NodeConfig) bool {
		return len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4
	})
	vGuard(&c.nodeLock, vSharedKeys)
	vIter(func(depth int) {
		vEnsure("announcements take the lock themselves", vAllCalls("Controller.updateNode", func(d *Controller, cfg NodeConfig, err error) bool { return !vHeld(&d.nodeLock) }))
		vEnsure("announcements have a four byte address and at most four ports each way", vAllCalls("Controller.updateNode", func(d *Controller, cfg NodeConfig, err error) bool {
			return len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4
		}))
		vEnsure("clean-up takes the lock itself", vAllCalls("Controller.gcNode", func(d *Controller) bool { return !vHeld(&d.nodeLock) }))
		vEnsure("the lock is released", !vHeld(&c.nodeLock))
	})
	c.pollLoop()
}

// The shutdown flag of a node, in Start and its tasks.
func C19_node(n *Node) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(n != nil && n.log != nil && !vHeld(&n.shutdownLock) && len(n.Config.InputPorts) <= 4 && len(n.Config.OutputPorts) <= 4)
	vContract("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool { return err != nil || p != nil })
	vContract("Node.handlePacket", func(n *Node, p packet.ArtNetPacket) bool { return true })
	vTasks()
	vGuard(&n.shutdownLock, "Node.shutdown")
	err := n.Start()
	vEnsure("the lock is released by Start", !vHeld(&n.shutdownLock))
	vRequire(err == nil)
	vMonitor(&n.shutdownLock, "Node.shutdown", func() bool { return true })
	vIter(func(depth int) {
		vEnsure("the lock is released", !vHeld(&n.shutdownLock))
		if vCalls("WriteToUDP") > 0 {
			vReach("sending")
		}
		if vCalls("ReadFromUDP") > 0 {
			vReach("receiving")
		}
	})
	vRunTasks()
}

func C19_node_stop(n *Node) {
	vRequire(n != nil && n.log != nil && !vHeld(&n.shutdownLock))
	vRequire(n.shutdown || n.shutdownCh != nil && !vClosed(n.shutdownCh))
	vGuard(&n.shutdownLock, "Node.shutdown")
	n.Stop()
	vEnsure("the lock is released", !vHeld(&n.shutdownLock))
	vReach("end")
}

func C19_node_callbacks(n *Node, op code.OpCode, f NodeCallbackFn) {
	vRequire(n != nil && n.log != nil && !vHeld(&n.shutdownLock) && n.callbacks != nil)
	vGuard(&n.shutdownLock, "Node.shutdown")
	n.RegisterCallback(op, f)
	vEnsure("the lock is released after registration", !vHeld(&n.shutdownLock))
	n.DeregisterCallback(op)
	vEnsure("the lock is released after deregistration", !vHeld(&n.shutdownLock))
	vReach("end")
}

// What is used about the decoder.
func C19_callee_Unmarshal(b []byte, i int) {
	vRequire(0 <= i && i < len(b))
	o := b[i]
	p, err := packet.Unmarshal(b)
	vEnsure("a packet or an error", err != nil || p != nil)
	vEnsure("the datagram is not changed", b[i] == o)
	vReach("end")
}

// What is used about the conversion of replies.
func C19_callee_ConfigFromArtPollReply(p packet.ArtPollReplyPacket) {
	cfg := ConfigFromArtPollReply(p)
	vEnsure("a four byte address and at most four ports each way", len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vReach("end")
}

// What is used about the dispatch of packets: it leaves the node's life cycle and its lock alone. Handlers other than
// the node's own are not looked at.
func C19_callee_handlePacket(n *Node, p packet.ArtNetPacket, i uint16) {
	vRequire(n != nil && n.log != nil && p != nil && !vHeld(&n.shutdownLock))
	vRequire(vForallU16(func(i uint16) bool {
		f, ok := n.callbacks[code.OpCode(i)]
		return !ok || f != nil
	}))
	vGuard(&n.shutdownLock, "Node.shutdown")
	n.handlePacket(p)
	vEnsure("the lock is released", !vHeld(&n.shutdownLock))
	vReach("end")
}

//verif:needs Node.handlePacketPoll
//verif:needs Node.handlePacketPollReply
func C19_callee_handlers(n *Node, p packet.ArtNetPacket) {
	vRequire(vSymbolic()) // not executed in replays: it may block
	vRequire(n != nil && n.log != nil && p != nil && !vHeld(&n.shutdownLock))
	vGuard(&n.shutdownLock, "Node.shutdown")
	n.handlePacketPoll(p)
	n.handlePacketPollReply(p)
	vEnsure("the lock is released", !vHeld(&n.shutdownLock))
	vReach("end")
}
