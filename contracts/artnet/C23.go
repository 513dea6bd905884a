package artnet

import (
	"net"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func vAddrSame23(a, b net.UDPAddr) bool {
	return vSame(a.IP, b.IP) && a.Port == b.Port && a.Zone == b.Zone
}

// vIsPoll: a valid ArtPoll asking for replies on change.
func vIsPoll(b []byte) bool {
	return len(b) == 14 && b[0] == 'A' && b[1] == 'r' && b[2] == 't' && b[3] == '-' && b[4] == 'N' && b[5] == 'e' && b[6] == 't' && b[7] == 0 &&
		b[8] == 0 && b[9] == 0x20 && b[10] == 0 && b[11] == 14 && b[12]&2 != 0
}

// vHasOutput: the reply announces an output port.
func vHasOutput(p packet.ArtPollReplyPacket) bool {
	return vExists(0, 4, func(i int) bool { return i < int(p.NumPorts) && p.PortTypes[i]&0x80 != 0 })
}

func vAdmitted(p packet.ArtPollReplyPacket) bool {
	return p.Style == code.StNode || p.Style == code.StController && vHasOutput(p)
}

func vCfgSame(a, b NodeConfig) bool {
	return a.OEM == b.OEM && a.Version == b.Version && a.BiosVersion == b.BiosVersion && a.Manufacturer == b.Manufacturer && a.Type == b.Type &&
		a.Name == b.Name && a.Description == b.Description && vSame(a.Ethernet, b.Ethernet) && vSame(a.IP, b.IP) && vSame(a.BindIP, b.BindIP) &&
		a.BindIndex == b.BindIndex && a.Port == b.Port && vSame(a.Report, b.Report) && a.Status1 == b.Status1 && a.Status2 == b.Status2 &&
		a.BaseAddress == b.BaseAddress && vSame(a.InputPorts, b.InputPorts) && vSame(a.OutputPorts, b.OutputPorts)
}

// The controller's polling task, from its start. Node registration (C14) and clean-up (C15) are represented by
// recorded calls, the conversion of replies by what C11 shows about it.
func C23_polling(c *Controller) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(c != nil && c.log != nil && !vHeld(&c.nodeLock) && c.cNode != nil)
	n := c.cNode
	vRequire(n.log != nil && !vHeld(&n.shutdownLock) && len(n.Config.InputPorts) <= 4 && len(n.Config.OutputPorts) <= 4 && n.callbacks != nil)
	vContract("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool { return err != nil || p != nil })
	vContract("Node.handlePacket", func(n *Node, p packet.ArtNetPacket) bool { return true })
	vContract("Controller.dmxUpdateLoop", func(c *Controller) bool { return true })
	vContract("Controller.updateNode", func(c *Controller, cfg NodeConfig, err error) bool { return true })
	vContract("Controller.gcNode", func(c *Controller) bool { return true })
	vContract("ConfigFromArtPollReply", func(p packet.ArtPollReplyPacket, cfg NodeConfig) bool {
		return cfg.Type == p.Style && (len(cfg.OutputPorts) > 0) == vHasOutput(p) && len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4
	})
	vTasks()
	to := c.broadcastAddr
	vIter(func(depth int) {
		if !vInTask("Controller.pollLoop") || vCalls("Controller.dmxUpdateLoop") > 0 {
			return
		}
		polls := vSends(n.sendCh)
		if depth == 0 {
			vReach("start")
			vEnsure("one poll at the start", polls == 1)
		} else {
			vEnsure("one poll per tick of the poll interval", polls == vRecvs(c.pollTicker.C))
		}
		vEnsure("what is sent is a valid ArtPoll asking for replies on change", vAllSent(n.sendCh, func(p netPayload) bool { return vIsPoll(p.data) }))
		vEnsure("it is broadcast to the configured address", vAllSent(n.sendCh, func(p netPayload) bool { return vAddrSame23(p.address, to) }))
		vEnsure("every own poll is answered", vSends(n.pollCh) == polls)
		if polls > 0 {
			vReach("polled")
			vTaskDoes("polls")
		}

		regs := vCalls("Controller.updateNode")
		vEnsure("nothing is registered without a reply", regs <= vRecvs(n.pollReplyCh))
		vEnsure("exactly nodes and output controllers are registered", vAllRecv(n.pollReplyCh, func(p packet.ArtPollReplyPacket) bool { return regs == vB2I23(vAdmitted(p)) }))
		vEnsure("with the description derived from the reply", vAllCalls("Controller.updateNode", func(d *Controller, cfg NodeConfig, err error) bool {
			return d == c && vCalls("ConfigFromArtPollReply") >= 1 && vAllCalls("ConfigFromArtPollReply", func(p packet.ArtPollReplyPacket, r NodeConfig) bool {
				return vCfgSame(cfg, r) && vAllRecv(n.pollReplyCh, func(q packet.ArtPollReplyPacket) bool { return p == q })
			})
		}))
		vEnsure("what is registered has a four byte address and at most four ports each way", vAllCalls("Controller.updateNode", func(d *Controller, cfg NodeConfig, err error) bool {
			return len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4
		}))
		vEnsure("clean-up runs at its own ticks only", vCalls("Controller.gcNode") == vRecvs(c.gcTicker.C))
		if regs > 0 {
			vReach("registered")
		}
		vEnsure("polling ends only on shutdown", depth >= 0 || vRecvs(c.shutdownCh) > 0)
	})
	err := c.Start()
	vRequire(err == nil)
	vEnsure("the poll interval is 3 seconds", vCalls("time.NewTicker") == 2 && vAllCalls("time.NewTicker", func(d time.Duration) bool { return d == 3*time.Second }))
	vMonitor(&n.shutdownLock, "Node.shutdown", func() bool { return true })
	vRunTasks()
	vEnsure("a started controller has one task that polls", vTasksDoing("polls") == 1)
}

func vB2I23(b bool) int {
	if b {
		return 1
	}
	return 0
}

// What is used about the decoder.
func C23_callee_Unmarshal(b []byte, i int) {
	vRequire(0 <= i && i < len(b))
	o := b[i]
	p, err := packet.Unmarshal(b)
	vEnsure("a packet or an error", err != nil || p != nil)
	vEnsure("the datagram is not changed", b[i] == o)
	vReach("end")
}

// What is used about the conversion of replies.
func C23_callee_ConfigFromArtPollReply(p packet.ArtPollReplyPacket) {
	cfg := ConfigFromArtPollReply(p)
	vEnsure("a four byte address and at most four ports each way", len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	vEnsure("the style is kept", cfg.Type == p.Style)
	vEnsure("there are outputs exactly if the reply announces some", (len(cfg.OutputPorts) > 0) == vHasOutput(p))
	vReach("end")
}

// What is used about the dispatch of packets: it leaves the node's life cycle and its lock alone. Handlers other than
// the node's own are not looked at.
func C23_callee_handlePacket(n *Node, p packet.ArtNetPacket, i uint16) {
	vRequire(n != nil && n.log != nil && p != nil && !vHeld(&n.shutdownLock))
	vRequire(vForallU16(func(i uint16) bool {
		f, ok := n.callbacks[code.OpCode(i)]
		return !ok || f != nil
	}))
	o := n.shutdown
	n.handlePacket(p)
	vEnsure("the life cycle is not touched", n.shutdown == o && !vHeld(&n.shutdownLock))
	vReach("end")
}

//verif:needs Node.handlePacketPoll
//verif:needs Node.handlePacketPollReply
func C23_callee_handlers(n *Node, p packet.ArtNetPacket) {
	vRequire(vSymbolic()) // not executed in replays: it may block
	vRequire(n != nil && n.log != nil && p != nil && !vHeld(&n.shutdownLock))
	o := n.shutdown
	n.handlePacketPoll(p)
	n.handlePacketPollReply(p)
	vEnsure("the life cycle is not touched", n.shutdown == o && !vHeld(&n.shutdownLock))
	vReach("end")
}

// What is used about registration and clean-up: they leave the polling and the lock as they were.
func C23_callee_updateNode(c *Controller, cfg NodeConfig) {
	vAssumeInv(c)
	vRequire(len(cfg.IP) == 4 && len(cfg.OutputPorts) <= 4 && len(cfg.InputPorts) <= 4)
	n, p, g := c.cNode, c.pollTicker, c.gcTicker
	c.updateNode(cfg)
	vEnsure("polling goes on", c.cNode == n && c.pollTicker == p && c.gcTicker == g)
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	vReach("end")
}

func C23_callee_gcNode(c *Controller) {
	vAssumeInv(c)
	vInv("well formed", func() bool { return vNodesShape(c) })
	vInv("inside", func(i int) bool { return i < len(c.Nodes) })
	n, p, g := c.cNode, c.pollTicker, c.gcTicker
	c.gcNode()
	vEnsure("polling goes on", c.cNode == n && c.pollTicker == p && c.gcTicker == g)
	vEnsure("the lock is released", !vHeld(&c.nodeLock))
	vReach("end")
}

// The queues of a started controller are usable.
func C23_queues(name string, ip net.IP, log Logger) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(log != nil)
	c := NewController(name, ip, log)
	err := c.Start()
	vRequire(err == nil)
	n := c.cNode
	vEnsure("polls can be queued", n.sendCh != nil && !vClosed(n.sendCh))
	vEnsure("own polls can be taken up", n.pollCh != nil && !vClosed(n.pollCh))
	vEnsure("replies can be taken up", n.pollReplyCh != nil && !vClosed(n.pollReplyCh))
	vReach("end")
}
