package artnet

import (
	"time"

	"github.com/jsimonetti/go-artnet/packet"
)

// Every step of the update loop; q is any universe.
func C18_ticks(c *Controller, q Address) {
	vRequire(vTickReady(c))
	interval := time.Second / time.Duration(c.maxFPS)
	vInv("routes", func() bool { return vTickRoutes(c) })
	vIter(func(depth int) {
		sends := vSends(c.cNode.sendCh)
		if depth == 2 {
			a := vRangeKey()
			n := c.OutputAddress[a]
			old := vAtStart(n).(*ControlledNode).DMXBuffer[a]
			pending, overdue := false, true // a universe without a buffer was never sent
			buf := n.DMXBuffer[a]
			now := vNow()
			recent := false
			if old != nil {
				pending = old.Stale
				recent = old.LastUpdate.After(now.Add(-interval))
				overdue = old.LastUpdate.Before(now.Add(-250 * time.Millisecond))
			}
			vEnsure("at most one frame per universe and tick", sends <= 1)
			vEnsure("a pending frame is sent when the last one is a frame interval old", !pending || recent || sends == 1)
			vEnsure("a frame is sent when there was none for 250 ms", !overdue || sends == 1)
			vEnsure("no frame is sent otherwise", pending || overdue || sends == 0)
			vEnsure("a transmitted universe is not pending", sends == 0 || !buf.Stale)
			vEnsure("a transmitted universe's last-sent time is the tick's", sends == 0 || buf.LastUpdate.Equal(now))
			vEnsure("a universe that is not transmitted stays as it is", sends > 0 || old != nil && buf.Stale == old.Stale && buf.LastUpdate.Equal(old.LastUpdate))
			vEnsure("no other universe's frame is touched", vOtherKept(c, a, q))
			if sends > 0 {
				vReach("sent")
			}
			return
		}
		vEnsure("frames are only sent for routed universes at a tick", sends == 0)
		if depth == -2 {
			_, ok := c.OutputAddress[q]
			vEnsure("every routed universe is served at every tick, whatever happens to others", !ok || vVisited(q))
			vReach("tick served")
		}
		if depth == 1 {
			vEnsure("every tick serves the universes", vTotalRecvs() == 0)
		}
		if depth == -1 {
			vEnsure("updates end only on shutdown", vRecvs(c.shutdownCh) > 0)
		}
		if depth == 0 {
			vEnsure("the ticks come at the frame interval", vCalls("time.NewTicker") == 1 && vAllCalls("time.NewTicker", func(d time.Duration) bool { return d == interval }))
		}
	})
	vMonitor(&c.nodeLock, vTickKeys, func() bool { return vTickRoutes(c) })
	c.dmxUpdateLoop()
}

// vOtherKept: the frame of universe q, if it is another one than a, is as it was when the iteration began.
func vOtherKept(c *Controller, a, q Address) bool {
	n, ok := c.OutputAddress[q]
	if !ok || q == a {
		return true
	}
	b, o := n.DMXBuffer[q], vAtStart(n).(*ControlledNode).DMXBuffer[q]
	return b == o && b == nil || vSame(b, o) && b.Data == o.Data && b.Stale == o.Stale && b.LastUpdate.Equal(o.LastUpdate)
}

// Start starts the update loop, once.
func C18_started(c *Controller) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(c != nil && c.log != nil && !vHeld(&c.nodeLock) && c.cNode != nil)
	n := c.cNode
	vRequire(n.log != nil && !vHeld(&n.shutdownLock) && len(n.Config.InputPorts) <= 4 && len(n.Config.OutputPorts) <= 4 && n.callbacks != nil)
	vContract("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool { return err != nil || p != nil })
	vContract("Node.handlePacket", func(n *Node, p packet.ArtNetPacket) bool { return true })
	vContract("Controller.pollLoop", func(c *Controller) bool { return true })
	vContract("Controller.updateNode", func(c *Controller, cfg NodeConfig, err error) bool { return true })
	vContract("Controller.gcNode", func(c *Controller) bool { return true })
	vContract("ConfigFromArtPollReply", func(p packet.ArtPollReplyPacket, cfg NodeConfig) bool { return true })
	vContract("Controller.dmxUpdateLoop", func(c *Controller) bool { return true })
	vTasks()
	vIter(func(depth int) {
		if vCalls("Controller.dmxUpdateLoop") > 0 {
			vEnsure("the update loop of this controller", vAllCalls("Controller.dmxUpdateLoop", func(d *Controller) bool { return d == c }))
			vTaskDoes("updates")
		}
	})
	err := c.Start()
	vRequire(err == nil)
	vMonitor(&n.shutdownLock, "Node.shutdown", func() bool { return true })
	vRunTasks()
	vEnsure("a started controller has one task that sends updates", vTasksDoing("updates") == 1)
	vReach("end")
}
