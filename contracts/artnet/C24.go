package artnet

import (
	"net"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func vUDPSame(a, b net.UDPAddr) bool {
	return vSame(a.IP, b.IP) && a.Port == b.Port && a.Zone == b.Zone
}

// vNodeParams: the parameters of a node which options can set.
func vNodeParamsSame(n, o *Node, broadcast, listen bool) bool {
	return (broadcast || vUDPSame(n.broadcastAddr, o.broadcastAddr)) && (listen || vUDPSame(n.listenAddr, o.listenAddr)) &&
		vUDPSame(n.localAddr, o.localAddr) && n.shutdown == o.shutdown && n.Config.Name == o.Config.Name && n.Config.Type == o.Config.Type &&
		vSame(n.Config.IP, o.Config.IP) && vSame(n.callbacks, o.callbacks)
}

func vCtrlParamsSame(c, o *Controller, fps, broadcast bool) bool {
	return (fps || c.maxFPS == o.maxFPS) && (broadcast || vUDPSame(c.broadcastAddr, o.broadcastAddr)) && vSame(c.cNode, o.cNode) &&
		vSame(c.Nodes, o.Nodes) && vSame(c.OutputAddress, o.OutputAddress) && vSame(c.InputAddress, o.InputAddress)
}

func vSnapCtrl24(c *Controller) *Controller { return vDeepCopy(c).(*Controller) }
func vSnapNode24(n *Node) *Node             { return vDeepCopy(n).(*Node) }

func vFPSOK(fps int) bool { return 1 <= fps && fps <= int(time.Second) }

// Options of a controller.
func C24_MaxFPS(c *Controller, fps int) {
	vRequire(c != nil && c.cNode != nil)
	o := vSnapCtrl24(c)
	err := c.SetOption(MaxFPS(fps))
	vEnsure("a frame rate of 1 and more is accepted", !(fps >= 1 && fps <= 1000000000) || err == nil && c.maxFPS == fps)
	vEnsure("a frame rate below 1 is refused", fps >= 1 || err != nil)
	vEnsure("a refused frame rate leaves the previous one", err == nil || c.maxFPS == o.maxFPS)
	vEnsure("an accepted frame rate is in effect", err != nil || c.maxFPS == fps)
	vEnsure("an accepted frame rate has a positive frame interval", err != nil || time.Second/time.Duration(c.maxFPS) > 0)
	vEnsure("nothing else is set", vCtrlParamsSame(c, o, true, false) && vNodeParamsSame(c.cNode, o.cNode, false, false))
	vReach("end")
}

func C24_BroadcastAddr(c *Controller, addr net.UDPAddr) {
	vRequire(c != nil && c.cNode != nil)
	o := vSnapCtrl24(c)
	err := c.SetOption(BroadcastAddr(addr))
	vEnsure("accepted", err == nil)
	vEnsure("the broadcast address is set", vUDPSame(c.broadcastAddr, addr))
	vEnsure("nothing else is set", vCtrlParamsSame(c, o, false, true) && vNodeParamsSame(c.cNode, o.cNode, true, false))
}

func C24_ListenAddress(c *Controller, addr net.UDPAddr) {
	vRequire(c != nil && c.cNode != nil)
	o := vSnapCtrl24(c)
	err := c.SetOption(ListenAddress(addr))
	vEnsure("accepted", err == nil)
	vEnsure("the listen address is set", vUDPSame(c.cNode.listenAddr, addr))
	vEnsure("nothing else is set", vCtrlParamsSame(c, o, false, false) && vNodeParamsSame(c.cNode, o.cNode, false, true))
}

func C24_ListenIP(c *Controller, ip net.IP) {
	vRequire(c != nil && c.cNode != nil)
	o := vSnapCtrl24(c)
	err := c.SetOption(ListenIP(ip))
	vEnsure("accepted", err == nil)
	vEnsure("the listen IP is set, with the Art-Net port", vSame(c.cNode.listenAddr.IP, ip) && c.cNode.listenAddr.Port == 6454 && c.cNode.listenAddr.Zone == "")
	vEnsure("nothing else is set", vCtrlParamsSame(c, o, false, false) && vNodeParamsSame(c.cNode, o.cNode, false, true))
}

// Options of a node.
func C24_NodeBroadcastAddress(n *Node, addr net.UDPAddr) {
	vRequire(n != nil)
	o := vSnapNode24(n)
	err := n.SetOption(NodeBroadcastAddress(addr))
	vEnsure("accepted", err == nil)
	vEnsure("the broadcast address is set", vUDPSame(n.broadcastAddr, addr))
	vEnsure("nothing else is set", vNodeParamsSame(n, o, true, false))
}

func C24_NodeListenAddress(n *Node, addr net.UDPAddr) {
	vRequire(n != nil)
	o := vSnapNode24(n)
	err := n.SetOption(NodeListenAddress(addr))
	vEnsure("accepted", err == nil)
	vEnsure("the listen address is set", vUDPSame(n.listenAddr, addr))
	vEnsure("nothing else is set", vNodeParamsSame(n, o, false, true))
}

func C24_NodeListenIP(n *Node, ip net.IP) {
	vRequire(n != nil)
	o := vSnapNode24(n)
	err := n.SetOption(NodeListenIP(ip))
	vEnsure("accepted", err == nil)
	vEnsure("the listen IP is set, with the Art-Net port", vSame(n.listenAddr.IP, ip) && n.listenAddr.Port == 6454 && n.listenAddr.Zone == "")
	vEnsure("nothing else is set", vNodeParamsSame(n, o, false, true))
}

// Options given to the constructors are in effect afterwards; without them the documented defaults are.
func C24_NewController(name string, ip net.IP, log Logger, fps int, b, l net.UDPAddr) {
	vRequire(log != nil)
	c := NewController(name, ip, log)
	vEnsure("default frame rate", c.maxFPS == 1000)
	vEnsure("default broadcast address", vDefaultBroadcast(c.broadcastAddr) && vDefaultBroadcast(c.cNode.broadcastAddr))
	vEnsure("default listen address", c.cNode.listenAddr.IP == nil && c.cNode.listenAddr.Port == 6454)
	vEnsure("a controller's node is of controller style with the given name and IP", c.cNode.Config.Type == code.StController && c.cNode.Config.Name == name && vSame(c.cNode.Config.IP, ip))
	d := NewController(name, ip, log, MaxFPS(fps), BroadcastAddr(b), ListenAddress(l))
	vEnsure("given frame rate", !vFPSOK(fps) || d.maxFPS == fps)
	vEnsure("refused frame rate", vFPSOK(d.maxFPS))
	vEnsure("given broadcast address", vUDPSame(d.broadcastAddr, b))
	vEnsure("given listen address", vUDPSame(d.cNode.listenAddr, l))
	e := NewController(name, ip, log, ListenIP(ip))
	vEnsure("given listen IP", vSame(e.cNode.listenAddr.IP, ip) && e.cNode.listenAddr.Port == 6454)
	vReach("end")
}

func vDefaultBroadcast(a net.UDPAddr) bool {
	return len(a.IP) == 4 && a.IP[0] == 2 && a.IP[1] == 255 && a.IP[2] == 255 && a.IP[3] == 255 && a.Port == 6454
}

func C24_NewNode(name string, style code.StyleCode, ip net.IP, log Logger, b, l net.UDPAddr) {
	vRequire(log != nil)
	n := NewNode(name, style, ip, log)
	vEnsure("default addresses", vDefaultBroadcast(n.broadcastAddr) && n.listenAddr.IP == nil && n.listenAddr.Port == 6454)
	vEnsure("name, style and IP are as given", n.Config.Name == name && n.Config.Type == style && vSame(n.Config.IP, ip))
	vEnsure("its own address is the given IP", vSame(n.localAddr.IP, ip) && n.localAddr.Port == 6454)
	vEnsure("not running", n.shutdown && vNodeInv(n))
	m := NewNode(name, style, ip, log, NodeBroadcastAddress(b), NodeListenAddress(l))
	vEnsure("given addresses", vUDPSame(m.broadcastAddr, b) && vUDPSame(m.listenAddr, l))
	k := NewNode(name, style, ip, log, NodeListenIP(ip))
	vEnsure("given listen IP", vSame(k.listenAddr.IP, ip) && k.listenAddr.Port == 6454)
	vReach("end")
}

// vNodeInv: a node that is marked as running can be stopped.
func vNodeInv(n *Node) bool {
	return n.shutdown || n.shutdownCh != nil && !vClosed(n.shutdownCh)
}

func C24_Node_Start(n *Node) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(n != nil && n.log != nil && !vHeld(&n.shutdownLock))
	vRequire(vNodeInv(n))
	was := n.shutdown
	err := n.Start()
	vEnsure("a node that was started, or failed to start, can be stopped", vNodeInv(n))
	vEnsure("a started node is running", err != nil || !n.shutdown)
	vEnsure("a node refused for its configuration stays as it was", vConfigOK24(n.Config) || n.shutdown == was)
	vEnsure("the lock is released", !vHeld(&n.shutdownLock))
	if err == nil {
		vReach("started")
	} else {
		vReach("failed")
	}
}

func vConfigOK24(c NodeConfig) bool { return len(c.InputPorts) <= 4 && len(c.OutputPorts) <= 4 }

func C24_Node_Stop(n *Node) {
	vRequire(n != nil && n.log != nil && !vHeld(&n.shutdownLock))
	vRequire(vNodeInv(n))
	running := !n.shutdown
	n.Stop()
	vEnsure("marked as not running", n.shutdown)
	vEnsure("its tasks are told to end", !running || vClosed(n.shutdownCh))
	vEnsure("its socket is closed", !running || n.conn == nil || vCalls("UDPConn.Close") == 1)
	vEnsure("no channel its tasks still send on is closed", vCloses(n.sendCh)+vCloses(n.recvCh)+vCloses(n.pollCh)+vCloses(n.pollReplyCh) == 0)
	vEnsure("the lock is released", !vHeld(&n.shutdownLock))
	vReach("first stop")
	n.Stop()
	vEnsure("marked as not running after a second stop", n.shutdown)
	vEnsure("the lock is released after a second stop", !vHeld(&n.shutdownLock))
	vReach("second stop")
}

func C24_Controller_Start(c *Controller) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(c != nil && c.log != nil && c.cNode != nil && !vHeld(&c.cNode.shutdownLock))
	vRequire(vNodeInv(c.cNode))
	vRequire(c.shutdownCh == nil || c.shutdownCh != c.cNode.shutdownCh)
	err := c.Start()
	vEnsure("a controller that was started, or failed to start, can be stopped", c.cNode != nil && vNodeInv(c.cNode) && (c.shutdownCh == nil || c.shutdownCh != c.cNode.shutdownCh))
	vEnsure("a started controller is running", err != nil || !c.cNode.shutdown)
	vEnsure("a started controller can be told to end", err != nil || c.shutdownCh != nil && !vClosed(c.shutdownCh))
	if err == nil {
		vReach("started")
	} else {
		vReach("failed")
	}
}

func C24_Controller_Stop(c *Controller) {
	vRequire(c != nil && c.log != nil && c.cNode != nil && c.cNode.log != nil && !vHeld(&c.cNode.shutdownLock))
	vRequire(vNodeInv(c.cNode))
	vRequire(c.shutdownCh == nil || c.shutdownCh != c.cNode.shutdownCh)
	c.Stop()
	vEnsure("marked as not running", c.cNode.shutdown)
	vEnsure("its tasks are told to end", c.shutdownCh == nil || vClosed(c.shutdownCh))
	vEnsure("no channel its tasks still send on is closed", vCloses(c.cNode.sendCh)+vCloses(c.cNode.recvCh)+vCloses(c.cNode.pollCh)+vCloses(c.cNode.pollReplyCh) == 0)
	vReach("first stop")
	c.Stop()
	vEnsure("marked as not running after a second stop", c.cNode.shutdown)
	vReach("second stop")
}

// vEnds: what a node's background tasks do about a stop. cc is the controller's own shutdown channel, if there is one.
func vEnds(n *Node, depth int, cc func() chan struct{}) {
	noticed := n.shutdown || vRecvs(n.shutdownCh) > 0 || cc != nil && vRecvs(cc()) > 0
	if depth == 1 {
		vEnsure("a background task that has noticed the stop ends", !noticed)
	}
	if depth == -1 && noticed {
		vTaskDoes("ends")
	}
}

func C24_Node_tasks(n *Node) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(n != nil && n.log != nil && n.callbacks != nil && !vHeld(&n.shutdownLock))
	vContract("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool { return err != nil || p != nil })
	vContract("Node.handlePacket", func(n *Node, p packet.ArtNetPacket) bool { return true })
	vTasks()
	vIter(func(depth int) { vEnds(n, depth, nil) })
	err := n.Start()
	vRequire(err == nil)
	vMonitor(&n.shutdownLock, "Node.shutdown", func() bool { return true })
	vRunTasks()
	vEnsure("every background task can end", vTasksNotDoing("ends") == 0)
	vReach("end")
}

func C24_Controller_tasks(c *Controller) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(c != nil && c.log != nil && !vHeld(&c.nodeLock) && c.cNode != nil)
	n := c.cNode
	vRequire(n.log != nil && !vHeld(&n.shutdownLock) && n.callbacks != nil && c.maxFPS >= 1 && c.maxFPS <= 1000000000)
	vContract("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool { return err != nil || p != nil })
	vContract("Node.handlePacket", func(n *Node, p packet.ArtNetPacket) bool { return true })
	vContract("Controller.updateNode", func(c *Controller, cfg NodeConfig, err error) bool { return true })
	vContract("Controller.gcNode", func(c *Controller) bool { return true })
	vContract("ConfigFromArtPollReply", func(p packet.ArtPollReplyPacket, cfg NodeConfig) bool { return true })
	vContract("ControlledNode.dmxUpdate", func(cn *ControlledNode, a Address, b []byte, err error) bool { return true })
	vTasks()
	vIter(func(depth int) { vEnds(n, depth, func() chan struct{} { return c.shutdownCh }) })
	err := c.Start()
	vRequire(err == nil)
	vMonitor(&n.shutdownLock, "Node.shutdown", func() bool { return true })
	vRunTasks()
	vEnsure("every background task can end", vTasksNotDoing("ends") == 0)
	vReach("end")
}
