package artnet

import (
	"net"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

// vNodeReady: a node that can be started, with usable handlers.
func vNodeReady(n *Node) bool {
	return n != nil && n.log != nil && !vHeld(&n.shutdownLock) && len(n.Config.InputPorts) <= 4 && len(n.Config.OutputPorts) <= 4 &&
		n.callbacks != nil && vForallU16(func(i uint16) bool {
		f, ok := n.callbacks[code.OpCode(i)]
		return !ok || f != nil
	})
}

func vAddrSame(a, b net.UDPAddr) bool {
	return vSame(a.IP, b.IP) && a.Port == b.Port && a.Zone == b.Zone
}

// vBeforeStart: the background tasks that Start starts are looked at, too; the decoder is represented by what
// C04 shows about it.
func vBeforeStart() {
	vContract("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool { return err != nil || p != nil })
	vTasks()
}

// vAfterStart runs every background task. The shutdown flag may change whenever its lock is free.
func vAfterStart(n *Node) {
	vMonitor(&n.shutdownLock, "Node.shutdown", func() bool { return true })
	vRunTasks()
}
