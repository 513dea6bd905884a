package artnet

import (
	"github.com/jsimonetti/go-artnet/packet/code"
)

// vProto is the protocol of a port type: bits 4-0, everything above Art-Net (5) being unknown.
func vProto(t code.PortType) uint8 {
	if t&0x1f > 5 {
		return 6
	}
	return uint8(t & 0x1f)
}

// vConfigOK: the configuration can be announced in one ArtPollReply.
func vConfigOK(c NodeConfig) bool {
	if len(c.InputPorts) > 4 || len(c.OutputPorts) > 4 {
		return false
	}
	return vForall(0, 4, func(i int) bool {
		if i >= len(c.InputPorts) || i >= len(c.OutputPorts) {
			return true
		}
		return vProto(c.InputPorts[i].Type) == vProto(c.OutputPorts[i].Type)
	})
}

func C09_validate(c NodeConfig) {
	err := c.validate()
	want := vConfigOK(c)
	vEnsure("accepts only announceable configurations", err != nil || want)
	vEnsure("accepts every announceable configuration", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("refused")
	}
}

func C09_Start(n *Node) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(n != nil && n.log != nil)
	vRequire(!vHeld(&n.shutdownLock))
	want := vConfigOK(n.Config)
	err := n.Start()
	if !want {
		vReach("refused")
		vEnsure("an unannounceable configuration is refused", err != nil)
		vEnsure("no socket is opened for it", vCalls("net.ListenPacket")+vCalls("net.ListenUDP") == 0)
		vEnsure("no background task is started for it", vGos("") == 0)
	} else {
		vReach("accepted")
		vEnsure("an announceable configuration is started", err == nil || vCalls("net.ListenPacket")+vCalls("net.ListenUDP") == 1)
	}
}
