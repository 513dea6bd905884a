package artnet

import (
	"io"
	"net"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

// vShortest is the size of the shortest Art-Net messages (ArtPoll, ArtSync); see C20_short.
const vShortest = 14

func C20_reception(n *Node) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(vNodeReady(n))
	vIter(func(depth int) {
		reads := vCalls("ReadFromUDP")
		sent := vSends(n.recvCh)
		vEnsure("at most one datagram is handed on per datagram received", sent <= reads && reads <= 1)
		vEnsure("what is handed on is exactly what was received", vAllSent(n.recvCh, func(p netPayload) bool {
			return vAllCalls("ReadFromUDP", func(buf []byte, k int, from *net.UDPAddr, err error) bool {
				return len(p.data) == k && vForall(0, k, func(i int) bool { return p.data[i] == buf[i] })
			})
		}))
		vEnsure("there is room for the largest Art-Net message", vAllCalls("ReadFromUDP", func(buf []byte, k int, from *net.UDPAddr, err error) bool { return len(buf) >= 530 }))
		vEnsure("it is handed on in storage of its own", vAllSent(n.recvCh, func(p netPayload) bool { return len(p.data) == 0 || vFreshSlice(p.data) }))
		vEnsure("it is handed on with its sender's address", vAllSent(n.recvCh, func(p netPayload) bool {
			return vAllCalls("ReadFromUDP", func(buf []byte, k int, from *net.UDPAddr, err error) bool {
				return err == nil && vAddrSame(p.address, *from)
			})
		}))
		vEnsure("the node's own datagrams are ignored", sent == 0 || vAllCalls("ReadFromUDP", func(buf []byte, k int, from *net.UDPAddr, err error) bool {
			return !n.localAddr.IP.Equal(from.IP)
		}))
		// what is shorter than every message cannot be decoded anyway: dropping it early makes no difference
		vEnsure("every other datagram a running node can read is handed on", vAllCalls("ReadFromUDP", func(buf []byte, k int, from *net.UDPAddr, err error) bool {
			return err != nil || k < vShortest || n.shutdown || n.localAddr.IP.Equal(from.IP) || sent == 1 || vRecvs(n.shutdownCh) > 0
		}))
		if sent > 0 {
			vReach("handed on")
			vTaskDoes("receives")
		}

		// decoding
		taken := vRecvs(n.recvCh)
		vEnsure("every datagram taken up is decoded once", taken == vCalls("Unmarshal") || vCalls("Unmarshal") == 0 &&
			vAllRecv(n.recvCh, func(q netPayload) bool { return len(q.data) < vShortest }))
		vEnsure("what is decoded is the datagram taken up", vAllCalls("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool {
			return vAllRecv(n.recvCh, func(q netPayload) bool { return vSame(b, q.data) })
		}))
		vEnsure("no handler is called for an undecodable datagram", vAllCalls("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool {
			return err == nil || vCallbacks() == 0
		}))
		vEnsure("no handler is called without a datagram", taken > 0 || vCallbacks() == 0)
		if taken > 0 {
			vReach("taken up")
			vTaskDoes("decodes")
		}

		if depth < 0 {
			vEnsure("taking up datagrams does not stop reception", taken == 0)
			vEnsure("reception only stops on shutdown or at the end of the input", reads == 0 || n.shutdown || vRecvs(n.shutdownCh) > 0 ||
				vAllCalls("ReadFromUDP", func(buf []byte, k int, from *net.UDPAddr, err error) bool { return err == io.EOF }))
		}
	})
	vBeforeStart()
	err := n.Start()
	vRequire(err == nil)
	vAfterStart(n)
	vEnsure("a started node has a task that receives", vTasksDoing("receives") >= 1)
	vEnsure("a started node has a task that decodes what was received", vTasksDoing("decodes") >= 1)
}

// What is used about the decoder.
func C20_callee_Unmarshal(b []byte, i int) {
	vRequire(0 <= i && i < len(b))
	o := b[i]
	p, err := packet.Unmarshal(b)
	vEnsure("a packet or an error", err != nil || p != nil)
	vEnsure("the datagram is not changed", b[i] == o)
	vReach("end")
}

// No datagram shorter than every message is decodable.
func C20_short(b []byte) {
	vRequire(len(b) < vShortest)
	_, err := packet.Unmarshal(b)
	vEnsure("too short to be decoded", err != nil)
	vReach("end")
}

// The queue of received datagrams of a started node is usable.
func C20_queue(name string, style code.StyleCode, ip net.IP, log Logger) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(log != nil)
	n := NewNode(name, style, ip, log)
	err := n.Start()
	vRequire(err == nil)
	vEnsure("what is received can be handed on", n.recvCh != nil && !vClosed(n.recvCh))
	vEnsure("there is a socket to receive from", n.conn != nil)
	vReach("end")
}
