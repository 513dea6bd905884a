package artnet

import (
	"net"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

// Every poll a running node takes up is answered, and every queued datagram is sent.
func C22_answers(n *Node) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(vNodeReady(n))
	want, err := ArtPollReplyFromConfig(n.Config).MarshalBinary()
	vRequire(err == nil)
	to := n.broadcastAddr
	vIter(func(depth int) {
		polls := vRecvs(n.pollCh)
		vEnsure("one reply is queued for every poll, and none at other times", vSends(n.sendCh) == polls)
		vEnsure("the reply goes to the broadcast address", vAllSent(n.sendCh, func(p netPayload) bool { return vAddrSame(p.address, to) }))
		vEnsure("the reply is the encoded announcement", vAllSent(n.sendCh, func(p netPayload) bool { return vSeq(p.data, want) }))
		if polls > 0 {
			vReach("answered")
			vTaskDoes("answers")
		}

		queued := vRecvs(n.sendCh)
		writes := vCalls("WriteToUDP")
		vEnsure("nothing is sent that was not queued", writes <= queued)
		vEnsure("what was queued is sent", writes == queued || n.shutdown)
		vEnsure("it is sent unmodified", vAllCalls("WriteToUDP", func(b []byte, a *net.UDPAddr) bool {
			return vAllRecv(n.sendCh, func(p netPayload) bool { return vSeq(b, p.data) })
		}))
		vEnsure("it is sent to its address", vAllCalls("WriteToUDP", func(b []byte, a *net.UDPAddr) bool {
			return vAllRecv(n.sendCh, func(p netPayload) bool { return a != nil && vAddrSame(*a, p.address) })
		}))
		if writes > 0 {
			vReach("sent")
			vTaskDoes("sends")
		}
		if depth < 0 {
			vEnsure("answering does not stop the node", polls == 0)
			vEnsure("sending, successful or not, does not stop the node", queued == 0 || n.shutdown)
		}
	})
	vBeforeStart()
	err = n.Start()
	vRequire(err == nil)
	vAfterStart(n)
	vEnsure("a started node has a task that answers polls", vTasksDoing("answers") >= 1)
	vEnsure("a started node has a task that sends", vTasksDoing("sends") >= 1)
}

// What is used about the decoder.
func C22_callee_Unmarshal(b []byte, i int) {
	vRequire(0 <= i && i < len(b))
	o := b[i]
	p, err := packet.Unmarshal(b)
	vEnsure("a packet or an error", err != nil || p != nil)
	vEnsure("the datagram is not changed", b[i] == o)
	vReach("end")
}

// The queues of a started node are usable.
func C22_queues(name string, style code.StyleCode, ip net.IP, log Logger) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(log != nil)
	n := NewNode(name, style, ip, log)
	err := n.Start()
	vRequire(err == nil)
	vEnsure("polls can be taken up", n.pollCh != nil && !vClosed(n.pollCh))
	vEnsure("replies can be queued", n.sendCh != nil && !vClosed(n.sendCh))
	vReach("end")
}
