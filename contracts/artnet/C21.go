package artnet

import (
	"net"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func vSnapNode21(n *Node) *Node { return vDeepCopy(n).(*Node) }

// vOthersKept: the handlers of all opcodes but one are those of o.
func vOthersKept(n, o *Node, but code.OpCode) bool {
	return vForallU16(func(i uint16) bool {
		f, ok := n.callbacks[code.OpCode(i)]
		g, had := o.callbacks[code.OpCode(i)]
		return code.OpCode(i) == but || ok == had && (!ok || vSame(f, g))
	})
}

// A decoded packet given to a node goes to the handler of its opcode.
func C21_dispatch(n *Node, p packet.ArtNetPacket) {
	vRequire(vNodeReady(n) && p != nil)
	want, ok := n.callbacks[p.GetOpCode()]
	n.handlePacket(p)
	vEnsure("it is passed on once if there is a handler for its opcode, else dropped", vCallbacks() == vB2I(ok))
	vEnsure("to the handler of its opcode", vAllCallbacks(func(f NodeCallbackFn, q packet.ArtNetPacket) bool { return vSame(f, want) }))
	vEnsure("unchanged", vAllCallbacks(func(f NodeCallbackFn, q packet.ArtNetPacket) bool { return vSameIface(p, q) }))
	if ok {
		vReach("handled")
	} else {
		vReach("dropped")
	}
}

func vB2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

// The same for the packets a running node receives.
func C21_reception(n *Node) {
	vRequire(vSymbolic()) // not executed in replays: it starts background tasks
	vRequire(vNodeReady(n))
	vIter(func(depth int) {
		vEnsure("handlers are only called for received packets, and at most one", vCallbacks() <= vCalls("Unmarshal"))
		vEnsure("a received packet goes to the handler of its opcode, and is dropped if there is none", vAllCalls("Unmarshal", func(b []byte, p packet.ArtNetPacket, err error) bool {
			if err != nil {
				return vCallbacks() == 0
			}
			want, ok := n.callbacks[p.GetOpCode()]
			return vCallbacks() == vB2I(ok) && vAllCallbacks(func(f NodeCallbackFn, q packet.ArtNetPacket) bool {
				return vSame(f, want) && vSameIface(p, q)
			})
		}))
		if vCallbacks() > 0 {
			vReach("handled")
			vTaskDoes("handles")
		}
	})
	vBeforeStart()
	err := n.Start()
	vRequire(err == nil)
	vAfterStart(n)
	vEnsure("a started node has a task that hands packets to handlers", vTasksDoing("handles") >= 1)
}

func C21_register(n *Node, op code.OpCode, f NodeCallbackFn) {
	vRequire(n != nil && n.log != nil && n.callbacks != nil && !vHeld(&n.shutdownLock) && f != nil)
	o := vSnapNode21(n)
	n.RegisterCallback(op, f)
	g, ok := n.callbacks[op]
	if o.shutdown {
		vReach("not running")
		vEnsure("the handler is registered", ok && vSame(f, g))
	} else {
		vReach("running")
		_, had := o.callbacks[op]
		vEnsure("a running node's handler stays", ok == had && vSame(g, o.callbacks[op]))
	}
	vEnsure("all other handlers stay", vOthersKept(n, o, op))
	vEnsure("nothing else changes", n.shutdown == o.shutdown && vSame(n.callbacks, o.callbacks) && !vHeld(&n.shutdownLock))
}

func C21_deregister(n *Node, op code.OpCode) {
	vRequire(n != nil && n.log != nil && n.callbacks != nil && !vHeld(&n.shutdownLock))
	o := vSnapNode21(n)
	n.DeregisterCallback(op)
	g, ok := n.callbacks[op]
	if o.shutdown {
		vReach("not running")
		vEnsure("the handler is removed", !ok)
	} else {
		vReach("running")
		_, had := o.callbacks[op]
		vEnsure("a running node's handler stays", ok == had && vSame(g, o.callbacks[op]))
	}
	vEnsure("all other handlers stay", vOthersKept(n, o, op))
	vEnsure("nothing else changes", n.shutdown == o.shutdown && vSame(n.callbacks, o.callbacks) && !vHeld(&n.shutdownLock))
}

// A fresh node handles polls and poll replies, and nothing else.
func C21_fresh(name string, style code.StyleCode, ip net.IP, log Logger, op code.OpCode) {
	vRequire(log != nil)
	n := NewNode(name, style, ip, log)
	_, ok := n.callbacks[op]
	vEnsure("handlers of a fresh node", ok == (op == code.OpPoll || op == code.OpPollReply))
}

func C21_poll(name string, style code.StyleCode, ip net.IP, log Logger, p *packet.ArtPollPacket) {
	vRequire(log != nil && p != nil && p.OpCode == code.OpPoll)
	n := NewNode(name, style, ip, log)
	n.pollCh = make(chan packet.ArtPollPacket, 10)
	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
	n.handlePacket(p)
	vEnsure("a fresh node takes up a poll, once", vSends(n.pollCh) == 1 && vTotalSends() == 1)
	vEnsure("unchanged", vAllSent(n.pollCh, func(q packet.ArtPollPacket) bool { return q == *p }))
	vReach("end")
}

func C21_pollReply(name string, style code.StyleCode, ip net.IP, log Logger, p *packet.ArtPollReplyPacket) {
	vRequire(log != nil && p != nil && p.OpCode == code.OpPollReply)
	n := NewNode(name, style, ip, log)
	n.pollCh = make(chan packet.ArtPollPacket, 10)
	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
	n.handlePacket(p)
	vEnsure("only a controller takes up a poll reply, once", vSends(n.pollReplyCh) == vB2I(style == code.StController) && vTotalSends() == vSends(n.pollReplyCh))
	vEnsure("unchanged", vAllSent(n.pollReplyCh, func(q packet.ArtPollReplyPacket) bool { return vReplySame(q, *p) }))
	vReach("end")
}

func vReplySame(a, b packet.ArtPollReplyPacket) bool { return a == b }

// What is used about the decoder.
func C21_callee_Unmarshal(b []byte, i int) {
	vRequire(0 <= i && i < len(b))
	o := b[i]
	p, err := packet.Unmarshal(b)
	vEnsure("a packet or an error", err != nil || p != nil)
	vEnsure("the datagram is not changed", b[i] == o)
	vReach("end")
}
