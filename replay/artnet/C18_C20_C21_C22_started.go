package artnet

import (
	"net"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

var gStartedDone = map[string]bool{}

func gListen() (*net.UDPConn, net.UDPAddr) {
	l, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		return nil, net.UDPAddr{}
	}
	return l, *l.LocalAddr().(*net.UDPAddr)
}

func gFreeAddr() (net.UDPAddr, bool) {
	l, a := gListen()
	if l == nil {
		return a, false
	}
	l.Close()
	return a, true
}

// gAwait waits for a datagram with the opcode.
func gAwait(l *net.UDPConn, op uint16, d time.Duration) bool {
	b := make([]byte, 2000)
	l.SetReadDeadline(time.Now().Add(d))
	for {
		k, _, err := l.ReadFromUDP(b)
		if err != nil {
			return false
		}
		if k >= 10 && string(b[:8]) == "Art-Net\x00" && uint16(b[8])|uint16(b[9])<<8 == op {
			return true
		}
	}
}

// gStartedNode starts a node; polls are answered to l.
func gStartedNode(g *vGen, what string) (n *Node, l, s *net.UDPConn, got chan packet.ArtNetPacket) {
	if gStartedDone[what] {
		return
	}
	gStartedDone[what] = true
	addr, ok := gFreeAddr()
	l, to := gListen()
	if !ok || l == nil {
		return nil, nil, nil, nil
	}
	n = NewNode("n", code.StNode, net.IP{127, 0, 0, 9}, gLog(), NodeListenAddress(addr), NodeBroadcastAddress(to))
	got = make(chan packet.ArtNetPacket, 10)
	n.RegisterCallback(code.OpSync, func(p packet.ArtNetPacket) { got <- p })
	g.note("node started on %v, broadcast address %v", addr, to)
	if n.Start() != nil {
		l.Close()
		return nil, nil, nil, nil
	}
	s, err := net.DialUDP("udp4", nil, &addr)
	if err != nil {
		n.Stop()
		l.Close()
		return nil, nil, nil, nil
	}
	return
}

func gPollReceived(g *vGen, what, msg string) []string {
	n, l, s, _ := gStartedNode(g, what)
	if n == nil {
		return nil
	}
	defer l.Close()
	defer s.Close()
	defer n.Stop()
	g.note("an ArtPoll is sent to it")
	for i := 0; i < 3; i++ {
		s.Write(append([]byte("Art-Net\x00\x00\x20\x00\x0e"), 0, 0))
		if gAwait(l, uint16(code.OpPollReply), time.Second) {
			return nil
		}
	}
	return []string{msg}
}

func gSyncReceived(g *vGen, what, msg string) []string {
	n, l, s, got := gStartedNode(g, what)
	if n == nil {
		return nil
	}
	defer l.Close()
	defer s.Close()
	defer n.Stop()
	g.note("an ArtSync is sent to it, for which a handler is registered")
	for i := 0; i < 3; i++ {
		s.Write(append([]byte("Art-Net\x00\x00\x52\x00\x0e"), 0, 0))
		select {
		case <-got:
			return nil
		case <-time.After(time.Second):
		}
	}
	return []string{msg}
}

func H_C20_started(g *vGen) []string {
	return gSyncReceived(g, "C20", "the datagram is not received by a started node")
}

func H_C21_started(g *vGen) []string {
	return gSyncReceived(g, "C21", "the handler is not called by a started node")
}

func H_C22_started(g *vGen) []string {
	return gPollReceived(g, "C22", "a started node does not answer the poll")
}

// A started controller sends the frames of a known node.
func H_C18_started(g *vGen) []string {
	if gStartedDone["C18"] {
		return nil
	}
	gStartedDone["C18"] = true
	addr, ok := gFreeAddr()
	l, to := gListen()
	if !ok || l == nil {
		return nil
	}
	defer l.Close()
	c := NewController("c", net.IP{127, 0, 0, 1}, gLog(), BroadcastAddr(net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}))
	c.cNode.SetOption(NodeListenAddress(addr))
	c.cNode.SetOption(NodeBroadcastAddress(net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}))
	g.note("controller started on %v", addr)
	if c.Start() != nil {
		return nil
	}
	defer c.Stop()
	a := Address{Net: 1, SubUni: 2}
	if c.updateNode(NodeConfig{IP: net.IP{127, 0, 0, 3}, OutputPorts: []OutputPort{{Address: a}}}) != nil {
		return nil
	}
	c.nodeLock.Lock()
	for _, n := range c.Nodes {
		n.UDPAddress = to
	}
	c.nodeLock.Unlock()
	c.SendDMXToAddress([512]byte{1}, a)
	g.note("a node with universe %v is announced and a frame is sent", a)
	if !gAwait(l, uint16(code.OpDMX), 3*time.Second) {
		return []string{"no frame is transmitted within 3 s"}
	}
	return nil
}
