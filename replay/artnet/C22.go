package artnet

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func H_C22_answers(g *vGen) (f []string) {
	n := NewNode("node", code.StNode, net.IP{10, 0, 0, 1}, gLog())
	n.Config.OEM = uint16(g.Intn(65536))
	n.Config.OutputPorts = make([]OutputPort, g.Intn(5))
	n.broadcastAddr = net.UDPAddr{IP: net.IP{10, 255, 255, byte(g.Intn(256))}, Port: 1 + g.Intn(60000)}
	n.sendCh = make(chan netPayload, []int{0, 1, 2, 100}[g.Intn(4)])
	n.pollCh = make(chan packet.ArtPollPacket, 100)
	n.shutdownCh = make(chan struct{})
	n.shutdown = false
	want, err := ArtPollReplyFromConfig(n.Config).MarshalBinary()
	if err != nil {
		return nil
	}
	done := make(chan struct{})
	go func() { n.pollReplyLoop(); close(done) }()
	k := 1 + g.Intn(8)
	for i := 0; i < k; i++ {
		p := packet.ArtPollPacket{TalkToMe: code.TalkToMe(g.Intn(256)), Priority: code.PriorityCode([]int{0, 0x10, 0x40, 0x80, 0xe0, 0xf0}[g.Intn(6)])}
		g.note("poll %+v", p)
		n.pollCh <- p
	}
	if g.Intn(2) == 0 {
		g.note("the sender is busy")
		time.Sleep(3 * time.Millisecond)
	}
	got := 0
	for got < k {
		select {
		case p := <-n.sendCh:
			got++
			if !bytes.Equal(p.data, want) {
				f = append(f, fmt.Sprintf("reply %d is not the encoded announcement", got))
			}
			if !p.address.IP.Equal(n.broadcastAddr.IP) || p.address.Port != n.broadcastAddr.Port {
				f = append(f, fmt.Sprintf("a reply went to %v instead of %v", p.address, n.broadcastAddr))
			}
		case <-time.After(3 * time.Second):
			close(n.shutdownCh)
			return append(f, fmt.Sprintf("%d replies for %d polls", got, k))
		}
	}
	time.Sleep(2 * time.Millisecond)
	if len(n.sendCh) > 0 {
		f = append(f, "more replies than polls")
	}
	close(n.shutdownCh)
	<-done
	return f
}

func H_C22_sender(g *vGen) (f []string) {
	conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		return nil
	}
	var sinks []*net.UDPConn
	for i := 0; i < 2; i++ {
		s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
		if err != nil {
			return nil
		}
		defer s.Close()
		sinks = append(sinks, s)
	}
	n := NewNode("node", code.StNode, net.IP{10, 0, 0, 1}, gLog())
	n.broadcastAddr = *sinks[1].LocalAddr().(*net.UDPAddr)
	n.conn = conn
	n.sendCh = make(chan netPayload, 100)
	n.shutdownCh = make(chan struct{})
	n.shutdown = false
	go n.sendLoop()
	defer func() {
		n.shutdownLock.Lock()
		n.shutdown = true
		n.shutdownLock.Unlock()
		close(n.shutdownCh)
		conn.Close()
	}()
	var want [2][][]byte
	for k := 1 + g.Intn(6); k > 0; k-- {
		if g.Intn(3) == 0 {
			g.note("a datagram that cannot be sent")
			n.sendCh <- netPayload{address: net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}, data: make([]byte, 70000)}
		}
		b := make([]byte, 1+g.Intn(600))
		g.Read(b)
		i := g.Intn(2)
		want[i] = append(want[i], append([]byte(nil), b...))
		n.sendCh <- netPayload{address: *sinks[i].LocalAddr().(*net.UDPAddr), data: b}
		g.note("datagram of %d bytes to sink %d", len(b), i)
	}
	buf := make([]byte, 2000)
	for i, s := range sinks {
		for j, w := range want[i] {
			s.SetReadDeadline(time.Now().Add(3 * time.Second))
			k, _, err := s.ReadFromUDP(buf)
			if err != nil {
				return append(f, fmt.Sprintf("datagram %d for sink %d was not sent within 3 s", j, i))
			}
			if !bytes.Equal(buf[:k], w) {
				return append(f, fmt.Sprintf("datagram %d for sink %d was changed, sent to the wrong address or reordered", j, i))
			}
		}
		s.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		if _, _, err := s.ReadFromUDP(buf); err == nil {
			f = append(f, fmt.Sprintf("sink %d received more than was queued for it", i))
		}
	}
	return f
}
