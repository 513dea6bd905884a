package artnet

import (
	"bytes"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

// A node on the loopback network: 127.0.0.2 is its own IP, 127.0.0.1 and 127.0.0.3 are others.
func H_C20_reception(g *vGen) (f []string) {
	conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		return nil
	}
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 2}, gLog())
	n.conn = conn
	n.recvCh = make(chan netPayload, []int{0, 1, 10}[g.Intn(3)])
	n.shutdownCh = make(chan struct{})
	n.shutdown = false
	var mu sync.Mutex
	got := map[string]int{}
	release := make(chan struct{})
	for _, op := range []code.OpCode{code.OpDMX, code.OpCommand, code.OpPoll, code.OpPollReply} {
		n.callbacks[op] = func(p packet.ArtNetPacket) {
			<-release // handlers look at their packet only after everything has been received
			b, err := p.MarshalBinary()
			if err != nil {
				return
			}
			mu.Lock()
			got[string(b)]++
			mu.Unlock()
		}
	}
	done := make(chan struct{})
	go func() { n.recvLoop(); close(done) }()
	defer func() {
		n.shutdownLock.Lock()
		n.shutdown = true
		n.shutdownLock.Unlock()
		close(n.shutdownCh)
		conn.Close()
	}()
	var senders []*net.UDPConn
	for _, ip := range []byte{1, 2, 3} {
		s, err := net.DialUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, ip}}, conn.LocalAddr().(*net.UDPAddr))
		if err != nil {
			return nil
		}
		defer s.Close()
		senders = append(senders, s)
	}
	want := map[string]int{}
	own := map[string]bool{}
	k := 2 + g.Intn(6)
	for i := 0; i < k; i++ {
		if g.Intn(4) == 0 {
			// a read error: the node must go on
			conn.SetReadDeadline(time.Now().Add(-time.Second))
			time.Sleep(2 * time.Millisecond)
			conn.SetReadDeadline(time.Time{})
			g.note("read error")
		}
		if g.Intn(4) == 0 {
			b := g.bytes()
			if _, err := packet.Unmarshal(append([]byte(nil), b...)); err != nil {
				senders[0].Write(b)
				g.note("undecodable datagram of %d bytes", len(b))
			}
		}
		p := &packet.ArtDMXPacket{Sequence: uint8(i), Physical: uint8(g.Intn(256))}
		g.Read(p.Data[:])
		b, err := p.MarshalBinary()
		if g.Intn(3) == 0 {
			b, err = (&packet.ArtPollPacket{TalkToMe: code.TalkToMe(g.Intn(256)), Priority: code.PriorityCode(0x10 + i)}).MarshalBinary()
		}
		if err != nil {
			return nil
		}
		w := g.Intn(3)
		senders[w].Write(b)
		g.note("message %d of %d bytes from 127.0.0.%d", i, len(b), w+1)
		if w == 1 {
			own[string(b)] = true
		} else {
			want[string(b)]++
		}
		if g.Intn(2) == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	time.Sleep(20 * time.Millisecond)
	close(release)
	count := func() (missing, extra int) {
		mu.Lock()
		defer mu.Unlock()
		for b, c := range want {
			if got[b] < c {
				missing++
			}
		}
		for b, c := range got {
			if c > want[b] {
				extra++
			}
		}
		return
	}
	for t := 0; t < 200; t++ {
		if m, _ := count(); m == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	m, e := count()
	if e > 0 {
		mu.Lock()
		for b, c := range got {
			if own[b] {
				f = append(f, "a datagram from the node's own IP was delivered")
			} else if c > want[b] {
				f = append(f, fmt.Sprintf("a packet was delivered that was not received (or more often): %v...", []byte(b)[:30]))
			}
		}
		mu.Unlock()
	}
	if m > 0 {
		// could a datagram be lost on the loopback network? Try with a last one.
		select {
		case <-done:
			f = append(f, "the node stopped receiving")
		default:
		}
		f = append(f, fmt.Sprintf("%d of %d datagrams were not delivered intact within 2 s", m, len(want)))
	}
	_ = bytes.Equal
	return f
}
