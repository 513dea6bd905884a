package artnet

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func H_C23_polling(g *vGen) (f []string) {
	c := gController()
	c.broadcastAddr = net.UDPAddr{IP: net.IP{10, 255, 255, byte(g.Intn(256))}, Port: 1 + g.Intn(60000)}
	n := c.cNode
	n.sendCh = make(chan netPayload, []int{0, 1, 100}[g.Intn(3)])
	var sent []netPayload
	ended, drained := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(drained)
		for {
			time.Sleep(time.Millisecond)
			select {
			case p := <-n.sendCh:
				sent = append(sent, p)
			case <-ended:
				for len(n.sendCh) > 0 {
					sent = append(sent, <-n.sendCh)
				}
				return
			}
		}
	}()
	n.pollCh = make(chan packet.ArtPollPacket, 100)
	n.pollReplyCh = make(chan packet.ArtPollReplyPacket)
	tick := make(chan time.Time)
	gc := make(chan time.Time)
	c.pollTicker = time.NewTicker(time.Hour)
	c.gcTicker = time.NewTicker(time.Hour)
	c.pollTicker.C, c.gcTicker.C = tick, gc
	done := make(chan struct{})
	go func() { c.pollLoop(); close(done) }()
	polls := 0
	for k := g.Intn(4); k > 0; k-- {
		select {
		case tick <- time.Now():
			polls++
		case <-time.After(3 * time.Second):
			return []string{"the polling task does not take up its ticks"}
		}
	}
	var reps []packet.ArtPollReplyPacket
	want := map[string]packet.ArtPollReplyPacket{}
	for k := g.Intn(5); k > 0; k-- {
		r := packet.ArtPollReplyPacket{IPAddress: [4]byte{10, 0, 0, byte(k)}, Style: code.StyleCode(g.Intn(8)), NumPorts: uint16(g.Intn(5)), Oem: uint16(g.Intn(65536))}
		if g.Intn(2) == 0 {
			r.Style = code.StController
		}
		if g.Intn(8) == 0 {
			copy(r.IPAddress[:], []byte{10, 0, 0, 200})
		}
		for i := range r.PortTypes {
			r.PortTypes[i] = r.PortTypes[i].WithInput(g.Intn(2) == 0).WithOutput(g.Intn(3) == 0)
		}
		out := false
		for i := 0; i < 4 && i < int(r.NumPorts); i++ {
			out = out || r.PortTypes[i].Output()
		}
		reps = append(reps, r)
		ip := net.IP(r.IPAddress[:]).String()
		if r.Style == code.StNode || r.Style == code.StController && out {
			want[net.IP(append([]byte(nil), r.IPAddress[:]...)).String()] = r
		}
		g.note("reply from %v style %v ports %d types %v", ip, r.Style, r.NumPorts, r.PortTypes)
		select {
		case n.pollReplyCh <- r:
		case <-time.After(3 * time.Second):
			return []string{"the polling task does not take up replies"}
		}
	}
	// a clean-up tick is only taken up after the last reply has been handled
	select {
	case gc <- time.Now():
	case <-time.After(3 * time.Second):
		return []string{"the polling task does not take up clean-up ticks"}
	}
	close(c.shutdownCh)
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		return []string{"the polling task does not end"}
	}
	close(ended)
	<-drained
	if len(n.pollCh) != polls+1 {
		f = append(f, fmt.Sprintf("%d own answers for %d polls", len(n.pollCh), polls+1))
	}
	if len(sent) != polls+1 {
		f = append(f, fmt.Sprintf("%d polls for the start and %d poll ticks", len(sent), polls))
	}
	for _, p := range sent {
		if !p.address.IP.Equal(c.broadcastAddr.IP) || p.address.Port != c.broadcastAddr.Port {
			f = append(f, fmt.Sprintf("a poll went to %v instead of %v", p.address, c.broadcastAddr))
		}
		if len(p.data) != 14 || !bytes.Equal(p.data[:12], []byte{'A', 'r', 't', '-', 'N', 'e', 't', 0, 0, 0x20, 0, 14}) || p.data[12]&2 == 0 {
			f = append(f, fmt.Sprintf("not an ArtPoll asking for replies on change: %v", p.data))
		}
	}
	if len(c.Nodes) != len(want) {
		f = append(f, fmt.Sprintf("%d devices are registered instead of %d", len(c.Nodes), len(want)))
	}
	for _, x := range c.Nodes {
		r, ok := want[x.Node.IP.String()]
		if !ok {
			f = append(f, fmt.Sprintf("%v was registered", x.Node.IP))
		} else if !gSameCfg(x.Node, ConfigFromArtPollReply(r)) {
			f = append(f, fmt.Sprintf("%v was registered with another description than its reply's", x.Node.IP))
		}
	}
	return f
}

var gIntervalDone bool

// A started controller polls at the start and 3 s later.
func H_C23_interval(g *vGen) (f []string) {
	if gIntervalDone {
		return nil
	}
	gIntervalDone = true
	l, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		return nil
	}
	defer l.Close()
	free, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		return nil
	}
	addr := *free.LocalAddr().(*net.UDPAddr)
	free.Close()
	c := NewController("c", net.IP{127, 0, 0, 1}, gLog(), BroadcastAddr(*l.LocalAddr().(*net.UDPAddr)))
	c.cNode.SetOption(NodeListenAddress(addr))
	c.cNode.SetOption(NodeBroadcastAddress(net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}))
	g.note("controller started on %v", addr)
	if err := c.Start(); err != nil {
		return nil
	}
	defer c.Stop()
	next := func(d time.Duration) (time.Time, bool) {
		b := make([]byte, 2000)
		end := time.Now().Add(d)
		for {
			l.SetReadDeadline(end)
			k, _, err := l.ReadFromUDP(b)
			if err != nil {
				return time.Now(), false
			}
			if k >= 10 && b[8] == 0 && b[9] == 0x20 {
				return time.Now(), true
			}
		}
	}
	t0, ok := next(2 * time.Second)
	if !ok {
		return []string{"no poll at the start"}
	}
	// a reply that arrives is taken up
	p := packet.NewArtPollReplyPacket()
	p.Port, p.IPAddress, p.NumPorts = packet.ArtNetPort, [4]byte{127, 0, 0, 2}, 1
	p.PortTypes[0] = p.PortTypes[0].WithOutput(true)
	if b, err := p.MarshalBinary(); err == nil {
		if s, err := net.DialUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 2}}, &addr); err == nil {
			s.Write(b)
			s.Close()
			known := func() int {
				c.nodeLock.Lock()
				defer c.nodeLock.Unlock()
				return len(c.Nodes)
			}
			for i := 0; i < 150 && known() == 0; i++ {
				time.Sleep(10 * time.Millisecond)
			}
			if known() == 0 {
				g.note("a node's poll reply arrives")
				return []string{"the node is not registered"}
			}
		}
	}
	t1, ok := next(5 * time.Second)
	if !ok {
		return []string{"no second poll within 5 s of the first"}
	}
	if d := t1.Sub(t0); d < 2*time.Second || d > 4500*time.Millisecond {
		return []string{fmt.Sprintf("the second poll came %v after the first", d)}
	}
	return nil
}
