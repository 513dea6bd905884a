package artnet

import (
	"bytes"
	"fmt"
	"net"
	"time"
)

func gCheckFrames(c *Controller, s *gSnap, fr []gFrame) (f []string) {
	seq := map[string]uint8{}
	for _, n := range s.nodes {
		seq[s.cfg[n].IP.String()] = s.seq[n]
	}
	for _, x := range fr {
		if len(x.data) != 530 || !bytes.Equal(x.data[:12], []byte{'A', 'r', 't', '-', 'N', 'e', 't', 0, 0, 0x50, 0, 14}) || x.data[16] != 2 || x.data[17] != 0 {
			f = append(f, fmt.Sprintf("not an ArtDmx message: %v", x.data))
			continue
		}
		a := Address{Net: x.data[15], SubUni: x.data[14]}
		n := s.out[a]
		if n == nil {
			f = append(f, fmt.Sprintf("a frame for universe %v, which is not routed", a))
			continue
		}
		ip := s.cfg[n].IP
		if !x.to.IP.Equal(ip) || x.to.Port != 6454 {
			f = append(f, fmt.Sprintf("the frame of universe %v of node %v went to %v", a, ip, x.to))
		}
		if b := s.bufs[n][a]; b.p != nil && !bytes.Equal(x.data[18:], b.v.Data[:]) {
			f = append(f, fmt.Sprintf("the frame of universe %v does not carry the stored data", a))
		}
		want := seq[ip.String()] + 1
		if want == 0 {
			want = 1
		}
		if x.data[12] != want {
			f = append(f, fmt.Sprintf("node %v: sequence number %d follows %d", ip, x.data[12], seq[ip.String()]))
		}
		seq[ip.String()] = x.data[12]
	}
	return f
}

func H_C17_frames(g *vGen) (f []string) {
	c := gUniverses(g)
	for a, n := range c.OutputAddress {
		n.DMXBuffer[a].Stale = g.Intn(2) == 0
		if g.Intn(2) == 0 {
			n.DMXBuffer[a].LastUpdate = time.Now().Add(-time.Second)
		}
	}
	for k := g.Intn(3); k > 0; k-- {
		i := g.Intn(len(c.Nodes))
		cfg := c.Nodes[i].Node
		if g.Intn(2) == 0 {
			cfg.Port = uint16(7000 + g.Intn(9))
		}
		g.note("node %v announces itself again, port %d", cfg.IP, cfg.Port)
		c.updateNode(cfg)
	}
	s := gTake(c)
	_, stuck := gTick(c, 500)
	if stuck {
		return nil
	}
	return gCheckFrames(c, s, gDrain(c))
}

// The frames of one node over a long time.
func H_C17_sequence(g *vGen) (f []string) {
	c := gController()
	c.updateNode(NodeConfig{IP: net.IP{10, 0, 0, 1}, OutputPorts: []OutputPort{{Address: Address{1, 2}}, {Address: Address{0x7f, 0xff}}}})
	n := c.Nodes[0]
	s := gTake(c)
	var fr []gFrame
	for i := 0; i < 600; i++ {
		a := n.Node.OutputPorts[g.Intn(2)].Address
		if g.Intn(3) == 0 {
			n.DMXBuffer[a].Stale = g.Intn(2) == 0
		}
		u, ok := interface{}(n).(interface{ dmxUpdate(Address) ([]byte, error) })
		if !ok {
			return nil // frames are built elsewhere now; H_C17_frames looks at what is sent
		}
		b, err := u.dmxUpdate(a)
		if err != nil {
			return []string{"no frame for a universe of the node: " + err.Error()}
		}
		fr = append(fr, gFrame{n.UDPAddress, b})
	}
	return gCheckFrames(c, s, fr)
}
