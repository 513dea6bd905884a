package artnet

import (
	"fmt"
	"net"
	"time"
)

// gTick runs the update task of c for exactly one tick; ok is false if more than one may have happened.
func gTick(c *Controller, fps int) (ok, stuck bool) {
	interval := time.Second / time.Duration(fps)
	c.maxFPS = fps
	c.shutdownCh = make(chan struct{})
	c.nodeLock.Lock()
	start := time.Now()
	done := make(chan struct{})
	go func() { c.dmxUpdateLoop(); close(done) }()
	time.Sleep(interval + interval/4)
	close(c.shutdownCh)
	c.nodeLock.Unlock()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		return true, true
	}
	return time.Since(start) < interval*18/10, false
}

type gFrame struct {
	to   net.UDPAddr
	data []byte
}

func gDrain(c *Controller) (r []gFrame) {
	for {
		select {
		case p := <-c.cNode.sendCh:
			r = append(r, gFrame{p.address, p.data})
		default:
			return r
		}
	}
}

// gUniverses: a controller with several nodes and universes.
func gUniverses(g *vGen) *Controller {
	c := gController()
	for k := 1 + g.Intn(5); k > 0; k-- {
		cfg := NodeConfig{IP: net.IP{10, 0, 0, byte(k)}, Port: 6454, Name: fmt.Sprintf("n%d", k)}
		for j := 0; j < 4; j++ {
			cfg.OutputPorts = append(cfg.OutputPorts, OutputPort{Address: Address{Net: uint8(g.Intn(128)), SubUni: uint8(g.Intn(256))}})
		}
		c.updateNode(cfg)
	}
	for a, n := range c.OutputAddress {
		if b := n.DMXBuffer[a]; b != nil {
			g.Read(b.Data[:])
		}
	}
	for _, n := range c.Nodes {
		n.Sequence = []uint8{0, 1, 100, 250, 253, 254, 255}[g.Intn(7)]
	}
	return c
}
