package artnet

import (
	"net"
	"sync"
	"time"

	"github.com/jsimonetti/go-artnet/packet/code"
)

// Run under the race detector: the background tasks and calls of a controller at the same time.
func H_C19_controller(g *vGen) (f []string) {
	c := gState(g)
	c.maxFPS = 2000
	c.shutdownCh = make(chan struct{})
	var cfgs []NodeConfig
	for i := 0; i < 40; i++ {
		cfgs = append(cfgs, gCfg(g))
	}
	var wg sync.WaitGroup
	run := func(k func()) {
		wg.Add(1)
		go func() { defer wg.Done(); k() }()
	}
	end := make(chan struct{})
	run(c.dmxUpdateLoop)
	run(func() {
		for {
			select {
			case <-c.cNode.sendCh:
			case <-end:
				return
			}
		}
	})
	run(func() {
		for i, cfg := range cfgs {
			if i%7 == 6 {
				c.gcNode()
			} else if i%5 == 4 {
				gDelete(c, cfg)
			} else {
				c.updateNode(cfg)
			}
			time.Sleep(200 * time.Microsecond)
		}
	})
	run(func() {
		for i := 0; i < 40; i++ {
			var d [512]byte
			d[0] = byte(i)
			c.SendDMXToAddress(d, Address{uint8(i % 2), uint8(i % 3)})
			time.Sleep(200 * time.Microsecond)
		}
	})
	time.Sleep(12 * time.Millisecond)
	close(c.shutdownCh)
	done := make(chan struct{})
	go func() { time.Sleep(time.Millisecond); wg.Wait(); close(done) }()
	time.AfterFunc(15*time.Millisecond, func() { close(end) })
	select {
	case <-done:
	case <-time.After(8 * time.Second):
		return []string{"tasks and calls block each other: a lock is not released or taken twice"}
	}
	locked := make(chan struct{})
	go func() { c.nodeLock.Lock(); c.nodeLock.Unlock(); close(locked) }()
	select {
	case <-locked:
	case <-time.After(3 * time.Second):
		f = append(f, "the controller's lock is still held after all tasks and calls have ended")
	}
	return f
}

func H_C19_node(g *vGen) (f []string) {
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 9}, gLog(), NodeListenAddress(net.UDPAddr{IP: net.IP{127, 0, 0, 1}}), NodeBroadcastAddress(net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}))
	if g.Intn(3) == 0 {
		n.Stop()
	}
	if err := n.Start(); err != nil {
		return nil
	}
	to := n.conn.LocalAddr().(*net.UDPAddr)
	s, err := net.DialUDP("udp4", nil, to)
	if err != nil {
		return nil
	}
	defer s.Close()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 5; i++ {
			s.Write(append([]byte("Art-Net\x00\x00\x20\x00\x0e"), 0, 0))
			time.Sleep(100 * time.Microsecond)
		}
	}()
	go func() {
		defer wg.Done()
		n.RegisterCallback(code.OpDMX, nil)
		n.DeregisterCallback(code.OpDMX)
	}()
	wg.Wait()
	done := make(chan struct{})
	go func() { n.Stop(); n.Stop(); n.isShutdown(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		return []string{"Stop blocks: a lock is not released or taken twice"}
	}
	return nil
}
