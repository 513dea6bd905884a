HELP='''
func seedCtrl(ports ...int) *Controller {
	c := NewController("c", net.IP{10, 0, 0, 99}, NewDefaultLogger())
	c.OutputAddress = map[Address]*ControlledNode{}
	c.InputAddress = map[Address]*ControlledNode{}
	for i, n := range ports {
		c.updateNode(seedCfg(i, n))
	}
	return c
}
func seedCfg(i, n int) NodeConfig {
	cfg := NodeConfig{Name: "n", IP: net.IP{10, 0, 0, byte(i)}, Port: 6454}
	for k := 0; k < n; k++ {
		cfg.OutputPorts = append(cfg.OutputPorts, OutputPort{Address: Address{Net: byte(i), SubUni: byte(k)}})
	}
	return cfg
}
'''
SEEDS=[
dict(id='s08',property='C14',pkg='.',needs='a re-announcement of a known node whose name is empty',
 breaks='the description of a node that announces itself again without a name keeps the old identity (only ports are taken over)',
 edits=[('controller.go','			c.Nodes[i].Node = cfg\n','			if cfg.Name != "" {\n				c.Nodes[i].Node = cfg\n			} else {\n				c.Nodes[i].Node.OutputPorts = cfg.OutputPorts\n				c.Nodes[i].Node.InputPorts = cfg.InputPorts\n			}\n')],
 demo='''
package artnet
import ("testing";"net")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl(1)
	cfg := seedCfg(0, 1)
	cfg.Name, cfg.Description, cfg.BindIndex = "", "renamed", 3
	c.updateNode(cfg)
	if n := c.Nodes[0].Node; n.Description != "renamed" || n.BindIndex != 3 || n.Name != "" { t.Fatal(n) }
}
'''),
dict(id='s09',property='C14',pkg='.',needs='a known node with only input ports re-announcing itself',
 breaks='the last-seen time of a node without outputs is not refreshed, so it expires although it keeps announcing itself',
 edits=[('controller.go','			c.Nodes[i].LastSeen = time.Now()\n			// add','			if len(cfg.OutputPorts) > 0 {\n				c.Nodes[i].LastSeen = time.Now()\n			}\n			// add')],
 demo='''
package artnet
import ("testing";"net";"time")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl(1, 0)
	for i := range c.Nodes { c.Nodes[i].LastSeen = time.Now().Add(-6 * time.Second) }
	c.updateNode(seedCfg(0, 1))
	c.updateNode(seedCfg(1, 0))
	for i, n := range c.Nodes { if time.Since(n.LastSeen) > time.Second { t.Fatal(i) } }
}
'''),
dict(id='s10',property='C15',pkg='.',needs='at least three nodes, one in the middle expires',
 breaks='clean-up moves the last node into the place of the expired one, so the order of the kept nodes changes',
 edits=[('controller.go','			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			goto start','			c.Nodes[i] = c.Nodes[len(c.Nodes)-1]\n			c.Nodes = c.Nodes[:len(c.Nodes)-1]\n			goto start')],
 demo='''
package artnet
import ("testing";"net";"time")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl(1, 1, 1, 1)
	c.Nodes[1].LastSeen = time.Now().Add(-8 * time.Second)
	c.gcNode()
	if len(c.Nodes) != 3 { t.Fatal(len(c.Nodes)) }
	for i, w := range []byte{0, 2, 3} { if c.Nodes[i].Node.IP[3] != w { t.Fatal(i, c.Nodes[i].Node.IP) } }
}
'''),
dict(id='s11',property='C15',pkg='.',needs='two nodes that expire in the same clean-up',
 breaks='one clean-up removes only the first expired node',
 edits=[('controller.go','			goto start','			if i > 0 {\n				goto start\n			}\n			break start')],
 demo='''
package artnet
import ("testing";"net";"time")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	for m := 0; m < 16; m++ {
		c := seedCtrl(1, 1, 1, 1)
		want := 0
		for i := range c.Nodes { if m>>uint(i)&1 == 1 { c.Nodes[i].LastSeen = time.Now().Add(-8 * time.Second) } else { want++ } }
		c.gcNode()
		if len(c.Nodes) != want || len(c.OutputAddress) != want { t.Fatalf("%b: %d nodes %d routes", m, len(c.Nodes), len(c.OutputAddress)) }
	}
}
'''),
dict(id='s12',property='C16',pkg='.',needs='the same frame sent twice to a universe, transmitted in between',
 breaks='a frame equal to the stored one is not marked for transmission',
 edits=[('controller.go','	buf.Data = dmx\n	buf.Stale = true','	if buf.Data != dmx {\n		buf.Data = dmx\n		buf.Stale = true\n	}')],
 demo='''
package artnet
import ("testing";"net")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl(1)
	a := Address{}
	for i := 0; i < 2; i++ {
		c.SendDMXToAddress([512]byte{1, 2, 3}, a)
		if !c.Nodes[0].DMXBuffer[a].Stale { t.Fatal("not pending", i) }
		c.Nodes[0].DMXBuffer[a].Stale = false
	}
}
'''),
dict(id='s13',property='C17',pkg='.',needs='a forced refresh of a universe with no new frame',
 breaks='refreshed frames repeat the previous sequence number instead of advancing it',
 edits=[('controller.go','	cn.Sequence++\n','	if buf.Stale {\n		cn.Sequence++\n	}\n')],
 demo='''
package artnet
import ("testing";"net")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl(1)
	for i := 1; i < 600; i++ {
		c.Nodes[0].DMXBuffer[Address{}].Stale = i == 1
		b, err := c.Nodes[0].dmxUpdate(Address{})
		if err != nil { t.Fatal(err) }
		if w := byte((i-1)%255 + 1); b[12] != w { t.Fatal(i, b[12], w) }
	}
}
'''),
dict(id='s14',property='C18',pkg='.',needs='a universe that is refreshed without a new frame',
 breaks='a refresh does not record when it was sent, so the refresh goes out again on every following tick',
 edits=[('controller.go','		node.DMXBuffer[address].LastUpdate = now\n		node.DMXBuffer[address].Stale = false\n','		if node.DMXBuffer[address].Stale {\n			node.DMXBuffer[address].LastUpdate = now\n		}\n		node.DMXBuffer[address].Stale = false\n')],
 demo='''
package artnet
import ("testing";"net";"time")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl(1)
	c.maxFPS = 100
	c.shutdownCh = make(chan struct{})
	c.cNode.sendCh = make(chan netPayload, 1000)
	go c.dmxUpdateLoop()
	time.Sleep(600 * time.Millisecond)
	close(c.shutdownCh)
	if n := len(c.cNode.sendCh); n < 1 || n > 5 { t.Fatal(n, "frames in 600 ms") }
}
'''),
dict(id='s15',property='C19',pkg='.',needs='a tick of the update loop while a node is announced or removed (race detector)',
 breaks='the update loop looks at the universe table without holding the lock',
 edits=[('controller.go','			// send DMX buffer update\n			c.nodeLock.Lock()\n','			// send DMX buffer update\n			if len(c.OutputAddress) == 0 {\n				continue\n			}\n			c.nodeLock.Lock()\n')],
 race=True,
 demo='''
package artnet
import ("testing";"net";"time")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl()
	c.shutdownCh = make(chan struct{})
	c.cNode.sendCh = make(chan netPayload, 100000)
	go c.dmxUpdateLoop()
	for i := 0; i < 100; i++ {
		c.updateNode(seedCfg(i%3, 2))
		time.Sleep(time.Millisecond)
		c.deleteNode(seedCfg(i%3, 0))
	}
	close(c.shutdownCh)
}
'''),
dict(id='s16',property='C20',pkg='.',needs='a second datagram received before the first is handled',
 breaks='the datagrams handed on share the receive buffer, so a later datagram overwrites an earlier one',
 edits=[('node.go','				data:    make([]byte, num),\n			}\n			copy(payload.data, b)\n','				data:    b[:num],\n			}\n')],
 demo='''
package artnet
import ("testing";"net";"time";"bytes";"github.com/jsimonetti/go-artnet/packet/code")
func TestSeedDemo(t *testing.T) {
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 9}, NewDefaultLogger())
	c, err := net.ListenPacket("udp4", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	n.conn = c.(*net.UDPConn)
	n.recvCh, n.shutdownCh = make(chan netPayload, 10), make(chan struct{})
	n.shutdown = false
	close(n.shutdownCh)
	n.recvLoop() // the consumer ends at once, the reader keeps receiving
	conn, err := net.DialUDP("udp4", nil, n.conn.LocalAddr().(*net.UDPAddr))
	if err != nil { t.Fatal(err) }
	for i := byte(1); i <= 5; i++ {
		conn.Write(bytes.Repeat([]byte{i}, 20))
	}
	for i := 0; len(n.recvCh) < 5; i++ {
		if i > 3000 { t.Fatal("datagrams lost") }
		time.Sleep(time.Millisecond)
	}
	for i := byte(1); i <= 5; i++ {
		if p := <-n.recvCh; !bytes.Equal(p.data, bytes.Repeat([]byte{i}, 20)) { t.Fatal(i, p.data) }
	}
}
'''),
dict(id='s17',property='C21',pkg='.',needs='a node of a style other than node and controller (media server, visualiser, ...)',
 breaks='every device that is not a plain node hands poll replies to the controller logic and blocks',
 edits=[('node.go','	if n.Config.Type == code.StController {','	if n.Config.Type != code.StNode {')],
 demo='''
package artnet
import ("testing";"net";"time";"github.com/jsimonetti/go-artnet/packet";"github.com/jsimonetti/go-artnet/packet/code")
func TestSeedDemo(t *testing.T) {
	n := NewNode("n", code.StMedia, net.IP{127, 0, 0, 2}, NewDefaultLogger())
	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 1)
	done := make(chan bool)
	p := &packet.ArtPollReplyPacket{}
	p.OpCode = code.OpPollReply
	go func() { n.handlePacket(p); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
	}
	if len(n.pollReplyCh) != 0 { t.Fatal("a media server took a poll reply up") }
}
'''),
dict(id='s18',property='C22',pkg='.',needs='a broadcast address with a port other than 6454',
 breaks='poll replies are sent to port 6454 of the broadcast address whatever port was configured',
 edits=[('node.go','				address: n.broadcastAddr,\n','				address: net.UDPAddr{IP: n.broadcastAddr.IP, Port: packet.ArtNetPort},\n')],
 demo='''
package artnet
import ("testing";"net";"time";"github.com/jsimonetti/go-artnet/packet";"github.com/jsimonetti/go-artnet/packet/code")
func TestSeedDemo(t *testing.T) {
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 2}, NewDefaultLogger(), NodeBroadcastAddress(net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 7777}))
	n.sendCh, n.pollCh, n.shutdownCh = make(chan netPayload, 4), make(chan packet.ArtPollPacket, 1), make(chan struct{})
	n.pollCh <- packet.ArtPollPacket{}
	go n.pollReplyLoop()
	select {
	case p := <-n.sendCh:
		if p.address.Port != 7777 { t.Fatal(p.address) }
	case <-time.After(5 * time.Second):
		t.Fatal("no reply")
	}
	close(n.shutdownCh)
}
'''),
dict(id='s19',property='C23',pkg='.',needs='a controller announcing input ports only',
 breaks='controllers that only have input ports are registered',
 edits=[('controller.go','			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {','			if cfg.Type == code.StController && len(cfg.OutputPorts)+len(cfg.InputPorts) == 0 {')],
 demo='''
package artnet
import ("testing";"net";"time";"github.com/jsimonetti/go-artnet/packet";"github.com/jsimonetti/go-artnet/packet/code")
'''+HELP+'''
func TestSeedDemo(t *testing.T) {
	c := seedCtrl()
	c.shutdownCh = make(chan struct{})
	n := c.cNode
	n.sendCh, n.pollCh, n.pollReplyCh = make(chan netPayload, 10), make(chan packet.ArtPollPacket, 10), make(chan packet.ArtPollReplyPacket, 10)
	c.pollTicker, c.gcTicker = time.NewTicker(time.Hour), time.NewTicker(time.Hour)
	for i := byte(0); i < 4; i++ {
		p := packet.ArtPollReplyPacket{NumPorts: 1, Style: code.StController, IPAddress: [4]byte{10, 0, 0, i}}
		p.PortTypes[0] = p.PortTypes[0].WithInput(i&1 == 1).WithOutput(i&2 == 2)
		n.pollReplyCh <- p
	}
	go c.pollLoop()
	time.Sleep(200 * time.Millisecond)
	c.nodeLock.Lock()
	defer c.nodeLock.Unlock()
	if len(c.Nodes) != 2 { t.Fatal(len(c.Nodes)) }
	for _, k := range c.Nodes { if k.Node.IP[3] < 2 { t.Fatal(k.Node.IP) } }
}
'''),
dict(id='s20',property='C24',pkg='.',needs='a port given in the listen address option with no IP',
 breaks='the listen address option ignores the port when the address has no IP',
 edits=[('options.go','''		n.listenAddr = addr
''','''		if addr.IP == nil {
			return nil
		}
		n.listenAddr = addr
''')],
 demo='''
package artnet
import ("testing";"net";"github.com/jsimonetti/go-artnet/packet/code")
func TestSeedDemo(t *testing.T) {
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 2}, NewDefaultLogger(), NodeListenAddress(net.UDPAddr{Port: 7}))
	if n.listenAddr.Port != 7 { t.Fatal(n.listenAddr) }
}
'''),
dict(id='s21',property='C05',pkg='packet',needs='a datagram with another opcode whose low byte equals the type\'s',
 breaks='decoders compare only part of the opcode',
 edits=[('packet/artpollreply.go','p.OpCode != code.OpPollReply','uint8(p.OpCode>>8) != uint8(code.OpPollReply>>8)')],
 demo='''
package packet
import "testing"
func TestSeedDemo(t *testing.T) {
	p := NewArtPollReplyPacket()
	p.Port = ArtNetPort
	b, err := p.MarshalBinary()
	if err != nil { t.Fatal(err) }
	for x := 0; x < 256; x++ {
		b[8] = byte(x)
		if err := (&ArtPollReplyPacket{}).UnmarshalBinary(b); (err == nil) != (x == 0) { t.Fatal(x, err) }
	}
}
'''),
]
