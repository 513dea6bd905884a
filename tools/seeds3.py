SEEDS=[
dict(id='s22',property='C01',pkg='packet',needs='an ArtDmx packet whose Length field was set to a legal value below 512 before encoding',
 breaks='a shorter length set by the caller stays in the encoded ArtDmx although 512 channels follow',
 edits=[('packet/artdmx.go','	p.Length = 512\n','	if p.Length < 2 || p.Length > 512 || p.Length%2 != 0 {\n		p.Length = 512\n	}\n')],
 demo='''
package packet
import "testing"
func TestSeedDemo(t *testing.T) {
	p := NewArtDMXPacket()
	p.Length = 24
	b, err := p.MarshalBinary()
	if err != nil { t.Fatal(err) }
	if b[16] != 2 || b[17] != 0 || len(b) != 530 { t.Fatal(b[16:18], len(b)) }
}
'''),
dict(id='s23',property='C02',pkg='packet',needs='a poll reply of a node with IP 2.x.y.z, x between 1 and 13',
 breaks='such poll replies are taken for packets of an old protocol version and are not decoded',
 edits=[('packet/header.go','	if p.OpCode != code.OpPollReply {\n		// according','	if p.OpCode != code.OpPollReply || p.Version[0] == 2 && p.Version[1] != 0 {\n		// according')],
 demo='''
package packet
import "testing"
func TestSeedDemo(t *testing.T) {
	for _, ip := range [][4]byte{{2, 5, 1, 2}, {2, 0, 0, 1}, {10, 0, 0, 1}, {192, 168, 0, 1}, {10, 200, 0, 1}} {
		p := NewArtPollReplyPacket()
		p.Port, p.IPAddress = ArtNetPort, ip
		b, err := p.MarshalBinary()
		if err != nil { t.Fatal(err) }
		q, err := Unmarshal(b)
		if err != nil { t.Fatal(ip, err) }
		if q.(*ArtPollReplyPacket).IPAddress != ip { t.Fatal(ip) }
	}
}
'''),
dict(id='s24',property='C03',pkg='packet',needs='encoding an ArtIpProgReply whose Status has a bit other than the DHCP bit set',
 breaks='encoding clears bits of the caller\'s Status field (on the wire and in the packet)',
 edits=[('packet/header.go','	p.finish()\n	var buf','	if v, ok := p.(*ArtIPProgReplyPacket); ok {\n		v.Status &= 1 << 6\n	}\n	p.finish()\n	var buf')],
 demo='''
package packet
import "testing"
func TestSeedDemo(t *testing.T) {
	p := NewArtIPProgReplyPacket()
	p.Status = 0x41
	if _, err := p.MarshalBinary(); err != nil { t.Fatal(err) }
	if p.Status != 0x41 { t.Fatal(p.Status) }
}
'''),
dict(id='s25',property='C07',pkg='packet/code',needs='a port type with a protocol number of 16 to 21, which no name belongs to',
 breaks='the protocol getter ignores the fifth bit, so unknown protocol numbers are reported as named protocols',
 edits=[('packet/code/porttype.go','	switch s & 0x1f {','	switch s & 0x0f {')],
 demo='''
package code
import "testing"
func TestSeedDemo(t *testing.T) {
	if s := PortType(0x11).Type(); s != "unknown" { t.Fatal(s) }
	if s := PortType(0xc5).Type(); s != "Art-Net" { t.Fatal(s) }
}
'''),
dict(id='s26',property='C08',pkg='packet/code',needs='an undefined priority code between 225 and 239',
 breaks='undefined priority codes are named like the critical one',
 edits=[('packet/code/prioritycode_string.go','	case i == 224:','	case i >= 224 && i < 240:')],
 demo='''
package code
import "testing"
func TestSeedDemo(t *testing.T) {
	if s := PriorityCode(225).String(); s != "PriorityCode(225)" { t.Fatal(s) }
	if s := PriorityCode(224).String(); s != "DpCritical" { t.Fatal(s) }
}
'''),
]
SEEDS+=[
dict(id='s27',property='C24',pkg='.',needs='stopping a running controller while frames are being updated',
 breaks='the update loop stops its ticker on shutdown but goes on, spinning on the closed channel after Stop',
 edits=[('controller.go','''			c.nodeLock.Unlock()

		case <-c.shutdownCh:
			return
''','''			c.nodeLock.Unlock()

		case <-c.shutdownCh:
			ticker.Stop()
''')],
 demo='''
package artnet
import ("testing";"net";"time";"runtime")
func TestSeedDemo(t *testing.T) {
	a := net.UDPAddr{IP: net.IP{127, 0, 0, 1}}
	b := net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}
	c := NewController("c", net.IP{127, 0, 0, 1}, NewDefaultLogger(), BroadcastAddr(b))
	c.cNode.listenAddr, c.cNode.broadcastAddr = a, b
	before := runtime.NumGoroutine()
	if err := c.Start(); err != nil { t.Skip(err) }
	time.Sleep(50 * time.Millisecond)
	c.Stop()
	for i := 0; i < 500; i++ {
		if runtime.NumGoroutine() <= before { return }
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal(runtime.NumGoroutine() - before)
}
'''),
dict(id='s28',property='C22',pkg='.',needs='a node without any port',
 breaks='a node without ports does not start the task that answers polls',
 edits=[('node.go','	go n.pollReplyLoop()\n','	if len(n.Config.InputPorts)+len(n.Config.OutputPorts) > 0 {\n		go n.pollReplyLoop()\n	}\n')],
 demo='''
package artnet
import ("testing";"net";"time";"github.com/jsimonetti/go-artnet/packet/code")
func TestSeedDemo(t *testing.T) {
	l, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil { t.Skip(err) }
	defer l.Close()
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 9}, NewDefaultLogger(), NodeListenAddress(net.UDPAddr{IP: net.IP{127, 0, 0, 1}}), NodeBroadcastAddress(*l.LocalAddr().(*net.UDPAddr)))
	if err := n.Start(); err != nil { t.Skip(err) }
	defer n.Stop()
	s, err := net.DialUDP("udp4", nil, n.conn.LocalAddr().(*net.UDPAddr))
	if err != nil { t.Skip(err) }
	defer s.Close()
	s.Write(append([]byte("Art-Net\\x00\\x00\\x20\\x00\\x0e"), 0, 0))
	l.SetReadDeadline(time.Now().Add(5 * time.Second))
	b := make([]byte, 1000)
	k, _, err := l.ReadFromUDP(b)
	if err != nil || k != 239 || b[9] != 0x21 { t.Fatal(k, err) }
}
'''),
]
