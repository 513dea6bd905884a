package artnet

import (
	"net"

	"github.com/jsimonetti/go-artnet/packet/code"
)

func vCfgValid(c NodeConfig) bool {
	if len(c.InputPorts) > 4 || len(c.OutputPorts) > 4 {
		return false
	}
	return vForall(0, 4, func(i int) bool {
		return i >= len(c.InputPorts) || i >= len(c.OutputPorts) || c.InputPorts[i].Type&0x1f == c.OutputPorts[i].Type&0x1f
	})
}

// vIPByte is byte i of the IPv4 form of ip (0 if it has none).
func vIPByte(ip net.IP, i int) byte {
	if len(ip) == 4 {
		return ip[i]
	}
	if len(ip) == 16 && vForall(0, 10, func(k int) bool { return ip[k] == 0 }) && ip[10] == 0xff && ip[11] == 0xff {
		return ip[12+i]
	}
	return 0
}

func C10_identity(c NodeConfig) {
	vRequire(vCfgValid(c))
	p := ArtPollReplyFromConfig(c)
	vEnsure("a packet", p != nil)
	vEnsure("oem", p.Oem == c.OEM)
	vEnsure("versions", p.VersionInfo == c.Version && p.UBEAVersion == c.BiosVersion)
	vEnsure("style", p.Style == c.Type)
	vEnsure("status", p.Status1 == c.Status1 && p.Status2 == c.Status2)
	vEnsure("bind index", p.BindIndex == c.BindIndex)
	vEnsure("port 6454", p.Port == 6454)
	vEnsure("opcode", p.OpCode == 0x2100)
	vEnsure("ip address", vForall(0, 4, func(i int) bool { return p.IPAddress[i] == vIPByte(c.IP, i) }))
	vEnsure("bind ip", vForall(0, 4, func(i int) bool { return p.BindIP[i] == vIPByte(c.BindIP, i) }))
	vEnsure("hardware address", vForall(0, 6, func(i int) bool {
		if i < len(c.Ethernet) {
			return p.Macaddress[i] == c.Ethernet[i]
		}
		return p.Macaddress[i] == 0
	}))
	vEnsure("manufacturer", vForall(0, 2, func(i int) bool {
		if i < len(c.Manufacturer) {
			return p.ESTAmanufacturer[i] == c.Manufacturer[i]
		}
		return p.ESTAmanufacturer[i] == 0
	}))
	vEnsure("report", vForall(0, 64, func(i int) bool {
		if i < len(c.Report) {
			return p.NodeReport[i] == c.Report[i]
		}
		return p.NodeReport[i] == 0
	}))
	vEnsure("net", p.NetSwitch == c.BaseAddress.Net)
	vEnsure("sub-net in the low nibble", p.SubSwitch == c.BaseAddress.SubUni>>4)
	vReach("end")
}

func C10_names(c NodeConfig) {
	vRequire(vCfgValid(c))
	p := ArtPollReplyFromConfig(c)
	vEnsure("short name cut to 17 bytes", vForall(0, 17, func(i int) bool {
		if i < len(c.Name) {
			return p.ShortName[i] == c.Name[i]
		}
		return p.ShortName[i] == 0
	}))
	vEnsure("short name ends in NUL", p.ShortName[17] == 0)
	vEnsure("long name cut to 63 bytes", vForall(0, 63, func(i int) bool {
		if i < len(c.Description) {
			return p.LongName[i] == c.Description[i]
		}
		return p.LongName[i] == 0
	}))
	vEnsure("long name ends in NUL", p.LongName[63] == 0)
	vReach("end")
}

func C10_ports(c NodeConfig) {
	vRequire(vCfgValid(c))
	p := ArtPollReplyFromConfig(c)
	n := len(c.InputPorts)
	if len(c.OutputPorts) > n {
		n = len(c.OutputPorts)
	}
	vEnsure("port count", int(p.NumPorts) == n)
	vEnsure("direction bits of exactly the configured ports", vForall(0, 4, func(i int) bool {
		return (p.PortTypes[i]&0x40 != 0) == (i < len(c.InputPorts)) && (p.PortTypes[i]&0x80 != 0) == (i < len(c.OutputPorts))
	}))
	vEnsure("protocol of the configured ports", vForall(0, 4, func(i int) bool {
		in, out := i < len(c.InputPorts), i < len(c.OutputPorts)
		if !in && !out {
			return p.PortTypes[i] == 0
		}
		var t code.PortType
		if in {
			t = c.InputPorts[i].Type & 0x1f
		} else {
			t = c.OutputPorts[i].Type & 0x1f
		}
		return t > 5 || p.PortTypes[i]&0x3f == t
	}))
	vReach("end")
}

// The announcement does not alter the configuration it is made from.
func C10_configuration_untouched(c NodeConfig) {
	vRequire(vCfgValid(c))
	k, j := len(c.InputPorts), len(c.OutputPorts)
	old := vSnapConfig(c)
	ArtPollReplyFromConfig(c)
	vEnsure("input ports", vForall(0, k, func(i int) bool { return c.InputPorts[i] == old.InputPorts[i] }))
	vEnsure("output ports", vForall(0, j, func(i int) bool { return c.OutputPorts[i] == old.OutputPorts[i] }))
	vEnsure("ip", vSeq(c.IP, old.IP))
}

func vSnapConfig(c NodeConfig) NodeConfig { return vDeepCopy(c).(NodeConfig) }
