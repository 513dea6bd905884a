// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

func C03_ArtPoll(p ArtPollPacket, other ArtPollPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x2000 && q.OpCode == 0x2000)
	vEnsure("TalkToMe unchanged", q.TalkToMe == p.TalkToMe)
	vEnsure("Priority unchanged", q.Priority == p.Priority)
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x2000)
	vReach("end")
}

func C03_ArtPollReply(p ArtPollReplyPacket, other ArtPollReplyPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x2100 && q.OpCode == 0x2100)
	vEnsure("IPAddress unchanged", vForall(0, 4, func(i int) bool { return q.IPAddress[i] == p.IPAddress[i] }))
	vEnsure("Port unchanged", q.Port == p.Port)
	vEnsure("VersionInfo unchanged", q.VersionInfo == p.VersionInfo)
	vEnsure("NetSwitch unchanged", q.NetSwitch == p.NetSwitch)
	vEnsure("SubSwitch unchanged", q.SubSwitch == p.SubSwitch)
	vEnsure("Oem unchanged", q.Oem == p.Oem)
	vEnsure("UBEAVersion unchanged", q.UBEAVersion == p.UBEAVersion)
	vEnsure("Status1 unchanged", q.Status1 == p.Status1)
	vEnsure("ESTAmanufacturer unchanged", vForall(0, 2, func(i int) bool { return q.ESTAmanufacturer[i] == p.ESTAmanufacturer[i] }))
	vEnsure("ShortName unchanged", vForall(0, 18, func(i int) bool { return q.ShortName[i] == p.ShortName[i] }))
	vEnsure("LongName unchanged", vForall(0, 64, func(i int) bool { return q.LongName[i] == p.LongName[i] }))
	vEnsure("NodeReport unchanged", vForall(0, 64, func(i int) bool { return q.NodeReport[i] == p.NodeReport[i] }))
	vEnsure("NumPorts unchanged", q.NumPorts == p.NumPorts)
	vEnsure("PortTypes unchanged", vForall(0, 4, func(i int) bool { return q.PortTypes[i] == p.PortTypes[i] }))
	vEnsure("GoodInput unchanged", vForall(0, 4, func(i int) bool { return q.GoodInput[i] == p.GoodInput[i] }))
	vEnsure("GoodOutput unchanged", vForall(0, 4, func(i int) bool { return q.GoodOutput[i] == p.GoodOutput[i] }))
	vEnsure("SwIn unchanged", vForall(0, 4, func(i int) bool { return q.SwIn[i] == p.SwIn[i] }))
	vEnsure("SwOut unchanged", vForall(0, 4, func(i int) bool { return q.SwOut[i] == p.SwOut[i] }))
	vEnsure("SwVideo unchanged", q.SwVideo == p.SwVideo)
	vEnsure("SwMacro unchanged", q.SwMacro == p.SwMacro)
	vEnsure("SwRemote unchanged", q.SwRemote == p.SwRemote)
	vEnsure("Style unchanged", q.Style == p.Style)
	vEnsure("Macaddress unchanged", vForall(0, 6, func(i int) bool { return q.Macaddress[i] == p.Macaddress[i] }))
	vEnsure("BindIP unchanged", vForall(0, 4, func(i int) bool { return q.BindIP[i] == p.BindIP[i] }))
	vEnsure("BindIndex unchanged", q.BindIndex == p.BindIndex)
	vEnsure("Status2 unchanged", q.Status2 == p.Status2)
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x2100)
	vEnsure("port unchanged again", q.Port == p.Port)
	vReach("end")
}

func C03_ArtDiagData(p ArtDiagDataPacket, other ArtDiagDataPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x2300 && q.OpCode == 0x2300)
	vEnsure("Priority unchanged", q.Priority == p.Priority)
	vEnsure("Length unchanged", q.Length == p.Length)
	vEnsure("Data unchanged", vForall(0, 512, func(i int) bool { return q.Data[i] == p.Data[i] }))
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x2300)
	vReach("end")
}

func C03_ArtCommand(p ArtCommandPacket, other ArtCommandPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x2400 && q.OpCode == 0x2400)
	vEnsure("Length unchanged", q.Length == p.Length)
	vEnsure("Data unchanged", vForall(0, 512, func(i int) bool { return q.Data[i] == p.Data[i] }))
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x2400)
	vReach("end")
}

func C03_ArtDMX(p ArtDMXPacket, other ArtDMXPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x5000 && q.OpCode == 0x5000)
	vEnsure("Sequence unchanged", q.Sequence == p.Sequence)
	vEnsure("Physical unchanged", q.Physical == p.Physical)
	vEnsure("SubUni unchanged", q.SubUni == p.SubUni)
	vEnsure("Net unchanged", q.Net == p.Net)
	vEnsure("Data unchanged", vForall(0, 512, func(i int) bool { return q.Data[i] == p.Data[i] }))
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x5000)
	vReach("end")
}

func C03_ArtNzs(p ArtNzsPacket, other ArtNzsPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x5100 && q.OpCode == 0x5100)
	vEnsure("Sequence unchanged", q.Sequence == p.Sequence)
	vEnsure("StartCode unchanged", q.StartCode == p.StartCode)
	vEnsure("SubUni unchanged", q.SubUni == p.SubUni)
	vEnsure("Net unchanged", q.Net == p.Net)
	vEnsure("Length unchanged", q.Length == p.Length)
	vEnsure("Data unchanged", vForall(0, 512, func(i int) bool { return q.Data[i] == p.Data[i] }))
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x5100)
	vReach("end")
}

func C03_ArtSync(p ArtSyncPacket, other ArtSyncPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x5200 && q.OpCode == 0x5200)
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x5200)
	vReach("end")
}

func C03_ArtAddress(p ArtAddressPacket, other ArtAddressPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x6000 && q.OpCode == 0x6000)
	vEnsure("NetSwitch unchanged", q.NetSwitch == p.NetSwitch)
	vEnsure("BindIndex unchanged", q.BindIndex == p.BindIndex)
	vEnsure("ShortName unchanged", vForall(0, 18, func(i int) bool { return q.ShortName[i] == p.ShortName[i] }))
	vEnsure("LongName unchanged", vForall(0, 64, func(i int) bool { return q.LongName[i] == p.LongName[i] }))
	vEnsure("SwIn unchanged", vForall(0, 4, func(i int) bool { return q.SwIn[i] == p.SwIn[i] }))
	vEnsure("SwOut unchanged", vForall(0, 4, func(i int) bool { return q.SwOut[i] == p.SwOut[i] }))
	vEnsure("SubSwitch unchanged", q.SubSwitch == p.SubSwitch)
	vEnsure("SwVideo unchanged", q.SwVideo == p.SwVideo)
	vEnsure("Command unchanged", q.Command == p.Command)
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x6000)
	vReach("end")
}

func C03_ArtTimeCode(p ArtTimeCodePacket, other ArtTimeCodePacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x9700 && q.OpCode == 0x9700)
	vEnsure("Frames unchanged", q.Frames == p.Frames)
	vEnsure("Seconds unchanged", q.Seconds == p.Seconds)
	vEnsure("Minutes unchanged", q.Minutes == p.Minutes)
	vEnsure("Hours unchanged", q.Hours == p.Hours)
	vEnsure("Type unchanged", q.Type == p.Type)
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x9700)
	vReach("end")
}

func C03_ArtTrigger(p ArtTriggerPacket, other ArtTriggerPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0x9900 && q.OpCode == 0x9900)
	vEnsure("Oem unchanged", q.Oem == p.Oem)
	vEnsure("Key unchanged", q.Key == p.Key)
	vEnsure("SubKey unchanged", q.SubKey == p.SubKey)
	vEnsure("Data unchanged", vForall(0, 512, func(i int) bool { return q.Data[i] == p.Data[i] }))
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0x9900)
	vReach("end")
}

func C03_ArtIPProg(p ArtIPProgPacket, other ArtIPProgPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0xf800 && q.OpCode == 0xf800)
	vEnsure("Command unchanged", q.Command == p.Command)
	vEnsure("ProgIP unchanged", vForall(0, 4, func(i int) bool { return q.ProgIP[i] == p.ProgIP[i] }))
	vEnsure("ProgSubNet unchanged", vForall(0, 4, func(i int) bool { return q.ProgSubNet[i] == p.ProgSubNet[i] }))
	vEnsure("ProgPort unchanged", vForall(0, 2, func(i int) bool { return q.ProgPort[i] == p.ProgPort[i] }))
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0xf800)
	vReach("end")
}

func C03_ArtIPProgReply(p ArtIPProgReplyPacket, other ArtIPProgReplyPacket) {
	q, o := p, other
	b, err := q.MarshalBinary()
	vRequire(err == nil)
	b1 := vSnapBytes(b)
	vEnsure("still reports its opcode", q.GetOpCode() == 0xf900 && q.OpCode == 0xf900)
	vEnsure("ProgIP unchanged", vForall(0, 4, func(i int) bool { return q.ProgIP[i] == p.ProgIP[i] }))
	vEnsure("ProgSubNet unchanged", vForall(0, 4, func(i int) bool { return q.ProgSubNet[i] == p.ProgSubNet[i] }))
	vEnsure("ProgPort unchanged", vForall(0, 2, func(i int) bool { return q.ProgPort[i] == p.ProgPort[i] }))
	vEnsure("Status unchanged", q.Status == p.Status)
	o.MarshalBinary()
	b2, err := q.MarshalBinary()
	vEnsure("encodes again", err == nil)
	vEnsure("same bytes again", vSeq(b1, b2))
	vEnsure("first encoding untouched by later ones", vSeq(b1, b))
	vEnsure("still reports its opcode again", q.GetOpCode() == 0xf900)
	vReach("end")
}
