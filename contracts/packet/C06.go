// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

func C06_ArtPoll(q ArtPollPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("TalkToMe", b[12] == byte(q.TalkToMe))
	vEnsure("Priority", b[13] == byte(q.Priority))
}

func C06_ArtPollReply(q ArtPollReplyPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("IPAddress", vForall(0, 4, func(i int) bool { return b[10+i] == byte(q.IPAddress[i]) }))
	vEnsure("Port normalised", q.Port == 6454)
	vEnsure("VersionInfo", b[16] == byte(q.VersionInfo>>8) && b[17] == byte(q.VersionInfo))
	vEnsure("NetSwitch", b[18] == byte(q.NetSwitch))
	vEnsure("SubSwitch", b[19] == byte(q.SubSwitch))
	vEnsure("Oem", b[20] == byte(q.Oem>>8) && b[21] == byte(q.Oem))
	vEnsure("UBEAVersion", b[22] == byte(q.UBEAVersion))
	vEnsure("Status1", b[23] == byte(q.Status1))
	vEnsure("ESTAmanufacturer", vForall(0, 2, func(i int) bool { return b[24+i] == byte(q.ESTAmanufacturer[i]) }))
	vEnsure("ShortName", vForall(0, 18, func(i int) bool { return b[26+i] == byte(q.ShortName[i]) }))
	vEnsure("LongName", vForall(0, 64, func(i int) bool { return b[44+i] == byte(q.LongName[i]) }))
	vEnsure("NodeReport", vForall(0, 64, func(i int) bool { return b[108+i] == byte(q.NodeReport[i]) }))
	vEnsure("NumPorts", b[172] == byte(q.NumPorts>>8) && b[173] == byte(q.NumPorts))
	vEnsure("PortTypes", vForall(0, 4, func(i int) bool { return b[174+i] == byte(q.PortTypes[i]) }))
	vEnsure("GoodInput", vForall(0, 4, func(i int) bool { return b[178+i] == byte(q.GoodInput[i]) }))
	vEnsure("GoodOutput", vForall(0, 4, func(i int) bool { return b[182+i] == byte(q.GoodOutput[i]) }))
	vEnsure("SwIn", vForall(0, 4, func(i int) bool { return b[186+i] == byte(q.SwIn[i]) }))
	vEnsure("SwOut", vForall(0, 4, func(i int) bool { return b[190+i] == byte(q.SwOut[i]) }))
	vEnsure("SwVideo", b[194] == byte(q.SwVideo))
	vEnsure("SwMacro", b[195] == byte(q.SwMacro))
	vEnsure("SwRemote", b[196] == byte(q.SwRemote))
	vEnsure("Style", b[200] == byte(q.Style))
	vEnsure("Macaddress", vForall(0, 6, func(i int) bool { return b[201+i] == byte(q.Macaddress[i]) }))
	vEnsure("BindIP", vForall(0, 4, func(i int) bool { return b[207+i] == byte(q.BindIP[i]) }))
	vEnsure("BindIndex", b[211] == byte(q.BindIndex))
	vEnsure("Status2", b[212] == byte(q.Status2))
}

func C06_ArtDiagData(q ArtDiagDataPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("Priority", b[13] == byte(q.Priority))
	vEnsure("Length", b[16] == byte(q.Length>>8) && b[17] == byte(q.Length))
	vEnsure("Data", vForall(0, 512, func(i int) bool { return b[18+i] == byte(q.Data[i]) }))
}

func C06_ArtCommand(q ArtCommandPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("ESTAmanufacturer", vForall(0, 2, func(i int) bool { return b[12+i] == byte(q.ESTAmanufacturer[i]) }))
	vEnsure("Length", b[14] == byte(q.Length>>8) && b[15] == byte(q.Length))
	vEnsure("Data", vForall(0, 512, func(i int) bool { return b[16+i] == byte(q.Data[i]) }))
}

func C06_ArtDMX(q ArtDMXPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("Sequence", b[12] == byte(q.Sequence))
	vEnsure("Physical", b[13] == byte(q.Physical))
	vEnsure("SubUni", b[14] == byte(q.SubUni))
	vEnsure("Net", b[15] == byte(q.Net))
	vEnsure("Length", b[16] == byte(q.Length>>8) && b[17] == byte(q.Length))
	l := int(q.Length)
	vEnsure("Data within the declared length", vForall(0, 512, func(i int) bool { return i >= l || q.Data[i] == b[18+i] }))
	vEnsure("Data beyond the declared length is zero", vForall(0, 512, func(i int) bool { return i < l || q.Data[i] == 0 }))
}

func C06_ArtNzs(q ArtNzsPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("Sequence", b[12] == byte(q.Sequence))
	vEnsure("StartCode", b[13] == byte(q.StartCode))
	vEnsure("SubUni", b[14] == byte(q.SubUni))
	vEnsure("Net", b[15] == byte(q.Net))
	vEnsure("Length", b[16] == byte(q.Length>>8) && b[17] == byte(q.Length))
	vEnsure("Data", vForall(0, 512, func(i int) bool { return b[18+i] == byte(q.Data[i]) }))
}

func C06_ArtSync(q ArtSyncPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
}

func C06_ArtAddress(q ArtAddressPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("NetSwitch", b[12] == byte(q.NetSwitch))
	vEnsure("BindIndex", b[13] == byte(q.BindIndex))
	vEnsure("ShortName", vForall(0, 18, func(i int) bool { return b[14+i] == byte(q.ShortName[i]) }))
	vEnsure("LongName", vForall(0, 64, func(i int) bool { return b[32+i] == byte(q.LongName[i]) }))
	vEnsure("SwIn", vForall(0, 4, func(i int) bool { return b[96+i] == byte(q.SwIn[i]) }))
	vEnsure("SwOut", vForall(0, 4, func(i int) bool { return b[100+i] == byte(q.SwOut[i]) }))
	vEnsure("SubSwitch", b[104] == byte(q.SubSwitch))
	vEnsure("SwVideo", b[105] == byte(q.SwVideo))
	vEnsure("Command", b[106] == byte(q.Command))
}

func C06_ArtTimeCode(q ArtTimeCodePacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("Frames", b[14] == byte(q.Frames))
	vEnsure("Seconds", b[15] == byte(q.Seconds))
	vEnsure("Minutes", b[16] == byte(q.Minutes))
	vEnsure("Hours", b[17] == byte(q.Hours))
	vEnsure("Type", b[18] == byte(q.Type))
}

func C06_ArtTrigger(q ArtTriggerPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("Oem", b[14] == byte(q.Oem>>8) && b[15] == byte(q.Oem))
	vEnsure("Key", b[16] == byte(q.Key))
	vEnsure("SubKey", b[17] == byte(q.SubKey))
	vEnsure("Data", vForall(0, 512, func(i int) bool { return b[18+i] == byte(q.Data[i]) }))
}

func C06_ArtIPProg(q ArtIPProgPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("Command", b[14] == byte(q.Command))
	vEnsure("ProgIP", vForall(0, 4, func(i int) bool { return b[16+i] == byte(q.ProgIP[i]) }))
	vEnsure("ProgSubNet", vForall(0, 4, func(i int) bool { return b[20+i] == byte(q.ProgSubNet[i]) }))
	vEnsure("ProgPort", vForall(0, 2, func(i int) bool { return b[24+i] == byte(q.ProgPort[i]) }))
}

func C06_ArtIPProgReply(q ArtIPProgReplyPacket, b []byte) {
	if q.UnmarshalBinary(b) != nil {
		return
	}
	vReach("accepted")
	vEnsure("ID", vForall(0, 8, func(i int) bool { return q.ID[i] == b[i] }))
	vEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)
	vEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])
	vEnsure("ProgIP", vForall(0, 4, func(i int) bool { return b[16+i] == byte(q.ProgIP[i]) }))
	vEnsure("ProgSubNet", vForall(0, 4, func(i int) bool { return b[20+i] == byte(q.ProgSubNet[i]) }))
	vEnsure("ProgPort", vForall(0, 2, func(i int) bool { return b[24+i] == byte(q.ProgPort[i]) }))
	vEnsure("Status", b[26] == byte(q.Status))
}

func C06_Unmarshal_ArtPoll(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x2000)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtPollPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtPollPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("TalkToMe", d.TalkToMe == q.TalkToMe)
	vEnsure("Priority", d.Priority == q.Priority)
}

func C06_Unmarshal_ArtPollReply(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x2100)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtPollReplyPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtPollReplyPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("IPAddress", vForall(0, 4, func(i int) bool { return d.IPAddress[i] == q.IPAddress[i] }))
	vEnsure("Port", d.Port == q.Port)
	vEnsure("VersionInfo", d.VersionInfo == q.VersionInfo)
	vEnsure("NetSwitch", d.NetSwitch == q.NetSwitch)
	vEnsure("SubSwitch", d.SubSwitch == q.SubSwitch)
	vEnsure("Oem", d.Oem == q.Oem)
	vEnsure("UBEAVersion", d.UBEAVersion == q.UBEAVersion)
	vEnsure("Status1", d.Status1 == q.Status1)
	vEnsure("ESTAmanufacturer", vForall(0, 2, func(i int) bool { return d.ESTAmanufacturer[i] == q.ESTAmanufacturer[i] }))
	vEnsure("ShortName", vForall(0, 18, func(i int) bool { return d.ShortName[i] == q.ShortName[i] }))
	vEnsure("LongName", vForall(0, 64, func(i int) bool { return d.LongName[i] == q.LongName[i] }))
	vEnsure("NodeReport", vForall(0, 64, func(i int) bool { return d.NodeReport[i] == q.NodeReport[i] }))
	vEnsure("NumPorts", d.NumPorts == q.NumPorts)
	vEnsure("PortTypes", vForall(0, 4, func(i int) bool { return d.PortTypes[i] == q.PortTypes[i] }))
	vEnsure("GoodInput", vForall(0, 4, func(i int) bool { return d.GoodInput[i] == q.GoodInput[i] }))
	vEnsure("GoodOutput", vForall(0, 4, func(i int) bool { return d.GoodOutput[i] == q.GoodOutput[i] }))
	vEnsure("SwIn", vForall(0, 4, func(i int) bool { return d.SwIn[i] == q.SwIn[i] }))
	vEnsure("SwOut", vForall(0, 4, func(i int) bool { return d.SwOut[i] == q.SwOut[i] }))
	vEnsure("SwVideo", d.SwVideo == q.SwVideo)
	vEnsure("SwMacro", d.SwMacro == q.SwMacro)
	vEnsure("SwRemote", d.SwRemote == q.SwRemote)
	vEnsure("Style", d.Style == q.Style)
	vEnsure("Macaddress", vForall(0, 6, func(i int) bool { return d.Macaddress[i] == q.Macaddress[i] }))
	vEnsure("BindIP", vForall(0, 4, func(i int) bool { return d.BindIP[i] == q.BindIP[i] }))
	vEnsure("BindIndex", d.BindIndex == q.BindIndex)
	vEnsure("Status2", d.Status2 == q.Status2)
}

func C06_Unmarshal_ArtDiagData(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x2300)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtDiagDataPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtDiagDataPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("Priority", d.Priority == q.Priority)
	vEnsure("Length", d.Length == q.Length)
	vEnsure("Data", vForall(0, 512, func(i int) bool { return d.Data[i] == q.Data[i] }))
}

func C06_Unmarshal_ArtCommand(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x2400)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtCommandPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtCommandPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("ESTAmanufacturer", vForall(0, 2, func(i int) bool { return d.ESTAmanufacturer[i] == q.ESTAmanufacturer[i] }))
	vEnsure("Length", d.Length == q.Length)
	vEnsure("Data", vForall(0, 512, func(i int) bool { return d.Data[i] == q.Data[i] }))
}

func C06_Unmarshal_ArtDMX(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x5000)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtDMXPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtDMXPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("Sequence", d.Sequence == q.Sequence)
	vEnsure("Physical", d.Physical == q.Physical)
	vEnsure("SubUni", d.SubUni == q.SubUni)
	vEnsure("Net", d.Net == q.Net)
	vEnsure("Length", d.Length == q.Length)
	vEnsure("Data", vForall(0, 512, func(i int) bool { return d.Data[i] == q.Data[i] }))
}

func C06_Unmarshal_ArtNzs(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x5100)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtNzsPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtNzsPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("Sequence", d.Sequence == q.Sequence)
	vEnsure("StartCode", d.StartCode == q.StartCode)
	vEnsure("SubUni", d.SubUni == q.SubUni)
	vEnsure("Net", d.Net == q.Net)
	vEnsure("Length", d.Length == q.Length)
	vEnsure("Data", vForall(0, 512, func(i int) bool { return d.Data[i] == q.Data[i] }))
}

func C06_Unmarshal_ArtSync(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x5200)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtSyncPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtSyncPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
}

func C06_Unmarshal_ArtAddress(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x6000)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtAddressPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtAddressPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("NetSwitch", d.NetSwitch == q.NetSwitch)
	vEnsure("BindIndex", d.BindIndex == q.BindIndex)
	vEnsure("ShortName", vForall(0, 18, func(i int) bool { return d.ShortName[i] == q.ShortName[i] }))
	vEnsure("LongName", vForall(0, 64, func(i int) bool { return d.LongName[i] == q.LongName[i] }))
	vEnsure("SwIn", vForall(0, 4, func(i int) bool { return d.SwIn[i] == q.SwIn[i] }))
	vEnsure("SwOut", vForall(0, 4, func(i int) bool { return d.SwOut[i] == q.SwOut[i] }))
	vEnsure("SubSwitch", d.SubSwitch == q.SubSwitch)
	vEnsure("SwVideo", d.SwVideo == q.SwVideo)
	vEnsure("Command", d.Command == q.Command)
}

func C06_Unmarshal_ArtTimeCode(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x9700)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtTimeCodePacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtTimeCodePacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("Frames", d.Frames == q.Frames)
	vEnsure("Seconds", d.Seconds == q.Seconds)
	vEnsure("Minutes", d.Minutes == q.Minutes)
	vEnsure("Hours", d.Hours == q.Hours)
	vEnsure("Type", d.Type == q.Type)
}

func C06_Unmarshal_ArtTrigger(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0x9900)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtTriggerPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtTriggerPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("Oem", d.Oem == q.Oem)
	vEnsure("Key", d.Key == q.Key)
	vEnsure("SubKey", d.SubKey == q.SubKey)
	vEnsure("Data", vForall(0, 512, func(i int) bool { return d.Data[i] == q.Data[i] }))
}

func C06_Unmarshal_ArtIPProg(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0xf800)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtIPProgPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtIPProgPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("Command", d.Command == q.Command)
	vEnsure("ProgIP", vForall(0, 4, func(i int) bool { return d.ProgIP[i] == q.ProgIP[i] }))
	vEnsure("ProgSubNet", vForall(0, 4, func(i int) bool { return d.ProgSubNet[i] == q.ProgSubNet[i] }))
	vEnsure("ProgPort", vForall(0, 2, func(i int) bool { return d.ProgPort[i] == q.ProgPort[i] }))
}

func C06_Unmarshal_ArtIPProgReply(b []byte) {
	vRequire(len(b) >= 12 && vOp(b) == 0xf900)
	p, err := Unmarshal(b)
	if err != nil {
		return
	}
	d, ok := p.(*ArtIPProgReplyPacket)
	vEnsure("type", ok)
	vRequire(ok)
	vReach("accepted")
	var q ArtIPProgReplyPacket
	vEnsure("same verdict as the type's own decoder", q.UnmarshalBinary(b) == nil)
	vEnsure("OpCode", d.OpCode == q.OpCode)
	vEnsure("ProgIP", vForall(0, 4, func(i int) bool { return d.ProgIP[i] == q.ProgIP[i] }))
	vEnsure("ProgSubNet", vForall(0, 4, func(i int) bool { return d.ProgSubNet[i] == q.ProgSubNet[i] }))
	vEnsure("ProgPort", vForall(0, 2, func(i int) bool { return d.ProgPort[i] == q.ProgPort[i] }))
	vEnsure("Status", d.Status == q.Status)
}
