// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

func C05_Unmarshal(b []byte) {
	p, err := Unmarshal(b)
	ok := false
	isArtPoll := vAcceptsArtPoll(b)
	ok = ok || isArtPoll
	isArtPollReply := vAcceptsArtPollReply(b)
	ok = ok || isArtPollReply
	isArtDiagData := vAcceptsArtDiagData(b)
	ok = ok || isArtDiagData
	isArtCommand := vAcceptsArtCommand(b)
	ok = ok || isArtCommand
	isArtDMX := vAcceptsArtDMX(b)
	ok = ok || isArtDMX
	isArtNzs := vAcceptsArtNzs(b)
	ok = ok || isArtNzs
	isArtSync := vAcceptsArtSync(b)
	ok = ok || isArtSync
	isArtAddress := vAcceptsArtAddress(b)
	ok = ok || isArtAddress
	isArtTimeCode := vAcceptsArtTimeCode(b)
	ok = ok || isArtTimeCode
	isArtTrigger := vAcceptsArtTrigger(b)
	ok = ok || isArtTrigger
	isArtIPProg := vAcceptsArtIPProg(b)
	ok = ok || isArtIPProg
	isArtIPProgReply := vAcceptsArtIPProgReply(b)
	ok = ok || isArtIPProgReply
	vEnsure("rejects whatever no implemented type accepts", err != nil || ok)
	vEnsure("accepts what the type of its opcode accepts", err == nil || !ok)
	if err != nil {
		return
	}
	vReach("accepted")
	_, tArtPoll := p.(*ArtPollPacket)
	vEnsure("type ArtPoll exactly for its opcode", tArtPoll == isArtPoll)
	_, tArtPollReply := p.(*ArtPollReplyPacket)
	vEnsure("type ArtPollReply exactly for its opcode", tArtPollReply == isArtPollReply)
	_, tArtDiagData := p.(*ArtDiagDataPacket)
	vEnsure("type ArtDiagData exactly for its opcode", tArtDiagData == isArtDiagData)
	_, tArtCommand := p.(*ArtCommandPacket)
	vEnsure("type ArtCommand exactly for its opcode", tArtCommand == isArtCommand)
	_, tArtDMX := p.(*ArtDMXPacket)
	vEnsure("type ArtDMX exactly for its opcode", tArtDMX == isArtDMX)
	_, tArtNzs := p.(*ArtNzsPacket)
	vEnsure("type ArtNzs exactly for its opcode", tArtNzs == isArtNzs)
	_, tArtSync := p.(*ArtSyncPacket)
	vEnsure("type ArtSync exactly for its opcode", tArtSync == isArtSync)
	_, tArtAddress := p.(*ArtAddressPacket)
	vEnsure("type ArtAddress exactly for its opcode", tArtAddress == isArtAddress)
	_, tArtTimeCode := p.(*ArtTimeCodePacket)
	vEnsure("type ArtTimeCode exactly for its opcode", tArtTimeCode == isArtTimeCode)
	_, tArtTrigger := p.(*ArtTriggerPacket)
	vEnsure("type ArtTrigger exactly for its opcode", tArtTrigger == isArtTrigger)
	_, tArtIPProg := p.(*ArtIPProgPacket)
	vEnsure("type ArtIPProg exactly for its opcode", tArtIPProg == isArtIPProg)
	_, tArtIPProgReply := p.(*ArtIPProgReplyPacket)
	vEnsure("type ArtIPProgReply exactly for its opcode", tArtIPProgReply == isArtIPProgReply)
}

func vAcceptsArtPoll(b []byte) bool {
	if len(b) < 14 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x2000 &&
		b[11] >= 14
}

func C05_ArtPoll(q ArtPollPacket, b []byte) {
	want := vAcceptsArtPoll(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtPollReply(b []byte) bool {
	if len(b) < 239 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x2100 &&
		(b[14] == 0x36 && b[15] == 0x19 || b[14] == 0x19 && b[15] == 0x36) &&
		b[200] <= 6
}

func C05_ArtPollReply(q ArtPollReplyPacket, b []byte) {
	want := vAcceptsArtPollReply(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtDiagData(b []byte) bool {
	if len(b) < 530 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x2300 &&
		b[11] >= 14 &&
		int(b[16])<<8|int(b[17]) <= 512
}

func C05_ArtDiagData(q ArtDiagDataPacket, b []byte) {
	want := vAcceptsArtDiagData(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtCommand(b []byte) bool {
	if len(b) < 528 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x2400 &&
		b[11] >= 14 &&
		b[12] == 0xff && b[13] == 0xff &&
		int(b[14])<<8|int(b[15]) <= 512
}

func C05_ArtCommand(q ArtCommandPacket, b []byte) {
	want := vAcceptsArtCommand(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtDMX(b []byte) bool {
	if len(b) < 18 {
		return false
	}
	l := int(b[16])<<8 | int(b[17])
	return vID(b) &&
		vOp(b) == 0x5000 &&
		b[11] >= 14 &&
		l >= 2 &&
		l <= 512 &&
		l&1 == 0 &&
		len(b) >= 18+l
}

func C05_ArtDMX(q ArtDMXPacket, b []byte) {
	want := vAcceptsArtDMX(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtNzs(b []byte) bool {
	if len(b) < 530 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x5100 &&
		b[11] >= 14 &&
		int(b[16])<<8|int(b[17]) <= 512
}

func C05_ArtNzs(q ArtNzsPacket, b []byte) {
	want := vAcceptsArtNzs(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtSync(b []byte) bool {
	if len(b) < 14 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x5200 &&
		b[11] >= 14
}

func C05_ArtSync(q ArtSyncPacket, b []byte) {
	want := vAcceptsArtSync(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtAddress(b []byte) bool {
	if len(b) < 107 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x6000 &&
		b[11] >= 14
}

func C05_ArtAddress(q ArtAddressPacket, b []byte) {
	want := vAcceptsArtAddress(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtTimeCode(b []byte) bool {
	if len(b) < 19 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x9700 &&
		b[11] >= 14
}

func C05_ArtTimeCode(q ArtTimeCodePacket, b []byte) {
	want := vAcceptsArtTimeCode(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtTrigger(b []byte) bool {
	if len(b) < 530 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0x9900 &&
		b[11] >= 14
}

func C05_ArtTrigger(q ArtTriggerPacket, b []byte) {
	want := vAcceptsArtTrigger(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtIPProg(b []byte) bool {
	if len(b) < 34 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0xf800 &&
		b[11] >= 14
}

func C05_ArtIPProg(q ArtIPProgPacket, b []byte) {
	want := vAcceptsArtIPProg(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

func vAcceptsArtIPProgReply(b []byte) bool {
	if len(b) < 34 {
		return false
	}
	return vID(b) &&
		vOp(b) == 0xf900 &&
		b[11] >= 14
}

func C05_ArtIPProgReply(q ArtIPProgReplyPacket, b []byte) {
	want := vAcceptsArtIPProgReply(b)
	err := q.UnmarshalBinary(b)
	vEnsure("accepts only well-formed packets of its kind", err != nil || want)
	vEnsure("accepts every well-formed packet of its kind", err == nil || !want)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}
