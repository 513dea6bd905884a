// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

func C04_Unmarshal(b []byte) {
	old := vSnapBytes(b)
	p, err := Unmarshal(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vEnsure("accepted datagram gives a packet", err != nil || p != nil)
	vReach("end")
}

func C04_ArtPoll(q ArtPollPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtPollReply(q ArtPollReplyPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtDiagData(q ArtDiagDataPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtCommand(q ArtCommandPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtDMX(q ArtDMXPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtNzs(q ArtNzsPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtSync(q ArtSyncPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtAddress(q ArtAddressPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtTimeCode(q ArtTimeCodePacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtTrigger(q ArtTriggerPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtIPProg(q ArtIPProgPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}

func C04_ArtIPProgReply(q ArtIPProgReplyPacket, b []byte) {
	old := vSnapBytes(b)
	q.UnmarshalBinary(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vReach("end")
}
