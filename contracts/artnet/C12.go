package artnet

import "strconv"

func C12_number(a Address) {
	vEnsure("net*256 + sub-net*16 + universe", a.Integer() == int(a.Net)*256+int(a.SubUni/16)*16+int(a.SubUni%16))
}

func C12_number_one_to_one(a, b Address) {
	vEnsure("equal numbers only for equal addresses", a.Integer() != b.Integer() || a == b)
	vEnsure("equal addresses have equal numbers", a != b || a.Integer() == b.Integer())
	vReach("end")
}

func C12_text(a Address) {
	vEnsure("net:subnet.universe", a.String() == strconv.Itoa(int(a.Net))+":"+strconv.Itoa(int(a.SubUni/16))+"."+strconv.Itoa(int(a.SubUni%16)))
}

func C12_text_one_to_one(a, b Address) {
	vEnsure("equal texts only for equal addresses", a.String() != b.String() || a == b)
	vReach("end")
}
