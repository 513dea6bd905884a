// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

// vID: the datagram starts with "Art-Net" and a NUL.
func vID(b []byte) bool {
	return b[0] == 'A' && b[1] == 'r' && b[2] == 't' && b[3] == '-' && b[4] == 'N' && b[5] == 'e' && b[6] == 't' && b[7] == 0
}

// vOp is the opcode a datagram carries, low byte first.
func vOp(b []byte) uint16 { return uint16(b[8]) | uint16(b[9])<<8 }

func vSnapBytes(b []byte) []byte { return append([]byte(nil), b...) }
