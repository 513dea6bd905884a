From df8d3485ceeafff9bfca3766b146e5d02d518b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:35 +0000
Subject: [PATCH 01/17] fix: set the packet's own opcode when encoding it

Nine packet types left OpCode at whatever the caller had stored (0 after the
constructor), so they were sent with an opcode no receiver could decode.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From c79fff0f40799a8893c16caf39a83c302435c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 02/17] fix: encode a packet without byte-swapping its fields
 in place

finish() left the opcode (and the ArtPollReply port) of the caller's packet
byte-swapped, so GetOpCode was wrong after encoding and encoding an
ArtPollReply twice gave different bytes. Swap the encoded bytes instead.
---
 packet/artpollreply.go | 11 ++++++++---
 packet/header.go       |  6 ++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..b75aa8b 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -146,7 +146,13 @@ func (p *ArtPollReplyPacket) GetOpCode() code.OpCode {
 
 // MarshalBinary marshals an ArtPollReplyPacket into a byte slice.
 func (p *ArtPollReplyPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	b, err := marshalPacket(p)
+	if err != nil {
+		return nil, err
+	}
+	// the port is transmitted low byte first
+	b[14], b[15] = b[15], b[14]
+	return b, nil
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtPollReplyPacket.
@@ -186,6 +192,5 @@ func (p *ArtPollReplyPacket) finish() {
 	// ArtPollReply doesn't embed the header struct, so the header.finish method won't set the header fields. To get a
 	// working packet we do it here "manually"
 	p.ID = ArtNet
-	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(p.Port)
+	p.OpCode = code.OpPollReply
 }
diff --git a/packet/header.go b/packet/header.go
index 9a62655..81f888a 100644
--- a/packet/header.go
+++ b/packet/header.go
@@ -94,7 +94,6 @@ func (p *Header) validate() error {
 func (p *Header) finish() {
 	p.ID = ArtNet
 	p.Version = version.Bytes()
-	p.swapOpCode()
 }
 
 func (p *Header) swapOpCode() {
@@ -107,7 +106,10 @@ func marshalPacket(p ArtNetPacket) ([]byte, error) {
 	if err := binary.Write(&buf, binary.BigEndian, p); err != nil {
 		return nil, err
 	}
-	return buf.Bytes(), nil
+	b := buf.Bytes()
+	// the opcode is transmitted low byte first
+	b[8], b[9] = b[9], b[8]
+	return b, nil
 }
 
 func unmarshalPacket(p ArtNetPacket, b []byte) error {
-- 
2.43.0


From 442aa1d2200ca36740eab7cb0a15f176bc69593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:01 +0000
Subject: [PATCH 03/17] fix: let flag setters clear their flag

With...(false) or-ed in a zero and so never switched a flag off.
---
 packet/code/goodinput.go  | 12 ++++++------
 packet/code/goodoutput.go | 16 ++++++++--------
 packet/code/porttype.go   |  4 ++--
 packet/code/status1.go    |  6 +++---
 packet/code/status2.go    | 12 ++++++------
 packet/code/swmacro.go    | 16 ++++++++--------
 packet/code/swremote.go   | 16 ++++++++--------
 packet/code/talktome.go   |  8 ++++----
 8 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/packet/code/goodinput.go b/packet/code/goodinput.go
index 85af466..499cb5d 100644
--- a/packet/code/goodinput.go
+++ b/packet/code/goodinput.go
@@ -8,7 +8,7 @@ func (s GoodInput) WithReceive(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Receive indicates if Receive errors detected
@@ -21,7 +21,7 @@ func (s GoodInput) WithDisabled(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Disabled indicates Input is disabled
@@ -34,7 +34,7 @@ func (s GoodInput) WithText(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -47,7 +47,7 @@ func (s GoodInput) WithSIP(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -60,7 +60,7 @@ func (s GoodInput) WithTest(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -73,7 +73,7 @@ func (s GoodInput) WithData(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data received
diff --git a/packet/code/goodoutput.go b/packet/code/goodoutput.go
index 0b7841e..da15831 100644
--- a/packet/code/goodoutput.go
+++ b/packet/code/goodoutput.go
@@ -8,7 +8,7 @@ func (s GoodOutput) WithACN(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // ACN indicates Output is selected to transmit sACN
@@ -21,7 +21,7 @@ func (s GoodOutput) WithLTP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // LTP indicates Merge Mode is LTP
@@ -34,7 +34,7 @@ func (s GoodOutput) WithOutput(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Output indicates DMX output short detected on power up
@@ -47,7 +47,7 @@ func (s GoodOutput) WithMerging(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Merging indicates Output is merging ArtNet data
@@ -60,7 +60,7 @@ func (s GoodOutput) WithText(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -73,7 +73,7 @@ func (s GoodOutput) WithSIP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -86,7 +86,7 @@ func (s GoodOutput) WithTest(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -99,7 +99,7 @@ func (s GoodOutput) WithData(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data transmitted
diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 6b42aff..8b1924b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -10,7 +10,7 @@ func (s PortType) WithInput(enable bool) PortType {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Input indicates channel can input from the Art-Net Network
@@ -23,7 +23,7 @@ func (s PortType) WithOutput(enable bool) PortType {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Output indicates channel can output onto the Art-Net Network
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 32c08ca..6144e67 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -10,7 +10,7 @@ func (s Status1) WithUBEA(enable bool) Status1 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // UBEA returns the status of the bit 0
@@ -25,7 +25,7 @@ func (s Status1) WithRDM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // RDM returns the status of the bit 1
@@ -41,7 +41,7 @@ func (s Status1) WithBootROM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // BootROM returns the status of the bit 2
diff --git a/packet/code/status2.go b/packet/code/status2.go
index 35220c5..d33a8b4 100644
--- a/packet/code/status2.go
+++ b/packet/code/status2.go
@@ -8,7 +8,7 @@ func (s Status2) WithBrowser(enable bool) Status2 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Browser indicates if product supports web browser configuration
@@ -21,7 +21,7 @@ func (s Status2) WithDHCP(enable bool) Status2 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // DHCP indicates if product IP is DHCP configured
@@ -34,7 +34,7 @@ func (s Status2) WithDHCPCapable(enable bool) Status2 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // DHCPCapable indicates if product is capable of DHCP
@@ -47,7 +47,7 @@ func (s Status2) WithPort15(enable bool) Status2 {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Port15 indicates if product supports 15 bit Port-Address (Art-Net 3 or 4)
@@ -60,7 +60,7 @@ func (s Status2) WithSwitch(enable bool) Status2 {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Switch indicates if product is able to switch between Art-Net and sACN
@@ -73,7 +73,7 @@ func (s Status2) WithSquawk(enable bool) Status2 {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Squawk indicates if product is squawking
diff --git a/packet/code/swmacro.go b/packet/code/swmacro.go
index 4e47a95..93c3027 100644
--- a/packet/code/swmacro.go
+++ b/packet/code/swmacro.go
@@ -12,7 +12,7 @@ func (s SwMacro) WithMacro1(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Macro1 indicates Macro 1 active
@@ -25,7 +25,7 @@ func (s SwMacro) WithMacro2(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Macro2 indicates Macro 2 active
@@ -38,7 +38,7 @@ func (s SwMacro) WithMacro3(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Macro3 indicates Macro 3 active
@@ -51,7 +51,7 @@ func (s SwMacro) WithMacro4(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Macro4 indicates Macro 4 active
@@ -64,7 +64,7 @@ func (s SwMacro) WithMacro5(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Macro5 indicates Macro 5 active
@@ -77,7 +77,7 @@ func (s SwMacro) WithMacro6(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Macro6 indicates Macro 6 active
@@ -90,7 +90,7 @@ func (s SwMacro) WithMacro7(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Macro7 indicates Macro 7 active
@@ -103,7 +103,7 @@ func (s SwMacro) WithMacro8(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Macro8 indicates Macro 8 active
diff --git a/packet/code/swremote.go b/packet/code/swremote.go
index 801ad95..d504604 100644
--- a/packet/code/swremote.go
+++ b/packet/code/swremote.go
@@ -12,7 +12,7 @@ func (s SwRemote) WithRemote1(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Remote1 indicates Remote 1 active
@@ -25,7 +25,7 @@ func (s SwRemote) WithRemote2(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Remote2 indicates Remote 2 active
@@ -38,7 +38,7 @@ func (s SwRemote) WithRemote3(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Remote3 indicates Remote 3 active
@@ -51,7 +51,7 @@ func (s SwRemote) WithRemote4(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Remote4 indicates Remote 4 active
@@ -64,7 +64,7 @@ func (s SwRemote) WithRemote5(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Remote5 indicates Remote 5 active
@@ -77,7 +77,7 @@ func (s SwRemote) WithRemote6(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Remote6 indicates Remote 6 active
@@ -90,7 +90,7 @@ func (s SwRemote) WithRemote7(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Remote7 indicates Remote 7 active
@@ -103,7 +103,7 @@ func (s SwRemote) WithRemote8(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Remote8 indicates Remote 8 active
diff --git a/packet/code/talktome.go b/packet/code/talktome.go
index fa95164..27ecc34 100644
--- a/packet/code/talktome.go
+++ b/packet/code/talktome.go
@@ -10,7 +10,7 @@ func (t TalkToMe) WithReplyOnChange(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 1)
 	}
-	return t | (0 << 1)
+	return t &^ (1 << 1)
 }
 
 // ReplyOnChange returns the status of the bit 1
@@ -23,7 +23,7 @@ func (t TalkToMe) WithDiagnostics(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 2)
 	}
-	return t | (0 << 2)
+	return t &^ (1 << 2)
 }
 
 // Diagnostics returns the stats of the bit 2
@@ -36,7 +36,7 @@ func (t TalkToMe) WithDiagUnicast(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 3)
 	}
-	return t | (0 << 3)
+	return t &^ (1 << 3)
 }
 
 // DiagUnicast returns the stats of the bit 3
@@ -49,7 +49,7 @@ func (t TalkToMe) WithVLC(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 4)
 	}
-	return t | (0 << 4)
+	return t &^ (1 << 4)
 }
 
 // VLC returns the stats of the bit 4
-- 
2.43.0


From 8a214ae038d9a19150fa2a7fc410f92d6b490b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 04/17] fix: multi-valued settings of Status1 and PortType read
 back what was set

The setters merged the new value into the old one instead of replacing it, and
the Status1 getters masked the wrong bits (and named 'mute' 'mutenet').
---
 packet/code/porttype.go | 12 ++++++------
 packet/code/status1.go  | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 8b1924b..3a8993b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -36,17 +36,17 @@ func (s PortType) Output() bool {
 func (s PortType) WithType(v string) PortType {
 	switch v {
 	case "DMX512":
-		return s | 0x00
+		return s&^0x1f | 0x00
 	case "MIDI":
-		return s | 0x01
+		return s&^0x1f | 0x01
 	case "Avab":
-		return s | 0x02
+		return s&^0x1f | 0x02
 	case "Colortran CMX":
-		return s | 0x03
+		return s&^0x1f | 0x03
 	case "ADB 62.5":
-		return s | 0x04
+		return s&^0x1f | 0x04
 	case "Art-Net":
-		return s | 0x05
+		return s&^0x1f | 0x05
 	}
 	return s
 }
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 6144e67..64b5f01 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -57,13 +57,13 @@ func (s Status1) BootROM() bool {
 func (s Status1) WithPortAddr(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 4)
+		return s&^(3<<4) | (0 << 4)
 	case "front":
-		return s | (1 << 4)
+		return s&^(3<<4) | (1 << 4)
 	case "net":
-		return s | (2 << 4)
+		return s&^(3<<4) | (2 << 4)
 	case "unused":
-		return s | (3 << 4)
+		return s&^(3<<4) | (3 << 4)
 	}
 	return s
 }
@@ -74,7 +74,7 @@ func (s Status1) WithPortAddr(v string) Status1 {
 // "net":     All or part of Port-Address programmed by networkor Web browser.
 // "unused":  Not used.
 func (s Status1) PortAddr() string {
-	switch (s & (8 + 16)) >> 4 {
+	switch (s & (16 + 32)) >> 4 {
 	case 0:
 		return "unknown"
 	case 1:
@@ -95,13 +95,13 @@ func (s Status1) PortAddr() string {
 func (s Status1) WithIndicator(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 6)
+		return s&^(3<<6) | (0 << 6)
 	case "locate":
-		return s | (1 << 6)
+		return s&^(3<<6) | (1 << 6)
 	case "mute":
-		return s | (2 << 6)
+		return s&^(3<<6) | (2 << 6)
 	case "normal":
-		return s | (3 << 6)
+		return s&^(3<<6) | (3 << 6)
 	}
 	return s
 }
@@ -112,13 +112,13 @@ func (s Status1) WithIndicator(v string) Status1 {
 // "mute":    Indicators in Mute Mode.
 // "normal":  Indicators in Normal Mode.
 func (s Status1) Indicator() string {
-	switch (s & (32 + 64)) >> 6 {
+	switch (s & (64 + 128)) >> 6 {
 	case 0:
 		return "unknown"
 	case 1:
 		return "locate"
 	case 2:
-		return "mutenet"
+		return "mute"
 	case 3:
 		return "normal"
 	}
-- 
2.43.0


From 8be5033710388ea57b627593877033961a093373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:21 +0000
Subject: [PATCH 05/17] fix: decode only packets of the decoder's own kind

ArtDMXPacket.UnmarshalBinary accepted packets with any opcode and
ArtPollReplyPacket.UnmarshalBinary packets without the Art-Net identifier.
---
 packet/artdmx.go       | 3 +++
 packet/artpollreply.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 7714760..3cc40bc 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -84,6 +84,9 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if err := p.Header.unmarshal(b[:12]); err != nil {
 		return err
 	}
+	if p.OpCode != code.OpDMX {
+		return errInvalidOpCode
+	}
 
 	p.Sequence = b[12]
 	p.Physical = b[13]
diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index b75aa8b..394bcc0 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -165,6 +165,10 @@ func (p *ArtPollReplyPacket) validate() error {
 	// ArtPollReply is a packer not using the standard header, so we need to do
 	// some extra things here that are normally done in the header validate
 
+	if p.ID != ArtNet {
+		return errInvalidPacket
+	}
+
 	// swap endianness
 	p.OpCode = code.OpCode(swapUint16(uint16(p.OpCode)))
 	if p.OpCode != code.OpPollReply {
-- 
2.43.0


From dd50293ecb0ec6a675186ea51d9d3a427be964c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 06/17] fix: reject packets that declare more data than they
 can carry

The declared length of ArtNzs, ArtDiagData and ArtCommand was never compared
with the 512 bytes of data the packet holds, so p.Data[:p.Length] could panic.
---
 packet/artcommand.go  | 3 +++
 packet/artdiagdata.go | 3 +++
 packet/artnzs.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/packet/artcommand.go b/packet/artcommand.go
index 4a69ecb..6513f37 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -78,6 +78,9 @@ func (p *ArtCommandPacket) validate() error {
 	if p.ESTAmanufacturer != [2]byte{0xff, 0xff} {
 		return errInvalidPacket
 	}
+	if int(p.Length) > len(p.Data) {
+		return errInvalidPacket
+	}
 	return nil
 }
 
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 1150bbe..5617965 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -65,6 +65,9 @@ func (p *ArtDiagDataPacket) validate() error {
 	if p.OpCode != code.OpDiagData {
 		return errInvalidOpCode
 	}
+	if int(p.Length) > len(p.Data) {
+		return errInvalidPacket
+	}
 	return nil
 }
 
diff --git a/packet/artnzs.go b/packet/artnzs.go
index fbae5c6..f3543e1 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -73,6 +73,9 @@ func (p *ArtNzsPacket) validate() error {
 	if p.OpCode != code.OpNzs {
 		return errInvalidOpCode
 	}
+	if int(p.Length) > len(p.Data) {
+		return errInvalidPacket
+	}
 	return nil
 }
 
-- 
2.43.0


From 27833df8241d552792f2e42fb7567a64f4ee2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 07/17] fix: clear the channels a decoded ArtDmx does not carry

Decoding into a packet that was used before left the old data of all channels
beyond the declared length in place.
---
 packet/artdmx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 3cc40bc..f2ea35a 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -101,6 +101,7 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if len(b) < l+18 || l < 2 || l > 512 || l%2 != 0 {
 		return errInvalidPacket
 	}
+	p.Data = [512]byte{}
 	copy(p.Data[0:l], b[18:18+l])
 
 	return nil
-- 
2.43.0


From 21a00ee65772136369d9e16d30a2a8d10e86d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:48 +0000
Subject: [PATCH 08/17] fix: keep the announced names NUL terminated

Names of 18 (64) bytes and more filled the whole ShortName (LongName) field,
although the field holds at most 17 (63) characters and a terminating NUL.
---
 config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..4915a59 100644
--- a/config.go
+++ b/config.go
@@ -84,8 +84,8 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 
 	copy(p.IPAddress[0:4], c.IP.To4())
 	copy(p.ESTAmanufacturer[0:2], c.Manufacturer)
-	copy(p.ShortName[0:18], c.Name)
-	copy(p.LongName[0:64], c.Description)
+	copy(p.ShortName[0:17], c.Name)
+	copy(p.LongName[0:63], c.Description)
 	copy(p.NodeReport[0:64], c.Report)
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
-- 
2.43.0


From fbed450ac4fb5cd340b07f32a9b6b35c1045e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:49 +0000
Subject: [PATCH 09/17] fix: place the announced sub-net in bits 7-4 of the
 universe address

ArtPollReply carries bits 7-4 of the Port-Address in the low nibble of
SubSwitch and bits 3-0 in the low nibble of SwIn/SwOut. They were or-ed
together unshifted, so every node with a sub-net other than 0 was routed
under the wrong universe, and our own base address was announced unshifted.
---
 config.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/config.go b/config.go
index 4915a59..b8ad533 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -170,8 +170,8 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status1:      p.Status1,
 		Status2:      p.Status2,
 		BaseAddress: Address{
-			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			Net:    p.NetSwitch & 0x7f,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
@@ -180,7 +180,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -190,7 +190,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0


From 9347e69046ce197a823536f5b50cb3d2a3f2fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:25 +0000
Subject: [PATCH 10/17] fix: never send the sequence number that disables
 resequencing

The ArtDmx sequence wrapped from 255 to 0 instead of 1.
---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index b51f94c..60152e2 100644
--- a/controller.go
+++ b/controller.go
@@ -66,7 +66,11 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 		return nil, fmt.Errorf("unknown address for controlled node")
 	}
 
+	// sequence numbers run from 1 to 255, 0 disables resequencing
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From ccc3ef139bc0490a3d9d46d01f580a8082db3ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:26 +0000
Subject: [PATCH 11/17] fix: give universes a known node adds later a DMX
 buffer

A universe that a node announced only after it was first seen was routed to
the node without a buffer, so frames sent to it were dropped with an error.
---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index 60152e2..c4da670 100644
--- a/controller.go
+++ b/controller.go
@@ -315,6 +315,9 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			c.Nodes[i].LastSeen = time.Now()
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
+				if c.Nodes[i].DMXBuffer[port.Address] == nil {
+					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				}
 				c.OutputAddress[port.Address] = c.Nodes[i]
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-- 
2.43.0


From d89739cd36b2f388c1df72da82a72c20c982a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:27 +0000
Subject: [PATCH 12/17] fix: stop deleteNode after the node has been deleted

It kept iterating over the original length and indexed past the shortened
list, and reported an error even when the node had been found.
---
 controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller.go b/controller.go
index c4da670..9d0087c 100644
--- a/controller.go
+++ b/controller.go
@@ -371,6 +371,7 @@ func (c *Controller) deleteNode(node NodeConfig) error {
 				delete(c.InputAddress, port.Address)
 			}
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
+			return nil
 		}
 	}
 
-- 
2.43.0


From e3c3780a8f2f920589adf6af9202fb5e3953a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:28 +0000
Subject: [PATCH 13/17] fix: measure the minimum spacing of DMX frames as a
 time

The configured frames per second were used as a number of nanoseconds, so a
higher MaxFPS held pending frames back longer: MaxFPS(200000000) sent only
five frames per second.
---
 controller.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/controller.go b/controller.go
index 9d0087c..467a01c 100644
--- a/controller.go
+++ b/controller.go
@@ -237,8 +237,8 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
-	fpsInterval := time.Duration(c.maxFPS)
-	ticker := time.NewTicker(time.Second / fpsInterval)
+	fpsInterval := time.Second / time.Duration(c.maxFPS)
+	ticker := time.NewTicker(fpsInterval)
 
 	forceUpdate := 250 * time.Millisecond
 
@@ -269,8 +269,8 @@ func (c *Controller) dmxUpdateLoop() {
 				if node.DMXBuffer[address] == nil {
 					node.DMXBuffer[address] = &dmxBuffer{}
 				}
-				// only update if it has been X seconds
-				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval)) {
+				// only update if this is not a late tick directly followed by the next one
+				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval/2)) {
 					err := update(node, address, now)
 					if err != nil {
 						c.log.With(Fields{"err": err, "address": address.String()}).Error("error getting buffer for address")
-- 
2.43.0


From e073648bec401f2fec2ce210fd3219509833e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:29 +0000
Subject: [PATCH 14/17] fix: refuse frame rates the update loop cannot run with

A rate of 0, a negative one or one above 1e9 made the update loop divide by
zero or create a ticker with a non-positive interval, which panics.
---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index decc5ab..af6ecbf 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -17,6 +19,9 @@ func (c *Controller) SetOption(option Option) error {
 // MaxFPS sets the maximum amount of updates sent out per second
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || fps > int(time.Second) {
+			return fmt.Errorf("invalid maximum frame rate: %d", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0


From 8dd61ce488d64271f3122cb85585e08aab5960a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:29 +0000
Subject: [PATCH 15/17] fix: make Stop safe on a node or controller that is not
 running

Stopping one that was never started, failed to start or was already stopped
panicked (nil ticker, close of a nil or closed channel).
---
 controller.go | 19 ++++++++++++++-----
 node.go       |  4 ++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/controller.go b/controller.go
index 467a01c..f8d8bc9 100644
--- a/controller.go
+++ b/controller.go
@@ -141,15 +141,24 @@ func (c *Controller) Start() error {
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
-	c.pollTicker.Stop()
-	c.gcTicker.Stop()
+	if c.pollTicker != nil {
+		c.pollTicker.Stop()
+	}
+	if c.gcTicker != nil {
+		c.gcTicker.Stop()
+	}
 	c.cNode.Stop()
 
+	if c.shutdownCh == nil {
+		// never started
+		return
+	}
 	select {
-	case <-c.cNode.shutdownCh:
+	case <-c.shutdownCh:
+		// already stopped
+	default:
+		close(c.shutdownCh)
 	}
-
-	close(c.shutdownCh)
 }
 
 // pollLoop will routinely poll for new nodes
diff --git a/node.go b/node.go
index 6766063..1f44f2c 100644
--- a/node.go
+++ b/node.go
@@ -96,6 +96,10 @@ func (n *Node) Connection() *net.UDPConn {
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
 	n.shutdownLock.Lock()
+	if n.shutdown {
+		n.shutdownLock.Unlock()
+		return
+	}
 	n.shutdown = true
 	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
-- 
2.43.0


From cb6c22df1bbd6cd2515704a309ef9d46cd07a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:30 +0000
Subject: [PATCH 16/17] fix: guard the shutdown flag in Start with its lock

Every other access, also from background tasks of an earlier run, takes the
lock.
---
 node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node.go b/node.go
index 1f44f2c..b1c8ace 100644
--- a/node.go
+++ b/node.go
@@ -128,7 +128,9 @@ func (n *Node) Start() error {
 	n.pollCh = make(chan packet.ArtPollPacket, 10)
 	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
 	n.shutdownCh = make(chan struct{})
+	n.shutdownLock.Lock()
 	n.shutdown = false
+	n.shutdownLock.Unlock()
 
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
-- 
2.43.0


From 5102da3bc17d31fd7e139779f95cca1c3783d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:31 +0000
Subject: [PATCH 17/17] fix: do not look at the sender of a datagram that was
 not read

ReadFromUDP returns a nil address with an error, which crashed the process
before the error was looked at.
---
 node.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index b1c8ace..9abbad3 100644
--- a/node.go
+++ b/node.go
@@ -224,12 +224,6 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
 				if err == io.EOF {
 					return
@@ -239,6 +233,12 @@ func (n *Node) recvLoop() {
 				continue
 			}
 
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
+				continue
+			}
+
 			n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("received packet")
 			payload := netPayload{
 				address: *from,
-- 
2.43.0

