From 499a56de953c5d4b155fd1d8d46579d2bcca5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:55 +0000
Subject: [PATCH 01/26] fix: clear the flag bit when a status flag is set to
 false

WithX(false) returned the register unchanged, so a flag that was set
could never be cleared again.
---
 packet/code/goodinput.go  | 12 ++++++------
 packet/code/goodoutput.go | 16 ++++++++--------
 packet/code/porttype.go   |  4 ++--
 packet/code/status1.go    |  6 +++---
 packet/code/status2.go    | 12 ++++++------
 packet/code/swmacro.go    | 16 ++++++++--------
 packet/code/swremote.go   | 16 ++++++++--------
 packet/code/talktome.go   |  8 ++++----
 8 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/packet/code/goodinput.go b/packet/code/goodinput.go
index 85af466..499cb5d 100644
--- a/packet/code/goodinput.go
+++ b/packet/code/goodinput.go
@@ -8,7 +8,7 @@ func (s GoodInput) WithReceive(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Receive indicates if Receive errors detected
@@ -21,7 +21,7 @@ func (s GoodInput) WithDisabled(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Disabled indicates Input is disabled
@@ -34,7 +34,7 @@ func (s GoodInput) WithText(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -47,7 +47,7 @@ func (s GoodInput) WithSIP(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -60,7 +60,7 @@ func (s GoodInput) WithTest(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -73,7 +73,7 @@ func (s GoodInput) WithData(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data received
diff --git a/packet/code/goodoutput.go b/packet/code/goodoutput.go
index 0b7841e..da15831 100644
--- a/packet/code/goodoutput.go
+++ b/packet/code/goodoutput.go
@@ -8,7 +8,7 @@ func (s GoodOutput) WithACN(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // ACN indicates Output is selected to transmit sACN
@@ -21,7 +21,7 @@ func (s GoodOutput) WithLTP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // LTP indicates Merge Mode is LTP
@@ -34,7 +34,7 @@ func (s GoodOutput) WithOutput(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Output indicates DMX output short detected on power up
@@ -47,7 +47,7 @@ func (s GoodOutput) WithMerging(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Merging indicates Output is merging ArtNet data
@@ -60,7 +60,7 @@ func (s GoodOutput) WithText(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -73,7 +73,7 @@ func (s GoodOutput) WithSIP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -86,7 +86,7 @@ func (s GoodOutput) WithTest(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -99,7 +99,7 @@ func (s GoodOutput) WithData(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data transmitted
diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 6b42aff..8b1924b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -10,7 +10,7 @@ func (s PortType) WithInput(enable bool) PortType {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Input indicates channel can input from the Art-Net Network
@@ -23,7 +23,7 @@ func (s PortType) WithOutput(enable bool) PortType {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Output indicates channel can output onto the Art-Net Network
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 32c08ca..6144e67 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -10,7 +10,7 @@ func (s Status1) WithUBEA(enable bool) Status1 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // UBEA returns the status of the bit 0
@@ -25,7 +25,7 @@ func (s Status1) WithRDM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // RDM returns the status of the bit 1
@@ -41,7 +41,7 @@ func (s Status1) WithBootROM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // BootROM returns the status of the bit 2
diff --git a/packet/code/status2.go b/packet/code/status2.go
index 35220c5..d33a8b4 100644
--- a/packet/code/status2.go
+++ b/packet/code/status2.go
@@ -8,7 +8,7 @@ func (s Status2) WithBrowser(enable bool) Status2 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Browser indicates if product supports web browser configuration
@@ -21,7 +21,7 @@ func (s Status2) WithDHCP(enable bool) Status2 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // DHCP indicates if product IP is DHCP configured
@@ -34,7 +34,7 @@ func (s Status2) WithDHCPCapable(enable bool) Status2 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // DHCPCapable indicates if product is capable of DHCP
@@ -47,7 +47,7 @@ func (s Status2) WithPort15(enable bool) Status2 {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Port15 indicates if product supports 15 bit Port-Address (Art-Net 3 or 4)
@@ -60,7 +60,7 @@ func (s Status2) WithSwitch(enable bool) Status2 {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Switch indicates if product is able to switch between Art-Net and sACN
@@ -73,7 +73,7 @@ func (s Status2) WithSquawk(enable bool) Status2 {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Squawk indicates if product is squawking
diff --git a/packet/code/swmacro.go b/packet/code/swmacro.go
index 4e47a95..93c3027 100644
--- a/packet/code/swmacro.go
+++ b/packet/code/swmacro.go
@@ -12,7 +12,7 @@ func (s SwMacro) WithMacro1(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Macro1 indicates Macro 1 active
@@ -25,7 +25,7 @@ func (s SwMacro) WithMacro2(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Macro2 indicates Macro 2 active
@@ -38,7 +38,7 @@ func (s SwMacro) WithMacro3(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Macro3 indicates Macro 3 active
@@ -51,7 +51,7 @@ func (s SwMacro) WithMacro4(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Macro4 indicates Macro 4 active
@@ -64,7 +64,7 @@ func (s SwMacro) WithMacro5(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Macro5 indicates Macro 5 active
@@ -77,7 +77,7 @@ func (s SwMacro) WithMacro6(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Macro6 indicates Macro 6 active
@@ -90,7 +90,7 @@ func (s SwMacro) WithMacro7(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Macro7 indicates Macro 7 active
@@ -103,7 +103,7 @@ func (s SwMacro) WithMacro8(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Macro8 indicates Macro 8 active
diff --git a/packet/code/swremote.go b/packet/code/swremote.go
index 801ad95..d504604 100644
--- a/packet/code/swremote.go
+++ b/packet/code/swremote.go
@@ -12,7 +12,7 @@ func (s SwRemote) WithRemote1(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Remote1 indicates Remote 1 active
@@ -25,7 +25,7 @@ func (s SwRemote) WithRemote2(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Remote2 indicates Remote 2 active
@@ -38,7 +38,7 @@ func (s SwRemote) WithRemote3(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Remote3 indicates Remote 3 active
@@ -51,7 +51,7 @@ func (s SwRemote) WithRemote4(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Remote4 indicates Remote 4 active
@@ -64,7 +64,7 @@ func (s SwRemote) WithRemote5(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Remote5 indicates Remote 5 active
@@ -77,7 +77,7 @@ func (s SwRemote) WithRemote6(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Remote6 indicates Remote 6 active
@@ -90,7 +90,7 @@ func (s SwRemote) WithRemote7(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Remote7 indicates Remote 7 active
@@ -103,7 +103,7 @@ func (s SwRemote) WithRemote8(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Remote8 indicates Remote 8 active
diff --git a/packet/code/talktome.go b/packet/code/talktome.go
index fa95164..27ecc34 100644
--- a/packet/code/talktome.go
+++ b/packet/code/talktome.go
@@ -10,7 +10,7 @@ func (t TalkToMe) WithReplyOnChange(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 1)
 	}
-	return t | (0 << 1)
+	return t &^ (1 << 1)
 }
 
 // ReplyOnChange returns the status of the bit 1
@@ -23,7 +23,7 @@ func (t TalkToMe) WithDiagnostics(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 2)
 	}
-	return t | (0 << 2)
+	return t &^ (1 << 2)
 }
 
 // Diagnostics returns the stats of the bit 2
@@ -36,7 +36,7 @@ func (t TalkToMe) WithDiagUnicast(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 3)
 	}
-	return t | (0 << 3)
+	return t &^ (1 << 3)
 }
 
 // DiagUnicast returns the stats of the bit 3
@@ -49,7 +49,7 @@ func (t TalkToMe) WithVLC(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 4)
 	}
-	return t | (0 << 4)
+	return t &^ (1 << 4)
 }
 
 // VLC returns the stats of the bit 4
-- 
2.43.0


From 0db7a761fd1bf92a73eff4057f649d67d86ca2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:09 +0000
Subject: [PATCH 02/26] fix: read the Status1 port-address authority and
 indicator from their own bits

Both getters masked the wrong bits, so that most states read back as
something else, and the mute state was spelled differently than in the
setter. The setters now also replace a previous state instead of merging
with it.
---
 packet/code/status1.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/packet/code/status1.go b/packet/code/status1.go
index 6144e67..ec7f868 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -57,13 +57,13 @@ func (s Status1) BootROM() bool {
 func (s Status1) WithPortAddr(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 4)
+		return s&^(3<<4) | (0 << 4)
 	case "front":
-		return s | (1 << 4)
+		return s&^(3<<4) | (1 << 4)
 	case "net":
-		return s | (2 << 4)
+		return s&^(3<<4) | (2 << 4)
 	case "unused":
-		return s | (3 << 4)
+		return s&^(3<<4) | (3 << 4)
 	}
 	return s
 }
@@ -74,7 +74,7 @@ func (s Status1) WithPortAddr(v string) Status1 {
 // "net":     All or part of Port-Address programmed by networkor Web browser.
 // "unused":  Not used.
 func (s Status1) PortAddr() string {
-	switch (s & (8 + 16)) >> 4 {
+	switch (s & (3 << 4)) >> 4 {
 	case 0:
 		return "unknown"
 	case 1:
@@ -95,13 +95,13 @@ func (s Status1) PortAddr() string {
 func (s Status1) WithIndicator(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 6)
+		return s&^(3<<6) | (0 << 6)
 	case "locate":
-		return s | (1 << 6)
+		return s&^(3<<6) | (1 << 6)
 	case "mute":
-		return s | (2 << 6)
+		return s&^(3<<6) | (2 << 6)
 	case "normal":
-		return s | (3 << 6)
+		return s&^(3<<6) | (3 << 6)
 	}
 	return s
 }
@@ -112,13 +112,13 @@ func (s Status1) WithIndicator(v string) Status1 {
 // "mute":    Indicators in Mute Mode.
 // "normal":  Indicators in Normal Mode.
 func (s Status1) Indicator() string {
-	switch (s & (32 + 64)) >> 6 {
+	switch (s & (3 << 6)) >> 6 {
 	case 0:
 		return "unknown"
 	case 1:
 		return "locate"
 	case 2:
-		return "mutenet"
+		return "mute"
 	case 3:
 		return "normal"
 	}
-- 
2.43.0


From b5bd34c778a465430a50ecb56fcab79cebd1d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:09 +0000
Subject: [PATCH 03/26] fix: replace the previous protocol when setting the
 type of a port

---
 packet/code/porttype.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 8b1924b..3a8993b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -36,17 +36,17 @@ func (s PortType) Output() bool {
 func (s PortType) WithType(v string) PortType {
 	switch v {
 	case "DMX512":
-		return s | 0x00
+		return s&^0x1f | 0x00
 	case "MIDI":
-		return s | 0x01
+		return s&^0x1f | 0x01
 	case "Avab":
-		return s | 0x02
+		return s&^0x1f | 0x02
 	case "Colortran CMX":
-		return s | 0x03
+		return s&^0x1f | 0x03
 	case "ADB 62.5":
-		return s | 0x04
+		return s&^0x1f | 0x04
 	case "Art-Net":
-		return s | 0x05
+		return s&^0x1f | 0x05
 	}
 	return s
 }
-- 
2.43.0


From a00e22f22eeab54cde6ece23910d22d4cf9c8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 04/26] fix: send every packet type with its own op code

Nine packet types were encoded with whatever op code the struct held
(zero for a new packet), and with the bytes swapped back and forth when
encoded repeatedly; receivers, this package included, reject those.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From f63166c76a0ed17ddfda44d766aadfe141054b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:35 +0000
Subject: [PATCH 05/26] fix: always send the ArtPollReply port low byte first

Encoding swapped the port in place, so every second encoding of the same
packet sent it in the wrong byte order, and an unset port was sent as 0.
---
 packet/artpollreply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..e01ce78 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -187,5 +187,5 @@ func (p *ArtPollReplyPacket) finish() {
 	// working packet we do it here "manually"
 	p.ID = ArtNet
 	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(p.Port)
+	p.Port = swapUint16(ArtNetPort)
 }
-- 
2.43.0


From fe1df34fe874cae6c65a5152351693004392d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:36 +0000
Subject: [PATCH 06/26] fix: reject an ArtPollReply without the Art-Net
 identifier

---
 packet/artpollreply.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index e01ce78..943f00a 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -159,6 +159,10 @@ func (p *ArtPollReplyPacket) validate() error {
 	// ArtPollReply is a packer not using the standard header, so we need to do
 	// some extra things here that are normally done in the header validate
 
+	if p.ID != ArtNet {
+		return errInvalidPacket
+	}
+
 	// swap endianness
 	p.OpCode = code.OpCode(swapUint16(uint16(p.OpCode)))
 	if p.OpCode != code.OpPollReply {
-- 
2.43.0


From fb8abb0e77375eca72742ac53255d62f120a4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 07/26] fix: reject datagrams of another type when decoding an
 ArtDMX packet

---
 packet/artdmx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 7714760..35b3ee8 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -85,6 +85,10 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 		return err
 	}
 
+	if p.OpCode != code.OpDMX {
+		return errInvalidOpCode
+	}
+
 	p.Sequence = b[12]
 	p.Physical = b[13]
 	p.SubUni = b[14]
-- 
2.43.0


From 41eadca98eafe9f419ffad94f02f8b597cf17a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 08/26] fix: drop the channels of an earlier frame when
 decoding a shorter ArtDMX packet

---
 packet/artdmx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 35b3ee8..d57340f 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -102,6 +102,7 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if len(b) < l+18 || l < 2 || l > 512 || l%2 != 0 {
 		return errInvalidPacket
 	}
+	p.Data = [512]byte{}
 	copy(p.Data[0:l], b[18:18+l])
 
 	return nil
-- 
2.43.0


From d739a9910b8469fa63a78066b3fffa8784e63913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:39 +0000
Subject: [PATCH 09/26] fix: reject packets that declare more data than they
 can carry

ArtNzs, ArtCommand and ArtDiagData accepted any length, so that slicing
the data by the declared length could panic in the application.
---
 packet/artcommand.go  | 3 +++
 packet/artdiagdata.go | 3 +++
 packet/artnzs.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/packet/artcommand.go b/packet/artcommand.go
index 4a69ecb..17f2e22 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -75,6 +75,9 @@ func (p *ArtCommandPacket) validate() error {
 	if p.OpCode != code.OpCommand {
 		return errInvalidOpCode
 	}
+	if p.Length > 512 {
+		return errInvalidPacket
+	}
 	if p.ESTAmanufacturer != [2]byte{0xff, 0xff} {
 		return errInvalidPacket
 	}
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 1150bbe..cea655d 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -65,6 +65,9 @@ func (p *ArtDiagDataPacket) validate() error {
 	if p.OpCode != code.OpDiagData {
 		return errInvalidOpCode
 	}
+	if p.Length > 512 {
+		return errInvalidPacket
+	}
 	return nil
 }
 
diff --git a/packet/artnzs.go b/packet/artnzs.go
index fbae5c6..44d3499 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -73,6 +73,9 @@ func (p *ArtNzsPacket) validate() error {
 	if p.OpCode != code.OpNzs {
 		return errInvalidOpCode
 	}
+	if p.Length < 1 || p.Length > 512 {
+		return errInvalidPacket
+	}
 	return nil
 }
 
-- 
2.43.0


From f0fa0130c08fc1daa8dd92495e2a3ce4898a2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:58 +0000
Subject: [PATCH 10/26] fix: do not use the sender address of a failed read

A failed read returns no sender, so comparing its IP with our own before
looking at the error crashed the process.
---
 node.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index 6766063..05c00da 100644
--- a/node.go
+++ b/node.go
@@ -218,12 +218,6 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
 				if err == io.EOF {
 					return
@@ -233,6 +227,12 @@ func (n *Node) recvLoop() {
 				continue
 			}
 
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
+				continue
+			}
+
 			n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("received packet")
 			payload := netPayload{
 				address: *from,
-- 
2.43.0


From 314d93783a17a263acae8f352abaa95a4ad47f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:30 +0000
Subject: [PATCH 11/26] fix: let a stop end every wait for a queue

The loops sent to each other's queues unconditionally. When the receiving
loop had already stopped and the queue was full they waited forever, the
DMX loop even while holding the lock that SendDMXToAddress needs.
---
 controller.go | 36 +++++++++++++++++++++++++++---------
 node.go       | 22 ++++++++++++++++++----
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/controller.go b/controller.go
index b51f94c..3cb8c52 100644
--- a/controller.go
+++ b/controller.go
@@ -162,23 +162,38 @@ func (c *Controller) pollLoop() {
 		return
 	}
 
+	// poll sends the ArtPollPacket and makes our own node reply to it,
+	// it reports false when the controller is stopped meanwhile
+	poll := func() bool {
+		select {
+		case c.cNode.sendCh <- netPayload{
+			address: c.broadcastAddr,
+			data:    b,
+		}:
+		case <-c.shutdownCh:
+			return false
+		}
+		select {
+		case c.cNode.pollCh <- packet.ArtPollPacket{}:
+		case <-c.shutdownCh:
+			return false
+		}
+		return true
+	}
+
 	// send ArtPollPacket
-	c.cNode.sendCh <- netPayload{
-		address: c.broadcastAddr,
-		data:    b,
+	if !poll() {
+		return
 	}
-	c.cNode.pollCh <- packet.ArtPollPacket{}
 
 	// loop until shutdown
 	for {
 		select {
 		case <-c.pollTicker.C:
 			// send ArtPollPacket
-			c.cNode.sendCh <- netPayload{
-				address: c.broadcastAddr,
-				data:    b,
+			if !poll() {
+				return
 			}
-			c.cNode.pollCh <- packet.ArtPollPacket{}
 
 		case <-c.gcTicker.C:
 			// clean up old nodes
@@ -247,9 +262,12 @@ func (c *Controller) dmxUpdateLoop() {
 		node.DMXBuffer[address].LastUpdate = now
 		node.DMXBuffer[address].Stale = false
 
-		c.cNode.sendCh <- netPayload{
+		select {
+		case c.cNode.sendCh <- netPayload{
 			address: node.UDPAddress,
 			data:    b,
+		}:
+		case <-c.shutdownCh:
 		}
 		return nil
 	}
diff --git a/node.go b/node.go
index 05c00da..607c832 100644
--- a/node.go
+++ b/node.go
@@ -165,9 +165,13 @@ func (n *Node) pollReplyLoop() {
 			// reply with pollReply
 			n.log.With(nil).Debug("sending ArtPollReply")
 
-			n.sendCh <- netPayload{
+			select {
+			case n.sendCh <- netPayload{
 				address: n.broadcastAddr,
 				data:    me,
+			}:
+			case <-n.shutdownCh:
+				return
 			}
 
 			// TODO: if we are asked to send changes regularly, set the Ticker here
@@ -240,7 +244,11 @@ func (n *Node) recvLoop() {
 				data:    make([]byte, num),
 			}
 			copy(payload.data, b)
-			n.recvCh <- payload
+			select {
+			case n.recvCh <- payload:
+			case <-n.shutdownCh:
+				return
+			}
 		}
 	}()
 
@@ -288,7 +296,10 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.pollCh <- *poll
+	select {
+	case n.pollCh <- *poll:
+	case <-n.shutdownCh:
+	}
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
@@ -300,7 +311,10 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		n.pollReplyCh <- *pollReply
+		select {
+		case n.pollReplyCh <- *pollReply:
+		case <-n.shutdownCh:
+		}
 	}
 }
 
-- 
2.43.0


From 8b2e8da0757b7133d04926f1fe7584ebb28aa3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:31 +0000
Subject: [PATCH 12/26] fix: stop the ticker of the DMX loop when the
 controller stops

---
 controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller.go b/controller.go
index 3cb8c52..a7776ca 100644
--- a/controller.go
+++ b/controller.go
@@ -250,6 +250,7 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 func (c *Controller) dmxUpdateLoop() {
 	fpsInterval := time.Duration(c.maxFPS)
 	ticker := time.NewTicker(time.Second / fpsInterval)
+	defer ticker.Stop()
 
 	forceUpdate := 250 * time.Millisecond
 
-- 
2.43.0


From a6ebfd7896d0b8f891ae4960e389fd246b782181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:45 +0000
Subject: [PATCH 13/26] fix: make stopping a node that is not running a no-op

---
 node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node.go b/node.go
index 607c832..99d922a 100644
--- a/node.go
+++ b/node.go
@@ -96,6 +96,11 @@ func (n *Node) Connection() *net.UDPConn {
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
 	n.shutdownLock.Lock()
+	if n.shutdown {
+		// never started, or stopped already
+		n.shutdownLock.Unlock()
+		return
+	}
 	n.shutdown = true
 	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
-- 
2.43.0


From a24181438bd3755eb777aec9aa8213877df66d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:45 +0000
Subject: [PATCH 14/26] fix: leave a node stopped when it cannot be started,
 and running when started twice

---
 node.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index 99d922a..6b1a347 100644
--- a/node.go
+++ b/node.go
@@ -124,12 +124,11 @@ func (n *Node) Start() error {
 	}
 	n.log.With(Fields{"ip": n.Config.IP.String(), "type": n.Config.Type.String()}).Debug("node started")
 
-	n.sendCh = make(chan netPayload, 10)
-	n.recvCh = make(chan netPayload, 10)
-	n.pollCh = make(chan packet.ArtPollPacket, 10)
-	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
-	n.shutdownCh = make(chan struct{})
-	n.shutdown = false
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+	if !n.shutdown {
+		return fmt.Errorf("node has already been started")
+	}
 
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
@@ -139,6 +138,14 @@ func (n *Node) Start() error {
 	}
 	n.conn = c.(*net.UDPConn)
 
+	n.sendCh = make(chan netPayload, 10)
+	n.recvCh = make(chan netPayload, 10)
+	n.pollCh = make(chan packet.ArtPollPacket, 10)
+	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
+	n.shutdownCh = make(chan struct{})
+	n.shutdown = false
+	n.shutdownErr = nil
+
 	go n.pollReplyLoop()
 	go n.recvLoop()
 	go n.sendLoop()
-- 
2.43.0


From a8cb6b0090a6551be36cf6043f8732ab51170ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:19 +0000
Subject: [PATCH 15/26] fix: make stopping a controller that is not running a
 no-op

---
 controller.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/controller.go b/controller.go
index a7776ca..b6ddfca 100644
--- a/controller.go
+++ b/controller.go
@@ -91,7 +91,9 @@ type Controller struct {
 
 	broadcastAddr net.UDPAddr
 
-	shutdownCh chan struct{}
+	shutdownCh   chan struct{}
+	running      bool
+	shutdownLock sync.Mutex
 
 	maxFPS int
 	log    Logger
@@ -118,6 +120,12 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
+	c.shutdownLock.Lock()
+	defer c.shutdownLock.Unlock()
+	if c.running {
+		return fmt.Errorf("controller has already been started")
+	}
+
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
 	c.shutdownCh = make(chan struct{})
@@ -129,6 +137,7 @@ func (c *Controller) Start() error {
 
 	c.pollTicker = time.NewTicker(pollInterval)
 	c.gcTicker = time.NewTicker(pollInterval)
+	c.running = true
 
 	go c.pollLoop()
 	go c.dmxUpdateLoop()
@@ -137,14 +146,17 @@ func (c *Controller) Start() error {
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
+	c.shutdownLock.Lock()
+	defer c.shutdownLock.Unlock()
+	if !c.running {
+		// never started, or stopped already
+		return
+	}
+	c.running = false
+
 	c.pollTicker.Stop()
 	c.gcTicker.Stop()
 	c.cNode.Stop()
-
-	select {
-	case <-c.cNode.shutdownCh:
-	}
-
 	close(c.shutdownCh)
 }
 
-- 
2.43.0


From 1d0a139d29a89de6ed9cf375e31b642125cef6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:19 +0000
Subject: [PATCH 16/26] fix: reset the node list and the address tables
 together, under their lock

---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index b6ddfca..7ec1058 100644
--- a/controller.go
+++ b/controller.go
@@ -126,8 +126,11 @@ func (c *Controller) Start() error {
 		return fmt.Errorf("controller has already been started")
 	}
 
+	c.nodeLock.Lock()
+	c.Nodes = nil
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
+	c.nodeLock.Unlock()
 	c.shutdownCh = make(chan struct{})
 	c.cNode.log = c.log.With(Fields{"type": "Node"})
 	c.log = c.log.With(Fields{"type": "Controller"})
-- 
2.43.0


From c3908577f69ebae4b8f3cfa0ea9436ea74fd6bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 17/26] fix: refuse a frame rate that has no interval

---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index decc5ab..83fe4fc 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -17,6 +19,9 @@ func (c *Controller) SetOption(option Option) error {
 // MaxFPS sets the maximum amount of updates sent out per second
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || time.Duration(fps) > time.Second {
+			return fmt.Errorf("invalid maximum amount of updates per second: %d", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0


From 9b1cac7994809c9825296eb1137d1033650497d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 18/26] fix: skip sequence number zero when the sequence wraps

---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index 7ec1058..63160d9 100644
--- a/controller.go
+++ b/controller.go
@@ -67,6 +67,10 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 	}
 
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		// zero would disable resequencing
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From 3a360b1faec73e29276adda665c94025ce74b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:21 +0000
Subject: [PATCH 19/26] fix: return from deleteNode once the node has been
 removed

---
 controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller.go b/controller.go
index 63160d9..29fb653 100644
--- a/controller.go
+++ b/controller.go
@@ -402,6 +402,7 @@ func (c *Controller) deleteNode(node NodeConfig) error {
 				delete(c.InputAddress, port.Address)
 			}
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
+			return nil
 		}
 	}
 
-- 
2.43.0


From 9574ea7c7de248cb7827a21071beeb907339b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:21 +0000
Subject: [PATCH 20/26] fix: let the broadcast address option also apply to
 poll replies of the controller

---
 options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.go b/options.go
index 83fe4fc..67afb8b 100644
--- a/options.go
+++ b/options.go
@@ -31,7 +31,7 @@ func MaxFPS(fps int) Option {
 func BroadcastAddr(addr net.UDPAddr) Option {
 	return func(c *Controller) error {
 		c.broadcastAddr = addr
-		return nil
+		return NodeBroadcastAddress(addr)(c.cNode)
 	}
 }
 
-- 
2.43.0


From cf6281c3a4ba9c224eb9e4fa5643f052b4e9ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:22 +0000
Subject: [PATCH 21/26] fix: build universe addresses from the low bits of the
 net, sub-net and port switches

---
 config.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..b1049f9 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -170,8 +170,8 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status1:      p.Status1,
 		Status2:      p.Status2,
 		BaseAddress: Address{
-			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			Net:    p.NetSwitch & 0x7f,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
@@ -180,7 +180,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -190,7 +190,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0


From 9c7ed192c2eba6eeb62d0bff0150c911598b0de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:22 +0000
Subject: [PATCH 22/26] fix: announce the switches and status of every port

---
 config.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/config.go b/config.go
index b1049f9..bdc4150 100644
--- a/config.go
+++ b/config.go
@@ -90,6 +90,17 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
 
+	for i := 0; i < 4; i++ {
+		if len(c.InputPorts) > i {
+			p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f
+			p.GoodInput[i] = c.InputPorts[i].Status
+		}
+		if len(c.OutputPorts) > i {
+			p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f
+			p.GoodOutput[i] = c.OutputPorts[i].Status
+		}
+	}
+
 	return p
 }
 
-- 
2.43.0


From ba42f881cc20326f8b66a5e70ef6ac4e872babb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:22 +0000
Subject: [PATCH 23/26] fix: keep announced names NUL terminated

---
 config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index bdc4150..9b524e7 100644
--- a/config.go
+++ b/config.go
@@ -84,8 +84,8 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 
 	copy(p.IPAddress[0:4], c.IP.To4())
 	copy(p.ESTAmanufacturer[0:2], c.Manufacturer)
-	copy(p.ShortName[0:18], c.Name)
-	copy(p.LongName[0:64], c.Description)
+	copy(p.ShortName[0:17], c.Name)
+	copy(p.LongName[0:63], c.Description)
 	copy(p.NodeReport[0:64], c.Report)
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
-- 
2.43.0


From 7f26a1b98db30619f9d09c4113982f39661cdfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:23 +0000
Subject: [PATCH 24/26] fix: let node options register callbacks

---
 node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 6b1a347..105d632 100644
--- a/node.go
+++ b/node.go
@@ -65,16 +65,16 @@ func NewNode(name string, style code.StyleCode, ip net.IP, log Logger, opts ...N
 		log:           log.With(Fields{"type": "Node"}),
 	}
 
-	for _, opt := range opts {
-		n.SetOption(opt)
-	}
-
 	// initialize required node callbacks
 	n.callbacks = map[code.OpCode]NodeCallbackFn{
 		code.OpPoll:      n.handlePacketPoll,
 		code.OpPollReply: n.handlePacketPollReply,
 	}
 
+	for _, opt := range opts {
+		n.SetOption(opt)
+	}
+
 	if len(ip) < 1 {
 		// TODO: generate an IP according to spec
 		//ip = GenerateIP()
-- 
2.43.0


From f818003d2914745d79e6435f9e74732d08fc943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:23 +0000
Subject: [PATCH 25/26] fix: create the DMX buffers of universes a known node
 starts to announce

---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index 29fb653..3762264 100644
--- a/controller.go
+++ b/controller.go
@@ -349,6 +349,9 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			c.Nodes[i].LastSeen = time.Now()
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
+				if c.Nodes[i].DMXBuffer[port.Address] == nil {
+					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				}
 				c.OutputAddress[port.Address] = c.Nodes[i]
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-- 
2.43.0


From cd5ff2eb1d8df1fee9be0635834cb3d3f4188602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:06 +0000
Subject: [PATCH 26/26] fix: send new DMX data at the next tick at any frame
 rate

The time a universe is left alone after an update was the frame rate in
nanoseconds instead of a fraction of the frame interval. At high frame
rates this exceeds the interval, at MaxFPS(1000000000) new data waited
for the forced update after 250 ms.
---
 controller.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/controller.go b/controller.go
index 3762264..7a79093 100644
--- a/controller.go
+++ b/controller.go
@@ -267,8 +267,8 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
-	fpsInterval := time.Duration(c.maxFPS)
-	ticker := time.NewTicker(time.Second / fpsInterval)
+	fpsInterval := time.Second / time.Duration(c.maxFPS)
+	ticker := time.NewTicker(fpsInterval)
 	defer ticker.Stop()
 
 	forceUpdate := 250 * time.Millisecond
@@ -303,8 +303,8 @@ func (c *Controller) dmxUpdateLoop() {
 				if node.DMXBuffer[address] == nil {
 					node.DMXBuffer[address] = &dmxBuffer{}
 				}
-				// only update if it has been X seconds
-				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval)) {
+				// only update if it has been X seconds, ticks can come a little early
+				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval/2)) {
 					err := update(node, address, now)
 					if err != nil {
 						c.log.With(Fields{"err": err, "address": address.String()}).Error("error getting buffer for address")
-- 
2.43.0

