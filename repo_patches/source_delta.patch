From fc90879b8e6d7cd52c8847b4067a9cc9e227cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 01/19] fix: drop pixels left of or above the clip rectangle in
 DrawPixel

A negative or left-of-clip x wrapped onto the previous row's bytes and
pixels left of / above the bounding box were drawn.
---
 ibeam_lib_monogfx/monogfx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index d734fdd..b886fed 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -238,7 +238,7 @@ func (img *MonoImg) DrawPixel(x int, y int, color bool) {
 	y += img.bbox_y
 	widthMax := su.Qint(img.bbox_width+img.bbox_x > img.Width, img.Width, img.bbox_width+img.bbox_x)
 	heightMax := su.Qint(img.bbox_height+img.bbox_y > img.Height, img.Height, img.bbox_height+img.bbox_y)
-	if x < widthMax && y < heightMax {
+	if x >= 0 && y >= 0 && x >= img.bbox_x && y >= img.bbox_y && x < widthMax && y < heightMax {
 		index := y*img.widthInBytes + x/8
 		if index >= 0 && index < len(img.imgBytes) { // Check we are not writing out of bounds
 			if color != img.invertPixels { // XOR of the two...
-- 
2.43.0


From 48b3e43879968e1784797a98846c5e0131af2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 02/19] fix: never renumber a type to 0, the id of disabled
 components

---
 topology/topology.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6d7ce7e..cad62b5 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -277,7 +277,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 	seq := uint32(1)
 	for typeNum, typeStruct := range topology.TypeIndex {
 		// Find new random index not used:
-		typeMapping[typeNum] = uint32(r1.Intn(1000000))
+		typeMapping[typeNum] = uint32(1 + r1.Intn(1000000))
 		if sequence {
 			typeMapping[typeNum] = seq
 		}
@@ -289,7 +289,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 					//fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
 				} else {
 					fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
-					typeMapping[typeNum] = uint32(r1.Intn(1000000))
+					typeMapping[typeNum] = uint32(1 + r1.Intn(1000000))
 				}
 			} else {
 				break
-- 
2.43.0


From e9bca10635e0989ea336c2f1d1d02109b0ae9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 03/19] fix: keep the pixels covered by short mono image data

---
 ibeam_lib_monogfx/monogfx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index b886fed..53e1fd8 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -90,6 +90,7 @@ func (img *MonoImg) CreateFromImage(src image.Image) {
 func (img *MonoImg) CreateFromBytes(width int, height int, bytes []byte) error {
 	img.NewImage(width, height)
 	if img.widthInBytes*height > len(bytes) {
+		copy(img.imgBytes, bytes) // The part of the image the data covers; the rest stays blank
 		return fmt.Errorf("addressable dimensions larger than provided byte slice")
 	}
 	img.imgBytes = bytes
-- 
2.43.0


From fdb559ec08f3a52eddd16142bf9a4c9bf424b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 04/19] fix: decode Raw analog event lines and require a
 literal dot before the edge

---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 3c4d2d6..a9b161d 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -964,7 +964,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|\\.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
@@ -1087,7 +1087,7 @@ func RawPanelASCIIstringsToOutboundMessages(rp20_ascii []string) []*rwp.Outbound
 						},
 					}
 				case "Raw":
-					value := su.Intval(regex_cmd.FindStringSubmatch(inputString)[6])
+					value := su.Intval(regex_cmd_inbound.FindStringSubmatch(inputString)[6])
 					msg = &rwp.OutboundMessage{
 						Events: []*rwp.HWCEvent{
 							&rwp.HWCEvent{
-- 
2.43.0


From 812112b200f86e3d76eecc5449de825b27cdafc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 05/19] fix: drop a graphics transfer when a chunk line is
 missing or the image is complete

---
 converterFunctions.go | 2 ++
 rawpanelhelpers.go    | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index a9b161d..4d7b12e 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -390,9 +390,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 									},
 								}
 								//fmt.Println("DID IT! ", submatches)
+								temp_HWCGfx_HWClist = "" // Transfer is complete, no further lines belong to it
 							}
 						} else {
 							//fmt.Println("gPartIndex didn't match expected")
+							temp_HWCGfx_HWClist = "" // Lines are missing, this transfer can't be completed
 						}
 					} else {
 						//fmt.Println("Wrong HWC addressed!")
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f7f0c6..7eb6273 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -657,11 +657,13 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 				if gPartIndex == ar.HWCGfx_count { // Make sure index is the next in line
 					ar.HWCGfx = append(ar.HWCGfx, inputString)
 					if gPartIndex == ar.HWCGfx_max { // If we have reached the final one, wrap it up:
-						ar.HWCGfx_count = -1 // Reset
-						return RawPanelASCIIstringsToInboundMessages(ar.HWCGfx)
+						imageLines := ar.HWCGfx
+						*ar = ASCIIreader{HWCGfx_count: -1} // Reset, no further lines belong to this transfer
+						return RawPanelASCIIstringsToInboundMessages(imageLines)
 					}
 				} else {
 					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count)
+					*ar = ASCIIreader{HWCGfx_count: -1} // Lines are missing, this transfer can't be completed
 				}
 			} else {
 				log.Warnf("Wrong HWC %s addressed! Should be %s\n", submatches[2], ar.HWCGfx_HWClist)
-- 
2.43.0


From 23a2fcda6d2ca129c98c38dd198a3b0bd4de8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 06/19] fix: no panic on unformatted text without styling, no
 nil messages from JSON null elements

---
 converterFunctions.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 4d7b12e..c6f1305 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -173,7 +173,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				myStateMsgs := []*rwp.InboundMessage{}
 				json.Unmarshal([]byte(inputString), &myStateMsgs)
 				msg = nil
-				returnMsgs = append(returnMsgs, myStateMsgs...)
+				for _, myStateMsg := range myStateMsgs {
+					if myStateMsg != nil { // "null" elements
+						returnMsgs = append(returnMsgs, myStateMsg)
+					}
+				}
 			} else if regex_cmd.MatchString(inputString) {
 				HWCidArray := su.IntExplode(regex_cmd.FindStringSubmatch(inputString)[2], ",")
 				switch regex_cmd.FindStringSubmatch(inputString)[1] {
@@ -872,7 +876,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 							if !su.IsIntIn(int(stateRec.HWCText.Formatting), []int{7, 10, 11}) {
 								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.IntegerValue))
 							} else if su.IsIntIn(int(stateRec.HWCText.Formatting), []int{10, 11}) {
-								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.UnformattedFontSize))
+								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.GetTextStyling().GetUnformattedFontSize()))
 							} else { // Formatting == 7
 								stringSlice[1] = ""
 								stringSlice[0] = ""
-- 
2.43.0


From f71c6f3f9477948788ab59808093b87b5f243f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 07/19] fix: keep every produced ASCII string on one line and
 flatten SVG without losing text

---
 converterFunctions.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index c6f1305..4fd195a 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -938,6 +938,11 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 		}
 	}
 
+	// Each string must stay on one line:
+	for i := range returnStrings {
+		returnStrings[i] = strings.ReplaceAll(returnStrings[i], "\n", " ")
+	}
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1755,6 +1760,11 @@ func OutboundMessagesToRawPanelASCIIstrings(outboundMsgs []*rwp.OutboundMessage)
 		}
 	}
 
+	// Each string must stay on one line:
+	for i := range returnStrings {
+		returnStrings[i] = strings.ReplaceAll(returnStrings[i], "\n", " ")
+	}
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1833,7 +1843,7 @@ func stripLineBreaksSvg(svg string) string {
 	for i := range parts {
 		parts[i] = strings.TrimSpace(parts[i])
 		if !strings.HasSuffix(parts[i], ">") {
-			parts[i] = " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
+			parts[i] += " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
 		}
 	}
 	return strings.Join(parts, "")
-- 
2.43.0


From f29c5ed223eb14c95b28f608380798e440cd60bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 08/19] fix: read the probe reply as one frame or one line,
 however TCP segments it

---
 connecttopanel.go  |  2 +-
 rawpanelhelpers.go | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index e471b34..5837045 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -87,7 +87,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			byteArray := make([]byte, 1000)
 			err = conn.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 			log.Should(err)
-			byteCount, err := conn.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteCount, err := readProbeReply(conn, byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 			assumeASCII := false
 			binaryPanel := true
 			if err == nil {
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 7eb6273..2a9d719 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -7,6 +7,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"math"
 	"net"
 	"regexp"
@@ -677,6 +678,27 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 	return nil
 }
 
+// Reads the reply to the binary ping probe: one binary frame or, otherwise, the first line of text, no matter how it is segmented. Anything after it stays unread.
+func readProbeReply(c net.Conn, reply []byte) (int, error) {
+	n, err := io.ReadFull(c, reply[:4])
+	if err != nil {
+		return n, err
+	}
+	payloadLength := binary.LittleEndian.Uint32(reply[:4])
+	if payloadLength <= uint32(len(reply)-4) {
+		m, err := io.ReadFull(c, reply[4:4+payloadLength])
+		return 4 + m, err
+	}
+	for n < len(reply) && bytes.IndexByte(reply[:n], '\n') < 0 {
+		m, err := c.Read(reply[n : n+1])
+		n += m
+		if err != nil {
+			return n, err
+		}
+	}
+	return n, nil
+}
+
 // Is server mode panel ASCII or Binary? Test by sending a binary ping to the panel.
 // Background: Since it's possible that a panel auto detects binary or ascii protocol mode itself, it's best to probe with a binary package since otherwise a binary capable panel/system pair in auto mode would negotiate to use ASCII which is not as efficient and complete an encoding.
 // Returns true if binary panel. May hang for a few seconds waiting for reply
@@ -700,8 +722,8 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 	err = c.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 	log.Should(err)
 
-	byteCount, err := c.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
-	if err != nil {
+	byteCount, err := readProbeReply(c, byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+	if err != nil && byteCount == 0 {
 		log.WithError(err).Debug("tried to connected in binarymode failed, trying asciimode...")
 		log.Infoln("Using ASCII Protocol Mode for panel", panelIPAndPort)
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
@@ -709,7 +731,7 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 		return false
 	}
 
-	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "map=") {
+	if strings.HasPrefix(string(byteArray[0:byteCount]), "RDY") || strings.HasPrefix(string(byteArray[0:byteCount]), "map=") {
 		log.Debugln("Detected map or RDY message issued by UniSketch ASCII panels - we conclude ASCII")
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 		log.Should(err)
-- 
2.43.0


From 261f63fe2a6efb4453a50448002bb48ecffab224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:29 +0000
Subject: [PATCH 09/19] fix: drop the connection when a frame stalls inside its
 header

---
 connecttopanel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 5837045..7693ac4 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -179,7 +179,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray) // Read 4 header bytes
+					_, err := io.ReadFull(conn, headerArray[:1]) // Read 4 header bytes, the last three must follow the first one timely
+					if err == nil {
+						conn.SetReadDeadline(time.Now().Add(2 * time.Second))
+						_, err = io.ReadFull(conn, headerArray[1:])
+					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
 						break
-- 
2.43.0


From b1c05e376761acae7c6e98b5ff35ee5beb04c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 10/19] fix: cancellation closes the connection while a write
 to the panel is blocked

---
 connecttopanel.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 7693ac4..7626a31 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -132,17 +132,16 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			var exit atomic.Bool
 			quit := make(chan bool)
+			if wg != nil {
+				wg.Add(2)
+			}
 			go func() {
 				if wg != nil {
-					wg.Add(1)
 					defer wg.Done()
 				}
 				for {
 					select {
-					case <-ctx.Done(): // Context shutdown.
-						log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
-						exit.Store(true)
-						conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+					case <-ctx.Done():
 						return
 					case <-quit:
 						return
@@ -169,6 +168,20 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				}
 			}()
 
+			// This goroutine closes the connection when the context is done, also while the goroutine above is blocked by a panel that doesn't read
+			go func() {
+				if wg != nil {
+					defer wg.Done()
+				}
+				select {
+				case <-ctx.Done(): // Context shutdown.
+					log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
+					exit.Store(true)
+					conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+				case <-quit:
+				}
+			}()
+
 			// At this point we should be connected and know what prototol to use. We may also have received an errormessage and been disconnected, but in that case we will figure it out later.
 			if onconnect != nil {
 				onconnect(errorMsg, binaryPanel, conn)
-- 
2.43.0


From 4b6940ca0802702ef4a39a9e31a10195bc0a3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 11/19] fix: bindings may be registered while events are
 dispatched

---
 gorwp/inputs.go   | 18 ++++++++++++++++++
 gorwp/rawpanel.go | 12 +++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/gorwp/inputs.go b/gorwp/inputs.go
index 4de80cd..3023bc4 100644
--- a/gorwp/inputs.go
+++ b/gorwp/inputs.go
@@ -44,6 +44,8 @@ type BinaryFunc func(uint32, BinaryStatus, BinaryEdge)
 // binary trigger.  When the binary trigger is pushed down, then the provided
 // BinaryFunc is called.
 func (rp *RawPanel) BindBinary(hwc uint32, f BinaryFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.binaryBindings[hwc] = f
 }
 
@@ -56,6 +58,8 @@ type PulsedFunc func(uint32, int)
 // encoder. When the encoder is turned then the provided
 // PulsedFunc is called.
 func (rp *RawPanel) BindPulsed(hwc uint32, f PulsedFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.pulsedBindings[hwc] = f
 }
 
@@ -67,6 +71,8 @@ type AbsoluteFunc func(uint32, int)
 // fader.  When the fader is moved then the provided
 // AbsoluteFunc is called.
 func (rp *RawPanel) BindAbsolute(hwc uint32, f AbsoluteFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.absoluteBindings[hwc] = f
 }
 
@@ -79,6 +85,8 @@ type IntensityFunc func(uint32, int)
 // joystick. When the joystick axis is manipulated then the provided
 // IntensityFunc is called.
 func (rp *RawPanel) BindIntensity(hwc uint32, f IntensityFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.intensityBindings[hwc] = f
 }
 
@@ -90,5 +98,15 @@ type TriggerFunc func(uint32, *rwp.HWCEvent)
 // Function BindTrigger sets a general callback for actions on a specific
 // hardware component.
 func (rp *RawPanel) BindTrigger(hwc uint32, f TriggerFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.triggerBindings[hwc] = f
 }
+
+// Looks up a bound callback. Callbacks may be bound while events are coming in.
+func lookupBinding[F any](rp *RawPanel, bindings map[uint32]F, hwc uint32) (F, bool) {
+	rp.bindingsMU.RLock()
+	defer rp.bindingsMU.RUnlock()
+	f, exists := bindings[hwc]
+	return f, exists
+}
diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 079674a..779b6c9 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -47,6 +48,7 @@ type RawPanel struct {
 	fromPanel chan []*rwp.OutboundMessage
 
 	// Trigger Bindings
+	bindingsMU        sync.RWMutex
 	binaryBindings    map[uint32]BinaryFunc
 	pulsedBindings    map[uint32]PulsedFunc
 	absoluteBindings  map[uint32]AbsoluteFunc
@@ -319,19 +321,19 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 		// Events:
 		if len(msg.Events) > 0 {
 			for _, event := range msg.Events {
-				if receiverFunc, exists := rp.triggerBindings[event.HWCID]; exists {
+				if receiverFunc, exists := lookupBinding(rp, rp.triggerBindings, event.HWCID); exists {
 					receiverFunc(event.HWCID, event)
 				}
-				if receiverFunc, exists := rp.binaryBindings[event.HWCID]; exists && event.Binary != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.binaryBindings, event.HWCID); exists && event.Binary != nil {
 					receiverFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
 				}
-				if receiverFunc, exists := rp.pulsedBindings[event.HWCID]; exists && event.Pulsed != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.pulsedBindings, event.HWCID); exists && event.Pulsed != nil {
 					receiverFunc(event.HWCID, int(event.Pulsed.Value))
 				}
-				if receiverFunc, exists := rp.absoluteBindings[event.HWCID]; exists && event.Absolute != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.absoluteBindings, event.HWCID); exists && event.Absolute != nil {
 					receiverFunc(event.HWCID, int(event.Absolute.Value))
 				}
-				if receiverFunc, exists := rp.intensityBindings[event.HWCID]; exists && event.Speed != nil {
+				if receiverFunc, exists := lookupBinding(rp, rp.intensityBindings, event.HWCID); exists && event.Speed != nil {
 					receiverFunc(event.HWCID, int(event.Speed.Value))
 				}
 			}
-- 
2.43.0


From 1355488f8c4ea59c351fdb302337e26899d9ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 12/19] fix: callbacks that send many messages no longer stall
 the event dispatch

---
 gorwp/rawpanel.go | 55 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 779b6c9..84c760d 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -151,36 +151,31 @@ func (rp *RawPanel) init(ctx context.Context) error {
 
 func (rp *RawPanel) listen(ctx context.Context) {
 
-	// Listening for messages to/from panel
+	// Sending messages to panel
 	go func() {
 		ticker := time.NewTicker(1000 * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ctx.Done():
 				//fmt.Println("Stops listening for toPanel messages")
 				return
 			case messagesToPanel := <-rp.toPanel: // Messages from us to the panel.
-				if rp.binaryPanel {
-					for _, msg := range messagesToPanel {
-						pbdata, _ := proto.Marshal(msg) // Encode data
-						log.Debugln("System -> Panel: ", pbdata)
-
-						header := make([]byte, 4)                                  // Create a 4-bytes header
-						binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
-						pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
-						rp.connection.Write(pbdata)
-					}
-				} else {
-					lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
-					for _, line := range lines {
-						log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
-						rp.connection.Write([]byte(line + "\n"))
-					}
-				}
+				rp.writeToPanel(messagesToPanel)
 			case <-ticker.C: // Sending a ping periodically to the panel to make sure TCP will close connection if it doesn't get through. Strictly, the panel should answer back with ACK, but we don't check for that (seems this is enough)
-				rp.toPanel <- []*rwp.InboundMessage{{
+				rp.writeToPanel([]*rwp.InboundMessage{{
 					FlowMessage: rwp.InboundMessage_PING,
-				}}
+				}})
+			}
+		}
+	}()
+
+	// Processing messages from panel. This is separate from sending, so that callbacks can send any number of messages to the panel:
+	go func() {
+		for {
+			select {
+			case <-ctx.Done():
+				return
 			case messagesFromPanel := <-rp.fromPanel:
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
@@ -195,6 +190,26 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	(*rp.cancel)()
 }
 
+func (rp *RawPanel) writeToPanel(messagesToPanel []*rwp.InboundMessage) {
+	if rp.binaryPanel {
+		for _, msg := range messagesToPanel {
+			pbdata, _ := proto.Marshal(msg) // Encode data
+			log.Debugln("System -> Panel: ", pbdata)
+
+			header := make([]byte, 4)                                  // Create a 4-bytes header
+			binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
+			pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
+			rp.connection.Write(pbdata)
+		}
+	} else {
+		lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
+		for _, line := range lines {
+			log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
+			rp.connection.Write([]byte(line + "\n"))
+		}
+	}
+}
+
 func (rp *RawPanel) readFromPanel() error {
 	// Reading from panel:
 	if rp.binaryPanel {
-- 
2.43.0


From aa566d66da70a1847a4f8bc585a7973d00d0725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 13/19] fix: end the connection on over-limit and stalled
 frames, keep events that come with an ack

---
 gorwp/rawpanel.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 84c760d..63e8fee 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -216,7 +216,11 @@ func (rp *RawPanel) readFromPanel() error {
 		for {
 			rp.connection.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 			headerArray := make([]byte, 4)
-			_, err := io.ReadFull(rp.connection, headerArray) // Read 4 header bytes
+			_, err := io.ReadFull(rp.connection, headerArray[:1]) // Read 4 header bytes, the last three must follow the first one timely
+			if err == nil {
+				rp.connection.SetReadDeadline(time.Now().Add(2 * time.Second))
+				_, err = io.ReadFull(rp.connection, headerArray[1:])
+			}
 			if err != nil {
 				if err == io.EOF {
 					log.Errorln("Panel: " + rp.connection.RemoteAddr().String() + " disconnected")
@@ -236,12 +240,11 @@ func (rp *RawPanel) readFromPanel() error {
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
-						if outgoingMessage.FlowMessage != 2 { // ack
-							rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
-						}
+						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
 					}
 				} else {
 					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
+					break
 				}
 			}
 		}
-- 
2.43.0


From 8c4fd6a84ef43086a62fbd4520d5e084589c6d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 14/19] fix: connecting fails when the connection ends before
 the initial information arrived

---
 gorwp/rawpanel.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 63e8fee..8b5303e 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -126,26 +126,24 @@ func (rp *RawPanel) init(ctx context.Context) error {
 		},
 	}}
 
-	// Check for initialization, if we get it, return in channel:
-	initialized := make(chan bool, 1)
-	go func() {
-		for {
+	// Wait for either initialization - or return if the connection ended or after two seconds where it did not happen
+	timeout := time.After(2 * time.Second)
+	ticker := time.NewTicker(10 * time.Millisecond)
+	defer ticker.Stop()
+	for {
+		select {
+		case <-ctx.Done():
 			if rp.IsInitialized() {
-				initialized <- true
-				return
+				return nil
 			}
-			time.Sleep(time.Millisecond * 10)
+			return ctx.Err()
+		case <-ticker.C:
+			if rp.IsInitialized() {
+				return nil
+			}
+		case <-timeout:
+			return fmt.Errorf("panel did not respond to initialization timely")
 		}
-	}()
-
-	// Wait for either signal that init was OK - or return after two seconds where it did not happen
-	select {
-	case <-ctx.Done():
-		return nil
-	case <-initialized:
-		return nil
-	case <-time.After(2 * time.Second):
-		return fmt.Errorf("panel did not respond to initialization timely")
 	}
 }
 
-- 
2.43.0


From 78380d22d2eacfe501c910ec0aac91da5689a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 15/19] fix: events received before the panel disconnects are
 still dispatched

---
 gorwp/rawpanel.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 8b5303e..2afb64f 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -169,12 +169,17 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	}()
 
 	// Processing messages from panel. This is separate from sending, so that callbacks can send any number of messages to the panel:
+	processed := make(chan bool)
 	go func() {
+		defer close(processed)
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case messagesFromPanel := <-rp.fromPanel:
+			case messagesFromPanel, ok := <-rp.fromPanel:
+				if !ok { // Connection ended and everything received before that is processed
+					return
+				}
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
 		}
@@ -185,6 +190,8 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	log.Should(err)
 
 	rp.connection.Close()
+	close(rp.fromPanel)
+	<-processed
 	(*rp.cancel)()
 }
 
-- 
2.43.0


From 50096fc7c7a881191b61807a03940faa5c02901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 16/19] fix: colour indexes beyond the colour table render in
 the default colour instead of panicking

---
 rawpanelhelpers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 2a9d719..03e7898 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -219,7 +219,10 @@ func convertToColorRGB16bit(colorObj rwp.Color) int {
 			uint32((su.MapAndConstrainValue(int(colorObj.ColorRGB.Blue), 0, 0xFF, 0, 0x3)&0x3)<<0))
 	} else if colorObj.ColorIndex != nil {
 		outputInteger := uint32(colorObj.ColorIndex.Index & 0x1F)
-		output = su.Qint(len(buttonColors) > int(outputInteger), int(buttonColors[outputInteger]), int(buttonColors[0]))
+		output = int(buttonColors[0])
+		if int(outputInteger) < len(buttonColors) {
+			output = int(buttonColors[outputInteger])
+		}
 	}
 	return output
 }
-- 
2.43.0


From b99d8585d02f047dd7da5cc488f13f97e86f8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 17/19] fix: scale ranges wider than 31 bits no longer overflow
 in tile rendering

---
 rawpanelhelpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 03e7898..6e9b507 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -561,7 +561,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 
 				// Render scale line in bottom of tile
 				if a == 0 {
-					rangeDiff := int(textStruct.Scale.RangeHigh - textStruct.Scale.RangeLow)
+					rangeDiff := int(textStruct.Scale.RangeHigh) - int(textStruct.Scale.RangeLow)
 					if textStruct.Scale != nil && textStruct.Scale.ScaleType > 0 && rangeDiff != 0 {
 						disp.DrawRoundRect(0, activeHeight-1, int(width), 1, 0, WHITE) // Base rectangle
 
@@ -581,11 +581,11 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 						}
 
 						if textStruct.Scale.RangeHigh > textStruct.Scale.LimitHigh {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitHigh-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitHigh)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 						if textStruct.Scale.RangeLow < textStruct.Scale.LimitLow {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitLow-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitLow)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 					}
-- 
2.43.0


From 0e44ec7e1a8971309a0f2c46a1916f0811e12a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 18/19] fix: rendering a tile leaves the given text state
 unchanged

---
 rawpanelhelpers.go | 70 ++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6e9b507..05d4dc2 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -309,18 +309,11 @@ func TrimExplode(str string, token string) []string {
 // Port of similar function in UniSketch:
 func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink int, border int) monogfx.MonoImg { // Border and shrink shall come from info about the tile we render onto...
 
-	if textStruct.TextStyling == nil {
-		textStruct.TextStyling = &rwp.HWCText_TextStyle{}
-	}
-	if textStruct.TextStyling.TextFont == nil {
-		textStruct.TextStyling.TextFont = &rwp.HWCText_TextStyle_Font{}
-	}
-	if textStruct.TextStyling.TitleFont == nil {
-		textStruct.TextStyling.TitleFont = &rwp.HWCText_TextStyle_Font{}
-	}
-	if textStruct.Scale == nil {
-		textStruct.Scale = &rwp.HWCText_ScaleM{}
-	}
+	// Sub-messages may be absent (nil), the getters provide the defaults for those without changing the state we are given:
+	textStyling := textStruct.GetTextStyling()
+	textFont := textStyling.GetTextFont()
+	titleFont := textStyling.GetTitleFont()
+	scale := textStruct.GetScale()
 
 	const WHITE = true
 	const BLACK = false
@@ -342,17 +335,16 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 	disp.FillRect(0, 0, width, height, false) // Black out tile
 
 	// Defaults:
-	// TODO: Still I have seen panics over accessing nil-pointers for the next lines...=: (despite attempts in the first lines in this function to limit it.)
-	fontFaceContent := int(textStruct.TextStyling.TextFont.FontFace & 7) //  _extRetAdvancedFontFace & 7 - Default value
-	fontFaceTitle := int(textStruct.TextStyling.TitleFont.FontFace & 7)  // (_extRetAdvancedFontFace >> 3) & 7 - Default value
-	fontProportional := !textStruct.TextStyling.FixedWidth               // ((_extRetAdvancedFontFace >> 6) & 1) ? 0 : 1 - fixedWidthFonts
+	fontFaceContent := int(textFont.GetFontFace() & 7) //  _extRetAdvancedFontFace & 7 - Default value
+	fontFaceTitle := int(titleFont.GetFontFace() & 7)  // (_extRetAdvancedFontFace >> 3) & 7 - Default value
+	fontProportional := !textStyling.GetFixedWidth()   // ((_extRetAdvancedFontFace >> 6) & 1) ? 0 : 1 - fixedWidthFonts
 
-	fontTextSizeH := int(textStruct.TextStyling.TextFont.TextWidth & 3)    // (_extRetAdvancedFontSizes)&3 - Overrides if larger than zero
-	fontTextSizeV := int(textStruct.TextStyling.TextFont.TextHeight & 3)   // (_extRetAdvancedFontSizes >> 2) & 3- Overrides if larger than zero
-	titleTextSizeH := int(textStruct.TextStyling.TitleFont.TextWidth & 3)  // (_extRetAdvancedFontSizes >> 4) & 3 - Overrides if larger than zero
-	titleTextSizeV := int(textStruct.TextStyling.TitleFont.TextHeight & 3) // (_extRetAdvancedFontSizes >> 6) & 3- Overrides if larger than zero
+	fontTextSizeH := int(textFont.GetTextWidth() & 3)    // (_extRetAdvancedFontSizes)&3 - Overrides if larger than zero
+	fontTextSizeV := int(textFont.GetTextHeight() & 3)   // (_extRetAdvancedFontSizes >> 2) & 3- Overrides if larger than zero
+	titleTextSizeH := int(titleFont.GetTextWidth() & 3)  // (_extRetAdvancedFontSizes >> 4) & 3 - Overrides if larger than zero
+	titleTextSizeV := int(titleFont.GetTextHeight() & 3) // (_extRetAdvancedFontSizes >> 6) & 3- Overrides if larger than zero
 
-	disp.SetCharSpacingCompensation(byte(textStruct.TextStyling.ExtraCharacterSpacing & 3)) //  ((_extRetAdvancedSettings >> 2) & 3) - extraCharSpacing
+	disp.SetCharSpacingCompensation(byte(textStyling.GetExtraCharacterSpacing() & 3)) //  ((_extRetAdvancedSettings >> 2) & 3) - extraCharSpacing
 	disp.SetTextWrap(false)
 
 	activeWidth := su.Qint(border > 0, width-border*2, width-wShrink)
@@ -368,7 +360,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 		disp.SetFont(fontFaceContent, fontProportional)
 		disp.SetTextColor(true)
 
-		textSizeH := su.ConstrainValue(int(textStruct.TextStyling.UnformattedFontSize), 1, 4)
+		textSizeH := su.ConstrainValue(int(textStyling.GetUnformattedFontSize()), 1, 4)
 		disp.SetTextSize(su.Qint(fontTextSizeH > 0, fontTextSizeH, textSizeH), su.Qint(fontTextSizeV > 0, fontTextSizeV, textSizeH))
 
 		xOffset = su.ConstrainValue(activeWidth-disp.StrWidth(textStruct.Title), 0, activeWidth) >> 1
@@ -380,7 +372,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 		disp.SetFont(fontFaceContent, fontProportional)
 		disp.SetTextColor(true)
 
-		textSizeH := su.ConstrainValue(int(textStruct.TextStyling.UnformattedFontSize), 1, 4)
+		textSizeH := su.ConstrainValue(int(textStyling.GetUnformattedFontSize()), 1, 4)
 		disp.SetTextSize(su.Qint(fontTextSizeH > 0, fontTextSizeH, textSizeH), su.Qint(fontTextSizeV > 0, fontTextSizeV, textSizeH))
 
 		xOffset = su.ConstrainValue(activeWidth-disp.StrWidth(textStruct.Textline1), 0, activeWidth) >> 1
@@ -395,11 +387,11 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 	default:
 
 		// Write title bar
-		isTitle := len(textStruct.Title) > 0                                                                                                                                                   // Only render title if there is one...
-		titlePadding := su.Qint(textStruct.TextStyling.TitleBarPadding > 0, int(textStruct.TextStyling.TitleBarPadding), su.Qint(height < 32 && width != 256, 1, su.Qint(width == 256, 3, 1))) // Padding top/bottom of title area.
-		disp.SetFont(su.Qint(height < 32 && width != 256, 2, fontFaceTitle), fontProportional)                                                                                                 // Set font face for title bar. Force it to font 2 in case of mini tile (< 32 pixels and not a super wide title-only bar)
-		disp.SetTextSize(su.Qint(titleTextSizeH > 0, titleTextSizeH, su.Qint(width == 256, 2, 1)), su.Qint(titleTextSizeV > 0, titleTextSizeV, 1))                                             // Set wide font in case of super wide title bar.
-		titleHeight := (disp.LineHeight() - 1) + 2*uint32(titlePadding)                                                                                                                        // Height of title zone
+		isTitle := len(textStruct.Title) > 0                                                                                                                                       // Only render title if there is one...
+		titlePadding := su.Qint(textStyling.GetTitleBarPadding() > 0, int(textStyling.GetTitleBarPadding()), su.Qint(height < 32 && width != 256, 1, su.Qint(width == 256, 3, 1))) // Padding top/bottom of title area.
+		disp.SetFont(su.Qint(height < 32 && width != 256, 2, fontFaceTitle), fontProportional)                                                                                     // Set font face for title bar. Force it to font 2 in case of mini tile (< 32 pixels and not a super wide title-only bar)
+		disp.SetTextSize(su.Qint(titleTextSizeH > 0, titleTextSizeH, su.Qint(width == 256, 2, 1)), su.Qint(titleTextSizeV > 0, titleTextSizeV, 1))                                 // Set wide font in case of super wide title bar.
+		titleHeight := (disp.LineHeight() - 1) + 2*uint32(titlePadding)                                                                                                            // Height of title zone
 
 		if isTitle {
 			if !textStruct.SolidHeaderBar {
@@ -430,7 +422,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 		}
 
 		mainContentTopOffset := su.Qint(isTitle, int(titleHeight), 0)
-		mainContentAvailableHeight := activeHeight - mainContentTopOffset - su.Qint(textStruct.Scale.ScaleType > 0, 3, 0)
+		mainContentAvailableHeight := activeHeight - mainContentTopOffset - su.Qint(scale.GetScaleType() > 0, 3, 0)
 		mainContentMiddle := mainContentTopOffset + ((mainContentAvailableHeight + 1) >> 1)
 
 		// Rendering the tile content:
@@ -561,31 +553,31 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 
 				// Render scale line in bottom of tile
 				if a == 0 {
-					rangeDiff := int(textStruct.Scale.RangeHigh) - int(textStruct.Scale.RangeLow)
-					if textStruct.Scale != nil && textStruct.Scale.ScaleType > 0 && rangeDiff != 0 {
+					rangeDiff := int(scale.GetRangeHigh()) - int(scale.GetRangeLow())
+					if scale != nil && scale.GetScaleType() > 0 && rangeDiff != 0 {
 						disp.DrawRoundRect(0, activeHeight-1, int(width), 1, 0, WHITE) // Base rectangle
 
 						theValue := su.Qint(a == 0, int(textStruct.IntegerValue), int(textStruct.IntegerValue2))
-						wBar := su.ConstrainValue(int(float64(theValue-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+						wBar := su.ConstrainValue(int(float64(theValue-int(scale.GetRangeLow()))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 
-						if textStruct.Scale.ScaleType == 1 && wBar > 0 {
+						if scale.GetScaleType() == 1 && wBar > 0 {
 							disp.FillRoundRect(0, activeHeight-3, wBar, 3, 0, WHITE) // In-fill
 						}
-						if textStruct.Scale.ScaleType == 2 {
+						if scale.GetScaleType() == 2 {
 							disp.FillRoundRect(su.ConstrainValue(wBar-1, 0, activeWidth-3), activeHeight-3, 3, 3, 0, WHITE) // In-fill
 						}
-						if textStruct.Scale.ScaleType == 3 {
+						if scale.GetScaleType() == 3 {
 							bWidth := wBar - (activeWidth >> 1)
 							bX := su.Qint(bWidth < 0, su.ConstrainValue((activeWidth>>1)+bWidth, 0, activeWidth), (activeWidth >> 1))
 							disp.FillRoundRect(bX, activeHeight-3, su.ConstrainValue(int(math.Abs(float64(bWidth))), 1, (activeWidth>>1)), 3, 0, WHITE) // In-fill
 						}
 
-						if textStruct.Scale.RangeHigh > textStruct.Scale.LimitHigh {
-							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitHigh)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+						if scale.GetRangeHigh() > scale.GetLimitHigh() {
+							wBar = su.ConstrainValue(int(float64(int(scale.GetLimitHigh())-int(scale.GetRangeLow()))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
-						if textStruct.Scale.RangeLow < textStruct.Scale.LimitLow {
-							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitLow)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+						if scale.GetRangeLow() < scale.GetLimitLow() {
+							wBar = su.ConstrainValue(int(float64(int(scale.GetLimitLow())-int(scale.GetRangeLow()))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 					}
-- 
2.43.0


From 7336bc13fade3d3904c9658864b053bb9f366207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 19/19] fix: keep name space prefixes and all text of the base
 SVG in the composite SVG

---
 topology/svgicon.go | 55 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/topology/svgicon.go b/topology/svgicon.go
index 2bf9df2..760342e 100644
--- a/topology/svgicon.go
+++ b/topology/svgicon.go
@@ -6,7 +6,9 @@ package topology
 
 import (
 	"encoding/json"
+	encodingxml "encoding/xml"
 	"fmt"
+	"io"
 	"strconv"
 	"strings"
 
@@ -36,7 +38,7 @@ func GenerateCompositeSVG(topologyJSON string, topologySVG string, theMap map[ui
 func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map[uint32]uint32, showLabels, showHWCID, showType, showDisplaySize bool) *xml.Document {
 
 	// Parsing SVG file:
-	svgDoc, err := xmldom.ParseXML(topologySVG)
+	svgDoc, err := parseBaseSVG(topologySVG)
 	if err != nil {
 		log.Should(err)
 		return nil
@@ -216,6 +218,57 @@ func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map
 	return svgDoc
 }
 
+// Parses the base SVG. As opposed to xmldom.ParseXML() alone, name space prefixes (like in "xlink:href") and all text inside of elements is kept.
+func parseBaseSVG(topologySVG string) (*xml.Document, error) {
+	svgDoc, err := xmldom.ParseXML(topologySVG)
+	if err != nil {
+		return nil, err
+	}
+
+	// Build the elements again from the raw names:
+	svgDoc.Root = nil
+	var node *xml.Node
+	decoder := encodingxml.NewDecoder(strings.NewReader(topologySVG))
+	for {
+		token, err := decoder.RawToken()
+		if err == io.EOF {
+			return svgDoc, nil
+		}
+		if err != nil {
+			return nil, err
+		}
+		switch token := token.(type) {
+		case encodingxml.StartElement:
+			element := &xml.Node{Document: svgDoc, Parent: node, Name: nameWithPrefix(token.Name)}
+			for _, attr := range token.Attr {
+				element.Attributes = append(element.Attributes, &xml.Attribute{Name: nameWithPrefix(attr.Name), Value: attr.Value})
+			}
+			if node != nil {
+				node.Children = append(node.Children, element)
+			} else if svgDoc.Root == nil {
+				svgDoc.Root = element
+			}
+			node = element
+		case encodingxml.EndElement:
+			if node != nil {
+				node.Text = strings.TrimSpace(node.Text)
+				node = node.Parent
+			}
+		case encodingxml.CharData:
+			if node != nil {
+				node.Text += string(token)
+			}
+		}
+	}
+}
+
+func nameWithPrefix(name encodingxml.Name) string {
+	if name.Space != "" {
+		return name.Space + ":" + name.Local
+	}
+	return name.Local
+}
+
 func addFormatting(newHWc *xml.Node, id int) {
 	// There is some common conventional formatting regardless of rectangle / circle: Like fill and stroke color and stroke width.
 	newHWc.SetAttributeValue("fill", "#dddddd")
-- 
2.43.0

