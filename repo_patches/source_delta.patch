From 46c9a896c4855f32511a9e5a10bb91c0e309650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 01/49] fix: reject RTP packets that are too short instead of
 panicking

---
 net/rtp/packet.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 77c6af5..0fb964e 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,7 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errPacketTooShort = errors.New("Packet is too short")
 )
 
 var be = binary.BigEndian
@@ -48,6 +49,9 @@ type (
 
 // Unpack validates a packed RTP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	if (buf[0] & 0xC0) != RtpVersion {
 		return nil, errInvalidVersion
 	}
@@ -60,6 +64,9 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	off := HeaderSize
+	if len(buf) < off+int(packet.CC())*4 {
+		return nil, errPacketTooShort
+	}
 	packet.CSRC = make([]uint32, packet.CC())
 	for i := range packet.CSRC {
 		packet.CSRC[i] = be.Uint32(buf[off:])
@@ -67,9 +74,15 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	if packet.X() {
+		if len(buf) < off+4 {
+			return nil, errPacketTooShort
+		}
 		packet.XH = be.Uint16(buf[off:])
 		packet.XL = be.Uint16(buf[off+2:])
 		off += 4
+		if len(buf) < off+int(packet.XL)*4 {
+			return nil, errPacketTooShort
+		}
 		if packet.XL > 0 {
 			packet.XD = buf[off : off+int(packet.XL)*4]
 			off += int(packet.XL) * 4
-- 
2.43.0


From 8e173dc3b6843f8d80c9159303b7bb5869d808fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 02/49] fix: do not take RTP padding for payload

---
 net/rtp/packet.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 0fb964e..b4e8bbe 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,7 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errInvalidPadding = errors.New("Invalid padding of RTP packet")
 	errPacketTooShort = errors.New("Packet is too short")
 )
 
@@ -89,7 +90,16 @@ func Unpack(buf []byte) (*Packet, error) {
 		}
 	}
 
-	packet.PL = buf[off:]
+	end := len(buf)
+	if packet.P() {
+		// Last byte of padding counts padding bytes including itself.
+		pad := int(buf[end-1])
+		if pad == 0 || pad > end-off {
+			return nil, errInvalidPadding
+		}
+		end -= pad
+	}
+	packet.PL = buf[off:end]
 
 	//s.rtpChan <- packet
 	return packet, nil
-- 
2.43.0


From 83b5ef8c0776b659672e4c847a37327728310ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 03/49] fix: reject RTCP packets that are too short instead of
 panicking

---
 net/rtcp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index e61e349..a9451c6 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -187,6 +187,9 @@ type DataBYE struct {
 
 // Unpack validates a packed RTCP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	packet := &Packet{
 		VPC: buf[0],
 		PT:  buf[1],
-- 
2.43.0


From 542333bcf94679c1b279d24c6ff46b9dffbc999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 04/49] fix: reject malformed STAP and MTAP packets instead of
 panicking

---
 net/h264/packet.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b96cb4..8b39a3c 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -166,8 +166,8 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < 2 {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
-		if len(buf) < int(size+2) {
+		size := int(be.Uint16(buf))
+		if size < 1 || len(buf) < size+2 {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
@@ -182,22 +182,22 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	}
 	s.Don = be.Uint16(buf)
 	buf = buf[2:]
-	off := uint16(2 + 1 + 2) // size, donb, 16-bit ts offset
+	off := 2 + 1 + 2 // size, donb, 16-bit ts offset
 	if typ == typeMtap24 {
 		off++ // 24-bit ts offset instead of 16-bit
 	}
 	for {
-		if len(buf) < int(off) {
+		if len(buf) < off {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
+		size := int(be.Uint16(buf))
 		dond := uint16(buf[2])
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
 			tsoff = ts<<8 + uint32(buf[5])
 		}
-		if len(buf) < int(size+off) {
+		if size < 1 || len(buf) < size+off {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
-- 
2.43.0


From a79f9826d813e2543766ad65751c856086dee2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 05/49] fix: compute timestamp offset in MTAP24 from the packet

---
 net/h264/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b39a3c..3e4d0cc 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -195,7 +195,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
-			tsoff = ts<<8 + uint32(buf[5])
+			tsoff = tsoff<<8 + uint32(buf[5])
 		}
 		if size < 1 || len(buf) < size+off {
 			return errPacketTooShort
-- 
2.43.0


From ee0e760e00c2b778338a053f2bec155927e90fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 06/49] fix: DON of units in MTAP is the base plus the
 difference

---
 net/h264/packet.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 3e4d0cc..7902b0e 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -201,7 +201,6 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
-		s.Don++
 		buf = buf[size+off:]
 	}
 }
-- 
2.43.0


From b72b174242a9e425b505489fe2f7260f172c4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 07/49] fix: look for start codes only in Annex B payloads and
 keep all units of a payload

Splitting every RTP payload on start codes and dropping emulation prevention
bytes before it is parsed corrupts aggregation and fragmentation packets, and
units of an Annex B payload other than the last one were lost.
---
 net/h264/packet.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 7902b0e..76579e2 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -1,6 +1,7 @@
 package h264
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 )
@@ -139,7 +140,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 			Header: indicator,
 			Don:    don,
 			TS:     ts,
-			Data:   data,
+			Data:   append([]byte{}, data...),
 		},
 		Flags: header,
 	})
@@ -205,9 +206,22 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	}
 }
 
+// hasStartCode tells whether buffer is in Annex B format, i.e. starts with 3 or 4 byte long start code.
+func hasStartCode(buf []byte) bool {
+	return bytes.HasPrefix(buf, []byte{0, 0, 1}) || bytes.HasPrefix(buf, []byte{0, 0, 0, 1})
+}
+
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
-	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
+	s.Units = s.Units[:0]
+	if !hasStartCode(buf) {
+		err := s.parseNAL(buf, ts)
+		// Emulation prevention applies to whole units rather than to RTP payload they are packed into.
+		for i := range s.Units {
+			s.Units[i].Data = EBSPToRaw(s.Units[i].Data)
+		}
+		return err
+	}
 	for _, nal := range SplitAnnexB(buf) {
 		if err := s.parseNAL(nal, ts); err != nil {
 			return err
@@ -217,7 +231,6 @@ func (s *NALSink) Push(buf []byte, ts uint32) error {
 }
 
 func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
-	s.Units = s.Units[:0]
 	if len(buf) < 1 {
 		return errPacketTooShort
 	}
-- 
2.43.0


From 0b58033ad8f56439ae500a812d12b72583247a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 08/49] fix: do not combine fragments of different units

---
 net/h264/packet.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 76579e2..f3cb660 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -134,6 +134,10 @@ func NewNALSink() *NALSink {
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
 		s.Fragments = s.Fragments[:0]
+	} else if len(s.Fragments) == 0 || s.Fragments[0].TS != ts || s.Fragments[0].Type() != indicator&0x1F {
+		// First fragment of this unit or last fragment of the previous one is lost.
+		s.Fragments = s.Fragments[:0]
+		return
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
 		NALUnit: NALUnit{
@@ -152,6 +156,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 			data = append(data, frag.Data...)
 		}
 		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		s.Fragments = s.Fragments[:0]
 	}
 }
 
-- 
2.43.0


From 6975a095d40456565f3363b4fc7cc8881aa0c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 09/49] fix: take DON of a fragmented unit from its first
 fragment

---
 net/h264/packet.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index f3cb660..15f15c6 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -155,7 +155,8 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		// Only the first fragment carries DON, in FU-B.
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
 		s.Fragments = s.Fragments[:0]
 	}
 }
-- 
2.43.0


From 197af2beeeba986cf98272a469e081dda87d78c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 10/49] fix: reject picture parameter sets with impossible
 slice groups

They made ParsePPS panic or allocate up to 4 GB.
---
 net/h264/spspps.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 5ac7854..f5db0f3 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -1,9 +1,14 @@
 package h264
 
 import (
+	"errors"
 	"math"
 )
 
+var (
+	errInvalidParameter = errors.New("Invalid value in parameter set")
+)
+
 type (
 	// SPSInfo holds Sequence Parameter Set information parsed from out-of-band or in-band data in the stream.
 	// Most of the information here is unused but parsed anyway.  VUI parameters are no parsed at all.
@@ -291,6 +296,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.NumSliceGroupsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
+	if pps.NumSliceGroupsMinus1 > 7 {
+		return errInvalidParameter
+	}
 	if pps.NumSliceGroupsMinus1 > 0 {
 		if pps.SliceGroupMapType, err = br.ReadUnsignedGolomb(); err != nil {
 			return
@@ -327,8 +335,11 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 			if pps.PicSizeInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 				return
 			}
-			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))
+			if (uint64(pps.PicSizeInMapUnitsMinus1)+1)*uint64(bits) > uint64(br.Available()) {
+				return errInvalidParameter
+			}
+			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
 				if pps.SliceGroupID[i], err = br.ReadByteBits(bits); err != nil {
 					return
-- 
2.43.0


From 79065aa2085fd56397fca73553382cf755271611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 11/49] fix: do not panic on a media description without port

---
 net/sdp/packet.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 79d3df5..14fcd26 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -49,9 +49,11 @@ func Parse(buf []byte) (feeds []Media) {
 					case "video": // case "audio", "video":
 						feeds = append(feeds, Media{audio: fields[0] == "audio"})
 						m = &feeds[len(feeds)-1]
-						mfields := strings.Split(fields[1], " ")
-						if len(mfields) >= 3 {
-							m.PayloadType, _ = strconv.Atoi(mfields[2])
+						if len(fields) > 1 {
+							mfields := strings.Split(fields[1], " ")
+							if len(mfields) >= 3 {
+								m.PayloadType, _ = strconv.Atoi(mfields[2])
+							}
 						}
 					default:
 						m = nil
-- 
2.43.0


From c6421beb74eb418b90360445e190fdb249ee9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 12/49] fix: wrap first segment of the playlist around the ring

---
 net/hls/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 3704f21..94e4b6c 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -100,7 +100,7 @@ func (pl *Playlist) AddSegment(duration float64, length int64) {
 	pl.Segments[pl.Last].Position = pos
 	pl.Segments[pl.Last].Length = length
 	if pl.First == pl.Last {
-		pl.First++
+		pl.First = (pl.First + 1) % len(pl.Segments)
 	} else if pl.First < 0 {
 		pl.First = pl.Last
 	}
-- 
2.43.0


From 268cae8e3ffdd83d12e462f431dfc8d96fee8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 13/49] fix: let viewers fetch the playlist while segments are
 added

Rendering while AddSegment overwrites the oldest segment of the ring lists
segments out of order.
---
 net/hls/playlist.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 94e4b6c..42ad787 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -6,6 +6,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"sync"
 )
 
 const (
@@ -35,6 +36,8 @@ type (
 		SegSize  float64   // Desired segment size.
 		First    int       // First segment in the ring.
 		Last     int       // Last segment in the ring.
+
+		mu sync.RWMutex // Viewers fetch playlist while segments are being added.
 	}
 )
 
@@ -58,7 +61,9 @@ func NewPlaylist(uri string, name string, nseg int, size float64) (*Playlist, er
 }
 
 // String renders current state of Playlist as M3U8.
-func (pl Playlist) String() string {
+func (pl *Playlist) String() string {
+	pl.mu.RLock()
+	defer pl.mu.RUnlock()
 	buf := &bytes.Buffer{}
 	buf.WriteString("#EXTM3U\n")
 	buf.WriteString("#EXT-X-VERSION:")
@@ -91,6 +96,8 @@ func (pl Playlist) String() string {
 // AddSegment advances to next position in the ring and populates segment structure.
 // Position is calculates from previous segment or is 0 at the start.
 func (pl *Playlist) AddSegment(duration float64, length int64) {
+	pl.mu.Lock()
+	defer pl.mu.Unlock()
 	pos := int64(0)
 	if pl.Last >= 0 {
 		pos = pl.Segments[pl.Last].Position + pl.Segments[pl.Last].Length
-- 
2.43.0


From 4d8959001ffa8febef4f710dca236430901d802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 14/49] fix: receive interleaved packets and responses longer
 than 2048 bytes

---
 net/rtsp/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2b296d7..cac4554 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -44,6 +44,9 @@ type (
 	}
 )
 
+// Size of the read buffer.  Holds the largest interleaved packet and any sensible RTSP response.
+const readBufferSize = 128 * 1024
+
 var be = binary.BigEndian
 
 func isTimeoutOrTemp(err error) bool {
@@ -78,7 +81,7 @@ func Dial(uri string, proto int) (*Conn, error) {
 
 	c := &Conn{
 		conn:      conn,
-		rdr:       bufio.NewReaderSize(conn, 2048),
+		rdr:       bufio.NewReaderSize(conn, readBufferSize),
 		connected: false,
 		Data:      make(chan RawPacket, 20),
 		guid:      fmt.Sprintf("%016x", rand.Uint64()),
-- 
2.43.0


From 554a145aed7a3db150d89253371d1f8f7c1165b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 15/49] fix: do not lose the beginning of a packet or response
 when reading times out

---
 net/rtsp/connection.go | 41 +++++++++++++++++++++++++++++++++++++++++
 net/rtsp/session.go    | 11 +++++++++++
 2 files changed, 52 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index cac4554..6894c93 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -2,12 +2,15 @@ package rtsp
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"encoding/binary"
 	"fmt"
 	"math/rand"
 	"net"
 	"net/url"
+	"strconv"
+	"strings"
 	"time"
 )
 
@@ -177,6 +180,44 @@ func (c *Conn) ReadBytes(n int) ([]byte, error) {
 	return b, err
 }
 
+// awaitMessage waits until the buffer holds complete header and body of RTSP message.  It does not advance the reader.
+func (c *Conn) awaitMessage() error {
+	for n := 1; ; {
+		if _, err := c.Peek(n); err != nil {
+			return err
+		}
+		buf, _ := c.rdr.Peek(c.rdr.Buffered())
+		if size, ok := messageSize(buf); ok {
+			_, err := c.Peek(size)
+			return err
+		}
+		n = len(buf) + 1
+	}
+}
+
+// messageSize returns total size of RTSP message if its header is complete.
+func messageSize(buf []byte) (size int, ok bool) {
+	length := 0
+	for {
+		i := bytes.IndexByte(buf[size:], '\n')
+		if i == -1 {
+			return 0, false
+		}
+		line := strings.TrimSpace(string(buf[size : size+i]))
+		size += i + 1
+		if line == "" {
+			return size + length, true
+		}
+		keyval := strings.SplitN(line, ":", 2)
+		if len(keyval) == 2 && strings.EqualFold(strings.TrimSpace(keyval[0]), HeaderContentLength) {
+			var err error
+			if length, err = strconv.Atoi(strings.TrimSpace(keyval[1])); err != nil || length < 0 {
+				length = 0
+			}
+		}
+	}
+}
+
 // AddSink creates a listener on UDP port for RTP data or control channel.
 func (c *Conn) AddSink(ch byte, port int) error {
 	if c.addr == nil {
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5384c06..09d8931 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -172,6 +172,13 @@ func (s *Session) receive() error {
 		return err
 	}
 	if b[0] == '$' {
+		// Leave the packet in the buffer until it is there completely as reading can time out in the middle of it.
+		if b, err = s.Peek(4); err != nil {
+			return err
+		}
+		if _, err = s.Peek(4 + int(be.Uint16(b[2:]))); err != nil {
+			return err
+		}
 		s.Discard(1)
 		// RTSP allows for up to 8 transports so valid ch values are limited.
 		if ch, err = s.ReadByte(); err != nil {
@@ -219,6 +226,10 @@ func (s *Session) notify(stage int) {
 
 func (s *Session) handleRtsp() (err error) {
 	var rsp *Response
+	// Leave response in the buffer until it is there completely as reading can time out in the middle of it.
+	if err = s.awaitMessage(); err != nil {
+		return err
+	}
 	if rsp, err = Unpack(s.Conn); err != nil {
 		return err
 	}
-- 
2.43.0


From 389123ede0c93d709528fe32583f6469e388b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 16/49] fix: drop responses that match no request instead of
 ending the session

---
 net/rtsp/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 09d8931..35ceb1a 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -238,8 +238,8 @@ func (s *Session) handleRtsp() (err error) {
 
 	req, ok := s.dequeue(rsp.Cseq)
 	if !ok {
-		// FIXME: Did not find matching request.  Maybe just drop response.
-		return errBadResponse
+		// Drop response that does not match any outstanding request.
+		return nil
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
-- 
2.43.0


From 2b455c355c4048c4c81301a0cc9241784fa5f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 17/49] fix: do not set up streams from the body of a failed
 DESCRIBE

---
 net/rtsp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 35ceb1a..3e78e0e 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -274,7 +274,7 @@ func (s *Session) handleRtsp() (err error) {
 			return s.Describe()
 		}
 	case VerbDescribe:
-		if rsp.Body != nil {
+		if rsp.StatusCode == RtspOK && rsp.Body != nil {
 			if s.feeds, err = ParseFeeds(s.Proto, rsp.Body); err != nil {
 				return err
 			}
-- 
2.43.0


From 5252ac12d1f8c1539abde13a58e23809b68b4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 18/49] fix: do not take trailing bits of picture parameter set
 for its optional part

A set that ends with bits just before a byte boundary, like 68 CE 3C 80, was
rejected with an unexpected end of data, and the session ended with it.
---
 net/h264/bits.go   | 16 ++++++++++++++++
 net/h264/spspps.go |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 85581b4..6915999 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -156,6 +156,22 @@ func (r *BitReader) SkipGolomb() (err error) {
 	return r.SkipBits(zeroes)
 }
 
+// MoreData tells whether there is anything left in the bit stream besides stop bit and aligning zero-bits.
+func (r *BitReader) MoreData() bool {
+	last := uint(len(r.buffer))
+	for last > 0 && r.buffer[last-1] == 0 {
+		last--
+	}
+	if last == 0 {
+		return false
+	}
+	stop := uint(7)
+	for (r.buffer[last-1]>>(7-stop))&1 == 0 {
+		stop--
+	}
+	return r.byten*8+r.bitn < (last-1)*8+stop
+}
+
 // SkipTrailingBits ensures that remaining bits in the buffer consist of stop bit and
 // variable number of aligning zero-bits;
 func (r *BitReader) SkipTrailingBits() (err error) {
diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index f5db0f3..e0d870e 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -377,7 +377,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-	if br.Available() > 0 {
+	if br.MoreData() {
 		if pps.Transform8x8Mode, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From 96a4909de2f62697261a1777f25d1ac5a2f34144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 19/49] fix: do not end the session because of a parameter set
 in the description that cannot be parsed

---
 net/rtsp/feed.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/feed.go b/net/rtsp/feed.go
index d6e30a0..c5ecb84 100644
--- a/net/rtsp/feed.go
+++ b/net/rtsp/feed.go
@@ -1,6 +1,8 @@
 package rtsp
 
 import (
+	"log"
+
 	"github.com/aboukirev/ouro/net/h264"
 	"github.com/aboukirev/ouro/net/sdp"
 )
@@ -38,7 +40,8 @@ func (f *Feed) TransportSetup(value string) error {
 	// Parse sprop parameter sets from the SDP.
 	for _, b := range f.SpropParameterSets {
 		if err := f.Sets.ParseSprop(b); err != nil {
-			return err
+			// Not fatal, parameter sets also come in the stream.
+			log.Println(err)
 		}
 	}
 	f.IsSet = true
-- 
2.43.0


From 152ac5b23077d90a5d6678f9970d48e5da2f0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 20/49] fix: number, authorize, queue and send a request in one
 step

Commands issued concurrently with each other or with the session's own
requests could share a number, go out in the wrong order or get numbers
confused: a request repeated after a challenge took the number of the latest
command, and SETUP responses were matched by the wrong one.
---
 net/rtsp/session.go | 63 +++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 3e78e0e..e86b1aa 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -29,6 +29,7 @@ type (
 		verbs   map[string]struct{}
 		last    time.Time
 		cseq    int
+		wlock   sync.Mutex // Requests are sent in the order of their numbers
 	}
 )
 
@@ -63,14 +64,23 @@ func (s *Session) authorize(challenge string) error {
 	}
 	username := s.URL.User.Username()
 	password, _ := s.URL.User.Password()
+	s.Lock()
 	s.auth = digest.Authenticate(username, password)
+	s.Unlock()
 	return nil
 }
 
 func (s *Session) enqueue(req *Request) {
 	s.Lock()
 	defer s.Unlock()
-	req.Cseq = s.cseq
+	// Request that is sent again keeps its number.
+	if req.Cseq == 0 {
+		s.cseq++
+		req.Cseq = s.cseq
+	}
+	if s.auth != nil {
+		req.Auth = s.auth(req.Verb, nil)
+	}
 	req.Session = s.session
 	s.queue[req.Cseq] = req
 }
@@ -85,18 +95,10 @@ func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 	return
 }
 
-func (s *Session) command(verb, uri string, headers Headers) error {
-	if s.Conn == nil {
-		return errNoConnection
-	}
-	req := &Request{Verb: verb, URI: uri, Header: make(MessageHeader)}
-	for key, value := range headers {
-		req.Header.Set(key, value)
-	}
-	if s.auth != nil {
-		req.Auth = s.auth(req.Verb, nil)
-	}
-	s.cseq++
+// send queues and writes out a request.
+func (s *Session) send(req *Request) error {
+	s.wlock.Lock()
+	defer s.wlock.Unlock()
 	s.enqueue(req)
 	buf := req.Pack()
 
@@ -108,6 +110,24 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 	return nil
 }
 
+func (s *Session) command(verb, uri string, headers Headers) error {
+	_, err := s.request(verb, uri, headers)
+	return err
+}
+
+// request issues a command and returns its number.
+func (s *Session) request(verb, uri string, headers Headers) (int, error) {
+	if s.Conn == nil {
+		return 0, errNoConnection
+	}
+	req := &Request{Verb: verb, URI: uri, Header: make(MessageHeader)}
+	for key, value := range headers {
+		req.Header.Set(key, value)
+	}
+	err := s.send(req)
+	return req.Cseq, err
+}
+
 // Options handles client OPTIONS request in RTSP.
 func (s *Session) Options() error {
 	return s.command(VerbOptions, s.BaseURI, nil)
@@ -126,11 +146,11 @@ func (s *Session) Setup() error {
 		if !strings.HasPrefix(uri, "rtsp://") {
 			uri = s.BaseURI + "/" + uri
 		}
-		err := s.command(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
+		cseq, err := s.request(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
 			return err
 		}
-		s.feeds[i].cseq = s.cseq
+		s.feeds[i].cseq = cseq
 	}
 	return nil
 }
@@ -246,22 +266,15 @@ func (s *Session) handleRtsp() (err error) {
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-		req.Auth = s.auth(req.Verb, nil)
 		// Treat this as retransmit of the same message.
-		// If the following line is uncommented, it will break matching responses to transport setup commands based on checking CSeq.
-		// s.cseq++
-		s.enqueue(req)
-		buf := req.Pack()
-
-		log.Println(string(buf))
-
-		_, err = s.Write(buf)
-		return err
+		return s.send(req)
 	}
 
 	if sess := rsp.Header.Get(HeaderSession); sess != "" {
 		if fields := strings.Split(sess, ";"); len(fields) > 0 {
+			s.Lock()
 			s.session = fields[0]
+			s.Unlock()
 		}
 	}
 
-- 
2.43.0


From 05a7c6f39c97337a2430bca3a454f5c6ed76cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 21/49] fix: send nothing after a request that was cut short

---
 net/rtsp/connection.go | 7 ++++++-
 net/rtsp/session.go    | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 6894c93..afe40ce 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -129,7 +129,12 @@ func (c *Conn) Write(p []byte) (n int, err error) {
 	if c.Timeout > 0 {
 		c.conn.SetWriteDeadline(time.Now().Add(c.Timeout))
 	}
-	return c.conn.Write(p)
+	n, err = c.conn.Write(p)
+	if n > 0 && n < len(p) {
+		// The rest cannot follow and nothing else can follow an incomplete request.
+		c.conn.Close()
+	}
+	return n, err
 }
 
 // Peek returns the next n bytes without advancing the reader.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index e86b1aa..ae0846c 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -105,6 +105,7 @@ func (s *Session) send(req *Request) error {
 	log.Println(string(buf))
 
 	if _, err := s.Write(buf); err != nil {
+		s.dequeue(req.Cseq)
 		return err
 	}
 	return nil
-- 
2.43.0


From 680dc17dba67ee8fb18c6cf179be82d442decc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 22/49] fix: repeat keep-alive with the current session
 identifier

---
 net/rtsp/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index ae0846c..5348eca 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -82,6 +82,9 @@ func (s *Session) enqueue(req *Request) {
 		req.Auth = s.auth(req.Verb, nil)
 	}
 	req.Session = s.session
+	if req.Header.Get(HeaderSession) != "" {
+		req.Header.Set(HeaderSession, s.session)
+	}
 	s.queue[req.Cseq] = req
 }
 
-- 
2.43.0


From 8dfbba371ceeecc6ab248958d826d93681995611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 23/49] fix: authenticate each request with its own URI and
 nonce count

---
 net/rtsp/digest.go  | 24 +++++++++++++++++++++---
 net/rtsp/session.go | 19 ++++++++++---------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 619f4bb..a06ccde 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -130,6 +130,19 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	}
 }
 
+// Resume continues counting the uses of a nonce that has been challenged with again.
+func (d *Digest) Resume(prev *Digest) {
+	if prev != nil && prev.nonce == d.nonce {
+		d.count, d.cnonce = prev.count, prev.cnonce
+	}
+}
+
+// Authorize creates value for Authorization header of a single request.
+func (d *Digest) Authorize(username, password, verb, uri string) string {
+	d.uri = uri
+	return d.Authenticate(username, password)(verb, nil)
+}
+
 // Next increments session count and generates new cnonce.
 func (d *Digest) Next() {
 	if d.qop == "" {
@@ -137,6 +150,10 @@ func (d *Digest) Next() {
 	}
 	d.count++
 	d.nc = fmt.Sprintf("%08x", d.count)
+	if d.algorithm == "md5-sess" && d.cnonce != "" {
+		// Session key is made from the first cnonce.
+		return
+	}
 	b := make([]byte, 8)
 	rand.Read(b)
 	d.cnonce = hex.EncodeToString(b)[:8]
@@ -148,13 +165,14 @@ func (d *Digest) response(verb string, body []byte) string {
 	} else {
 		d.ha2 = md5hex(colonnade(verb, d.uri))
 	}
+	ha1 := d.ha1
 	out := strings.Builder{}
 	if d.qop == "" {
 		out.WriteString(", response=\"")
-		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
+		out.WriteString(md5hex(colonnade(ha1, d.nonce, d.ha2)))
 	} else {
 		if d.algorithm == "md5-sess" {
-			d.ha1 = md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
+			ha1 = md5hex(colonnade(ha1, d.nonce, d.cnonce))
 		}
 		out.WriteString(", qop=\"")
 		out.WriteString(d.qop)
@@ -163,7 +181,7 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", cnonce=\"")
 		out.WriteString(d.cnonce)
 		out.WriteString("\", response=\"")
-		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
+		out.WriteString(md5hex(colonnade(ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
 	}
 	out.WriteByte('"')
 	return out.String()
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5348eca..5e5bfba 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -18,10 +18,10 @@ type (
 	Session struct {
 		*Conn
 		sync.Mutex
-		stage   int        // Current stage.
-		State   chan int   // Stage signaller.
-		auth    DigestAuth // Callback function to calculate digest authentication for a given verb/method.
-		queue   Queue      // RTSP requests that we are waiting responses for
+		stage   int      // Current stage.
+		State   chan int // Stage signaller.
+		digest  *Digest  // Latest challenge, to calculate authentication for every request.
+		queue   Queue    // RTSP requests that we are waiting responses for
 		done    chan struct{}
 		session string
 		feeds   []*Feed
@@ -62,10 +62,9 @@ func (s *Session) authorize(challenge string) error {
 	if s.URL.User == nil {
 		return errNoCredentials
 	}
-	username := s.URL.User.Username()
-	password, _ := s.URL.User.Password()
 	s.Lock()
-	s.auth = digest.Authenticate(username, password)
+	digest.Resume(s.digest)
+	s.digest = digest
 	s.Unlock()
 	return nil
 }
@@ -78,8 +77,10 @@ func (s *Session) enqueue(req *Request) {
 		s.cseq++
 		req.Cseq = s.cseq
 	}
-	if s.auth != nil {
-		req.Auth = s.auth(req.Verb, nil)
+	if s.digest != nil {
+		username := s.URL.User.Username()
+		password, _ := s.URL.User.Password()
+		req.Auth = s.digest.Authorize(username, password, req.Verb, req.URI)
 	}
 	req.Session = s.session
 	if req.Header.Get(HeaderSession) != "" {
-- 
2.43.0


From 23ce8c2e5091c8a8ca0546c76c041c32df85c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 24/49] fix: do not split a challenge inside quoted values

---
 net/rtsp/digest.go | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index a06ccde..7a21096 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -53,17 +53,13 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	} else {
 		return nil, ErrAuthMalformedChallenge
 	}
-	parts := strings.Split(challenge, ",")
-	for i := 0; i < len(parts); i++ {
-		parts[i] = strings.TrimSpace(parts[i])
-		if len(parts[i]) == 0 {
-			continue
-		}
-
-		attr, val := parts[i], ""
+	for _, part := range splitQuoted(challenge) {
+		attr, val := strings.TrimSpace(part), ""
 		if j := strings.Index(attr, "="); j > 0 {
-			attr, val = strings.ToLower(attr[:j]), attr[j+1:]
-			val = strings.Trim(val, "\"")
+			attr, val = strings.ToLower(strings.TrimSpace(attr[:j])), strings.TrimSpace(attr[j+1:])
+			if len(val) > 1 && val[0] == '"' && val[len(val)-1] == '"' {
+				val = val[1 : len(val)-1]
+			}
 			switch attr {
 			case "realm":
 				d.realm = val
@@ -79,12 +75,9 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 				d.algorithm = strings.ToLower(val)
 			case "qop":
 				vals := strings.Split(val, ",")
-				if len(vals) > 0 {
-					d.qop = strings.ToLower(vals[0])
-				}
-			default:
-				return nil, ErrAuthMalformedChallenge
+				d.qop = strings.ToLower(strings.TrimSpace(vals[0]))
 			}
+			// Any other directive is ignored according to RFC 2617.
 		}
 	}
 	if d.nonce != "" {
@@ -95,6 +88,27 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	return d, nil
 }
 
+// splitQuoted splits the list on commas outside of quoted strings.
+func splitQuoted(list string) (parts []string) {
+	start, quoted := 0, false
+	for i := 0; i < len(list); i++ {
+		switch list[i] {
+		case '\\':
+			if quoted {
+				i++
+			}
+		case '"':
+			quoted = !quoted
+		case ',':
+			if !quoted {
+				parts = append(parts, list[start:i])
+				start = i + 1
+			}
+		}
+	}
+	return append(parts, list[start:])
+}
+
 // Authenticate creates value for Authorization header.
 func (d *Digest) Authenticate(username, password string) DigestAuth {
 	out := strings.Builder{}
-- 
2.43.0


From 40ecaeb7bd96ca420c1fb31edfef9906553029ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 25/49] fix: do not repeat a refused request without end

---
 net/rtsp/definitions.go | 1 +
 net/rtsp/message.go     | 1 +
 net/rtsp/session.go     | 6 ++++++
 3 files changed, 8 insertions(+)

diff --git a/net/rtsp/definitions.go b/net/rtsp/definitions.go
index eb5322c..1c67027 100644
--- a/net/rtsp/definitions.go
+++ b/net/rtsp/definitions.go
@@ -129,6 +129,7 @@ var (
 	errInvalidStatus     = errors.New("Missing or malformed status code")
 	errNotSupported      = errors.New("Unsupported protocol version")
 	errNoCredentials     = errors.New("Resource URI has no credentials to perform authorization")
+	errRefused           = errors.New("Credentials are refused")
 	errOutOfMemory       = errors.New("Out of memory")
 	errBadResponse       = errors.New("Bad or unexpected response")
 	errNoConnection      = errors.New("Connection to RTSP source is required")
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 168021b..9bf7a8a 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -22,6 +22,7 @@ type (
 		Auth    string
 		Session string
 		Header  MessageHeader
+		tries   int // Challenges received for this request
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5e5bfba..fe1bada 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -13,6 +13,9 @@ var (
 	keepAliveTimeout = time.Second * 2
 )
 
+// Number of times a request is sent again in answer to a challenge before giving up.
+const maxChallenges = 4
+
 type (
 	// Session maintains RTSP session and workflow.
 	Session struct {
@@ -268,6 +271,9 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
+		if req.tries++; req.tries > maxChallenges {
+			return errRefused
+		}
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-- 
2.43.0


From 2039ff0d607050dac9632fe55845f6632e9c4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 26/49] fix: receive packets of UDP transport

---
 net/rtsp/connection.go | 27 +++++++++++++--------------
 net/rtsp/session.go    |  9 +++++++--
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index afe40ce..7c2c97f 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -226,13 +226,15 @@ func messageSize(buf []byte) (size int, ok bool) {
 // AddSink creates a listener on UDP port for RTP data or control channel.
 func (c *Conn) AddSink(ch byte, port int) error {
 	if c.addr == nil {
-		var err error
-		if c.addr, err = net.ResolveIPAddr("ip", "127.0.0.1"); err != nil {
-			return err
+		// Media comes to the same address as RTSP.
+		local, ok := c.conn.LocalAddr().(*net.TCPAddr)
+		if !ok {
+			return errNoConnection
 		}
+		c.addr = &net.IPAddr{IP: local.IP, Zone: local.Zone}
 	}
 
-	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: ""})
+	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: c.addr.Zone})
 	if err != nil {
 		return err
 	}
@@ -250,22 +252,20 @@ func (c *Conn) Start() {
 	for _, s := range c.sinks {
 		fmt.Printf("Reading from UDP sink %d", s.ch)
 		go func(sink udpsink) {
-			var buf [2048]byte
+			var buf [65536]byte
 			for {
-				select {
-				case <-sink.done:
-					break
-				}
 				n, _, err := sink.ReadFromUDP(buf[:])
 				if err == nil {
 					select {
 					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:
+					case <-sink.done:
+						return
 					}
 				} else if !isTimeoutOrTemp(err) {
-					break
+					sink.Close()
+					return
 				}
 			}
-			sink.Close()
 			// TODO: Notify caller about closed connection.
 		}(s)
 	}
@@ -274,9 +274,8 @@ func (c *Conn) Start() {
 // Stop tells all UDP listeners to suspend processing and close.  The list of listerners is reset.
 func (c *Conn) Stop() {
 	for _, sink := range c.sinks {
-		select {
-		case sink.done <- 1:
-		}
+		close(sink.done)
+		sink.Close()
 	}
 	c.sinks = c.sinks[:0]
 }
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index fe1bada..d52853c 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -328,15 +328,20 @@ func (s *Session) handleSetup(rsp *Response) (err error) {
 		for _, f := range s.feeds {
 			if f.cseq == rsp.Cseq {
 				s.feedidx++
+				// We listen on the ports that we have announced no matter what the answer says.
+				port := f.transp.ClientPort
 				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
 					return err
 				}
 				if !f.transp.IsTCP {
 					ch := byte(s.feedidx) * 2
-					if err := s.AddSink(ch, f.transp.Port.One); err != nil {
+					if f.transp.IsMulticast {
+						port = f.transp.Port
+					}
+					if err := s.AddSink(ch, port.One); err != nil {
 						return err
 					}
-					if err := s.AddSink(ch+1, f.transp.Port.Two); err != nil {
+					if err := s.AddSink(ch+1, port.Two); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 67ddc27f1831475a0adf044bd1d2e5f32e36d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 27/49] fix: give every session its own UDP ports

---
 net/rtsp/transport.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 64a736e..df7e726 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -19,8 +20,13 @@ var (
 	ErrMalformedTransport = errors.New("Malformed value of Transport header")
 
 	firstUDPPort = 50000
+
+	lastUDPPair uint32 // Number of UDP port pairs handed out so far
 )
 
+// Pairs of UDP ports are reused after this many.
+const maxUDPPairs = 7000
+
 type (
 	// Pair represents a pair of channels or ports.
 	Pair struct {
@@ -84,7 +90,8 @@ func NewTransport(proto int, port int) *Transport {
 		t.IsInterleaved = true
 		t.Interleave = Pair{One: port, Two: port + 1}
 	case ProtoUnicast:
-		port = firstUDPPort + port
+		// Ports are not shared with other streams and sessions.
+		port = firstUDPPort + int((atomic.AddUint32(&lastUDPPair, 1)-1)%maxUDPPairs)*2
 		t.ClientPort = Pair{One: port, Two: port + 1}
 	case ProtoMulticast:
 		t.IsMulticast = true
-- 
2.43.0


From fa5f5c0edf5097517efe2105528dab2eba1f1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 28/49] fix: close connections and end background tasks when
 the session ends

---
 net/rtsp/session.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index d52853c..06fd1ac 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -42,6 +42,7 @@ func NewSession() *Session {
 		State: make(chan int),
 		stage: StageInit,
 		queue: make(Queue),
+		done:  make(chan struct{}),
 		verbs: make(map[string]struct{}, 11),
 	}
 }
@@ -54,7 +55,10 @@ func (s *Session) Open(uri string, proto int) error {
 	}
 	s.Conn = conn
 	go s.process()
-	return s.Options()
+	if err = s.Options(); err != nil {
+		conn.conn.Close()
+	}
+	return err
 }
 
 func (s *Session) authorize(challenge string) error {
@@ -228,22 +232,30 @@ func (s *Session) receive() error {
 }
 
 func (s *Session) process() {
-	for {
-		select {
-		case <-s.done:
+	defer s.release()
+	for s.stage != StageDone {
+		if err := s.KeepAlive(); err != nil {
+			log.Println(err)
+		}
+		if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {
+			log.Println(err)
 			return
-		default:
-			if err := s.KeepAlive(); err != nil && s.stage == StageDone {
-				return
-			}
-			if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {
-				log.Println(err)
-				return
-			}
 		}
 	}
 }
 
+// release closes connections of the session when it has ended.
+func (s *Session) release() {
+	s.conn.Close()
+	s.Stop()
+	close(s.done)
+}
+
+// Done returns a channel that is closed when the session has ended and its connections are closed.
+func (s *Session) Done() <-chan struct{} {
+	return s.done
+}
+
 // Notify about stage change.
 func (s *Session) notify(stage int) {
 	s.stage = stage
-- 
2.43.0


From 40c4db005d852fbd6bdb1614343afaa50c36cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 29/49] fix: do not send an empty session identifier

---
 net/rtsp/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 06fd1ac..4b003b7 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -190,6 +190,9 @@ func (s *Session) KeepAlive() error {
 		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
 			s.last = time.Now()
 			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
+			if s.session == "" {
+				return s.Options()
+			}
 			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: s.session})
 		}
 	}
-- 
2.43.0


From f34824549b7b2a3a07e3720cda33cb051cd73675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 30/49] fix: keep running after an undecodable media packet

---
 cmd/ouro/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 6f6afa7..4485564 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -59,7 +59,7 @@ func handleStates(s *rtsp.Session) {
 				var err error
 				if p, err = rtp.Unpack(pkt.Payload); err != nil {
 					log.Println(err)
-					return
+					continue
 				}
 			
 				log.Printf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d\r\n", pkt.Channel, p.PT(), p.CC(), p.M(), p.SN)
@@ -70,7 +70,7 @@ func handleStates(s *rtsp.Session) {
 					if err != nil {
 						log.Println(err)
 						// log.Println(hex.Dump(buf))
-						return
+						continue
 					}
 					for _, nal := range nalsink.Units {
 						log.Printf("NAL Zero=%t, RefIdc=%d, Type=%d, Size=%d\r\n", nal.ZeroBit(), nal.RefIdc(), nal.Type(), len(nal.Data))
@@ -85,7 +85,7 @@ func handleStates(s *rtsp.Session) {
 				if p, err = rtcp.Unpack(pkt.Payload); err != nil {
 					log.Println(err)
 					// log.Panicln(hex.Dump(pkt.Payload))
-					return
+					continue
 				}
 			
 				log.Printf("RTCP [%d] PT=%d, LN=%d, C=%d\r\n", pkt.Channel, p.PT, p.LN, p.C())
-- 
2.43.0


From 21f012f7e612a6a3e2bd8b83493a7f2f50077287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 31/49] fix: exit when the session has ended

---
 cmd/ouro/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 4485564..d9c0704 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -53,6 +53,11 @@ func handleStates(s *rtsp.Session) {
 			default:
 				log.Printf("Stage: %d\n", state)
 			}
+		case <- s.Done():
+			if state != rtsp.StageDone {
+				log.Fatal("Session ended unexpectedly")
+			}
+			return
 		case pkt := <- s.Data:
             if pkt.Channel % 2 == 0 {
 				var p *rtp.Packet
-- 
2.43.0


From 8b0e152278d1974acd1a37eb8d48d33ac5ade39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 32/49] fix: drop zero bytes that trail a unit in Annex B
 streams

---
 net/h264/annexb.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 565f566..6d3e54a 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -1,5 +1,7 @@
 package h264
 
+import "bytes"
+
 const shortStartCodeLen = 3
 
 // SplitAnnexB attempts to recognize a sequence of NALUs separated by start codes in the buffer.
@@ -14,12 +16,8 @@ func SplitAnnexB(buf []byte) [][]byte {
 			off += 3
 		} else if buf[off+2] == 1 && buf[off+1] == 0 && buf[off] == 0 {
 			// Do not insert 0-length slices.
-			if off > 0 && buf[off-1] == 0 {
-				if off > prev+1 {
-					units = append(units, EBSPToRaw(buf[prev:off-1]))
-				}
-			} else if off > prev {
-				units = append(units, EBSPToRaw(buf[prev:off]))
+			if unit := trimZeros(buf[prev:off]); len(unit) > 0 {
+				units = append(units, EBSPToRaw(unit))
 			}
 			off += 3
 			prev = off
@@ -27,10 +25,15 @@ func SplitAnnexB(buf []byte) [][]byte {
 			off++
 		}
 	}
-	units = append(units, EBSPToRaw(buf[prev:]))
+	units = append(units, EBSPToRaw(trimZeros(buf[prev:])))
 	return units
 }
 
+// trimZeros removes zero bytes that follow a unit: unit itself never ends with a zero byte.
+func trimZeros(buf []byte) []byte {
+	return bytes.TrimRight(buf, "\x00")
+}
+
 // EBSPToRaw removes emulation prevention bytes from the buffer transforming
 // Encapsulated Byte Sequence Payload (EBSP) into Raw Byte Sequence Payload (RBSP).
 func EBSPToRaw(buf []byte) []byte {
-- 
2.43.0


From 6ab7bda1da5eea497587fb7a20638cfeb25c2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 33/49] fix: let rejected payload have no effect on units that
 follow

---
 net/h264/packet.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 15f15c6..78f3417 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -218,8 +218,18 @@ func hasStartCode(buf []byte) bool {
 }
 
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
+// Payload that is rejected with an error has no effect on units that follow.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
 	s.Units = s.Units[:0]
+	don, frags := s.Don, append([]NALFragment{}, s.Fragments...)
+	err := s.pushPayload(buf, ts)
+	if err != nil {
+		s.Don, s.Fragments = don, frags
+	}
+	return err
+}
+
+func (s *NALSink) pushPayload(buf []byte, ts uint32) error {
 	if !hasStartCode(buf) {
 		err := s.parseNAL(buf, ts)
 		// Emulation prevention applies to whole units rather than to RTP payload they are packed into.
-- 
2.43.0


From d2a2085239f39cf9c5186df537e6752748c9c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 34/49] fix: repeat keep-alive with the session identifier
 given in the meantime

---
 net/rtsp/message.go | 17 +++++++++--------
 net/rtsp/session.go |  9 +++------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 9bf7a8a..5ea6af1 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -16,13 +16,14 @@ type (
 
 	// Request encapsulates verb, uri, and headers for RTSP command.
 	Request struct {
-		Verb    string
-		Cseq    int
-		URI     string
-		Auth    string
-		Session string
-		Header  MessageHeader
-		tries   int // Challenges received for this request
+		Verb      string
+		Cseq      int
+		URI       string
+		Auth      string
+		Session   string
+		Header    MessageHeader
+		tries     int  // Challenges received for this request
+		keepAlive bool // OPTIONS that is meant for the session
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
@@ -85,7 +86,7 @@ func (r *Request) Pack() []byte {
 		buf.WriteString(val)
 		buf.Write(crnl)
 	}
-	if r.Session != "" && r.Verb != VerbOptions && r.Verb != VerbSetup {
+	if r.Session != "" && (r.keepAlive || r.Verb != VerbOptions) && r.Verb != VerbSetup {
 		buf.WriteString(HeaderSession)
 		buf.Write(colsp)
 		buf.WriteString(r.Session)
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 4b003b7..fa2eab1 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -90,9 +90,6 @@ func (s *Session) enqueue(req *Request) {
 		req.Auth = s.digest.Authorize(username, password, req.Verb, req.URI)
 	}
 	req.Session = s.session
-	if req.Header.Get(HeaderSession) != "" {
-		req.Header.Set(HeaderSession, s.session)
-	}
 	s.queue[req.Cseq] = req
 }
 
@@ -190,10 +187,10 @@ func (s *Session) KeepAlive() error {
 		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
 			s.last = time.Now()
 			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
-			if s.session == "" {
-				return s.Options()
+			if s.Conn == nil {
+				return errNoConnection
 			}
-			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: s.session})
+			return s.send(&Request{Verb: VerbOptions, URI: s.BaseURI, Header: make(MessageHeader), keepAlive: true})
 		}
 	}
 	return nil
-- 
2.43.0


From b38dc761280465557a4437c1ea5a23f4b6e3301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 35/49] fix: close connection when HTTP tunnel is refused

---
 net/rtsp/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 7c2c97f..b1cdfff 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -98,10 +98,12 @@ func Dial(uri string, proto int) (*Conn, error) {
 		// Issue GET and read response.  Afterwards we'll be getting incoming RTSP/RTP/RTCP responses in a stream.
 		cmd := ConnectHTTP("GET", c.BaseURI, c.guid)
 		if _, err := c.conn.Write(cmd); err != nil {
+			c.conn.Close()
 			return nil, err
 		}
 		// Read response but only headers and prepare to receive content stream of unknown length.
 		if err := ReceiveHTTP(c); err != nil {
+			c.conn.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From 5d2c19411929ce312b348d54e1155b01d0ce631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 36/49] fix: let session be opened again after it has failed or
 ended

---
 net/rtsp/session.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index fa2eab1..193678e 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -47,18 +47,38 @@ func NewSession() *Session {
 	}
 }
 
-// Open to an RTSP source.
+// Open to an RTSP source.  Session that could not be opened or has ended (see Done) can be opened again.
 func (s *Session) Open(uri string, proto int) error {
 	conn, err := Dial(uri, proto)
 	if err != nil {
 		return err
 	}
+	s.reset()
 	s.Conn = conn
-	go s.process()
 	if err = s.Options(); err != nil {
 		conn.conn.Close()
+		return err
+	}
+	go s.process()
+	return nil
+}
+
+// reset forgets what belongs to an earlier connection of the session, if any.
+func (s *Session) reset() {
+	s.Lock()
+	defer s.Unlock()
+	s.stage = StageInit
+	s.queue = make(Queue)
+	s.digest = nil
+	s.session = ""
+	s.feeds = nil
+	s.feedidx = 0
+	s.last = time.Time{}
+	select {
+	case <-s.done:
+		s.done = make(chan struct{})
+	default:
 	}
-	return err
 }
 
 func (s *Session) authorize(challenge string) error {
-- 
2.43.0


From a77cf9ab27298666f2f798bff43688d03cc220ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 37/49] fix: do not double the slash in control URI of a stream

---
 net/rtsp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 193678e..c815ae0 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -173,7 +173,7 @@ func (s *Session) Setup() error {
 		// Setup is done on a different URI that accounts for Control in media.
 		uri := s.feeds[i].Control
 		if !strings.HasPrefix(uri, "rtsp://") {
-			uri = s.BaseURI + "/" + uri
+			uri = strings.TrimSuffix(s.BaseURI, "/") + "/" + uri
 		}
 		cseq, err := s.request(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
-- 
2.43.0


From 00d5273f5126330b899c7f096b5c18e809146af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 38/49] fix: do not set streams up again when description is
 repeated

---
 net/rtsp/session.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index c815ae0..1cf5859 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -330,7 +330,8 @@ func (s *Session) handleRtsp() (err error) {
 			return s.Describe()
 		}
 	case VerbDescribe:
-		if rsp.StatusCode == RtspOK && rsp.Body != nil {
+		// Streams are only set up once.
+		if s.feeds == nil && rsp.StatusCode == RtspOK && rsp.Body != nil {
 			if s.feeds, err = ParseFeeds(s.Proto, rsp.Body); err != nil {
 				return err
 			}
-- 
2.43.0


From 17a98239b272e336e948472123c020a31661c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 39/49] fix: accept transport with destination that has no
 address

---
 net/rtsp/transport.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index df7e726..fc69475 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -178,10 +178,9 @@ func (t *Transport) Parse(value string) (err error) {
 		case "multicast":
 			t.IsMulticast = true
 		case "destination":
+			// The address is optional.
 			if len(keyval) == 2 {
 				t.Destination = keyval[1]
-			} else {
-				err = ErrMalformedTransport
 			}
 		case "source":
 			if len(keyval) == 2 {
-- 
2.43.0


From bc18bbd5edeb8a4141997c005485997afecf62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 40/49] fix: return an error from commands of a session that is
 not open

---
 net/rtsp/session.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 1cf5859..5cda1c0 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -157,14 +157,22 @@ func (s *Session) request(verb, uri string, headers Headers) (int, error) {
 	return req.Cseq, err
 }
 
+// base returns URI that commands are for.  There is none until session has been opened.
+func (s *Session) base() string {
+	if s.Conn == nil {
+		return ""
+	}
+	return s.BaseURI
+}
+
 // Options handles client OPTIONS request in RTSP.
 func (s *Session) Options() error {
-	return s.command(VerbOptions, s.BaseURI, nil)
+	return s.command(VerbOptions, s.base(), nil)
 }
 
 // Describe handles DESCRIBE request in RTSP and parses SDP data in response.
 func (s *Session) Describe() error {
-	return s.command(VerbDescribe, s.BaseURI, Headers{HeaderAccept: "application/sdp"})
+	return s.command(VerbDescribe, s.base(), Headers{HeaderAccept: "application/sdp"})
 }
 
 // Setup issues SETUP command for all playable media.
@@ -186,18 +194,18 @@ func (s *Session) Setup() error {
 
 // Play handles client PLAY request in RTSP.
 func (s *Session) Play() error {
-	return s.command(VerbPlay, s.BaseURI, nil)
+	return s.command(VerbPlay, s.base(), nil)
 }
 
 // Pause handles client PAUSE request in RTSP.
 func (s *Session) Pause() error {
-	return s.command(VerbPause, s.BaseURI, nil)
+	return s.command(VerbPause, s.base(), nil)
 }
 
 // Teardown handles client TEARDOWN request in RTSP.
 func (s *Session) Teardown() error {
 	// s.notify(StageDone)
-	return s.command(VerbTeardown, s.BaseURI, nil)
+	return s.command(VerbTeardown, s.base(), nil)
 }
 
 // KeepAlive executes OPTIONS on a regular basis to keep connection alive.
-- 
2.43.0


From 9728ceb52c67765bf24833d787256f1d5d23707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 41/49] fix: keep spaces and fragments out of request URIs

---
 net/rtsp/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index b1cdfff..4162809 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -81,6 +81,9 @@ func Dial(uri string, proto int) (*Conn, error) {
 
 	url2 := *url1
 	url2.User = nil
+	// Neither a space nor a fragment can be in a request line.
+	url2.Fragment, url2.RawFragment = "", ""
+	url2.RawQuery = strings.Replace(url2.RawQuery, " ", "%20", -1)
 
 	c := &Conn{
 		conn:      conn,
-- 
2.43.0


From 4e55b71d2021dea829000ab0b0492cb1a0da11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 42/49] fix: match authentication schemes regardless of case

---
 net/rtsp/digest.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 7a21096..c503adf 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -44,13 +44,18 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	d := &Digest{count: 0, uri: uri}
 	d.algorithm = "md5"
 	challenge = strings.TrimSpace(challenge)
-	if strings.HasPrefix(challenge, "Digest ") {
+	// Name of the scheme is case-insensitive.
+	scheme := strings.SplitN(challenge, " ", 2)
+	if len(scheme) != 2 {
+		return nil, ErrAuthMalformedChallenge
+	}
+	challenge = scheme[1]
+	switch strings.ToLower(scheme[0]) {
+	case "digest":
 		d.basic = false
-		challenge = challenge[7:]
-	} else if strings.HasPrefix(challenge, "Basic ") {
+	case "basic":
 		d.basic = true
-		challenge = challenge[6:]
-	} else {
+	default:
 		return nil, ErrAuthMalformedChallenge
 	}
 	for _, part := range splitQuoted(challenge) {
-- 
2.43.0


From 013006a75de1a63c2357935a2d5a13e628d55a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 43/49] fix: quote user name in digest authentication

---
 net/rtsp/digest.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index c503adf..ac90d3a 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -128,7 +128,7 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	d.username = username
 	d.ha1 = md5hex(colonnade(username, d.realm, password))
 	out.WriteString("Digest username=\"")
-	out.WriteString(d.username)
+	out.WriteString(quotable(d.username))
 	out.WriteString("\", realm=\"")
 	out.WriteString(d.realm)
 	out.WriteString("\", nonce=\"")
@@ -149,6 +149,21 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	}
 }
 
+// quotable escapes what cannot be in a quoted string as is.  Control characters cannot be in there at all.
+func quotable(val string) string {
+	out := strings.Builder{}
+	for i := 0; i < len(val); i++ {
+		switch {
+		case val[i] < ' ' || val[i] == 0x7f:
+			continue
+		case val[i] == '"' || val[i] == '\\':
+			out.WriteByte('\\')
+		}
+		out.WriteByte(val[i])
+	}
+	return out.String()
+}
+
 // Resume continues counting the uses of a nonce that has been challenged with again.
 func (d *Digest) Resume(prev *Digest) {
 	if prev != nil && prev.nonce == d.nonce {
-- 
2.43.0


From acf436d1a19d63e7aa77de23afec94b41f93fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 44/49] fix: skip unsupported challenges when there are several

---
 net/rtsp/message.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 5ea6af1..640cc1e 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -153,7 +153,14 @@ func Unpack(rdr *Conn) (*Response, error) {
 		if len(keyval) != 2 {
 			return nil, errMalformedResponse
 		}
-		r.Header.Set(strings.TrimSpace(keyval[0]), strings.TrimSpace(keyval[1]))
+		key, val := strings.TrimSpace(keyval[0]), strings.TrimSpace(keyval[1])
+		if strings.EqualFold(key, HeaderAuthenticate) && r.Header.Get(key) != "" {
+			// One of several challenges.  Keep the earlier one unless this one is supported.
+			if _, err := NewDigest("", val); err != nil {
+				continue
+			}
+		}
+		r.Header.Set(key, val)
 	}
 
 	r.Cseq, _ = strconv.Atoi(r.Header.Get(HeaderCSeq))
-- 
2.43.0


From d954368c87e9ffa9c499a97e61714f4ffe9ec505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 45/49] fix: exit when the camera refuses or leaves a request
 unanswered

---
 cmd/ouro/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index d9c0704..17cc89b 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -13,34 +13,44 @@ import (
 	"github.com/aboukirev/ouro/net/rtsp"
 )
 
+// Time that camera has to open or to answer a request before we give up.
+const patience = time.Minute * 5
+
 func handleStates(s *rtsp.Session) {
 	state := rtsp.StageInit
 	nalsink := h264.NewNALSink()
+	answer := time.After(patience)
 	tmr := time.NewTimer(time.Minute)
 	tmr.Stop()
 	for {
 		select {
+		case <- answer:
+			log.Fatal("Camera has refused or does not answer")
 		case <- tmr.C:
 			log.Printf("Timer: stage=%d\n", state)
 			if state == rtsp.StagePlay {
 				if err := s.Pause(); err != nil {
 					log.Fatal(err)
 				}
+				answer = time.After(patience)
 			} else if state == rtsp.StagePause {
 				log.Println("Stage: Closing")
 				if err := s.Teardown(); err != nil {
 					log.Fatal(err)
 				}
+				answer = time.After(patience)
 			} else if state == rtsp.StageDone {
 				return
 			}
 		case state = <- s.State:
+			answer = nil
 			switch state {
 			case rtsp.StageReady:
 				log.Println("Stage: Ready")
 				if err := s.Play(); err != nil {
 					log.Fatal(err)
 				}
+				answer = time.After(patience)
 			case rtsp.StagePlay:
 				log.Println("Stage: Playing")
 				tmr.Reset(time.Second * 5)
-- 
2.43.0


From da1c115303e9656764093b134424ec847fd065be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 46/49] fix: look at every header line only once while the
 header is incomplete

---
 net/rtsp/connection.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 4162809..18d3a9c 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -192,12 +192,13 @@ func (c *Conn) ReadBytes(n int) ([]byte, error) {
 
 // awaitMessage waits until the buffer holds complete header and body of RTSP message.  It does not advance the reader.
 func (c *Conn) awaitMessage() error {
+	m := messageScan{}
 	for n := 1; ; {
 		if _, err := c.Peek(n); err != nil {
 			return err
 		}
 		buf, _ := c.rdr.Peek(c.rdr.Buffered())
-		if size, ok := messageSize(buf); ok {
+		if size, ok := m.scan(buf); ok {
 			_, err := c.Peek(size)
 			return err
 		}
@@ -205,24 +206,29 @@ func (c *Conn) awaitMessage() error {
 	}
 }
 
-// messageSize returns total size of RTSP message if its header is complete.
-func messageSize(buf []byte) (size int, ok bool) {
-	length := 0
+// messageScan keeps track of the lines of RTSP message seen so far, in order to look at every one of them only once.
+type messageScan struct {
+	size   int // Total length of lines
+	length int // Length of the body
+}
+
+// scan returns total size of RTSP message if its header is complete.  It is called with more and more of the message.
+func (m *messageScan) scan(buf []byte) (size int, ok bool) {
 	for {
-		i := bytes.IndexByte(buf[size:], '\n')
+		i := bytes.IndexByte(buf[m.size:], '\n')
 		if i == -1 {
 			return 0, false
 		}
-		line := strings.TrimSpace(string(buf[size : size+i]))
-		size += i + 1
+		line := strings.TrimSpace(string(buf[m.size : m.size+i]))
+		m.size += i + 1
 		if line == "" {
-			return size + length, true
+			return m.size + m.length, true
 		}
 		keyval := strings.SplitN(line, ":", 2)
 		if len(keyval) == 2 && strings.EqualFold(strings.TrimSpace(keyval[0]), HeaderContentLength) {
 			var err error
-			if length, err = strconv.Atoi(strings.TrimSpace(keyval[1])); err != nil || length < 0 {
-				length = 0
+			if m.length, err = strconv.Atoi(strings.TrimSpace(keyval[1])); err != nil || m.length < 0 {
+				m.length = 0
 			}
 		}
 	}
-- 
2.43.0


From 0ef13b8c0b7cfaafb6fec8b0da1df4370274f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 47/49] fix: provisional response does not answer a request

---
 net/rtsp/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5cda1c0..01d2cb9 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -304,6 +304,11 @@ func (s *Session) handleRtsp() (err error) {
 
 	log.Println(string(rsp.Pack()))
 
+	if rsp.StatusCode/100 == 1 {
+		// Final response is yet to come.
+		return nil
+	}
+
 	req, ok := s.dequeue(rsp.Cseq)
 	if !ok {
 		// Drop response that does not match any outstanding request.
-- 
2.43.0


From 047476af34f1d51d80037a3a0ade8490c63875b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 48/49] fix: header lines of a response may be folded

---
 net/rtsp/connection.go | 13 ++++++++++---
 net/rtsp/message.go    | 18 ++++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 18d3a9c..75b5c28 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -208,8 +208,9 @@ func (c *Conn) awaitMessage() error {
 
 // messageScan keeps track of the lines of RTSP message seen so far, in order to look at every one of them only once.
 type messageScan struct {
-	size   int // Total length of lines
-	length int // Length of the body
+	size   int    // Total length of lines
+	length int    // Length of the body
+	key    string // Name of the latest header
 }
 
 // scan returns total size of RTSP message if its header is complete.  It is called with more and more of the message.
@@ -219,12 +220,18 @@ func (m *messageScan) scan(buf []byte) (size int, ok bool) {
 		if i == -1 {
 			return 0, false
 		}
-		line := strings.TrimSpace(string(buf[m.size : m.size+i]))
+		line := string(buf[m.size : m.size+i+1])
+		folded := isFolded(line)
+		line = strings.TrimSpace(line)
 		m.size += i + 1
 		if line == "" {
 			return m.size + m.length, true
 		}
 		keyval := strings.SplitN(line, ":", 2)
+		if folded {
+			keyval = []string{m.key, line}
+		}
+		m.key = keyval[0]
 		if len(keyval) == 2 && strings.EqualFold(strings.TrimSpace(keyval[0]), HeaderContentLength) {
 			var err error
 			if m.length, err = strconv.Atoi(strings.TrimSpace(keyval[1])); err != nil || m.length < 0 {
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 640cc1e..e33ffca 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -110,6 +110,11 @@ func (r *Request) Pack() []byte {
 	return buf.Bytes()
 }
 
+// isFolded tells whether a header line continues the previous one.
+func isFolded(line string) bool {
+	return line[0] == ' ' || line[0] == '\t'
+}
+
 // Unpack RTSP message into response structure.
 func Unpack(rdr *Conn) (*Response, error) {
 	line, err := rdr.ReadLine()
@@ -140,16 +145,25 @@ func Unpack(rdr *Conn) (*Response, error) {
 		return nil, errInvalidStatus
 	}
 
-	// Parse the response headers.
+	// Parse the response headers.  Line that starts with a space continues the previous one.
+	var fields [][]string
 	for {
 		line, err = rdr.ReadLine()
 		if err != nil {
 			return nil, err
 		}
+		folded := isFolded(line)
 		if line = strings.TrimSpace(line); line == "" {
 			break
 		}
-		keyval := strings.SplitN(line, ":", 2)
+		if n := len(fields); folded && n > 0 {
+			fields[n-1] = append(fields[n-1], line)
+		} else {
+			fields = append(fields, []string{line})
+		}
+	}
+	for _, field := range fields {
+		keyval := strings.SplitN(strings.Join(field, " "), ":", 2)
 		if len(keyval) != 2 {
 			return nil, errMalformedResponse
 		}
-- 
2.43.0


From 671518ea3aa95673c8e1b0d43fe88812f95b9c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 49/49] fix: keep fragments for a rejected payload without
 copying them for every packet

---
 net/h264/packet.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 78f3417..56b67b8 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -133,10 +133,10 @@ func NewNALSink() *NALSink {
 // are combined into a NAL unit and added to the unit queue.
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
-		s.Fragments = s.Fragments[:0]
+		s.Fragments = nil
 	} else if len(s.Fragments) == 0 || s.Fragments[0].TS != ts || s.Fragments[0].Type() != indicator&0x1F {
 		// First fragment of this unit or last fragment of the previous one is lost.
-		s.Fragments = s.Fragments[:0]
+		s.Fragments = nil
 		return
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
@@ -157,7 +157,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		}
 		// Only the first fragment carries DON, in FU-B.
 		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
-		s.Fragments = s.Fragments[:0]
+		s.Fragments = nil
 	}
 }
 
@@ -221,7 +221,7 @@ func hasStartCode(buf []byte) bool {
 // Payload that is rejected with an error has no effect on units that follow.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
 	s.Units = s.Units[:0]
-	don, frags := s.Don, append([]NALFragment{}, s.Fragments...)
+	don, frags := s.Don, s.Fragments
 	err := s.pushPayload(buf, ts)
 	if err != nil {
 		s.Don, s.Fragments = don, frags
-- 
2.43.0

