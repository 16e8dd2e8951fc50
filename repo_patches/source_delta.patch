From 1bf3f5fa825f9dc3aad4578970b5aabc0072f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:01 +0000
Subject: [PATCH 01/49] fix: Set, SetD and SetT return the documented error
 instead of exiting the process

---
 sarflags/sarflags.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..93aff14 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -697,21 +697,18 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -818,14 +815,12 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -963,7 +958,6 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
-- 
2.43.0


From 8ef539bdd26f3258c7e7be8d97ffcfacc82d4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:04 +0000
Subject: [PATCH 02/49] fix: looking up the name of an unnamed flag value
 returns "" instead of exiting the process

---
 sarflags/sarflags.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 93aff14..c9dede0 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -680,6 +680,7 @@ func Get(curflag uint32, field string) uint32 {
 }
 
 // GetStr - Given a current flag and bitfield name return the string name of the bitfield set in curflag
+// or "" if it has no name. The flag may come from the network so this must never exit
 func GetStr(curflag uint32, field string) string {
 	ff := Get(curflag, field)
 	for k, f := range Flags[field].Options {
@@ -688,7 +689,6 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
 	return ""
 }
 
@@ -746,7 +746,6 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
 	return ""
 }
 
@@ -806,7 +805,6 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
 	return ""
 }
 
@@ -868,7 +866,6 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
 	return ""
 }
 
@@ -949,7 +946,6 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
 	return ""
 }
 
@@ -981,7 +977,6 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
 	return ""
 }
 
-- 
2.43.0


From b012565c58ed307e63df899dfb01b0652417a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 03/49] fix: posix32_32 and posix64_32 timestamps of times
 before 1970 or outside the UnixNano range carried garbage

---
 timestamp/timestamp.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..e79b451 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -51,19 +51,17 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.nsecs > sarflags.MaxUint32 {
 			return errors.New("posix64_32:Remainder exceed 32 bits")
 		}
-- 
2.43.0


From 6587a21350f17050531b1447b4d43fe422853a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:39 +0000
Subject: [PATCH 04/49] fix: timestamp.Get of a short buffer returns an error
 instead of panicking

---
 timestamp/timestamp.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index e79b451..c970ce6 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -127,8 +127,25 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	if len(tstamp) == 0 {
+		return errors.New("timestamp.Get: timestamp too short")
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
+	need := 1 // Bytes needed for this type of timestamp
+	switch ttype {
+	case "posix32", "epoch2000_32":
+		need = 5
+	case "posix64", "posix32_32":
+		need = 9
+	case "posix64_32":
+		need = 13
+	case "localinterp":
+		need = 15
+	}
+	if len(tstamp) < need {
+		return errors.New("timestamp.Get: timestamp too short")
+	}
 	switch ttype {
 	case "posix32":
 		t.secs = uint64(binary.BigEndian.Uint32(tstamp[1:5]))
@@ -158,7 +175,7 @@ func (t *Timestamp) Get(tstamp []byte) error {
 	default:
 		t.secs = 0
 		t.nsecs = 0
-		t.local = string(tstamp[1:15])
+		t.local = ""
 		t.ttype = ttype
 		e := "timestamp.Get: Invalid Timestamp type:" + ttype
 		return errors.New(e)
-- 
2.43.0


From 34b45baea325001ed02946cedb16e4c377c1f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:42 +0000
Subject: [PATCH 05/49] fix: a localinterp timestamp written by Put is accepted
 by Get

---
 timestamp/timestamp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index c970ce6..e469d12 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -78,6 +78,8 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	default: // localinterp Dont know this timestamp type so whatever is in flag is used
+		t.secs = 0
+		t.nsecs = 0
 		t.local = flag
 		t.ttype = flag
 	}
@@ -172,6 +174,11 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:15]), "\x00")
+		t.ttype = ttype
 	default:
 		t.secs = 0
 		t.nsecs = 0
-- 
2.43.0


From 80d3e0b6151eeab797b064b5a78d0b7705c794e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:11 +0000
Subject: [PATCH 06/49] fix: decoding a truncated data frame returns an error
 instead of panicking

---
 data/data.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8db2b11..51eea6b 100644
--- a/data/data.go
+++ b/data/data.go
@@ -156,6 +156,21 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+	need := 8 // Header + Session + Timestamp + Offset
+	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		need += 16
+	}
+	switch sarflags.GetStr(d.Header, "descriptor") {
+	case "d16":
+		need += 2
+	case "d32":
+		need += 4
+	case "d64":
+		need += 8
+	}
+	if len(frame) < need {
+		return errors.New("data.Get - data frame too short")
+	}
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
-- 
2.43.0


From 7be27f0ebd93649991efaf49495a5d0a8ee1026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:13 +0000
Subject: [PATCH 07/49] fix: an empty d16 data frame with a timestamp can be
 decoded like every other empty data frame

---
 data/data.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index 51eea6b..fbb7c15 100644
--- a/data/data.go
+++ b/data/data.go
@@ -180,9 +180,6 @@ func (d *Data) Decode(frame []byte) error {
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
-			if len(d.Payload) == 0 {
-				return errors.New("length of data payload is 0")
-			}
 		case "d32":
 			d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes
 			d.Payload = make([]byte, len(frame[28:]))
-- 
2.43.0


From dfb7fde34a7194d70dc0dfdb8b6315e481d2de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:15 +0000
Subject: [PATCH 08/49] fix: encoding a data offset that does not fit the
 descriptor is an error, not a silent truncation

---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index fbb7c15..926ee30 100644
--- a/data/data.go
+++ b/data/data.go
@@ -236,8 +236,14 @@ func (d *Data) Encode() ([]byte, error) {
 
 	switch sarflags.GetStr(d.Header, "descriptor") { // Offset
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, errors.New("offset does not fit in d16 descriptor in data")
+		}
 		framelen += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, errors.New("offset does not fit in d32 descriptor in data")
+		}
 		framelen += 4
 	case "d64":
 		framelen += 8
-- 
2.43.0


From fcc37ea5e002622ed7cf6e5e0298322db8cf8c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:17 +0000
Subject: [PATCH 09/49] fix: data.New sets the transfer type it is given in the
 header

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 926ee30..9e7f4d0 100644
--- a/data/data.go
+++ b/data/data.go
@@ -72,6 +72,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From 5b822bcaa4011c79f5bad8ab97ad56c9fb09e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:22 +0000
Subject: [PATCH 10/49] fix: a flag without a value in a flag string is an
 error instead of a panic

---
 beacon/beacon.go     | 3 +++
 data/data.go         | 3 +++
 dirent/dirent.go     | 3 +++
 metadata/metadata.go | 3 +++
 request/request.go   | 3 +++
 status/status.go     | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..34c31f8 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -58,6 +58,9 @@ func (b *Beacon) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			return errors.New("Beacon.New: Malformed Flag " + flag[fl])
+		}
 
 		switch f[0] {
 		case "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace":
diff --git a/data/data.go b/data/data.go
index 9e7f4d0..6e9a0fb 100644
--- a/data/data.go
+++ b/data/data.go
@@ -63,6 +63,9 @@ func (d *Data) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			return errors.New(flag[fl] + " malformed flag in data")
+		}
 		switch f[0] {
 		case "version", "descriptor", "reqstatus", "eod":
 			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..39243bf 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -86,6 +86,9 @@ func (d *DirEnt) New(flags string, path string) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			return errors.New("Malformed Flag " + flag[fl] + " for Directory Entry")
+		}
 		switch f[0] {
 		case "descriptor", "property":
 			if d.Header, err = sarflags.SetD(d.Header, f[0], f[1]); err != nil {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..9483e23 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -126,6 +126,9 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			return errors.New(flag[fl] + " malformed flag for MetaData Frame")
+		}
 		switch f[0] {
 		case "descriptor", "progress", "transfer", "reliability":
 			if m.Header, err = sarflags.Set(m.Header, f[0], f[1]); err != nil {
diff --git a/request/request.go b/request/request.go
index 93f9536..55096ed 100644
--- a/request/request.go
+++ b/request/request.go
@@ -58,6 +58,9 @@ func (r *Request) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			return errors.New("Request.New: Malformed Flag " + flag[fl])
+		}
 		switch f[0] {
 		case "frametype", "version", "descriptor", "stream", "txwilling",
 			"rxwilling", "fileordir", "reqtype", "udplite":
diff --git a/status/status.go b/status/status.go
index 092f335..a998238 100644
--- a/status/status.go
+++ b/status/status.go
@@ -74,6 +74,9 @@ func (s *Status) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 && !sarflags.GoodT(f[0]) {
+			return errors.New("Malformed Flag " + flag[fl] + " for Status Frame")
+		}
 		switch f[0] {
 		case "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode":
 			if s.Header, err = sarflags.Set(s.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From d66776af8f1dfabcc94f4959855243a6ac18594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:22 +0000
Subject: [PATCH 11/49] fix: status frames that carry a timestamp encode it

---
 status/status.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/status/status.go b/status/status.go
index a998238..8c4c322 100644
--- a/status/status.go
+++ b/status/status.go
@@ -157,6 +157,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From cfd583114c8a500334710344655922d313376101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:22 +0000
Subject: [PATCH 12/49] fix: decoding a truncated status frame returns an error
 instead of panicking

---
 status/status.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/status/status.go b/status/status.go
index 8c4c322..1eafbc1 100644
--- a/status/status.go
+++ b/status/status.go
@@ -246,6 +246,21 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+	need := 8 // Header + Session + Timestamp + Progress + Inrespto
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		need += 16
+	}
+	switch sarflags.GetStr(s.Header, "descriptor") {
+	case "d16":
+		need += 2 * 2
+	case "d32":
+		need += 2 * 4
+	case "d64":
+		need += 2 * 8
+	}
+	if len(frame) < need {
+		return errors.New("status frame too short")
+	}
 	pos := 8
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
-- 
2.43.0


From fb8688906158f8d76f7e53c9f5eb1af7bb089326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:22 +0000
Subject: [PATCH 13/49] fix: a reused Status no longer keeps the holes of the
 frame it held before

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1eafbc1..a82915e 100644
--- a/status/status.go
+++ b/status/status.go
@@ -109,6 +109,7 @@ func (s *Status) New(flags string, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil // Start afresh, the struct may be reused
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -137,6 +138,7 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil // Start afresh, the struct may be reused
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -246,6 +248,7 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+	s.Holes = nil // Start afresh, the struct may be reused
 	need := 8 // Header + Session + Timestamp + Progress + Inrespto
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		need += 16
-- 
2.43.0


From d5246a0559cb1cc6d2025dc9b2676e5ae91fdfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:25 +0000
Subject: [PATCH 14/49] fix: encoding a status value that does not fit the
 descriptor is an error, not a silent truncation

---
 status/status.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/status/status.go b/status/status.go
index a82915e..f706011 100644
--- a/status/status.go
+++ b/status/status.go
@@ -177,6 +177,17 @@ func (s Status) Encode() ([]byte, error) {
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	if dsize < 8 { // Everything has to fit in the descriptor
+		max := uint64(1)<<(8*dsize) - 1
+		if s.Progress > max || s.Inrespto > max {
+			return nil, errors.New("progress or inrespto does not fit in descriptor in status")
+		}
+		for i := range s.Holes {
+			if uint64(s.Holes[i].Start) > max || uint64(s.Holes[i].End) > max {
+				return nil, errors.New("hole does not fit in descriptor in status")
+			}
+		}
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From 7f983aa7f77cb1eea9a3db448a96cff176881af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 15/49] fix: decoding a truncated beacon returns an error
 instead of panicking

---
 beacon/beacon.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 34c31f8..01b9595 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -250,8 +250,23 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
+		need := 4 // Header + Freespace
+		switch sarflags.GetStr(b.Header, "freespaced") {
+		case "d16":
+			need += 2
+		case "d32":
+			need += 4
+		case "d64":
+			need += 8
+		}
+		if len(frame) < need {
+			return errors.New("beacon frame too short")
+		}
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
 			b.Freespace = uint64(binary.BigEndian.Uint16(frame[4:6]))
-- 
2.43.0


From 6b4a6437277f758be3c383a1ee6b246f4ee152ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 16/49] fix: encoding a freespace that does not fit its
 descriptor is an error, not a silent truncation

---
 beacon/beacon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 01b9595..52726d8 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -208,8 +208,14 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, errors.New("freespace does not fit in d16 beacon")
+			}
 			framelen += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, errors.New("freespace does not fit in d32 beacon")
+			}
 			framelen += 4
 		case "d64":
 			framelen += 8
-- 
2.43.0


From a37321eb43b704ec3a9a91717df900f3f7199378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 17/49] fix: request.Decode takes the file name byte for byte,
 afresh, and reports a missing terminator instead of panicking

---
 request/request.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/request/request.go b/request/request.go
index 55096ed..b5b18cf 100644
--- a/request/request.go
+++ b/request/request.go
@@ -130,13 +130,14 @@ func (r *Request) Decode(frame []byte) error {
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
 	pos := 8
-	for i := range frame[8:] { // Filename in frame is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		r.Fname += string(frame[pos+i])
+	for pos < len(frame) && frame[pos] != '\x00' { // Filename in frame is null terminated string
+		pos++
+	}
+	if pos == len(frame) {
+		return errors.New("request.Decode - filename not null terminated")
 	}
-	pos = 8 + 1 + len(r.Fname)
+	r.Fname = string(frame[8:pos])
+	pos++ // Skip the null
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
 		return nil
-- 
2.43.0


From b1623dabeb482be323cd03324ca52454001843ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 18/49] fix: request.New and Make keep the auth field, and Make
 no longer panics

---
 request/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request/request.go b/request/request.go
index b5b18cf..07363b3 100644
--- a/request/request.go
+++ b/request/request.go
@@ -74,7 +74,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -96,9 +96,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
-- 
2.43.0


From 0aaed0c747d99d5fb3831c61e7db38933ca73b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 19/49] fix: decoding a truncated directory entry returns an
 error instead of panicking

---
 dirent/dirent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 39243bf..5a410de 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -223,6 +223,9 @@ func (d *DirEnt) Decode(frame []byte) error {
 	}
 	// fmt.Printf("Header:%d Size:%d\n", d.header, d.size)
 
+	if len(frame) < pos+4+4 { // Mtime + Ctime
+		return errors.New("DirEntGet - Entry too short")
+	}
 	ts := make([]byte, 5)
 	ts[0], _ = sarflags.SetT(0, "epoch2000_32")
 
-- 
2.43.0


From 3603337616122b4ebc6e383680e0c9686f2a5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 20/49] fix: the path of a directory entry is decoded byte for
 byte

---
 dirent/dirent.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 5a410de..295fce8 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -243,13 +243,11 @@ func (d *DirEnt) Decode(frame []byte) error {
 	pos += 4
 	// fmt.Printf("Ctime:%s\n", d.ctime.Print())
 
-	d.Path = ""
-	for i := range frame[pos:] { // Path is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		d.Path += string(frame[pos+i])
+	end := pos
+	for end < len(frame) && frame[end] != '\x00' { // Path is null terminated string
+		end++
 	}
+	d.Path = string(frame[pos:end])
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
 }
-- 
2.43.0


From c66774d63caae955bf2d4805908427c48a44e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 21/49] fix: metadata of files of 4 GiB and more can be
 encoded, and a failing directory entry is reported

---
 dirent/dirent.go     | 2 +-
 metadata/metadata.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 295fce8..4b6443d 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -175,7 +175,7 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
+		if d.Size > sarflags.MaxUint64 { // This should never happen!!!!
 			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
 			return nil, errors.New(e)
 		}
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 9483e23..c46e646 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -247,7 +247,10 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
-- 
2.43.0


From 29f3b6958c788057e604c155aa75f621cd99266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:57 +0000
Subject: [PATCH 22/49] fix: decoding a truncated metadata frame returns an
 error instead of panicking

---
 metadata/metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c46e646..5f7c7b0 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -283,6 +283,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
-- 
2.43.0


From cf5f7d09f86adebc8539f44864ab92297e66ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:59 +0000
Subject: [PATCH 23/49] fix: metadata carries the modification time of the file
 it was made for, and no stale checksum

---
 metadata/metadata.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 5f7c7b0..1a090b2 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -167,7 +167,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -182,6 +182,8 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
 			copy(m.Checksum, checksum)
+		} else {
+			m.Checksum = nil
 		}
 	} else {
 		m.Checksum = nil
@@ -206,7 +208,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
@@ -220,7 +222,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
@@ -234,6 +236,8 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
 			copy(m.Checksum, checksum)
+		} else {
+			m.Checksum = nil
 		}
 	} else {
 		m.Checksum = nil
-- 
2.43.0


From cba6797d71cc2147b033da753b40a49039cd5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:25 +0000
Subject: [PATCH 24/49] fix: FileOpen checks the existence of the file it is
 about to open, so get and take do not overwrite

---
 fileio/fileio.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..345e7cc 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -35,7 +35,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
@@ -44,7 +44,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
@@ -59,7 +59,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		return nil, err
 	case "put", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
-- 
2.43.0


From 1f1b08fd048bc4efce2b9b794aa10f36965ab71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:25 +0000
Subject: [PATCH 25/49] fix: FileDelete removes the file that was opened

---
 fileio/fileio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 345e7cc..5d817ae 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -146,9 +146,9 @@ func FileRm(fname string) error {
 func FileDelete(fp *os.File) error {
 
 	if fp != nil {
-		fname := fp.Name()
+		fname := fp.Name() // This is already the full name
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fname)
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
-- 
2.43.0


From 7bbb2e9791fd1d2166bda39361a030974a40fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:27 +0000
Subject: [PATCH 26/49] fix: file names with .. never lead out of the Saratoga
 directory

---
 fileio/fileio.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 5d817ae..be1f0d6 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,7 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +16,16 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// sarpath -- full name of fname in the Saratoga directory
+// File names come from peers, so whatever .. they hold must never lead out of it
+func sarpath(fname string) string {
+	return Sardir() + path.Clean("/"+fname)
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname := sarpath(fname)
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -30,7 +37,7 @@ func FileExists(fname string) bool {
 func FileOpen(fname string, ttype string) (*os.File, error) {
 	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	fullname := sarpath(fname)
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
@@ -138,7 +145,7 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname := sarpath(fname)
 	return os.Remove(fullname)
 }
 
@@ -176,7 +183,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
+	fullname := sarpath(filePath)
 	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
 		return nil, err
 	}
-- 
2.43.0


From 4a8998ea43d839c324fe1d3004de56a3a3e12d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:30 +0000
Subject: [PATCH 27/49] fix: FileMeta no longer panics on unreadable paths and
 dangling links

---
 fileio/fileio.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index be1f0d6..c45d984 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -184,7 +184,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 	var err error
 	var info os.FileInfo
 	fullname := sarpath(filePath)
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
@@ -195,9 +195,10 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, err := os.Stat(fullname); err == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
-- 
2.43.0


From ebdb537cc17e82557efbea7feae018d5d9991fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 28/49] fix: Lookup returns the transfer in the table, not a
 copy of it

---
 sarwin/sarwin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..9c38485 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -896,12 +896,13 @@ var Transfers = []Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
-	for _, t := range Transfers {
+	for i := range Transfers {
+		t := &Transfers[i]
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
 
 		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+			return t
 		}
 	}
 	return nil
-- 
2.43.0


From 1fa9e93d5454eaa46dc51782e689a4efcae72912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 29/49] fix: Remove removes the transfer it is called on, not
 the last one in the table

---
 sarwin/sarwin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9c38485..50d7c91 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1219,7 +1219,8 @@ func (t *Transfer) Remove() error {
 	defer Trmu.Unlock()
 
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
+		if Transfers[i].Direction == t.Direction && Transfers[i].Session == t.Session &&
+			Transfers[i].Peer.String() == t.Peer.String() {
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From 4148bcc66990773a3ab575a89cbfe28b7b884f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 30/49] fix: stpaylen no longer divides by zero when the flags
 name no descriptor

---
 sarwin/sarwin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 50d7c91..9a132f0 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -842,6 +842,9 @@ func stpaylen(flags string) int {
 		default:
 		}
 	}
+	if hsize == 0 { // No descriptor flag leaves the header at d16
+		hsize = 4
+	}
 	plen -= hsize       // For Progress & Inrespto
 	return plen / hsize // Max holes we can now have in the frame
 }
-- 
2.43.0


From c921ad4a56bf81c6c5465f6e08aaf8d26c196a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 31/49] fix: WriteStatus spreads the holes over the status
 frames it sends, each once

---
 sarwin/sarwin.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9a132f0..2ffa85a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1159,9 +1159,11 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 	if lasthole <= maxholes {
 		framecnt = 1
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "yes")
+	} else if maxholes < 1 {
+		ErrPrintln(g, "red_black", "No room for holes in status")
+		return "badstatus"
 	} else {
-		h := t.Curfills.Getholes()
-		framecnt = len(h)/maxholes + 1
+		framecnt = (lasthole + maxholes - 1) / maxholes
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "no")
 	}
 
@@ -1174,8 +1176,8 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		}
 
 		var st status.Status
-		h := t.Curfills.Getholes()
-		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h}
+		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto,
+			Holes: h[starthole:endhole]}
 		if st.New(flags, &sinfo) != nil {
 			ErrPrintln(g, "red_black", "Cannot asemble status")
 			return "badstatus"
-- 
2.43.0


From 0ef2b670e43cdad7d1d5d95bbc2e97c51cc1e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 32/49] fix: the txwilling command sets valid flag values

---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2ffa85a..94bdb59 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2427,10 +2427,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From 29b95b0416ff42ae3ce71866f9f95d245304fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 33/49] fix: the ls command accepts its arguments

---
 sarwin/sarwin.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 94bdb59..665d689 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1795,12 +1795,11 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
-		ErrPrintln(g, "red_bblack", prusage("ls"))
+	if len(args) > 3 {
+		ErrPrintln(g, "red_black", prusage("ls"))
 		return
 	}
-	switch args[1] {
-	case "?":
+	if len(args) == 2 && args[1] == "?" {
 		MsgPrintln(g, "magenta_black", prhelp("ls"))
 		MsgPrintln(g, "green_black", prusage("ls"))
 		return
-- 
2.43.0


From 7ba754523c8e0786b3684a5c1fc052e9c9e5aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 34/49] fix: a command line of white space does not panic

---
 sarwin/sarwin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 665d689..b0a2436 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2511,6 +2511,9 @@ func Run(g *gocui.Gui, name string) bool {
 	// Get rid of leading and trailing whitespace
 	s := strings.TrimSpace(name)
 	vals := strings.Fields(s)
+	if len(vals) == 0 { // Nothing but white space
+		return true
+	}
 	// Lookup the cmd and index func to run via cmdhandler map
 	for key := range sarflags.Commands {
 		if key == vals[0] {
-- 
2.43.0


From 5631b3016efb29c2cc7c9e56094a005b993737f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 35/49] fix: AddRxTran looks at the request type of the request

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..9a46c19 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,7 +48,7 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-- 
2.43.0


From bbed0d16e3a1baed64e3227c4ed65fc8ef3401c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 36/49] fix: AddRxTran uses an existing timestamp type

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 9a46c19..5ac2640 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -203,7 +203,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
-- 
2.43.0


From a991fb3cee09fa9932c24f5d7267d3c35d1b4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 37/49] fix: CopyCliflags copies the IPv6 multicast address and
 the beacon count

---
 sarflags/sarflags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index c9dede0..73f238f 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -630,7 +630,7 @@ func ReplaceFlag(flags, value, option string) string {
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -638,6 +638,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From 4c8b990196fa937fa1fc9369fb353524b6806243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 38/49] fix: the status sent back for a bad data frame carries
 its session

---
 saratoga/saratoga.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..e71c45c 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -293,13 +293,14 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
-				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
+				session := binary.BigEndian.Uint32(framebuf[4:8])
+				sinfo := status.Sinfo{Session: session, Progress: 0, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
 					continue
 				}
 				sarwin.ErrPrintln(g, "red_black", "Bad Data:", rxerr, " from ",
-					sarnet.UDPinfo(remoteAddr), " session ", d.Session)
+					sarnet.UDPinfo(remoteAddr), " session ", session)
 				// Send a badpacket status back to the sender
 				tx <- st.Val(remoteAddr)
 				continue
-- 
2.43.0


From 14eb2f778db6b732738717dd0513bae03a4914fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:27 +0000
Subject: [PATCH 39/49] fix: the status that answers a request carries its
 session

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 5ac2640..3c253df 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -52,7 +52,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
-- 
2.43.0


From f80bb01e08af2a5b1a85929f8aab71d075d6a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:20 +0000
Subject: [PATCH 40/49] fix: status.Make sets the timestamp its header
 announces

---
 status/status.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/status/status.go b/status/status.go
index f706011..8abc0fa 100644
--- a/status/status.go
+++ b/status/status.go
@@ -134,6 +134,12 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	}
 
 	s.Header = header
+	// A header that says there is a timestamp needs one
+	if sarflags.GetStr(header, "reqtstamp") == "yes" {
+		if err = s.Tstamp.Now("posix32"); err != nil {
+			return err
+		}
+	}
 	e := reflect.ValueOf(info).Elem()
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
-- 
2.43.0


From 5c28dfb35c531ff398564d3a710766213b6c286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:59 +0000
Subject: [PATCH 41/49] fix: the metadata of a file is made from the file in
 the Saratoga directory, never one outside it

---
 metadata/metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 1a090b2..f5a984a 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -50,11 +50,11 @@ func statfile(fname string, header uint32) (string, error) {
 	var direntflags string
 	var err error
 
-	fi, err := os.Lstat(fname)
+	fi, err := fileio.FileMeta(fname)
 	if err != nil {
 		return "", err
 	}
-	switch mode := fi.Mode(); {
+	switch mode := fi.Mode; {
 	case mode.IsRegular():
 		file = true
 		direntflags = sarflags.AddFlagD(direntflags, "property", "normalfile")
@@ -70,7 +70,7 @@ func statfile(fname string, header uint32) (string, error) {
 	}
 
 	// Work out the descriptor to use for directory entry
-	fsize := uint64(fi.Size()) // Size of file carefull this is on 64 bit int (not uint!!!)
+	fsize := uint64(fi.Size) // Size of file carefull this is on 64 bit int (not uint!!!)
 	if fsize < sarflags.MaxUint16 {
 		direntflags = sarflags.AddFlagD(direntflags, "descriptor", "d16")
 	} else if fsize < sarflags.MaxUint32 {
-- 
2.43.0


From 1fada27beb8f4e868687de3b40b270637b7dea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 42/49] fix: a request whose file name contains a null is an
 error, not a request for another file

---
 request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request/request.go b/request/request.go
index 07363b3..a7a2230 100644
--- a/request/request.go
+++ b/request/request.go
@@ -106,6 +106,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 // Put -- Encode the Saratoga Request buffer
 func (r *Request) Encode() ([]byte, error) {
 
+	if strings.Contains(r.Fname, "\x00") { // It ends the file name in the frame
+		return nil, errors.New("request.Encode - filename contains a null")
+	}
 	// Create the frame slice
 	framelen := 4 + 4 + len(r.Fname) + 1 + len(r.Auth) // Header + Session + Fname + NULL + Auth
 	frame := make([]byte, framelen)                    // Allocate the frame buffer
-- 
2.43.0


From 2083febc42a0f7594f247861339064dc1d9ffd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:01 +0000
Subject: [PATCH 43/49] fix: a directory entry whose path contains a null is an
 error, not an entry of another file

---
 dirent/dirent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 4b6443d..2fc3144 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -156,6 +156,10 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		return nil, errors.New("path name exceeds 1024 bytes")
 	}
 
+	if strings.Contains(d.Path, "\x00") { // It ends the path in the frame
+		return nil, errors.New("path name contains a null")
+	}
+
 	frame := make([]byte, framelen)
 
 	binary.BigEndian.PutUint16(frame[:2], d.Header)
-- 
2.43.0


From d69fd7ad72b31e37aa785e6ff33c32193e85e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 44/49] fix: no transfer is added when its peer cannot be
 dialled

The transfer was added with a nil connection; Match (rmtran) then panicked on it.
---
 sarwin/sarwin.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b0a2436..98e01ed 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -967,6 +967,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
-- 
2.43.0


From 75662941752df8396f1ed43e359dc3b02b7a7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 45/49] fix: FileOpen opens the file of a putblind transfer

The putblind command makes transfers of this type; their file could never be opened (invalid transfer type).
---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index c45d984..581fa12 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -64,7 +64,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "putblind", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
-- 
2.43.0


From e33d7323c0e0a474d1b398c17277f9edbda141ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 46/49] fix: no transfer is added when its local file cannot be
 opened

A get of a file that exists here, or a put of one that does not, stayed in the transfer table without a file.
---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 98e01ed..1635772 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -974,6 +974,8 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
 	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
 		ErrPrintln(g, "red_black", err)
-- 
2.43.0


From 09357eea4028750cd015adbdee3ac560bf5b60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:32 +0000
Subject: [PATCH 47/49] fix: beacon off disables the multicast beacons too

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 1635772..7845252 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1323,6 +1323,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "Beacons Disabled")
 			// remove and disable all beacons
 			clibeacon.hosts = nil
+			clibeacon.v4mcast = false
+			clibeacon.v6mcast = false
 			return
 		case "v4": // beacon v4
 			// V4 Multicast
-- 
2.43.0


From 895bd2b1a4321aca090f83a125fb6b840a8817ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:32 +0000
Subject: [PATCH 48/49] fix: a beacon command with several addresses does not
 skip the first

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 7845252..821f97c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1359,8 +1359,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	for i := 1; i < len(args); i++ {
 		if args[1] == "off" {
+			if i == 1 {
+				continue
+			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
-- 
2.43.0


From f2aacde7913ee3d74853a16e9aac4eddae492110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:03 +0000
Subject: [PATCH 49/49] fix: looking up the value of a flag without one does
 not panic

---
 sarflags/sarflags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 73f238f..900f447 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -597,7 +597,7 @@ func FlagValue(flags, flag string) string {
 	flagslice := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flagslice {
 		f := strings.Split(flagslice[fl], "=") // f[0]=name f[1]=val
-		if f[0] == flag {
+		if f[0] == flag && len(f) > 1 {
 			return f[1]
 		}
 	}
-- 
2.43.0

