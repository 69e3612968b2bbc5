From 0772ba20dc53ab724d7e58e2a920c4c3edada70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 01/35] fix: read unsigned integers of 3 and 5 to 7 bytes from
 exactly their bytes

---
 recovery/utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..94351fe 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,15 +98,15 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return UtUllCreate(MatchReadFrom1(value), MatchReadFrom4(value[1:]))
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return UtUllCreate(MatchReadFrom2(value), MatchReadFrom4(value[2:]))
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom7(value)
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From 272b536b33db953673bb9dd0e14412aced762f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 02/35] fix: report a compressed integer cut short by the end
 of the data as an error

---
 recovery/utils/utils.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 94351fe..d9c0116 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -287,22 +287,43 @@ func MatchParseCompressed(data []byte, pos uint64) (uint64, uint64, error) {
 		return 0, 0, err
 	}
 
+	if pos >= uint64(len(data)) {
+		ErrMsg := fmt.Sprintf("data too short, method is MatchParseCompressed")
+		logs.Error(ErrMsg)
+		return 0, 1, fmt.Errorf(ErrMsg)
+	}
+
 	flag := MatchReadFrom1(data[pos:])
 
+	var size uint64
 	if int64(flag) < Num1 {
-		return flag, 1, nil
+		size = 1
 	} else if int64(flag) < Num2 {
-		return MatchReadFrom2(data[pos:]) & uint64(Num5), 2, nil
+		size = 2
 	} else if int64(flag) < Num3 {
-		return MatchReadFrom3(data[pos:]) & uint64(Num6), 3, nil
+		size = 3
 	} else if int64(flag) < Num4 {
-		return MatchReadFrom4(data[pos:]) & uint64(Num7), 4, nil
+		size = 4
 	} else {
-		if pos+5 > uint64(len(data)) {
-			ErrMsg := fmt.Sprintf("data too short, method is MatchParseCompressed")
-			logs.Error(ErrMsg)
-			return 0, 5, fmt.Errorf(ErrMsg)
-		}
+		size = 5
+	}
+
+	if size > uint64(len(data))-pos {
+		ErrMsg := fmt.Sprintf("data too short, method is MatchParseCompressed")
+		logs.Error(ErrMsg)
+		return 0, size, fmt.Errorf(ErrMsg)
+	}
+
+	switch size {
+	case 1:
+		return flag, 1, nil
+	case 2:
+		return MatchReadFrom2(data[pos:]) & uint64(Num5), 2, nil
+	case 3:
+		return MatchReadFrom3(data[pos:]) & uint64(Num6), 3, nil
+	case 4:
+		return MatchReadFrom4(data[pos:]) & uint64(Num7), 4, nil
+	default:
 		return MatchReadFrom4(data[pos+1:]), 5, nil
 	}
 }
-- 
2.43.0


From 1141e9bab6d142df88b75d08bd661e48a1292fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 03/35] fix: read the low word of a compressed 64-bit integer
 right after its high word

---
 recovery/utils/utils.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d9c0116..5a135a1 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -427,13 +427,8 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
-	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
-- 
2.43.0


From 1e43767e3810da751f7ab843625cac456613c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 04/35] fix: keep the high word of a much-compressed 64-bit
 integer and count its marker byte

---
 recovery/utils/utils.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 5a135a1..bb8a132 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -446,15 +446,12 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		high, num, err := MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
-		v, err := MatchGetCompressedSize(n)
-		if err != nil {
-			fmt.Println(err.Error())
-		}
-		size = 1 + v
+		n = high << 32
+		size = 1 + num
 	}
 	value, _, err := MatchParseCompressed(b, size)
 	if err != nil {
@@ -483,7 +480,8 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	return n1 + n2
+	// the 0xFF marker, the high word and the low word
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
-- 
2.43.0


From 79093fe754245f7fe0e50689494e6fdbd316d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 05/35] fix: print timestamps in 24-hour notation and the zero
 timestamp as the zero date

---
 recovery/utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index bb8a132..cadcd18 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -896,7 +896,10 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	if t == 0 {
+		return "0000-00-00 00:00:00"
+	}
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From 1fdf9a1bd708ab15ffc75bb2a1d41964320e9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 06/35] fix: recover the zero YEAR as 0000

---
 recovery/utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index cadcd18..718ca16 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -635,6 +635,9 @@ func ParseData(DataType uint64, MySQLType uint64,
 			DateTime := ParseDate(data)
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
+			if MatchReadFrom1(data) == 0 {
+				return "0000", nil
+			}
 			FormatYear := MatchReadFrom1(data) + 1900
 			return FormatYear, nil
 		default:
-- 
2.43.0


From 5cfc5309a69112a1aedf3682177a5047af18475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 07/35] fix: recover DATETIME from its own five bytes over the
 whole range of years

---
 recovery/utils/utils.go | 81 ++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 58 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 718ca16..ce22470 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -606,7 +606,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			FormatTimeStamp := ParseTimeStamp(data)
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
-			FormatDateTime := ParseDateTime(data)
+			FormatDateTime := ParseDateTime(data[:FieldLen])
 			return FormatDateTime, nil
 		case MYSQL_TYPE_BIT:
 			return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -755,56 +755,24 @@ func GetMaxLength(MySQLType uint64) {
 	}
 }
 
-// GetTimeFormat ...
+// GetTimeFormat tells the packed format of MySQL 5.6 and later (2), five bytes
+// and up to three bytes of fraction, from the old eight byte decimal format (1).
 func GetTimeFormat(data []byte) int {
-	d := MatchReadFrom8(data)
-	var year, month, day, hour, min, sec int
-
-	r := d &^ (1 << 63)
-	sec = int(r % 100)
-	r /= 100
-	min = int(r % 100)
-	r /= 100
-	hour = int(r % 100)
-	r /= 100
-	day = int(r % 100)
-	r /= 100
-	month = int(r % 100)
-	r /= 100
-	year = int(d % 10000)
-	if year > 1990 && year < 2100 && month >= 1 && month <= 12 &&
-		day >= 1 && day <= 31 && hour >= 0 && hour <= 23 &&
-		min >= 0 && min <= 59 && sec >= 0 && sec <= 59 {
-		return 1
-	}
-
-	var sign uint64
-	sign = 0
-	sign = d >> 63
-	if sign == 0 {
-		return 0
+	if len(data) < 8 {
+		return 2
 	}
-
-	yd := (d & 0x7FFFC00000000000) >> 46
-	year = int(yd / 13)
-	month = int(int(yd) - (year * 13))
-	day = int((d & 0x00003E0000000000) >> 41)
-	hour = int((d & 0x000001F000000000) >> 36)
-	min = int((d & 0x0000000FC0000000) >> 30)
-	sec = int((d & 0x000000003F000000) >> 24)
-	if year > 1990 && year < 2100 && month >= 1 &&
-		month <= 12 && day >= 1 && day <= 31 &&
-		hour >= 0 && hour <= 23 && min >= 0 &&
-		min <= 59 && sec >= 0 && sec <= 59 {
+	d := MatchReadFrom8(data)
+	// The packed format has year * 13 + month in these bits, where
+	// the decimal format has at most the carry of the year 9999.
+	if d>>63 == 1 && (d&0x7FFFC00000000000)>>46 >= 13 {
 		return 2
 	}
-	return 0
+	return 1
 }
 
 // ParseDateTime ...
 func ParseDateTime(data []byte) string {
-	format := GetTimeFormat(data)
-	if format == 1 || format == 0 {
+	if GetTimeFormat(data) == 1 {
 		ldate := MatchReadFrom8(data)
 		ldate = ldate &^ (1 << 63)
 		sec := ldate % 100
@@ -819,26 +787,23 @@ func ParseDateTime(data []byte) string {
 		ldate /= 100
 		year := ldate % 10000
 
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
 		return FormatTime
 
-	} else if format == 2 {
-		ldate := MatchReadFrom8(data)
-		yd := (ldate & 0x7FFFC00000000000) >> 46
-		year := yd / 13
-		month := yd - year*13
-		day := (ldate & 0x00003E0000000000) >> 41
-		hour := (ldate & 0x000001F000000000) >> 36
-		min := (ldate & 0x0000000FC0000000) >> 30
-		sec := (ldate & 0x000000003F000000) >> 24
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
 	}
+	ldate := MatchReadFrom1(data)<<56 | MatchReadFrom4(data[1:])<<24
+	yd := (ldate & 0x7FFFC00000000000) >> 46
+	year := yd / 13
+	month := yd - year*13
+	day := (ldate & 0x00003E0000000000) >> 41
+	hour := (ldate & 0x000001F000000000) >> 36
+	min := (ldate & 0x0000000FC0000000) >> 30
+	sec := (ldate & 0x000000003F000000) >> 24
+
+	FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
-	return ""
+	return FormatTime
 
 }
 
-- 
2.43.0


From 7700b4a1e21fd1a9e7677282a8360b5d7320c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 08/35] fix: print DATE with a four digit year

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index ce22470..06c9104 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -818,7 +818,7 @@ func ParseDate(data []byte) string {
 	month = int(ldate % 16)
 	ldate /= 16
 	year = int(ldate)
-	DateTime := fmt.Sprintf("%02d-%02d-%02d", year, month, day)
+	DateTime := fmt.Sprintf("%04d-%02d-%02d", year, month, day)
 	return DateTime
 }
 
-- 
2.43.0


From 230a97f4a049ff387c867edaf137de2e16894fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 09/35] fix: keep a debugging line out of the recovered
 statements

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 06c9104..f119343 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -612,7 +612,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Info("the decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From 35690a78f9ef8bfd585eb899deaeb0e2ecd182db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 10/35] fix: drop only the trailing padding spaces of CHAR
 values

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index f119343..e0b12f0 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -659,7 +659,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From 9cf278c6b3c1da226cc1400ad231633476ff0718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 11/35] fix: do not take a partial read for a whole page or
 block

---
 recovery/utils/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index e0b12f0..78f1f70 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -209,7 +210,7 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
+	_, err := io.ReadFull(file, bytes)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ceb3e4364f37544869ade701e55138abe18e0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 12/35] fix: do not turn the text 0001-01-01T00:00:00Z into an
 empty string

---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 78f1f70..d921012 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -924,11 +924,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From fd1831df972c7b23ef1df244eec524220c591aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 13/35] fix: keep the NULL flag of REDUNDANT columns and the
 end offset of external ones

---
 recovery/ibdata/parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..7aae9ac 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1090,7 +1090,6 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
 
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
@@ -1111,11 +1110,10 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From c843ba4ad3c06d8c2721c251050f464b88df681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 14/35] fix: read VARCHAR columns in latin1 as variable-length

---
 recovery/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d921012..d08c6e6 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -719,8 +719,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From 7f5996c7b1f410fcf72cccd80c54a980b7f5f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 15/35] fix: read the two byte length of long VARBINARY columns

---
 recovery/ibdata/parse.go | 17 ++++++-----------
 recovery/utils/utils.go  |  2 +-
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7aae9ac..31a3969 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -448,18 +448,13 @@ func (parse *Parse) getAllColumns() error {
 				}
 			}
 
-			var TempFieldLen uint64 = 0
-			if c[5].FieldValue.(uint64) != utils.DATA_BINARY {
-				TempFieldLen = c[7].FieldValue.(uint64)
-			}
-
 			t.Columns = append(t.Columns,
 				Columns{
 					FieldName: c[4].FieldValue.(string),
 					FieldType: c[5].FieldValue.(uint64),
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
-					FieldLen:  TempFieldLen,
+					FieldLen:  c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary})
@@ -965,7 +960,7 @@ func (parse *Parse) makeSysTablesColumns() []Columns {
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 0, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 1, FieldLen: 6})
 	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 2, FieldLen: 7})
-	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 3, FieldLen: 8})
+	columns = append(columns, Columns{FieldName: "ID", FieldType: 6, FieldPos: 3, FieldLen: 8, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "N_COLS", FieldType: 6, FieldPos: 4, FieldLen: 4})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "MIX_ID", FieldType: 4, FieldPos: 6, FieldLen: 0})
@@ -981,7 +976,7 @@ func (parse *Parse) makeSysTablesColumns() []Columns {
 func (parse *Parse) makeSysColumnsColumns() []Columns {
 
 	var columns []Columns
-	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
+	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 6, FieldPos: 0, FieldLen: 8, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
 	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
@@ -999,8 +994,8 @@ func (parse *Parse) makeSysColumnsColumns() []Columns {
 func (parse *Parse) makeSysIndexesColumns() []Columns {
 
 	var columns []Columns
-	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
-	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 1, FieldLen: 8})
+	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 6, FieldPos: 0, FieldLen: 8, IsUnsigned: true})
+	columns = append(columns, Columns{FieldName: "ID", FieldType: 6, FieldPos: 1, FieldLen: 8, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
 	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
@@ -1017,7 +1012,7 @@ func (parse *Parse) makeSysIndexesColumns() []Columns {
 func (parse *Parse) makeSysFieldsColumns() []Columns {
 
 	var columns []Columns
-	columns = append(columns, Columns{FieldName: "INDEX_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
+	columns = append(columns, Columns{FieldName: "INDEX_ID", FieldType: 6, FieldPos: 0, FieldLen: 8, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
 	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d08c6e6..7d30da9 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -742,7 +742,7 @@ func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 		// char type should be return 0.
 		return 0
 	case DATA_BINARY:
-		return FieldLen
+		return 0
 	//case DATA_MTYPE_MAX:
 	default:
 		return FieldLen
-- 
2.43.0


From 471c5a2a01433fa1d951f70979cbb441201ad795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 16/35] fix: do not carry column values over from the record
 before

---
 recovery/ibdata/format.go |  2 +-
 recovery/ibdata/parse.go  | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..1401d60 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -41,7 +41,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.FieldValue != nil {
 				buf.WriteByte('\'')
 				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
 				buf.WriteByte('\'')
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 31a3969..062b07a 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -924,30 +924,31 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 // Reference https://dev.mysql.com/doc/internals/en/innodb-overview.html
 func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns []Columns) ([]Columns, uint64) {
 
+	var c = make([]Columns, len(columns))
+	copy(c, columns)
+
 	var fieldLen uint64
 	for i := 0; i < len(columns); i++ {
+		// The value of a NULL column is nil.
+		c[i].FieldValue = nil
+
 		// Get field len from offset array.
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
-			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
-			}
 			continue
 		}
 
 		// Parse the page record.
 		value, err := utils.ParseData(columns[i].FieldType, columns[i].MySQLType, data, fieldLen,
 			int(utils.GetFixedLength(columns[i].FieldType, columns[i].FieldLen)),
-			columns[i].IsUnsigned, &columns[i].IsBinary)
+			columns[i].IsUnsigned, &c[i].IsBinary)
 		if err != nil {
 			logs.Error(err.Error())
 		}
 
-		columns[i].FieldValue = value
+		c[i].FieldValue = value
 	}
 
-	var c = make([]Columns, len(columns))
-	copy(c, columns)
 	dataLen := utils.RecOffsDataSize(&offsets)
 	return c, dataLen
 }
-- 
2.43.0


From 2a4118113d05f92deccbe1caba9d2cfc7440888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 17/35] fix: print BIT values as binary digits and NULL without
 b or unhex around it

---
 recovery/ibdata/format.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 1401d60..26ec0c5 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,23 +33,23 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
+			if column.FieldValue == nil {
+				buf.WriteString("NULL")
+				continue
+			}
+
 			if column.MySQLType == utils.MYSQL_TYPE_BIT {
-				buf.WriteString("b")
+				buf.WriteString(fmt.Sprintf("b'%b'", column.FieldValue))
+				continue
 			}
 
 			if column.IsBinary {
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil {
-				buf.WriteByte('\'')
-				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
-				buf.WriteByte('\'')
-			} else {
-				//buf.WriteByte('\'')
-				//buf.WriteByte('\'')
-				buf.WriteString("NULL")
-			}
+			buf.WriteByte('\'')
+			buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
+			buf.WriteByte('\'')
 
 			if column.IsBinary {
 				buf.WriteString(")")
-- 
2.43.0


From c8eb5bb77bcd467a90d24eed3519fd65eaf1d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 18/35] fix: report a table that is not in the dictionary as an
 error

---
 recovery/ibdata/parse.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 062b07a..11c6e9c 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1041,13 +1041,12 @@ func (parse *Parse) checkFieldSize(offsets *[]uint64, columns []Columns) bool {
 }
 
 func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
-	var columns []Columns
 	for _, table := range parse.TableMap {
 		if table.DBName == dbName && table.TableName == tableName {
-			columns = table.Columns
+			return table.Columns, nil
 		}
 	}
-	return columns, nil
+	return nil, fmt.Errorf("table %s.%s not found", dbName, tableName)
 }
 
 func (parse *Parse) getTableFromDict(dbName string, tableName string) (Tables, error) {
-- 
2.43.0


From af1450f7bc9bacee9da116c524ee9b8c7e8fcfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 19/35] fix: end a record chain that runs in a circle, and have
 room for the offsets of one or two columns

---
 recovery/ibdata/parse.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 11c6e9c..dc74a8a 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -850,15 +850,28 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 		}
 	}
 
+	// The list on an empty page, or of a page without records, has no first record.
+	if offset == 0 || offset == infimum {
+		return allColumns
+	}
+
+	// The records of the chain, none of them is on it twice.
+	seen := make([]bool, DefaultPageSize)
+
 	var totalLen uint64
-	for {
+	for n := 0; n < DefaultPageSize; n++ {
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
+			if seen[offset] {
+				break
+			}
+			seen[offset] = true
+
 			var c []Columns
 			logs.Debug("offset is ", offset, " supremum is ", supremum)
 
-			// TODO: confirm the array length
-			var offsets []uint64 = make([]uint64, len(columns)*2, len(columns)*2)
+			// two header words, the extra size and the end of each column
+			var offsets []uint64 = make([]uint64, len(columns)+3)
 			origin := data[offset:]
 
 			// Parse the row offset array, use the offset array can get
-- 
2.43.0


From a4739e2f1e64ac234c771e96527bb381982e0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 20/35] fix: do not let a damaged page end the recovery

---
 recovery/ibdata/parse.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index dc74a8a..8be6ebb 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -785,16 +785,15 @@ func (parse *Parse) parsePageHeader(page *Page) *Page {
 // 7.Fil Trailer
 // Read all those info and parse according to its protocol.
 // TODO: support compress and encrypt page.
-func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) [][]Columns {
+func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool,
+	pageFree uint64) (allColumns [][]Columns) {
 
-	// catch panic
-	//defer func() {
-	//	if err := recover(); err != nil {
-	//		logs.Error("skip error, the error is ", err)
-	//	}
-	//}()
-
-	var allColumns [][]Columns
+	// catch panic, keep the records before the damaged one.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("skip error, the error is ", err)
+		}
+	}()
 
 	// The PAGE_BTR_SEG_LEAF length
 	pos += 10
-- 
2.43.0


From b1e7f00c100854cce825c90c23db6617e7514ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 21/35] fix: put the key columns first in key order without
 losing any column

---
 recovery/ibdata/parse.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8be6ebb..1db58fd 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -325,16 +325,22 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
-	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
-			if field.ColumnName == columns[i].FieldName {
-				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+	var first, rest []Columns
+	isKey := make([]bool, len(columns))
+	for _, field := range fields {
+		for i := 0; i < len(columns); i++ {
+			if !isKey[i] && field.ColumnName == columns[i].FieldName {
+				first = append(first, columns[i])
+				isKey[i] = true
 			}
 		}
 	}
-	return columns
+	for i := 0; i < len(columns); i++ {
+		if !isKey[i] {
+			rest = append(rest, columns[i])
+		}
+	}
+	return append(first, rest...)
 }
 
 // Table have some internal filed in MySQL, such as DB_TRX_ID/DB_ROLL_PTR/DB_ROW_ID.
-- 
2.43.0


From be416d697a88098f88a94739c92e6cc5aaee36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 22/35] fix: sort the columns of each table by their position

---
 recovery/ibdata/parse.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 1db58fd..a5cdc1c 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"sync"
 
@@ -299,14 +300,11 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 // sortColumns sort columns by field position.
 // // TODO: why some table fields is not sort?
 func (parse *Parse) sortColumns() {
-	var sortedColumns []Columns
 	for _, table := range parse.TableMap {
-		for i, field := range table.Columns {
-			if field.FieldPos == uint64(i) {
-				sortedColumns = append(sortedColumns, field)
-			}
-		}
-		table.Columns = sortedColumns
+		columns := table.Columns
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
 	}
 }
 
-- 
2.43.0


From 982b16aaa682a1d0555977fd8ea245b15f0ea5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 23/35] fix: read dictionary rows from the leaf pages of the
 dictionary trees only

---
 recovery/ibdata/parse.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index a5cdc1c..31e413b 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -77,12 +77,15 @@ func (parse *Parse) ParseDictPage(path string) error {
 
 			var ds []DataDict
 			parse.parsePageHeader(&page)
-			ds = append(ds,
-				DataDict{
-					IndexId:    page.ph.PAGE_INDEX_ID,
-					PageOffset: page.fh.FIL_PAGE_OFFSET,
-					data:       page.OriginalData,
-					pos:        len(page.OriginalData) - len(page.data)})
+			// A root above the leaf level holds no rows.
+			if page.ph.PAGE_LEVEL == 0 {
+				ds = append(ds,
+					DataDict{
+						IndexId:    page.ph.PAGE_INDEX_ID,
+						PageOffset: page.fh.FIL_PAGE_OFFSET,
+						data:       page.OriginalData,
+						pos:        len(page.OriginalData) - len(page.data)})
+			}
 			parse.D.Store(page.ph.PAGE_INDEX_ID, ds)
 
 			logs.Debug("page offset is ", page.fh.FIL_PAGE_OFFSET,
@@ -93,6 +96,9 @@ func (parse *Parse) ParseDictPage(path string) error {
 				if k == page.ph.PAGE_INDEX_ID {
 					ds := v.([]DataDict)
 					parse.parsePageHeader(&page)
+					if page.fh.FIL_PAGE_TYPE != FilPageIndex || page.ph.PAGE_LEVEL != 0 {
+						return true
+					}
 					ds = append(ds,
 						DataDict{
 							IndexId:    page.ph.PAGE_INDEX_ID,
-- 
2.43.0


From 5b1849777a027cd4e25d6395ce543606d6c36c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 24/35] fix: skip the rest of a MLOG_COMP_REC_SEC_DELETE_MARK
 record

---
 recovery/redo/mlog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..1f68e0a 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -465,6 +465,9 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+
+		// btr_cur_parse_del_mark_set_sec_rec
+		parse.mlogRecSecDeleteMark(data, pos)
 	}
 	return err
 }
-- 
2.43.0


From 42070e61ff201a65bbc00d89532afbf6c493af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 25/35] fix: do not skip 4 GB for a NULL in a
 MLOG_REC_UPDATE_IN_PLACE record

---
 recovery/redo/mlog.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 1f68e0a..075b7c4 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -542,7 +542,10 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
-				*pos += fieldLen
+				// #define UNIV_SQL_NULL ULINT32_UNDEFINED
+				if fieldLen != 0xFFFFFFFF {
+					*pos += fieldLen
+				}
 			}
 		}
 	}
-- 
2.43.0


From 314dbfbe0fe906e7ad8a118cd494147566fe450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 26/35] fix: skip both names of a rename record

---
 recovery/redo/mlog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 075b7c4..fba1b7a 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -384,6 +384,12 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	// The new name follows.
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		nameLen = utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += nameLen
+	}
 }
 
 // MLOG_REC_MARK ...
-- 
2.43.0


From 04f4b6ebfe9b08c24b4642ed746a741f3e646111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 27/35] fix: take a MLOG_DUMMY_RECORD for the single byte it is

---
 recovery/redo/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..a0c8f86 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -257,8 +257,8 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		pos++
 		startPos := pos
 
-		if logType == MLOG_MULTI_REC_END {
-			// don't parse MLOG_MULTI_REC_END type redo log.
+		if logType == MLOG_MULTI_REC_END || logType == MLOG_DUMMY_RECORD {
+			// these redo log types are a single byte.
 			continue
 		}
 
-- 
2.43.0


From 3142c5e2a9b2a46f473847c81754195807092203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 28/35] fix: print only the tables of the database that was
 asked for

---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index fba1b7a..099740b 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -223,7 +223,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
 			parse.makeSQL(Table, primaryFields, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
+		} else if parse.DBName == "" && parse.TableName == Table.TableName {
 			parse.makeSQL(Table, primaryFields, columns)
 		}
 	}
-- 
2.43.0


From 2fecb975ef8402109c95d2a5a8ab9b96de2629a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 29/35] fix: separate the SET values of an UPDATE by commas,
 and quote every value

---
 recovery/ibdata/structure.go |  2 ++
 recovery/redo/mlog.go        |  2 ++
 recovery/redo/parse.go       | 18 +++++++++++++++---
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..90bb13a 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -53,6 +53,8 @@ type Fields struct {
 	ColumnName string
 	//ColumnType  uint64
 	ColumnValue interface{}
+	MySQLType   uint64
+	IsBinary    bool
 }
 
 // DataDict store the data dictionary info.
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 099740b..f23400e 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -156,6 +156,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 
 		logs.Debug("the table is ", Table.TableName, " table id is ", tableID, " unique value is ")
 		v.ColumnValue = value
+		v.MySQLType = column.MySQLType
+		v.IsBinary = column.IsBinary
 
 		*pos += FiledLen
 	}
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index a0c8f86..077fd6e 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -517,6 +517,18 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
+// sqlValue makes the literal of a value that is not NULL.
+func sqlValue(value interface{}, mySQLType uint64, isBinary bool) string {
+	if mySQLType == utils.MYSQL_TYPE_BIT {
+		return fmt.Sprintf("b'%b'", value)
+	}
+	literal := "'" + utils.EscapeValue(fmt.Sprintf("%v", value)) + "'"
+	if isBinary {
+		return "unhex(" + literal + ")"
+	}
+	return literal
+}
+
 func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
 
 	// TODO: deal with null value.
@@ -526,21 +538,21 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	for i, c := range columns {
 		var SetValue string
 		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
+			SetValue = fmt.Sprintf("`%s`=%s", c.FieldName, sqlValue(c.FieldValue, c.MySQLType, c.IsBinary))
 		} else {
 			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
 		}
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ","
 		}
 	}
 
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName, sqlValue(v.ColumnValue, v.MySQLType, v.IsBinary))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
-- 
2.43.0


From 5549b05c91d28b64b90eddd0ebb46cfb5a03a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 30/35] fix: resume after an undo record by its length whatever
 is in it

---
 recovery/redo/mlog.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index f23400e..96798c9 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -77,12 +77,12 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	*pos += 2
 	startPos := *pos
 
-	// catch panic
+	// catch panic, resume at the end of the record in any case.
 	defer func() {
 		if err := recover(); err != nil {
 			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
 		}
+		*pos = startPos + dataLen
 	}()
 
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
-- 
2.43.0


From 046e8623b1ea2b2957ed02ed9cdf58b975f11133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 31/35] fix: tell a NULL in an undo record from a value that
 runs past the data

---
 recovery/redo/mlog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 96798c9..dfd2624 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -195,7 +195,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			*pos += num
 
 			var value interface{}
-			if *pos+fLen > uint64(len(data)) {
+			// #define UNIV_SQL_NULL ULINT32_UNDEFINED
+			if fLen == 0xFFFFFFFF {
 				value = nil
 				fLen = 0
 			} else {
-- 
2.43.0


From a67440f470264e084d4cee21006d2bea5445aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 32/35] fix: treat a log block with an impossible length as the
 end of the log

---
 recovery/redo/parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 077fd6e..57ed370 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -97,13 +97,14 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			// Parse the redo block blockHeader.
 			// The redo block consists of redo log blockHeader and redo log data.
 			blockHeader, err := parse.readRedoBlockHeader(block)
-			if err != nil || blockHeader.BlockDataLen == 0 {
+			if err != nil || blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE ||
+				blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
 				break
 			}
 
 			// LOG_BLOCK_TRL_SIZE, for checksum.
-			if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
-				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
+			if blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE {
+				blockHeader.BlockDataLen = OS_FILE_LOG_BLOCK_SIZE - LOG_BLOCK_TRL_SIZE
 			}
 
 			// Add all redo block data.
-- 
2.43.0


From 0f1e2c766953236bd4f1435523178c89a365de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 33/35] fix: read a creator name without an end from the log
 file header

---
 recovery/redo/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 57ed370..a78bf31 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -166,7 +166,10 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	logHeaderStartLsn := utils.MatchReadFrom8(data[pos:])
 	pos += 8
 
-	creator := data[pos : bytes.IndexByte(data[pos:], 0x00)+pos]
+	creator := data[pos : pos+32]
+	if end := bytes.IndexByte(creator, 0x00); end >= 0 {
+		creator = creator[:end]
+	}
 	pos += 32 // 32 bytes, NULL terminated string, filled with NULL bytes
 
 	checksum := data[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:]
-- 
2.43.0


From 6987aa8222d6353ca1bdae4108a7cd9e80f3c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 34/35] fix: return an error for damaged log data instead of a
 panic

---
 recovery/redo/parse.go  | 9 ++++++++-
 recovery/utils/utils.go | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index a78bf31..bfa84b7 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -246,7 +246,14 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 // There are about 55 redo log type, and every redo log type have different data.
 // We just want get the MLOG_UNDO_INSERT type redo record which store the undo info.
 // But due to the design of redo, we must parse out each type in order.
-func (parse *Parse) parseRedoBlockData(data []byte) error {
+func (parse *Parse) parseRedoBlockData(data []byte) (err error) {
+	// A record that runs past the end of the data ends the parse.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("the log data is damaged: %v", r)
+		}
+	}()
+
 	var pos uint64
 	for {
 		if (int64(len(data)) - int64(pos)) < 5 {
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 7d30da9..76c2490 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -426,7 +426,7 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
 	n |= MatchReadFrom4(b[*pos:])
@@ -565,14 +565,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			return 0, err
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			return 0, err
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
-- 
2.43.0


From 394a5f1c3aa63565d88fa46cbe1743eb46a4a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 35/35] fix: do not take the missing length of a column in an
 undo record for zero

---
 recovery/redo/mlog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index dfd2624..5f28efa 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -191,6 +191,9 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 
 			fLen, num, err := utils.MatchParseCompressed(data, *pos)
+			if err != nil {
+				return err
+			}
 			logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)
 			*pos += num
 
-- 
2.43.0

