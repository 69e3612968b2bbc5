package utils
opaque SpecComp, SpecCompSize, SpecCompFits, SpecCompEnd, SpecFixEnd, SpecUllEnd, SpecIndexEnd, SpecInsertEnd

func MatchReadFrom1(b) (r)
  prop C01
  panics len(b) < 1
  returns SpecBE(b, 1)
func MatchReadFrom2(b) (r)
  prop C01
  panics len(b) < 2
  returns SpecBE(b, 2)
func MatchReadFrom3(b) (r)
  prop C01
  panics len(b) < 3
  returns SpecBE(b, 3)
func MatchReadFrom4(b) (r)
  prop C01
  panics len(b) < 4
  returns SpecBE(b, 4)
func MatchReadFrom7(b) (r)
  prop C01
  panics len(b) < 7
  returns SpecBE(b, 7)
func MatchReadFrom8(b) (r)
  prop C01
  panics len(b) < 8
  returns SpecBE(b, 8)
func UtUllCreate(h, l) (r)
  returns h<<32 | l

func GetIntValue(n, b) (r)
  prop C01
  maypanic n <= 8 && len(b) < n
  ensures imp(n == 1 || n == 2 || n == 3 || n == 4 || n == 8, SpecIsInt(r) && SpecIntOf(r) == SpecSigned(b, n))

func GetUintValue(n, b) (r)
  prop C01
  maypanic n <= 8 && len(b) < n
  ensures imp(1 <= n && n <= 8, r == SpecBE(b, n))

func ParseBinaryInt8(b) (r)
  prop C01
  panics len(b) < 1
  returns int8(b[0])
func ParseBinaryUint8(b) (r)
  prop C01
  panics len(b) < 1
  returns b[0]
func ParseBinaryInt16(b) (r)
  prop C01
  panics len(b) < 2
  returns int16(SpecLE(b, 2))
func ParseBinaryUint16(b) (r)
  prop C01
  panics len(b) < 2
  returns uint16(SpecLE(b, 2))
func ParseBinaryInt24(b) (r)
  prop C01
  panics len(b) < 3
  returns int32(SpecLE(b, 3)<<8)>>8
func ParseBinaryUint24(b) (r)
  prop C01
  panics len(b) < 3
  returns uint32(SpecLE(b, 3))
func ParseBinaryInt32(b) (r)
  prop C01
  panics len(b) < 4
  returns int32(SpecLE(b, 4))
func ParseBinaryUint32(b) (r)
  prop C01
  panics len(b) < 4
  returns uint32(SpecLE(b, 4))
func ParseBinaryInt64(b) (r)
  prop C01
  panics len(b) < 8
  returns int64(SpecLE(b, 8))
func ParseBinaryUint64(b) (r)
  prop C01
  panics len(b) < 8
  returns SpecLE(b, 8)
func ParseBinaryFloat32(b) (r)
  prop C03
  panics len(b) < 4
  ensures math.Float32bits(r) == uint32(SpecLE(b, 4))
func ParseBinaryFloat64(b) (r)
  prop C03
  panics len(b) < 8
  ensures math.Float64bits(r) == SpecLE(b, 8)
func FixedLengthInt(b) (r)
  prop C01
  loop 1 invariant num == SpecLEk(b, K)
  ensures r == SpecLEk(b, len(b))

func MatchParseCompressed(data, pos) (v, n, err)
  prop C04
  ensures iff(err == nil, SpecCompFits(data, pos))
  ensures imp(err == nil, v == SpecComp(data[pos:]) && n == SpecCompSize(data[pos]))
  ensures n <= 5
func MatchGetCompressedSize(v) (n, err)
  prop C04
  returns 0: SpecCompSizeOf(v)
  returns 1: nil
func MatchUllReadComPressed(b, pos) (v)
  prop C04
  maypanic SpecUllEnd(b, *pos) == 0
  modifies pos
  ensures imp(SpecUllEnd(b, old(*pos)) != 0, v == SpecComp(b[old(*pos):])<<32 | SpecBE4(b[SpecUllEnd(b, old(*pos))-4:], 0))
  ensures imp(SpecUllEnd(b, old(*pos)) != 0, *pos == SpecUllEnd(b, old(*pos)))
  ensures imp(old(*pos) < 1<<52, old(*pos) <= *pos && *pos <= old(*pos) + 9)
  onpanic imp(old(*pos) < 1<<50, old(*pos) <= *pos && *pos < 1<<51)
func MatchUllReadMuchCompressed(b) (v, err)
  prop C04
  panics len(b) < 1
  ensures iff(err == nil, SpecMuchFits(b))
  ensures imp(err == nil, v == SpecMuch(b))
func MachUllGetMuchCompressedSize(v) (n)
  prop C04
  returns SpecMuchSizeOf(v)
func LemmaRoundTrip(b, pos, v) (r)
  prop C04
  requires v < 1<<32 && pos < uint64(len(b)) && uint64(len(b)) - pos >= SpecCompSizeOf(v)
  modifies b
  ensures r
func LemmaRoundTrip64(b, pos, v) (r)
  prop C04
  requires *pos < uint64(len(b)) && uint64(len(b)) - *pos >= SpecCompSizeOf(v>>32) + 4
  modifies b, pos
  ensures r
func LemmaRoundTripMuch(b, v) (r)
  prop C04
  requires len(b) >= 11
  modifies b
  ensures r

func ParseIndex(comp, data, pos) (r, err)
  prop C14
  maypanic comp && pos > uint64(len(data))
  ensures imp(SpecIndexEnd(comp, data, pos) != 0, err == nil && r == SpecIndexEnd(comp, data, pos))
  ensures imp(err == nil && pos < 1<<52, pos <= r && r <= pos + 1<<18)
  ensures imp(err == nil && !comp, r == pos)

func ParseInsertRecord(short, data, pos) (r, err)
  prop C14
  maypanic SpecInsertEnd(short, data, pos) == 0
  ensures imp(SpecInsertEnd(short, data, pos) != 0, err == nil && r == SpecInsertEnd(short, data, pos))
  ensures imp(err == nil && pos < 1<<52, pos < r && r <= pos + 1<<33)

func GetTimeFormat(b) (r)
  ensures iff(r == 1, SpecDecimalDatetime(b))
func ParseDateTime(b) (r)
  prop C02
  panics len(b) < 5
  ensures imp(!SpecDecimalDatetime(b), r == SpecDatetime(b))
func ParseDate(b) (r)
  prop C02
  panics len(b) < 3
  returns SpecDate(b)
func ParseTime(b) (r)
  prop C02
  panics len(b) < 3
  returns SpecTime(b)
func ParseTimeStamp(b) (r)
  prop C02
  panics len(b) < 4
  returns SpecTimestamp(b)
func ParseFloat(b) (r)
  prop C03
  panics cap(b) < 4
  ensures imp(len(b) >= 4, math.Float32bits(r) == uint32(SpecLE(b, 4)))
func ParseDouble(b) (r)
  prop C03
  panics cap(b) < 8
  ensures imp(len(b) >= 8, math.Float64bits(r) == SpecLE(b, 8))
func ParseBlob(b) (r)
  prop C03
  returns hex.EncodeToString(b)

func ParseData(dt, mt, b, fl, fix, un, bin) (r, err)
  prop C01, C02, C03
  maypanic !SpecFits(dt, mt, len(b), fl, fix, un)
  modifies bin
  returns 1: nil
  ensures imp(SpecFits(dt, mt, len(b), fl, fix, un) && SpecKnown(dt, mt, b, fl, fix, un), SpecSame(r, SpecValue(dt, mt, b, fl, fix, un, old(*bin))))
  ensures *bin == SpecBinary(dt, mt, old(*bin))

func EscapeValue(s) (r)
  prop C12
  loop 1 invariant 0 <= last && last <= POS
  loop 1 invariant colBuffer.String() + colValue[last:POS] == SpecEsc(colValue, POS)
  returns SpecEsc(s, len(s))
func LemmaUnescape(s) (out, mode)
  prop C12
  loop 1 invariant mode == 0 && out == s[:i]
  ensures mode == 0 && out == s

func GetFixedLength(dt, n) (r)
  prop C06, C08
  ensures iff(r == 0, SpecVarType(dt) || n == 0)
  ensures imp(!SpecVarType(dt), r == n)

func RecGetNthFieldOffs(offs, n, l) (r)
  prop C06, C07, C08
  @!C21 requires 0 <= n && n < len(offs) - 3 + 1
  @!C21 maypanic n + 3 >= len(offs)
  modifies l
  @!C21 ensures r == old(SpecColStart(offs, n)) && *l == old(SpecColLen(offs, n))
func RecGetNthField(rec, offs, n, l) (r)
  prop C06, C07, C08
  @!C21 requires 0 <= n && n < len(offs) - 3
  @!C21 maypanic SpecColStart(offs, n) > uint64(len(rec))
  modifies l
  @!C21 ensures *l == old(SpecColLen(offs, n)) && SpecSlice(r, rec, int(old(SpecColStart(offs, n))))

func ReadNextBytes(file, number) (b, err)
  prop C10, C13, C20
  maypanic number < 0 || number >= 1<<40
  modifies file
  fresh
  ensures SpecSameFile(file, old(file)) && iff(err == nil, number <= SpecFileLen(old(file)) - SpecFilePos(old(file))) && SpecFilePos(file) <= SpecFileLen(file)
  ensures imp(err == nil, len(b) == number && SpecFilePos(file) == SpecFilePos(old(file))+number)
  ensures imp(err == nil, all(i, 0, number, b[i] == SpecFileByte(file, SpecFilePos(old(file))+i)))
  ensures imp(err != nil, b == nil && SpecFilePos(file) == SpecFileLen(file))
