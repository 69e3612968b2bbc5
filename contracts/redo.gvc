package redo

func Parse.readRedoBlockHeader(parse, data) (h, err)
  prop C05
  maypanic len(data) < 512
  returns 1: nil
  ensures uint64(h.BlockNumber) == SpecU(data, 0, 4) && uint64(h.BlockDataLen) == SpecU(data, 4, 2)
  ensures uint64(h.FirstRecOffset) == SpecU(data, 6, 2) && uint64(h.CheckpointNum) == SpecU(data, 8, 4)

func Parse.makeSQL(parse, table, keys, cols)
  prop C16
  maypanic !(all(i, 0, len(cols), cols[i] != nil) && all(i, 0, len(keys), keys[i] != nil))
  output SpecUpdate(table, old(keys), old(cols))
  loop 1 invariant imp(K < len(cols), SetValues == SpecSetSep(old(cols), K))
  loop 1 invariant imp(K == len(cols), SetValues == SpecSet(old(cols)))
  loop 2 invariant imp(K < len(keys), whereConditions == SpecKeySep(old(keys), K))
  loop 2 invariant imp(K == len(keys), whereConditions == SpecKey(old(keys)))

opaque SpecLen, SpecStringEnd, SpecNBytesEnd, SpecUndoHdrEnd, SpecFileOpEnd, SpecInsertRecEnd, SpecClustMarkEnd, SpecFieldsEnd, SpecUpdHeadEnd, SpecUpdateEnd, SpecIndexPlusEnd, SpecRecsEnd, SpecCopyEnd, SpecReorganizeEnd, SpecZipHeaderEnd, SpecZipCompressEnd

define BND imp(old(*pos) < 1<<50, old(*pos) <= *pos && *pos < 1<<51)

func Parse.mlogNBytes(parse, data, pos, t) (err)
  prop C14, C20
  @C14 maypanic SpecNBytesEnd(data, *pos, t) == 0
  modifies pos
  @C14 ensures imp(SpecNBytesEnd(data, old(*pos), t) != 0, *pos == SpecNBytesEnd(data, old(*pos), t))
  ensures BND
func Parse.mlogRecSecDeleteMark(parse, data, pos)
  prop C14, C20
  @C14 maypanic utils.SpecFixEnd(data, *pos, 3) == 0
  modifies pos
  ensures *pos == old(*pos) + 3
func Parse.mlogUndoInit(parse, data, pos) (err)
  prop C14, C20
  modifies pos
  ensures imp(utils.SpecCompEnd(data, old(*pos)) != 0, *pos == utils.SpecCompEnd(data, old(*pos)))
  ensures BND
func Parse.mlogUndoHdrReuse(parse, data, pos)
  prop C14, C20
  @C14 maypanic utils.SpecUllEnd(data, *pos) == 0
  modifies pos
  ensures imp(utils.SpecUllEnd(data, old(*pos)) != 0, *pos == utils.SpecUllEnd(data, old(*pos)))
  ensures BND
func Parse.mlogUndoHdrCreate(parse, data, pos) (err)
  prop C14, C20
  @C14 maypanic SpecUndoHdrEnd(data, *pos) == 0
  modifies pos
  @C14 ensures imp(SpecUndoHdrEnd(data, old(*pos)) != 0, *pos == SpecUndoHdrEnd(data, old(*pos)))
  ensures BND
func Parse.mlogWriteString(parse, data, pos)
  prop C14, C20
  @C14 maypanic utils.SpecFixEnd(data, *pos, 2) == 0 || SpecStringEnd(data, *pos+2) == 0
  modifies pos
  ensures *pos == old(*pos) + 4 + SpecLen(data, old(*pos)+2)
  @C14 ensures imp(SpecStringEnd(data, old(*pos)+2) != 0, *pos == SpecStringEnd(data, old(*pos)+2))
  ensures BND
func Parse.mlogFileOp(parse, data, pos, t)
  prop C14, C20
  @C14 maypanic SpecFileOpEnd(data, *pos, t) == 0
  modifies pos
  @C14 ensures imp(SpecFileOpEnd(data, old(*pos), t) != 0, *pos == SpecFileOpEnd(data, old(*pos), t))
  ensures BND
func Parse.mlogRecInsert(parse, data, pos, t) (err)
  prop C14, C20
  @C14 maypanic SpecInsertRecEnd(data, *pos, t == 38) == 0
  modifies pos
  @C14 ensures imp(SpecInsertRecEnd(data, old(*pos), t == 38) != 0, err == nil && *pos == SpecInsertRecEnd(data, old(*pos), t == 38))
  ensures BND
func Parse.mlogRecClustDeleteMark(parse, data, pos, t) (err)
  prop C14, C20
  @C14 maypanic SpecClustMarkEnd(data, *pos, t == 39) == 0
  modifies pos
  @C14 ensures imp(SpecClustMarkEnd(data, old(*pos), t == 39) != 0, *pos == SpecClustMarkEnd(data, old(*pos), t == 39))
  ensures BND
func Parse.mlogCompRecSecDeleteMark(parse, data, pos) (err)
  prop C14, C20
  @C14 maypanic SpecIndexPlusEnd(data, *pos, true, 3) == 0
  modifies pos
  @C14 ensures imp(SpecIndexPlusEnd(data, old(*pos), true, 3) != 0, *pos == SpecIndexPlusEnd(data, old(*pos), true, 3))
  ensures BND
func Parse.mlogRecUpdateInPlace(parse, data, pos, t) (err)
  prop C14, C20
  modifies pos
  @C14 ensures imp(SpecUpdateEnd(data, old(*pos), t == 41) != 0, *pos == SpecUpdateEnd(data, old(*pos), t == 41))
  ensures BND
  @C14 loop 1 invariant imp(SpecUpdateEnd(data, old(*pos), t == 41) != 0, SpecFieldsEnd(data, *pos, FieldsNum - i) == SpecUpdateEnd(data, old(*pos), t == 41))
  loop 1 invariant BND
func Parse.mlogRecDelete(parse, data, pos, t) (err)
  prop C14, C20
  @C14 maypanic SpecIndexPlusEnd(data, *pos, t == 42, 2) == 0
  modifies pos
  @C14 ensures imp(SpecIndexPlusEnd(data, old(*pos), t == 42, 2) != 0, *pos == SpecIndexPlusEnd(data, old(*pos), t == 42, 2))
  ensures BND
func Parse.mlogListDelete(parse, data, pos, t) (err)
  prop C14, C20
  @C14 maypanic SpecIndexPlusEnd(data, *pos, t == 43 || t == 44, 2) == 0
  modifies pos
  @C14 ensures imp(SpecIndexPlusEnd(data, old(*pos), t == 43 || t == 44, 2) != 0, *pos == SpecIndexPlusEnd(data, old(*pos), t == 43 || t == 44, 2))
  ensures BND
func Parse.mlogListEndCopyCreated(parse, data, pos, t) (err)
  prop C14, C20
  @C14 maypanic SpecCopyEnd(data, *pos, t == 45) == 0
  modifies pos
  @C14 ensures imp(SpecCopyEnd(data, old(*pos), t == 45) != 0, *pos == SpecCopyEnd(data, old(*pos), t == 45))
  ensures BND
  @C14 loop 1 invariant imp(SpecCopyEnd(data, old(*pos), t == 45) != 0, *pos <= recEnd && SpecRecsEnd(data, *pos, recEnd) == SpecCopyEnd(data, old(*pos), t == 45))
  loop 1 invariant BND
  loop 1 decreases len(data) - int(*pos)
func Parse.mlogPageReorganize(parse, data, pos, t) (err)
  prop C14, C20
  @C14 maypanic SpecReorganizeEnd(data, *pos, t) == 0
  modifies pos
  @C14 ensures imp(SpecReorganizeEnd(data, old(*pos), t) != 0, *pos == SpecReorganizeEnd(data, old(*pos), t))
  ensures BND
func Parse.mlogZipWriteNodePtr(parse, data, pos)
  prop C14, C20
  @C14 maypanic utils.SpecFixEnd(data, *pos, 8) == 0
  modifies pos
  ensures *pos == old(*pos) + 8
func Parse.mlogZipWriteHeader(parse, data, pos)
  prop C14, C20
  @C14 maypanic SpecZipHeaderEnd(data, *pos) == 0
  modifies pos
  @C14 ensures imp(SpecZipHeaderEnd(data, old(*pos)) != 0, *pos == SpecZipHeaderEnd(data, old(*pos)))
  ensures BND
func Parse.mlogZipPageCompress(parse, data, pos)
  prop C14, C20
  @C14 maypanic SpecZipCompressEnd(data, *pos) == 0
  modifies pos
  @C14 ensures imp(SpecZipCompressEnd(data, old(*pos)) != 0, *pos == SpecZipCompressEnd(data, old(*pos)))
  ensures BND
func Parse.mlogZipPageCompressNoData(parse, data, pos) (err)
  prop C14, C20
  @C14 maypanic SpecIndexPlusEnd(data, *pos, true, 1) == 0
  modifies pos
  @C14 ensures imp(SpecIndexPlusEnd(data, old(*pos), true, 1) != 0, *pos == SpecIndexPlusEnd(data, old(*pos), true, 1))
  ensures BND

opaque SpecBodyEnd, SpecRecordEnd
func Parse.mlogUndoInsert(parse, data, pos) (err)
  prop C14, C15, C20
  @C15 maypanic utils.SpecFixEnd(data, *pos, 2) == 0
  @C14 maypanic SpecStringEnd(data, *pos) == 0
  modifies pos, every ibdata.Fields, every ibdata.Columns
  output any
  event SpecUndoAt(*pos)
  ensures *pos == old(*pos) + 2 + SpecLen(data, old(*pos))
  @C14 ensures imp(SpecStringEnd(data, old(*pos)) != 0, *pos == SpecStringEnd(data, old(*pos)))
  ensures BND
func Parse.getTableBySpaceID(parse, spaceID) (table, err)
  prop C14, C20
opaque SpecUndoAt, SpecLogOk, SpecLogUndo
func Parse.parseRedoBlockData(parse, data) (err)
  event string(data)
  prop C14, C20
  @C14 requires SpecLogOk(data, 0)
  modifies every ibdata.Fields, every ibdata.Columns
  output any
  @C14 ensures Out() == SpecLogUndo(data, 0) && err == nil
  folded SpecBodyEnd, SpecRecordEnd, utils.SpecCompEnd, utils.SpecFixEnd
  loop 1 invariant pos < 1<<51
  @C14 loop 1 unfold SpecLogOk(data, pos), SpecLogUndo(data, pos) == ""
  @C14 loop 1 invariant SpecLogOk(data, pos) && Out() + SpecLogUndo(data, pos) == SpecLogUndo(data, 0)
  loop 1 decreases len(data) - int(pos)

func Parse.ParseRedoLogs(parse, logFileList) (err)
  prop C13, C20
  modifies every ibdata.Fields, every ibdata.Columns, every os.File, every bytes.Buffer, every redo.Checkpoint
  output any
  @C13 ensures imp(SpecAnyBad(logFileList, len(logFileList)), err != nil && Out() == "")
  @C13 ensures imp(!SpecAnyBad(logFileList, len(logFileList)), Out() == SpecPayloads(logFileList, len(logFileList)))
  @C13 loop 1 invariant !SpecAnyBad(logFileList, K) && string(data) == SpecPayloads(logFileList, K) && Out() == ""
  loop 2 invariant utils.SpecFileAt(file, LogFile, 2048+512*K) && K < 1<<40 && 2048+512*K <= len(utils.SpecFile(LogFile))
  loop 2 decreases len(utils.SpecFile(LogFile)) - 512*K
  @C13 loop 2 invariant Out() == "" && string(data) + SpecPayload(utils.SpecFile(LogFile), 2048+512*K) == SpecPayloads(logFileList, K1) + SpecPayload(utils.SpecFile(LogFile), 2048)
  folded SpecPayload, SpecPayloads
