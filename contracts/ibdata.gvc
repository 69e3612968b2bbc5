package ibdata
opaque SpecColFits, SpecCol, SpecBadCol, SpecSameCol, SpecNulls, SpecIsNull, SpecLens, SpecNewOffs, SpecNewEnd

func Parse.parseFilHeader(parse, data) (page, err)
  prop C05
  maypanic len(data) < 128
  returns 1: nil
  ensures page.fh.FIL_PAGE_SPACE == SpecU(data, 0, 4) && page.fh.FIL_PAGE_OFFSET == SpecU(data, 4, 4)
  ensures page.fh.FIL_PAGE_PREV == SpecU(data, 8, 4) && page.fh.FIL_PAGE_NEXT == SpecU(data, 12, 4)
  ensures page.fh.FIL_PAGE_LSN == SpecU(data, 16, 8) && page.fh.FIL_PAGE_TYPE == SpecU(data, 24, 2)
  ensures page.fh.FIL_PAGE_FILE_FLUSH_LSN == SpecU(data, 26, 8) && page.fh.FIL_PAGE_ARCH_LOG_NO == SpecU(data, 34, 4)
  ensures page.ph.PAGE_INDEX_ID == SpecU(data, 66, 8)
  ensures SpecTail(page.data, data, 38)

func Parse.parsePageHeader(parse, page) (r)
  prop C05
  maypanic len(page.data) < 128
  modifies page
  ensures r == page
  ensures page.ph.PAGE_N_DIR_SLOTS == SpecU(old(page.data), 0, 2) && page.ph.PAGE_HEAP_TOP == SpecU(old(page.data), 2, 2)
  ensures page.ph.PAGE_N_HEAP == SpecU(old(page.data), 4, 2) && page.ph.PAGE_FREE == SpecU(old(page.data), 6, 2)
  ensures page.ph.PAGE_GARBAGE == SpecU(old(page.data), 8, 2) && page.ph.PAGE_LAST_INSERT == SpecU(old(page.data), 10, 2)
  ensures page.ph.PAGE_DIRECTION == SpecU(old(page.data), 12, 2) && page.ph.PAGE_N_DIRECTION == SpecU(old(page.data), 14, 2)
  ensures page.ph.PAGE_N_RECS == SpecU(old(page.data), 16, 2) && page.ph.PAGE_MAX_TRX_ID == SpecU(old(page.data), 18, 8)
  ensures page.ph.PAGE_LEVEL == SpecU(old(page.data), 26, 2)
  ensures page.ph.PAGE_INDEX_ID == old(page.ph.PAGE_INDEX_ID) && page.fh == old(page.fh) && page.sp == old(page.sp)
  ensures SpecTail(page.data, old(page.data), 30) && SpecTail(page.OriginalData, old(page.OriginalData), 0)

func Parse.parseSysPageHeader(parse, page) (r, err)
  prop C05
  maypanic len(page.data) < 128
  returns 1: nil
  ensures r.sp.DICT_HDR_ROW_ID == SpecU(page.data, 0, 8) && r.sp.DICT_HDR_TABLE_ID == SpecU(page.data, 8, 8)
  ensures r.sp.DICT_HDR_INDEX_ID == SpecU(page.data, 16, 8) && r.sp.DICT_HDR_MAX_SPACE_ID == SpecU(page.data, 24, 4)
  ensures r.sp.DICT_HDR_MIX_ID_LOW == SpecU(page.data, 28, 4) && r.sp.DICT_HDR_TABLES == SpecU(page.data, 32, 4)
  ensures r.sp.DICT_HDR_TABLE_IDS == SpecU(page.data, 36, 4) && r.sp.DICT_HDR_COLUMNS == SpecU(page.data, 40, 4)
  ensures r.sp.DICT_HDR_INDEXES == SpecU(page.data, 44, 4) && r.sp.DICT_HDR_FIELDS == SpecU(page.data, 48, 4)

func Parse.makeReplaceIntoStatement(parse, rows, table, db)
  prop C11
  output SpecStatements(old(rows), len(rows), db, table)
  loop 1 invariant Out() == SpecStatements(old(rows), K, db, table) && buf.String() == ""
  loop 2 invariant buf.String() == SpecInto(db, table) + SpecList(columns, K)
  loop 2 invariant firstCol == !SpecAnyUser(columns, K)

func Parse.ibRecInitOffsetsOld(parse, d, rec, o, offsets, n)
  @C09 event SpecEvAt(rec)
  prop C07, C09, C21
  @!C21 requires rec <= uint64(len(d)) && uint64(len(o)) == uint64(len(d)) - rec && 1 <= n && n < 1<<16 && uint64(len(*offsets)) >= n+3
  @!C21 maypanic rec < 3 || rec < SpecOldExtra(d, rec, n)
  modifies *offsets
  @!C21 ensures (*offsets)[1] == n && (*offsets)[2] == SpecOldExtra(d, rec, n)
  @!C21 ensures all(i, 0, int(n), (*offsets)[3+i] == SpecOldEnd(d, rec, uint64(i)))
  @!C21 loop 1 invariant (*offsets)[1] == n && (*offsets)[2] == 6+n && all(j, 0, K, (*offsets)[3+j] == SpecOldEnd(d, rec, uint64(j)))
  @!C21 loop 2 invariant (*offsets)[1] == n && (*offsets)[2] == 6+2*n && all(j, 0, K, (*offsets)[3+j] == SpecOldEnd(d, rec, uint64(j)))

func Parse.ibRecInitOffsetsNew(parse, d, rec, o, offsets, table) (ok)
  @C09 event SpecEvAt(rec)
  prop C06, C09, C21
  @!C21 requires rec <= uint64(len(d)) && uint64(len(o)) == uint64(len(d)) - rec && len(d) < 1<<16 && len(table.Columns) < 1<<16 && len(*offsets) >= len(table.Columns)+3
  @!C21 requires 0 <= table.NullCount && table.NullCount <= len(table.Columns)
  @!C21 requires all(i, 0, len(table.Columns), table.Columns[i].FieldLen < 1<<32)
  @!C21 maypanic int(rec) < 16 + 4*len(table.Columns)
  modifies *offsets
  @!C21 ensures ok && (*offsets)[1] == uint64(len(table.Columns)) && (*offsets)[2] == 0
  @!C21 ensures all(i, 0, len(table.Columns), imp(SpecNewOffs(d, int(rec), table.NullCount, table.Columns, i+1) <= 0xffff, (*offsets)[3+i] == SpecNewEnd(d, int(rec), table.NullCount, table.Columns, i)))
  @!C21 folded
  @!C21 loop 1 unfold SpecNulls(table.Columns, 0) == 0 && SpecLens(d, int(rec), table.NullCount, table.Columns, 0) == 0 && SpecNewOffs(d, int(rec), table.NullCount, table.Columns, 0) == 0
  @!C21 loop 1 unfold SpecNulls(table.Columns, K+1) == 0 && SpecLens(d, int(rec), table.NullCount, table.Columns, K+1) == 0 && SpecNewOffs(d, int(rec), table.NullCount, table.Columns, K+1) == 0 && SpecNewEnd(d, int(rec), table.NullCount, table.Columns, K) == 0 && SpecIsNull(d, int(rec), table.Columns, K)
  loop 1 decreases len(table.Columns) - i
  @!C21 loop 1 invariant 0 <= SpecNulls(table.Columns, K) && SpecNulls(table.Columns, K) <= K
  @!C21 loop 1 invariant int(rec)-6-(table.NullCount+7)/8-2*K <= SpecLens(d, int(rec), table.NullCount, table.Columns, K) && SpecLens(d, int(rec), table.NullCount, table.Columns, K) <= int(rec)-6
  @!C21 loop 1 invariant (*offsets)[1] == uint64(len(table.Columns)) && (*offsets)[2] == 0
  @!C21 loop 1 invariant imp(SpecNulls(table.Columns, K) == 0, nullMask == 1 && SpecFrom(nulls, d, int(rec)-6))
  @!C21 loop 1 invariant imp(SpecNulls(table.Columns, K) != 0, nullMask == 2<<(uint(SpecNulls(table.Columns, K)-1)%8) && SpecFrom(nulls, d, int(rec)-6-(SpecNulls(table.Columns, K)-1)/8))
  @!C21 loop 1 invariant SpecFrom(lens, d, SpecLens(d, int(rec), table.NullCount, table.Columns, K))
  @!C21 loop 1 invariant imp(SpecNewOffs(d, int(rec), table.NullCount, table.Columns, K) <= 0xffff, offs == SpecNewOffs(d, int(rec), table.NullCount, table.Columns, K))
  @!C21 loop 1 invariant all(i, 0, K, imp(SpecNewOffs(d, int(rec), table.NullCount, table.Columns, i+1) <= 0xffff, (*offsets)[3+i] == SpecNewEnd(d, int(rec), table.NullCount, table.Columns, i)))

func Parse.parseRecords(parse, d, o, offs, columns) (c, n)
  @C09 event SpecEvRow(len(d)-len(o))
  prop C08, C09, C21
  @!C21 requires len(columns) < 1<<16 && len(offs) >= len(columns)+3 && offs[1] == uint64(len(columns))
  @!C21 maypanic SpecAnyBadCol(columns, o, offs, 0)
  @!C21 ensures len(c) == len(columns) && all(i, 0, len(columns), SpecCol(c[i], columns[i], o, offs, i))
  @!C21 folded SpecCol, SpecBadCol, SpecSameCol, SpecAnyBadCol
  @!C21 loop 1 unfold SpecBadCol(columns[i], o, offs, i), SpecAnyBadCol(columns, o, offs, K)
  @!C21 loop 1 invariant len(c) == len(columns) && all(i, 0, K, SpecCol(c[i], columns[i], o, offs, i))
  @!C21 loop 1 invariant SpecUnchanged(c, columns, K) && imp(SpecAnyBadCol(columns, o, offs, K), SpecAnyBadCol(columns, o, offs, 0))

func Parse.checkFieldSize(parse, offs, columns) (r)
  @C09 event SpecEvCheck(SpecAllFit(columns, *offs, 0))
  prop C08, C09, C21
  @C21 maypanic true
  @!C21 requires len(columns) < 1<<16 && len(*offs) >= len(columns)+3
  @!C21 folded SpecColFits, SpecAllFit
  @!C21 loop 1 unfold SpecColFits(columns[i], *offs, i), SpecAllFit(columns, *offs, K)
  @!C21 loop 1 invariant SpecAllFit(columns, *offs, 0) == SpecAllFit(columns, *offs, K)
  @!C21 ensures r == SpecAllFit(columns, *offs, 0)

opaque SpecEvAt, SpecEvCheck, SpecEvRow, SpecAllFit, SpecAnyBadCol
define DICTTAB parse.TableMap[columns[0].TableID]
define KNOWNTBL SpecHasTable(parse.TableMap, columns[0].TableID)
define START SpecStart(d, rec, free)
func Parse.parsePage(parse, d, pos, columns, rec, free) (rows)
  prop C09, C21
  @C09 output any
  @C09 requires len(d) == 16384 && 1 <= len(columns) && len(columns) < 1<<16
  @C09 requires imp(KNOWNTBL, len(DICTTAB.Columns) == len(columns) && 0 <= DICTTAB.NullCount && DICTTAB.NullCount <= len(columns))
  @C09 requires imp(KNOWNTBL, all(i, 0, len(DICTTAB.Columns), DICTTAB.Columns[i].FieldLen < 1<<32))
  @C09 ensures SpecOnce(d, START, len(rows))
  @C09 ensures SpecChainTail(Out(), d, START, len(rows), len(columns), SpecCompact(d) && !KNOWNTBL)
  @C09 loop 1 invariant offset == SpecOff(d, START, K) && len(allColumns) == K && Out() == SpecTrace(d, START, K)
  @C09 loop 1 invariant imp(K == 0, offset != 0 && offset != SpecInfimum(d)) && SpecOnce(d, START, K) && len(seen) == 16384
  @C09 loop 1 invariant all(x, 0, 16384, seen[x] == SpecIn(d, START, K, uint64(x)))
