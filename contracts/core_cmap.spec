# ---- the character map (C07) ----
# offset of the last (3,1) subtable among the first n encoding records of the cmap table at c
rec sub31(s str, c int, n int) int = ite(n <= 0, 0, ite(u16at(s, c + 8*n - 4) == 3 && u16at(s, c + 8*n - 2) == 1, u32at(s, c + 8*n), sub31(s, c, n-1)))
macro us(fd, o) = u16at(src(fd), o)
macro ul(fd, o) = u32at(src(fd), o)

func (*core.TTFParser).ParseCmap (t, fd) (err)
  prop C07
  ghost C int, R int, B int, N int
  def C == tab(t, "cmap") && R == us(fd, C + 2) && B == C + sub31(src(fd), C, R) && N == us(fd, B + 6) / 2
  requires fd != nil && tabs_ok(t) && has(t.tables, "cmap") && t.groupingTables == nil
  requires us(fd, B + 2) >= 16 + 8 * N
  modifies pos(fd), t.symbol, t.SegCount, t.EndCount, t.StartCount, t.IdDelta, t.IdRangeOffset, t.GlyphIdArray, t.chars, t.groupingTables, elems(t.groupingTables)
  ensures seg: imp(err == nil, t.SegCount == N && len(t.EndCount) == N && len(t.StartCount) == N && len(t.IdDelta) == N && len(t.IdRangeOffset) == N)
  ensures end: imp(err == nil, forall(i, 0, N, t.EndCount[i] == us(fd, B + 14 + 2*i)))
  ensures start: imp(err == nil, forall(i, 0, N, t.StartCount[i] == us(fd, B + 16 + 2*N + 2*i)))
  ensures delta: imp(err == nil, forall(i, 0, N, t.IdDelta[i] == us(fd, B + 16 + 4*N + 2*i)))
  ensures range: imp(err == nil, forall(i, 0, N, t.IdRangeOffset[i] == us(fd, B + 16 + 6*N + 2*i)))
  ensures glyphs: imp(err == nil, len(t.GlyphIdArray) == (us(fd, B + 2) - 16 - 8*N) / 2 && forall(i, 0, len(t.GlyphIdArray), t.GlyphIdArray[i] == us(fd, B + 16 + 8*N + 2*i)))
  inv $k:int, $o:int :: $o == sub31(src(fd), C, $k) && pos(fd) == C + 4 + 8*$k && $k <= R
  inv $k:int :: $k <= N
  inv $k:int :: $k <= (us(fd, B + 2) - 16 - 8*N) / 2
  inv $s:slice, $k:int :: len($s) == $k
  inv $s:slice :: fresh(arr($s)) || $s == nil
  inv $k:int :: pos(fd) == B + 14 + 2*$k
  inv $k:int :: pos(fd) == B + 16 + 2*N + 2*$k
  inv $k:int :: pos(fd) == B + 16 + 4*N + 2*$k
  inv $k:int :: pos(fd) == B + 16 + 6*N + 2*$k
  inv $k:int :: pos(fd) == B + 16 + 8*N + 2*$k
  inv $s:slice, $k:int :: forall(i, 0, $k, $s[i] == us(fd, B + 14 + 2*i))
  inv $s:slice, $k:int :: forall(i, 0, $k, $s[i] == us(fd, B + 16 + 2*N + 2*i))
  inv $s:slice, $k:int :: forall(i, 0, $k, $s[i] == us(fd, B + 16 + 4*N + 2*i))
  inv $s:slice, $k:int :: forall(i, 0, $k, $s[i] == us(fd, B + 16 + 6*N + 2*i))
  inv $s:slice, $k:int :: forall(i, 0, $k, $s[i] == us(fd, B + 16 + 8*N + 2*i))

# first (3,10) encoding record from record k on, -1 if there is none
rec first310(s str, c int, n int, k int) int = ite(k >= n, 0-1, ite(u16at(s, c + 4 + 8*k) == 3 && u16at(s, c + 6 + 8*k) == 10, k, first310(s, c, n, k+1)))
func (*core.TTFParser).ParseCmapFormat12 (t, fd) (found, err)
  prop C07
  ghost C int, R int, F int, B int
  def C == tab(t, "cmap") && R == us(fd, C + 2) && F == first310(src(fd), C, R, 0) && B == C + ul(fd, C + 8 + 8*F)
  requires fd != nil && tabs_ok(t) && has(t.tables, "cmap") && t.groupingTables == nil
  modifies pos(fd), t.groupingTables, elems(t.groupingTables)
  ensures found: imp(err == nil, iff(found, F >= 0))
  ensures none: imp(err == nil && !found, t.groupingTables == nil)
  ensures num: imp(err == nil && found, len(t.groupingTables) == ul(fd, B + 12))
  ensures val: imp(err == nil && found, forall(i, 0, len(t.groupingTables), t.groupingTables[i].StartCharCode == ul(fd, B + 16 + 12*i) && t.groupingTables[i].EndCharCode == ul(fd, B + 20 + 12*i) && t.groupingTables[i].GlyphID == ul(fd, B + 24 + 12*i)))
  inv $k:int, $s:slice :: len($s) == $k && pos(fd) == C + 4 + 8*$k && $k <= R
  inv $k:int, $s:slice :: forall(i, 0, $k, $s[i].platformID == us(fd, C + 4 + 8*i) && $s[i].encodingID == us(fd, C + 6 + 8*i) && $s[i].offset == ul(fd, C + 8 + 8*i))
  inv $s:slice :: fresh(arr($s)) || $s == nil
  inv $k:int :: F == first310(src(fd), C, R, $k + 1)
  inv $k:int :: len(t.groupingTables) == $k && pos(fd) == B + 16 + 12*$k && $k <= ul(fd, B + 12)
  inv $k:int :: forall(i, 0, $k, t.groupingTables[i].StartCharCode == ul(fd, B + 16 + 12*i) && t.groupingTables[i].EndCharCode == ul(fd, B + 20 + 12*i) && t.groupingTables[i].GlyphID == ul(fd, B + 24 + 12*i))
