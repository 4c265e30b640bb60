# ---- characters to glyphs (C07) ----
macro cmap4_ok(p) = p.SegCount > 0 && len(p.EndCount) == p.SegCount && len(p.StartCount) == p.SegCount && len(p.IdDelta) == p.SegCount && len(p.IdRangeOffset) == p.SegCount && p.EndCount[p.SegCount-1] == 65535
macro gidx(p, v, s) = p.IdRangeOffset[s] / 2 + (v - p.StartCount[s]) - (p.SegCount - s)
macro garr_ok(p) = forall(s, 0, p.SegCount, imp(p.StartCount[s] <= p.EndCount[s] && p.IdRangeOffset[s] != 0, gidx(p, p.StartCount[s], s) >= 0 && gidx(p, p.EndCount[s], s) < len(p.GlyphIdArray)))
# the 16-bit map: first segment from k on that ends at or after v, and what it gives
rec seg_from(en mapintint, n int, v int, k int) int = ite(k >= n, n, ite(v <= en[k], k, seg_from(en, n, v, k+1)))
rec glyph4(st mapintint, dl mapintint, ro mapintint, ga mapintint, n int, v int, s int) int = ite(v < st[s], 0, ite(ro[s] == 0, (v + dl[s]) % 65536,
     ite(ga[ro[s] / 2 + (v - st[s]) - (n - s)] == 0, 0, (ga[ro[s] / 2 + (v - st[s]) - (n - s)] + dl[s]) % 65536)))
rec map4(en mapintint, st mapintint, dl mapintint, ro mapintint, ga mapintint, n int, v int) int = glyph4(st, dl, ro, ga, n, v, seg_from(en, n, v, 0))
# the groups: first group from k on that holds v (n: none), and what it gives
rec grp_from(g1 mapintint, g2 mapintint, n int, v int, k int) int = ite(k >= n, n, ite(g1[k] <= v && v <= g2[k], k, grp_from(g1, g2, n, v, k+1)))
macro view4(p, en, st, dl, ro, ga) = forall(i, 0, p.SegCount, en[i] == p.EndCount[i] && st[i] == p.StartCount[i] && dl[i] == p.IdDelta[i] && ro[i] == p.IdRangeOffset[i]) && forall(i, 0, len(p.GlyphIdArray), ga[i] == p.GlyphIdArray[i])
macro view12(p, g1, g2, g3) = forall(i, 0, len(p.groupingTables), g1[i] == p.groupingTables[i].StartCharCode && g2[i] == p.groupingTables[i].EndCharCode && g3[i] == p.groupingTables[i].GlyphID)

func (*gopdf.SubsetFontObj).charCodeToGlyphIndexFormat4 (s, r) (g, err)
  prop C07
  ghost en mapintint, st mapintint, dl mapintint, ro mapintint, ga mapintint
  def view4(s.ttfp, en, st, dl, ro, ga)
  requires cmap4_ok(s.ttfp) && garr_ok(s.ttfp) && 0 <= r && r <= 65535
  ensures ok: err == nil
  ensures glyph: g == map4(en, st, dl, ro, ga, s.ttfp.SegCount, r)
  inv $k:int :: 0 <= $k && $k < s.ttfp.SegCount && seg_from(en, s.ttfp.SegCount, r, 0) == seg_from(en, s.ttfp.SegCount, r, $k)

func (*gopdf.SubsetFontObj).charCodeToGlyphIndexFormat12 (s, r) (g, err)
  prop C07
  ghost g1 mapintint, g2 mapintint, g3 mapintint
  def view12(s.ttfp, g1, g2, g3)
  requires r >= 0
  ensures has: iff(err == nil, grp_from(g1, g2, len(s.ttfp.groupingTables), r, 0) < len(s.ttfp.groupingTables))
  ensures glyph: imp(err == nil, g == g3[grp_from(g1, g2, len(s.ttfp.groupingTables), r, 0)] + r - g1[grp_from(g1, g2, len(s.ttfp.groupingTables), r, 0)])
  inv $k:int :: grp_from(g1, g2, len(s.ttfp.groupingTables), r, 0) == grp_from(g1, g2, len(s.ttfp.groupingTables), r, $k + 1)

func (*gopdf.SubsetFontObj).CharCodeToGlyphIndex (s, r) (g, err)
  prop C07
  opaque map4, grp_from
  ghost en mapintint, st mapintint, dl mapintint, ro mapintint, ga mapintint, g1 mapintint, g2 mapintint, g3 mapintint
  def view4(s.ttfp, en, st, dl, ro, ga)
  def view12(s.ttfp, g1, g2, g3)
  requires cmap4_ok(s.ttfp) && garr_ok(s.ttfp) && r >= 0
  ensures low: imp(r <= 65535, err == nil && g == map4(en, st, dl, ro, ga, s.ttfp.SegCount, r))
  ensures high: imp(r > 65535, iff(err == nil, grp_from(g1, g2, len(s.ttfp.groupingTables), r, 0) < len(s.ttfp.groupingTables)))
  ensures highg: imp(r > 65535 && err == nil, g == g3[grp_from(g1, g2, len(s.ttfp.groupingTables), r, 0)] + r - g1[grp_from(g1, g2, len(s.ttfp.groupingTables), r, 0)])

# every character asked for gets the glyph of the font's map, those seen before keep theirs
macro unshared(a, p) = a != arr(p.EndCount) && a != arr(p.StartCount) && a != arr(p.IdDelta) && a != arr(p.IdRangeOffset) && a != arr(p.GlyphIdArray)
rec map12(g1 mapintint, g2 mapintint, g3 mapintint, n int, v int) int = g3[grp_from(g1, g2, n, v, 0)] + v - g1[grp_from(g1, g2, n, v, 0)]
macro font_map(s, j) = ite(j <= 65535, map4(en, st, dl, ro, ga, s.ttfp.SegCount, j), map12(g1, g2, g3, len(s.ttfp.groupingTables), j))
func (*gopdf.SubsetFontObj).AddChars (s, txt) (err)
  prop C07
  opaque map4, grp_from
  ghost en mapintint, st mapintint, dl mapintint, ro mapintint, ga mapintint, g1 mapintint, g2 mapintint, g3 mapintint
  def view4(s.ttfp, en, st, dl, ro, ga)
  def view12(s.ttfp, g1, g2, g3)
  requires unshared(arr(s.CharacterToGlyphIndex.Vals), s.ttfp)
  requires cmap4_ok(s.ttfp) && garr_ok(s.ttfp) && s.CharacterToGlyphIndex != nil && cmap_ok(s.CharacterToGlyphIndex) && s.CharacterToGlyphIndex.keyIndexs != nil
  modifies s.CharacterToGlyphIndex.Keys, s.CharacterToGlyphIndex.Vals, elems(s.CharacterToGlyphIndex.Keys), elems(s.CharacterToGlyphIndex.Vals), content(s.CharacterToGlyphIndex.keyIndexs)
  ensures inv: cmap_ok(s.CharacterToGlyphIndex)
  ensures keep: all(j, int, imp(old(has(s.CharacterToGlyphIndex.keyIndexs, j)), has(s.CharacterToGlyphIndex.keyIndexs, j) && glyph_of(s.CharacterToGlyphIndex, j) == old(glyph_of(s.CharacterToGlyphIndex, j))))
  ensures all: imp(err == nil, forall(j, 0, nrunes(txt), has(s.CharacterToGlyphIndex.keyIndexs, rune_at(txt, j))))
  ensures missing: imp(err != nil, exists(j, 0, nrunes(txt), rune_at(txt, j) > 65535 && grp_from(g1, g2, len(s.ttfp.groupingTables), rune_at(txt, j), 0) >= len(s.ttfp.groupingTables)))
  ensures glyph: all(j, int, imp(has(s.CharacterToGlyphIndex.keyIndexs, j) && !old(has(s.CharacterToGlyphIndex.keyIndexs, j)), glyph_of(s.CharacterToGlyphIndex, j) == font_map(s, j)))
  inv $k:iter :: cmap_ok(s.CharacterToGlyphIndex)
  inv $k:iter :: all(j, int, imp(old(has(s.CharacterToGlyphIndex.keyIndexs, j)), has(s.CharacterToGlyphIndex.keyIndexs, j) && glyph_of(s.CharacterToGlyphIndex, j) == old(glyph_of(s.CharacterToGlyphIndex, j))))
  inv $k:iter :: forall(j, 0, $k, has(s.CharacterToGlyphIndex.keyIndexs, rune_at(txt, j)))
  inv $k:iter :: all(j, int, imp(has(s.CharacterToGlyphIndex.keyIndexs, j) && !old(has(s.CharacterToGlyphIndex.keyIndexs, j)), glyph_of(s.CharacterToGlyphIndex, j) == font_map(s, j)))
