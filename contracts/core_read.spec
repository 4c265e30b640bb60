# ---- reading of TrueType tables (C07, C08, C09) ----
macro u16at(s, o) = at(s, o) * 256 + at(s, o + 1)
macro s16at(s, o) = ite(u16at(s, o) >= 32768, u16at(s, o) - 65536, u16at(s, o))
macro u32at(s, o) = at(s, o) * 16777216 + at(s, o + 1) * 65536 + at(s, o + 2) * 256 + at(s, o + 3)

func (*core.TTFParser).Read (t, fd, n) (b, err)
  prop C07, C08, C09
  requires fd != nil && n > 0
  modifies pos(fd)
  ensures ok: iff(err == nil, old(pos(fd)) + n <= len(src(fd)))
  ensures pos: imp(err == nil, pos(fd) == old(pos(fd)) + n)
  ensures val: imp(err == nil, b != nil && len(b) == n && str(b) == sub(src(fd), old(pos(fd)), old(pos(fd)) + n) && forall(i, 0, n, b[i] == at(src(fd), old(pos(fd)) + i)))

func (*core.TTFParser).ReadUShort (t, fd) (v, err)
  prop C07, C08, C09
  requires fd != nil
  modifies pos(fd)
  ensures ok: iff(err == nil, old(pos(fd)) + 2 <= len(src(fd)))
  ensures pos: imp(err == nil, pos(fd) == old(pos(fd)) + 2)
  ensures val: imp(err == nil, v == u16at(src(fd), old(pos(fd))))

func (*core.TTFParser).ReadShort (t, fd) (v, err)
  prop C07, C08, C09
  requires fd != nil
  modifies pos(fd)
  ensures ok: iff(err == nil, old(pos(fd)) + 2 <= len(src(fd)))
  ensures pos: imp(err == nil, pos(fd) == old(pos(fd)) + 2)
  ensures val: imp(err == nil, v == s16at(src(fd), old(pos(fd))))

func (*core.TTFParser).ReadULong (t, fd) (v, err)
  prop C07, C08, C09
  requires fd != nil
  modifies pos(fd)
  ensures ok: iff(err == nil, old(pos(fd)) + 4 <= len(src(fd)))
  ensures pos: imp(err == nil, pos(fd) == old(pos(fd)) + 4)
  ensures val: imp(err == nil, v == u32at(src(fd), old(pos(fd))))

func (*core.TTFParser).Skip (t, fd, n) (err)
  prop C07, C08, C09
  requires fd != nil && n >= 0
  modifies pos(fd)
  ensures ok: err == nil
  ensures pos: pos(fd) == old(pos(fd)) + n

func (*core.TTFParser).Seek (t, fd, tag) (err)
  prop C07, C08, C09
  requires fd != nil
  requires all(k, str, t.tables[k].Offset < 4294967296)
  modifies pos(fd)
  ensures ok: iff(err == nil, has(t.tables, tag))
  ensures pos: imp(err == nil, pos(fd) == t.tables[tag].Offset)
  ensures stay: imp(err != nil, pos(fd) == old(pos(fd)))

macro tab(t, tag) = t.tables[tag].Offset
macro tabs_ok(t) = all(k, str, t.tables[k].Offset < 4294967296 && t.tables[k].Length < 4294967296)

func (*core.TTFParser).ParseHead (t, fd) (err)
  prop C08, C09
  requires fd != nil && tabs_ok(t)
  modifies pos(fd), t.unitsPerEm, t.xMin, t.yMin, t.xMax, t.yMax, t.indexToLocFormat
  ensures ok: iff(err == nil, has(t.tables, "head") && tab(t, "head") + 52 <= len(src(fd)) && u32at(src(fd), tab(t, "head") + 12) == 1594834165)
  ensures upm: imp(err == nil, t.unitsPerEm == u16at(src(fd), tab(t, "head") + 18))
  ensures box: imp(err == nil, t.xMin == s16at(src(fd), tab(t, "head") + 36) && t.yMin == s16at(src(fd), tab(t, "head") + 38) && t.xMax == s16at(src(fd), tab(t, "head") + 40) && t.yMax == s16at(src(fd), tab(t, "head") + 42))
  ensures loc: imp(err == nil, t.indexToLocFormat == s16at(src(fd), tab(t, "head") + 50))

func (*core.TTFParser).ParseHhea (t, fd) (err)
  prop C08, C09
  requires fd != nil && tabs_ok(t)
  modifies pos(fd), t.ascender, t.descender, t.numberOfHMetrics
  ensures ok: iff(err == nil, has(t.tables, "hhea") && tab(t, "hhea") + 36 <= len(src(fd)))
  ensures asc: imp(err == nil, t.ascender == s16at(src(fd), tab(t, "hhea") + 4) && t.descender == s16at(src(fd), tab(t, "hhea") + 6))
  ensures num: imp(err == nil, t.numberOfHMetrics == u16at(src(fd), tab(t, "hhea") + 34))

func (*core.TTFParser).ParseMaxp (t, fd) (err)
  prop C08, C09
  requires fd != nil && tabs_ok(t)
  modifies pos(fd), t.numGlyphs
  ensures ok: iff(err == nil, has(t.tables, "maxp") && tab(t, "maxp") + 6 <= len(src(fd)))
  ensures num: imp(err == nil, t.numGlyphs == u16at(src(fd), tab(t, "maxp") + 4))

func (*core.TTFParser).ParseOS2 (t, fd) (err)
  prop C06, C09
  requires fd != nil && tabs_ok(t)
  modifies pos(fd), t.os2Version, t.Embeddable, t.Bold, t.typoAscender, t.typoDescender, t.sTypoLineGap, t.usWinAscent, t.usWinDescent, t.sxHeight, t.capHeight
  ensures ok: iff(err == nil, has(t.tables, "OS/2") && tab(t, "OS/2") + 78 <= len(src(fd)) && imp(u16at(src(fd), tab(t, "OS/2")) >= 2, tab(t, "OS/2") + 90 <= len(src(fd))))
  ensures typo: imp(err == nil, t.typoAscender == s16at(src(fd), tab(t, "OS/2") + 68) && t.typoDescender == s16at(src(fd), tab(t, "OS/2") + 70))
  ensures caps: imp(err == nil, t.capHeight == ite(u16at(src(fd), tab(t, "OS/2")) >= 2, s16at(src(fd), tab(t, "OS/2") + 88), t.ascender))
  ensures xh: imp(err == nil && u16at(src(fd), tab(t, "OS/2")) >= 2, t.sxHeight == s16at(src(fd), tab(t, "OS/2") + 86))
  ensures ver: imp(err == nil, t.os2Version == u16at(src(fd), tab(t, "OS/2")))

func (*core.TTFParser).ParsePost (t, fd) (err)
  prop C06, C09
  requires fd != nil && tabs_ok(t)
  modifies pos(fd), t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch
  ensures ok: iff(err == nil, has(t.tables, "post") && tab(t, "post") + 16 <= len(src(fd)))
  ensures angle: imp(err == nil, t.italicAngle == s16at(src(fd), tab(t, "post") + 4))
  ensures under: imp(err == nil, t.underlinePosition == s16at(src(fd), tab(t, "post") + 8) && t.underlineThickness == s16at(src(fd), tab(t, "post") + 10))
  ensures fixed: imp(err == nil, iff(t.isFixedPitch, u32at(src(fd), tab(t, "post") + 12) != 0))

func (*core.TTFParser).ArrayPadUint (t, arr, size, val) (r, err)
  prop C09
  ensures ok: err == nil && len(r) == size
  ensures keep: forall(i, 0, size, r[i] == ite(i < len(arr), arr[i], val))
  inv $s:slice, $k:int :: len($s) == $k && $k <= size
  inv $s:slice, $k:int :: forall(i, 0, $k, $s[i] == ite(i < len(arr), arr[i], val))
  inv $s:slice :: fresh(arr($s)) || $s == nil

func (*core.TTFParser).ParseHmtx (t, fd) (err)
  prop C05, C09
  requires fd != nil && tabs_ok(t) && t.widths == nil && has(t.tables, "hmtx") && t.numberOfHMetrics > 0
  modifies pos(fd), t.widths, elems(t.widths)
  ensures ok: iff(err == nil, tab(t, "hmtx") + 4 * t.numberOfHMetrics - 2 <= len(src(fd)))
  ensures num: imp(err == nil, len(t.widths) >= t.numberOfHMetrics && len(t.widths) >= t.numGlyphs)
  ensures own: imp(err == nil, forall(i, 0, t.numberOfHMetrics, t.widths[i] == u16at(src(fd), tab(t, "hmtx") + 4 * i)))
  ensures last: imp(err == nil, forall(i, t.numberOfHMetrics, t.numGlyphs, t.widths[i] == u16at(src(fd), tab(t, "hmtx") + 4 * (t.numberOfHMetrics - 1))))
  inv $k:int :: len(t.widths) == $k && $k <= t.numberOfHMetrics && pos(fd) == tab(t, "hmtx") + 4 * $k
  inv $k:int :: imp($k > 0, tab(t, "hmtx") + 4 * $k - 2 <= len(src(fd)))
  inv $k:int :: forall(i, 0, $k, t.widths[i] == u16at(src(fd), tab(t, "hmtx") + 4 * i))

func (*core.TTFParser).ParseLoca (t, fd) (err)
  prop C08
  requires fd != nil && tabs_ok(t)
  modifies pos(fd), t.IsShortIndex, t.LocaTable
  ensures short: iff(t.IsShortIndex, t.indexToLocFormat == 0)
  ensures num: imp(err == nil, len(t.LocaTable) == t.tables["loca"].Length / ite(t.IsShortIndex, 2, 4))
  ensures val2: imp(err == nil && t.IsShortIndex, forall(i, 0, len(t.LocaTable), t.LocaTable[i] == 2 * u16at(src(fd), tab(t, "loca") + 2 * i)))
  ensures val4: imp(err == nil && !t.IsShortIndex, forall(i, 0, len(t.LocaTable), t.LocaTable[i] == u32at(src(fd), tab(t, "loca") + 4 * i)))
  inv $s:slice, $k:int :: len($s) == $k && imp(t.IsShortIndex, pos(fd) == tab(t, "loca") + 2 * $k)
  inv $s:slice, $k:int :: len($s) == $k && imp(!t.IsShortIndex, pos(fd) == tab(t, "loca") + 4 * $k)
  inv $k:int :: $k <= t.tables["loca"].Length / ite(t.IsShortIndex, 2, 4)
  inv $s:slice, $k:int :: imp(t.IsShortIndex, forall(i, 0, $k, $s[i] == 2 * u16at(src(fd), tab(t, "loca") + 2 * i)))
  inv $s:slice, $k:int :: imp(!t.IsShortIndex, forall(i, 0, $k, $s[i] == u32at(src(fd), tab(t, "loca") + 4 * i)))
  inv $s:slice :: fresh(arr($s)) || $s == nil
