# ---- the embedded font program (C08) ----
rec bsum(s str, k int, n int) int = ite(n <= 0, 0, bsum(s, k, n-1) + at(s, 4*(n-1) + k))
rec csum(s str, n int) int = ite(n <= 0, 0, csum(s, n-1) + u32at(s, 4*(n-1)))
ind csum_bytes(s str, n int) by n = csum(s, n) == 16777216 * bsum(s, 0, n) + 65536 * bsum(s, 1, n) + 256 * bsum(s, 2, n) + bsum(s, 3, n) trigger csum(s, n)

func gopdf.CheckSum (data) (r)
  prop C08
  requires len(data) % 4 == 0
  ensures sum: r == u32(csum(str(data), len(data)/4))
  inv $b:int, $i:int :: $i % 4 == 0 && $b == bsum(str(data), 0, $i/4)
  inv $b:int, $i:int :: $i % 4 == 0 && $b == bsum(str(data), 1, $i/4)
  inv $b:int, $i:int :: $i % 4 == 0 && $b == bsum(str(data), 2, $i/4)
  inv $b:int, $i:int :: $i % 4 == 0 && $b == bsum(str(data), 3, $i/4)

func (core.TableDirectoryEntry).PaddedLength (t) (r)
  prop C08
  requires t.Length < 4611686018427387904
  ensures val: r == (t.Length + 3) / 4 * 4

func gopdf.ReadUShortFromByte (data, offset) (v, n)
  prop C08
  requires 0 <= offset && offset + 2 <= len(data)
  ensures val: v == data[offset] * 256 + data[offset+1] && n == 2

func gopdf.ReadShortFromByte (data, offset) (v, n)
  prop C08
  requires 0 <= offset && offset + 2 <= len(data)
  ensures val: v == ite(data[offset] >= 128, data[offset] * 256 + data[offset+1] - 65536, data[offset] * 256 + data[offset+1]) && n == 2

macro fnt(p) = p.PtrToSubsetFontObj.ttfp
macro goff(p, g) = fnt(p).tables["glyf"].Offset + fnt(p).LocaTable[g]
macro gdata(p) = fnt(p).cahceFontData
func (*gopdf.PdfDictionaryObj).GetOffset (p, glyph) (r)
  prop C08
  requires p.PtrToSubsetFontObj != nil && 0 <= glyph && glyph < len(fnt(p).LocaTable)
  ensures val: r == goff(p, glyph)

func (*gopdf.PdfDictionaryObj).getGlyphSize (p, glyph) (r)
  prop C08
  requires p.PtrToSubsetFontObj != nil && 0 <= glyph && glyph + 1 < len(fnt(p).LocaTable)
  ensures val: r == fnt(p).LocaTable[glyph+1] - fnt(p).LocaTable[glyph]

func (*gopdf.PdfDictionaryObj).getGlyphData (p, glyph) (r)
  prop C08
  requires p.PtrToSubsetFontObj != nil && 0 <= glyph && glyph + 1 < len(fnt(p).LocaTable)
  requires fnt(p).LocaTable[glyph] <= fnt(p).LocaTable[glyph+1] && goff(p, glyph+1) <= len(gdata(p))
  ensures len: len(r) == fnt(p).LocaTable[glyph+1] - fnt(p).LocaTable[glyph]
  ensures val: forall(i, 0, len(r), r[i] == gdata(p)[goff(p, glyph) + i])
  ensures own: r == nil || fresh(arr(r))
  inv $s:slice, $i:int :: len($s) == $i && forall(j, 0, $i, $s[j] == gdata(p)[goff(p, glyph) + j])
  inv $s:slice :: fresh(arr($s)) || $s == nil

# component records of a composite glyph, the first at offset o of the font data D
rec csize(f int) int = 4 + ite(f & 1 == 0, 2, 4) + ite(f & 8 != 0, 2, ite(f & 64 != 0, 4, 0)) + ite(f & 128 != 0, 8, 0)
# every component from o on is in the set T
rec comps_in(D str, o int, T setint) bool = T[u16at(D, o + 2)] && imp(u16at(D, o) & 32 != 0, comps_in(D, o + csize(u16at(D, o)), T))
# the records from o on lie inside the font data and name glyphs below n
rec comps_ok(D str, o int, n int) bool = o >= 0 && o + 4 <= len(D) && u16at(D, o + 2) < n && imp(u16at(D, o) & 32 != 0, comps_ok(D, o + csize(u16at(D, o)), n))
# glyph g of the font: G is the start of the glyf table, L the loca table
rec closed1(D str, G int, L mapintint, T setint, g int) bool = imp(L[g] != L[g+1] && s16at(D, G + L[g]) < 0, comps_in(D, G + L[g] + 10, T))
rec glyph_ok(D str, G int, L mapintint, n int, g int) bool = imp(L[g] != L[g+1], G + L[g] + 2 <= len(D)) && imp(L[g] != L[g+1] && s16at(D, G + L[g]) < 0, comps_ok(D, G + L[g] + 10, n))
macro locaview(p, G, L) = G == fnt(p).tables["glyf"].Offset && forall(i, 0, len(fnt(p).LocaTable), L[i] == fnt(p).LocaTable[i])
macro distinct(a) = all(i, int, all(j, int, imp(0 <= i && i < j && j < len(a), a[i] != a[j])))

func (*gopdf.PdfDictionaryObj).AddCompositeGlyphs (p, glyphArray, glyph)
  prop C08
  ghost D str, T setint, G int, L mapintint
  def D == str(gdata(p))
  def locaview(p, G, L)
  requires p.PtrToSubsetFontObj != nil && glyphArray != nil && 0 <= glyph && glyph + 1 < len(fnt(p).LocaTable) && glyph_ok(D, G, L, fnt(p).numGlyphs, glyph)
  requires distinct(*glyphArray)
  requires forall(i, 0, len(*glyphArray), 0 <= (*glyphArray)[i] && (*glyphArray)[i] < fnt(p).numGlyphs)
  modifies *glyphArray, elems(*glyphArray)
  ensures keep: len(*glyphArray) >= old(len(*glyphArray)) && forall(i, 0, old(len(*glyphArray)), (*glyphArray)[i] == old((*glyphArray)[i]))
  ensures range: forall(i, 0, len(*glyphArray), 0 <= (*glyphArray)[i] && (*glyphArray)[i] < fnt(p).numGlyphs)
  ensures uniq: distinct(*glyphArray)
  ensures all: imp(forall(i, 0, len(*glyphArray), T[(*glyphArray)[i]]), closed1(D, G, L, T, glyph))
  ensures own: arr(*glyphArray) == old(arr(*glyphArray)) || fresh(arr(*glyphArray))
  inv $o:int :: comps_ok(D, $o, fnt(p).numGlyphs)
  inv $o:int :: imp(forall(i, 0, len(*glyphArray), T[(*glyphArray)[i]]) && comps_in(D, $o, T), comps_in(D, G + L[glyph] + 10, T))
  inv $o:int :: len(*glyphArray) >= old(len(*glyphArray)) && forall(i, 0, old(len(*glyphArray)), (*glyphArray)[i] == old((*glyphArray)[i]))
  inv $o:int :: forall(i, 0, len(*glyphArray), 0 <= (*glyphArray)[i] && (*glyphArray)[i] < fnt(p).numGlyphs)
  inv $o:int :: distinct(*glyphArray)
  inv $k:int, $c:c:int :: forall(i, 0, $k+1, (*glyphArray)[i] != $c)

macro ins(a, T) = forall(i, 0, len(a), T[a[i]])
func (*gopdf.PdfDictionaryObj).completeGlyphClosure (p, mapOfglyphs) (r)
  prop C08
  ghost D str, T setint, G int, L mapintint
  def D == str(gdata(p))
  def locaview(p, G, L)
  opaque closed1, glyph_ok
  requires p.PtrToSubsetFontObj != nil && mapOfglyphs != nil && fnt(p).numGlyphs > 0 && fnt(p).numGlyphs < len(fnt(p).LocaTable)
  requires all(g, int, imp(0 <= g && g < fnt(p).numGlyphs, glyph_ok(D, G, L, fnt(p).numGlyphs, g)))
  requires forall(i, 0, len(mapOfglyphs.Vals), mapOfglyphs.Vals[i] < fnt(p).numGlyphs)
  ensures range: forall(i, 0, len(r), 0 <= r[i] && r[i] < fnt(p).numGlyphs)
  ensures uniq: distinct(r)
  ensures zero: imp(ins(r, T), T[0])
  ensures used: imp(ins(r, T), ins(mapOfglyphs.Vals, T))
  ensures closed: imp(ins(r, T), forall(i, 0, len(r), closed1(D, G, L, T, r[i])))
  ensures own: fresh(arr(r))
  inv $s:slice :: fresh(arr($s)) || $s == nil
  inv $s:slice :: fresh(arr($s)) && $s != nil
  inv $s:slice, $b:bool :: imp($b, $s != nil)
  inv $s:slice :: distinct($s)
  inv $s:slice :: forall(i, 0, len($s), 0 <= $s[i] && $s[i] < fnt(p).numGlyphs)
  inv $s:slice, $m:map :: forall(i, 0, len($s), has($m, $s[i]) && $m[$s[i]])
  inv $s:slice, $b:bool :: imp($b && ins($s, T), T[0])
  inv $s:slice, $b:bool :: imp(!$b, forall(i, 0, len($s), $s[i] != 0))
  inv $s:slice, $k:int :: imp(ins($s, T), forall(i, 0, $k+1, T[mapOfglyphs.Vals[i]]))
  inv $s:slice, $m:map :: imp(ins($s, T), all(v, int, imp(has($m, v), T[v])))
  inv $s:slice :: imp(ins($s, T), T[0])
  inv $s:slice :: imp(ins($s, T), ins(mapOfglyphs.Vals, T))
  inv $s:slice, $k:int :: imp(ins($s, T), forall(i, 0, $k, closed1(D, G, L, T, $s[i])))

# total size of the first k glyphs listed in A from o on
rec psum(A arrint, o int, L mapintint, k int) int = ite(k <= 0, 0, psum(A, o, L, k-1) + L[A[o+k-1] + 1] - L[A[o+k-1]])
macro nxt(t, g, i, o) = ite(g + 1 == i, o, t[g+1])
func (*gopdf.PdfDictionaryObj).makeGlyfAndLocaTable (p) (gt, lt, err)
  prop C08
  ghost D str, T setint, G int, L mapintint, n int
  def D == str(gdata(p))
  def locaview(p, G, L)
  def n == fnt(p).numGlyphs
  opaque closed1, glyph_ok
  requires p.PtrToSubsetFontObj != nil && p.PtrToSubsetFontObj.CharacterToGlyphIndex != nil && n > 0 && n < len(fnt(p).LocaTable)
  requires all(g, int, imp(0 <= g && g < n, glyph_ok(D, G, L, n, g)))
  requires all(g, int, imp(0 <= g && g < n, L[g] <= L[g+1] && G + L[g+1] <= len(D))) && len(D) < 4294967296 && n < 65536
  requires forall(i, 0, len(p.PtrToSubsetFontObj.CharacterToGlyphIndex.Vals), p.PtrToSubsetFontObj.CharacterToGlyphIndex.Vals[i] < n)
  ensures shape: err == nil && len(lt) == n + 1 && lt[0] == 0 && lt[n] <= len(gt) && len(gt) % 4 == 0
  ensures sizes: forall(g, 0, n, lt[g+1] == lt[g] || lt[g+1] - lt[g] == L[g+1] - L[g])
  ensures used: imp(forall(g, 0, n, imp(lt[g+1] - lt[g] == L[g+1] - L[g], T[g])), T[0] && ins(p.PtrToSubsetFontObj.CharacterToGlyphIndex.Vals, T))
  ensures closed: imp(forall(g, 0, n, imp(lt[g+1] - lt[g] == L[g+1] - L[g], T[g])), forall(g, 0, n, imp(lt[g+1] != lt[g], closed1(D, G, L, T, g))))
  inv $s:c:[]int, $k:int, $z:acc when forall(j, 1, len($s), $s[j-1] < $s[j]); $k == 0; $z == 0 :: 0 <= $k && $k <= len($s) && $z == psum(elems($s), off($s), L, $k)
  inv $s:c:[]int, $k:int, $z:acc when forall(j, 1, len($s), $s[j-1] < $s[j]); $k == 0; $z == 0 :: 0 <= $k && $k <= len($s) && 0 <= $z && $z <= 4294967296 * $k && imp($k > 0, $s[$k-1] >= $k-1)
  inv $s:c:[]int, $k:int, $z:acc when forall(j, 1, len($s), $s[j-1] < $s[j]); $k == 0; $z == 0 :: 0 <= $k && $k <= len($s) && forall(j, 0, $k, psum(elems($s), off($s), L, j) + L[$s[j]+1] - L[$s[j]] <= $z)
  inv $s:c:[]int, $i:ctr, $q:acc when forall(j, 1, len($s), $s[j-1] < $s[j]); $i == 0; $q == 0 :: 0 <= $q && $q <= len($s) && forall(j, 0, $q, $s[j] < $i) && forall(j, $q, len($s), $s[j] >= $i)
  inv $t:c:[]int, $i:ctr, $o:acc when len($t) == n+1; $i == 0; $o == 0 :: 0 <= $i && 0 <= $o && imp($i > 0, $t[0] == 0) && imp($i == 0, $o == 0) && forall(g, 0, $i, 0 <= $t[g] && $t[g] <= $o)
  inv $t:c:[]int, $i:ctr, $o:acc when len($t) == n+1; $i == 0; $o == 0 :: forall(g, 0, $i, nxt($t, g, $i, $o) == $t[g] || nxt($t, g, $i, $o) - $t[g] == L[g+1] - L[g])
  inv $t:c:[]int, $s:c:[]int, $i:ctr, $o:acc, $q:acc when len($t) == n+1; forall(j, 1, len($s), $s[j-1] < $s[j]); $i == 0; $o == 0; $q == 0 :: forall(j, 0, $q, nxt($t, $s[j], $i, $o) - $t[$s[j]] == L[$s[j]+1] - L[$s[j]])
  inv $t:c:[]int, $s:c:[]int, $i:ctr, $o:acc when len($t) == n+1; forall(j, 1, len($s), $s[j-1] < $s[j]); $i == 0; $o == 0 :: imp(ins($s, T), forall(g, 0, $i, imp(nxt($t, g, $i, $o) != $t[g], closed1(D, G, L, T, g))))
