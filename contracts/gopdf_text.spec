# ---- placing of text (C06) and text measuring / encoding (C05) ----
macro typo(v, upm, size) = toreal(v) * 1000 / toreal(upm) * toreal(size) / 1000

func gopdf.convertTypoUnit (val, unitsPerEm, fontSize) (r)
  prop C06
  requires unitsPerEm != 0
  ensures val: r == val * 1000 / toreal(unitsPerEm) * fontSize / 1000

func (*gopdf.cacheContentText).calX (c) (x, err)
  prop C06
  requires c.contentType == 0
  ensures ok: err == nil
  ensures right: imp(c.cellOpt.Align & 2 == 2, x == c.x + c.cellWidthPdfUnit - c.textWidthPdfUnit)
  ensures center: imp(c.cellOpt.Align & 2 != 2 && c.cellOpt.Align & 16 == 16, x == c.x + c.cellWidthPdfUnit/2 - c.textWidthPdfUnit/2)
  ensures left: imp(c.cellOpt.Align & 2 != 2 && c.cellOpt.Align & 16 != 16, x == c.x)

macro asc(c) = typo(c.fontSubset.ttfp.typoAscender, c.fontSubset.ttfp.unitsPerEm, c.fontSize)
macro desc(c) = typo(c.fontSubset.ttfp.typoDescender, c.fontSubset.ttfp.unitsPerEm, c.fontSize)
func (*gopdf.cacheContentText).calY (c) (y, err)
  prop C06
  requires c.contentType == 0 && c.fontSubset != nil && c.fontSubset.ttfp.unitsPerEm != 0
  ensures ok: err == nil
  ensures bottom: imp(c.cellOpt.Align & 1 == 1, y == c.pageheight - c.y - c.cellHeightPdfUnit - desc(c))
  ensures middle: imp(c.cellOpt.Align & 1 != 1 && c.cellOpt.Align & 32 == 32, y == c.pageheight - c.y - c.cellHeightPdfUnit/2 - (desc(c) + asc(c))/2)
  ensures top: imp(c.cellOpt.Align & 1 != 1 && c.cellOpt.Align & 32 != 32, y == c.pageheight - c.y - asc(c))

rec k1000(n int, upm int) int = ite(n < 0, -((-1000*n) / upm), (1000*n) / upm)
func gopdf.convertTTFUnit2PDFUnit (n, upem) (r)
  prop C05
  requires upem > 0
  ensures trunc: r == k1000(n, upem)

# characters used so far: every key has its glyph
macro cmap_ok(m) = len(m.Keys) == len(m.Vals) && all(k, int, imp(has(m.keyIndexs, k), 0 <= m.keyIndexs[k] && m.keyIndexs[k] < len(m.Vals) && m.Keys[m.keyIndexs[k]] == k))
macro glyph_of(m, r) = m.Vals[m.keyIndexs[r]]

func (*gopdf.MapOfCharacterToGlyphIndex).KeyExists (m, k) (r)
  prop C05
  ensures has: iff(r, has(m.keyIndexs, k))

func (*gopdf.MapOfCharacterToGlyphIndex).Index (m, k) (i, ok)
  prop C05
  ensures has: iff(ok, has(m.keyIndexs, k))
  ensures val: imp(ok, i == m.keyIndexs[k])

func (*gopdf.MapOfCharacterToGlyphIndex).Val (m, k) (v, ok)
  prop C05
  requires cmap_ok(m)
  ensures has: iff(ok, has(m.keyIndexs, k))
  ensures val: imp(ok, v == glyph_of(m, k))

func (*gopdf.MapOfCharacterToGlyphIndex).Set (m, k, v)
  prop C05
  requires cmap_ok(m) && m.keyIndexs != nil
  modifies m.Keys, m.Vals, elems(m.Keys), elems(m.Vals), content(m.keyIndexs)
  ensures inv: cmap_ok(m)
  ensures own: (arr(m.Vals) == old(arr(m.Vals)) || fresh(arr(m.Vals))) && (arr(m.Keys) == old(arr(m.Keys)) || fresh(arr(m.Keys)))
  ensures new: has(m.keyIndexs, k) && glyph_of(m, k) == v
  ensures keep: all(j, int, imp(j != k, iff(has(m.keyIndexs, j), old(has(m.keyIndexs, j)))))
  ensures keepv: all(j, int, imp(j != k && old(has(m.keyIndexs, j)), glyph_of(m, j) == old(glyph_of(m, j))))

macro font_ok(f) = f.CharacterToGlyphIndex != nil && cmap_ok(f.CharacterToGlyphIndex) && f.ttfp.unitsPerEm > 0 && f.ttfp.numberOfHMetrics > 0 && len(f.ttfp.widths) >= f.ttfp.numberOfHMetrics
rec w1000(w int, upm int) int = w * 1000 / upm
macro pdfw(f, g) = w1000(f.ttfp.widths[ite(g >= f.ttfp.numberOfHMetrics, f.ttfp.numberOfHMetrics - 1, g)], f.ttfp.unitsPerEm)

func (*gopdf.SubsetFontObj).GlyphIndexToPdfWidth (s, glyphIndex) (r)
  prop C05, C09
  requires font_ok(s)
  ensures val: r == pdfw(s, glyphIndex)

func (*gopdf.SubsetFontObj).CharIndex (s, r) (g, err)
  prop C05
  requires s.CharacterToGlyphIndex != nil && cmap_ok(s.CharacterToGlyphIndex)
  ensures has: iff(err == nil, has(s.CharacterToGlyphIndex.keyIndexs, r))
  ensures val: imp(err == nil, g == glyph_of(s.CharacterToGlyphIndex, r))

func (*gopdf.SubsetFontObj).CharWidth (s, r) (w, err)
  prop C05
  requires font_ok(s)
  ensures has: iff(err == nil, has(s.CharacterToGlyphIndex.keyIndexs, r))
  ensures val: imp(err == nil, w == pdfw(s, glyph_of(s.CharacterToGlyphIndex, r)))

# kerning between runes n-2 and n-1 of the text, in thousandths
rec kern_at(t str, kn map2int, on bool, upm int, n int) int = ite(on && n >= 2, k1000(kn[rune_at(t, n-2)][rune_at(t, n-1)], upm), 0)
rec shown(t str, g mapintint, kn map2int, on bool, upm int, rise bool, tr arrreal, n int) str = ite(n <= 0, "[<", cat(shown(t, g, kn, on, upm, rise, tr, n-1),
    ite(kern_at(t, kn, on, upm, n) != 0, cat(">", itoa(-kern_at(t, kn, on, upm, n)), "<"), ""),
    ite(rise, cat(">] TJ\n", fmt("%.2f", tr[n-1]), " Ts\n[<"), ""),
    fmt("%04X", g[rune_at(t, n-1)])))
rec adv(t str, w mapintint, kn map2int, on bool, upm int, n int) int = ite(n <= 0, 0, adv(t, w, kn, on, upm, n-1) + w[rune_at(t, n-1)] + kern_at(t, kn, on, upm, n))

func gopdf.kern (f, leftRune, rightRune, leftIndex, rightIndex) (r)
  prop C05
  requires f != nil && f.ttfp.kern == nil
  ensures over: imp(f.funcKernOverride != nil, r == callint(f.funcKernOverride, leftRune, rightRune, leftIndex, rightIndex, 0))
  ensures none: imp(f.funcKernOverride == nil, r == 0)

func gopdf.createContent (f, text, fontSize, rectangle, out) (w, h, tw, err)
  prop C05
  opaque k1000, w1000
  ghost g mapintint, wd mapintint, kn map2int, tr arrreal
  def all(k, int, imp(has(f.CharacterToGlyphIndex.keyIndexs, k), g[k] == glyph_of(f.CharacterToGlyphIndex, k)))
  def all(k, int, imp(has(f.CharacterToGlyphIndex.keyIndexs, k), wd[k] == pdfw(f, g[k])))
  def all(l, int, all(r, int, kn[l][r] == ite(f.funcKernOverride != nil, callint(f.funcKernOverride, l, r, g[l], g[r], 0), 0)))
  def all(k, int, tr[k] == callreal(f.funcTextriseOverride, ite(k == 0, 0, rune_at(text, k-1)), rune_at(text, k), fontSize, text, k))
  requires f != nil && font_ok(f) && out != nil && f.ttfp.kern == nil
  modifies *out
  ensures ok: iff(err == nil, forall(k, 0, nrunes(text), has(f.CharacterToGlyphIndex.keyIndexs, rune_at(text, k))))
  ensures text: imp(err == nil, str(out) == cat(old(str(out)), shown(text, g, kn, f.ttfFontOption.UseKerning, f.ttfp.unitsPerEm, f.funcTextriseOverride != nil, tr, nrunes(text)), ">] TJ\n"))
  ensures tw: imp(err == nil, tw == toreal(adv(text, wd, kn, f.ttfFontOption.UseKerning, f.ttfp.unitsPerEm, nrunes(text))) * toreal(fontSize) / 1000)
  ensures box: imp(err == nil && rectangle != nil, w == rectangle.W && h == rectangle.H)
  inv $b:buf, $k:iter :: $b == cat(old(str(out)), shown(text, g, kn, f.ttfFontOption.UseKerning, f.ttfp.unitsPerEm, f.funcTextriseOverride != nil, tr, $k))
  inv $s:int, $k:iter :: $s == adv(text, wd, kn, f.ttfFontOption.UseKerning, f.ttfp.unitsPerEm, $k)
  inv $i:int, $k:iter :: $i == $k
  inv $l:int, $k:iter :: $l == ite($k == 0, 0, rune_at(text, $k-1))
  inv $l:int, $k:iter :: imp($k > 0, $l == g[rune_at(text, $k-1)])
  inv $k:iter :: forall(j, 0, $k, has(f.CharacterToGlyphIndex.keyIndexs, rune_at(text, j)))

macro f2(x) = fmt("%0.2f", x)
macro line(x1, y1, x2, y2) = cat(f2(x1), " ", f2(y1), " m ", f2(x2), " ", f2(y2), " l s\n")
macro border(c) = cat(
   ite(c.cellOpt.Border & 4 == 4, line(c.x - c.lineWidth/2, c.pageheight - c.y, c.x + c.cellWidthPdfUnit + c.lineWidth/2, c.pageheight - c.y), ""),
   ite(c.cellOpt.Border & 8 == 8, line(c.x, c.pageheight - c.y, c.x, c.pageheight - c.y - c.cellHeightPdfUnit), ""),
   ite(c.cellOpt.Border & 2 == 2, line(c.x + c.cellWidthPdfUnit, c.pageheight - c.y, c.x + c.cellWidthPdfUnit, c.pageheight - c.y - c.cellHeightPdfUnit), ""),
   ite(c.cellOpt.Border & 1 == 1, line(c.x - c.lineWidth/2, c.pageheight - c.y - c.cellHeightPdfUnit, c.x + c.cellWidthPdfUnit + c.lineWidth/2, c.pageheight - c.y - c.cellHeightPdfUnit), ""))

func (*gopdf.cacheContentText).drawBorder (c, stream) (err)
  prop C06
  requires stream != nil
  modifies *stream
  ensures ok: err == nil
  ensures lines: str(stream) == cat(old(str(stream)), border(c))

func (*gopdf.cacheContentText).underline (c, startX, startY, endX, endY) (r, err)
  prop C06
  requires c.fontSubset != nil && c.fontSubset.ttfp.unitsPerEm != 0
  ensures ok: err == nil && r != nil && fresh(r)
  ensures rect: str(r) == cat(f2(startX), " ",
     f2(c.pageheight - (startY - toreal(c.fontSubset.ttfp.underlinePosition) / toreal(c.fontSubset.ttfp.unitsPerEm) * toreal(c.fontSize)) - toreal(c.fontSize) * 0.7), " ",
     f2(endX - startX), " -", f2(toreal(c.fontSubset.ttfp.underlineThickness) / toreal(c.fontSubset.ttfp.unitsPerEm) * toreal(c.fontSize)), " re f\n")

macro textx(c) = ite(c.cellOpt.Align & 2 == 2, c.x + c.cellWidthPdfUnit - c.textWidthPdfUnit, ite(c.cellOpt.Align & 16 == 16, c.x + c.cellWidthPdfUnit/2 - c.textWidthPdfUnit/2, c.x))
macro texty(c) = ite(c.cellOpt.Align & 1 == 1, c.pageheight - c.y - c.cellHeightPdfUnit - desc(c), ite(c.cellOpt.Align & 32 == 32, c.pageheight - c.y - c.cellHeightPdfUnit/2 - (desc(c) + asc(c))/2, c.pageheight - c.y - asc(c)))
macro colour(c) = ite(c.textColor.r == 0 && c.textColor.g == 0 && c.textColor.b == 0, "",
   cat(f2(toreal(c.textColor.r) * 0.00392156862745), " ", f2(toreal(c.textColor.g) * 0.00392156862745), " ", f2(toreal(c.textColor.b) * 0.00392156862745), " rg\n"))
macro uline(c) = ite(c.fontStyle & 4 == 4, cat(f2(c.x), " ",
     f2(c.pageheight - (c.y - toreal(c.fontSubset.ttfp.underlinePosition) / toreal(c.fontSubset.ttfp.unitsPerEm) * toreal(c.fontSize)) - toreal(c.fontSize) * 0.7), " ",
     f2(c.cellWidthPdfUnit), " -", f2(toreal(c.fontSubset.ttfp.underlineThickness) / toreal(c.fontSubset.ttfp.unitsPerEm) * toreal(c.fontSize)), " re f\n"), "")

func (*gopdf.cacheContentText).toStream (c, protection) (r, err)
  prop C06
  requires c.contentType == 0 && c.fontSubset != nil && c.fontSubset.ttfp.unitsPerEm != 0
  ensures ok: err == nil && r != nil && fresh(r)
  ensures ops: str(r) == cat("BT\n", f2(textx(c)), " ", f2(texty(c)), " TD\n/F", itoa(c.fontCountIndex), " ", itoa(c.fontSize), " Tf\n", colour(c), str(c.content), "ET\n", uline(c), border(c))
