# ---- the calls that put content into a document ----
# fonts are known by name, an unknown one is refused and leaves the current font
func (*pdft.PDFt).SetFont (i, name, style, size) (err)
  prop C05, C17
  requires i != nil
  modifies i.curr.fontName, i.curr.fontStyle, i.curr.fontSize
  ensures known: iff(err == nil, has(i.fontDatas, name))
  ensures set: imp(err == nil, i.curr.fontName == name && i.curr.fontSize == size && i.curr.fontStyle == ite(sindex(toupper(style), "B") >= 0, 2, 0) + ite(sindex(toupper(style), "I") >= 0, 1, 0) + ite(sindex(toupper(style), "U") >= 0, 4, 0))
  ensures refused: imp(err != nil, i.curr.fontName == old(i.curr.fontName) && i.curr.fontSize == old(i.curr.fontSize) && i.curr.fontStyle == old(i.curr.fontStyle))
  ensures error: imp(err != nil, err == glob("pdft.ErrFontNameNotFound"))

# what was there before stays, in order
macro kept(i) = len(i.contenters) >= old(len(i.contenters)) && forall(j, 0, old(len(i.contenters)), i.contenters[j] == old(i.contenters[j]))
macro last(i) = i.contenters[old(len(i.contenters))]

func (*pdft.PDFt).ShowCellBorder (i, isShow)
  prop C06
  requires i != nil
  modifies i.contenters, elems(i.contenters), i.curr.lineWidth
  ensures kept: kept(i)
  ensures one: len(i.contenters) == old(len(i.contenters)) + 1 && typeis(last(i), "*pdft.ContentLineStyle")
  ensures style: asptr(last(i), "pdft.ContentLineStyle").width == ite(isShow, 0.1, 0.0) && asptr(last(i), "pdft.ContentLineStyle").lineType == ite(isShow, "dotted", "")
  ensures frames: i.curr.lineWidth == ite(isShow, 0.1, 0.0)

macro ctok(i, ct, text, pageNum, x, y, w, h, align, fontColor) = ct.text == text && ct.pageNum == pageNum && ct.x == x && ct.y == y && ct.w == w && ct.h == h && ct.align == align && ct.fontColor == fontColor && ct.fontName == i.curr.fontName && ct.fontSize == i.curr.fontSize && ct.fontStyle == i.curr.fontStyle && ct.lineWidth == i.curr.lineWidth && ct.pdfProtection == i.pdfProtection && ct.pageHeight == ite(has(i.pdf.pageSizes, pageNum-1), i.pdf.pageSizes[pageNum-1][3], 841.89)
macro chars(i) = i.fontDatas[i.curr.fontName].font.CharacterToGlyphIndex
macro addable(f) = unshared(arr(f.CharacterToGlyphIndex.Vals), f.ttfp) && cmap4_ok(f.ttfp) && garr_ok(f.ttfp) && f.CharacterToGlyphIndex != nil && cmap_ok(f.CharacterToGlyphIndex) && f.CharacterToGlyphIndex.keyIndexs != nil

func (*pdft.PDFt).Insert (i, text, pageNum, x, y, w, h, align, fontColor) (err)
  prop C05, C06, C13
  requires i != nil && all(k, int, imp(has(i.pdf.pageSizes, k), len(i.pdf.pageSizes[k]) >= 4))
  requires imp(has(i.fontDatas, i.curr.fontName), i.fontDatas[i.curr.fontName] != nil && addable(i.fontDatas[i.curr.fontName].font))
  modifies i.contenters, elems(i.contenters)
  modifies chars(i).Keys, chars(i).Vals, elems(chars(i).Keys), elems(chars(i).Vals), content(chars(i).keyIndexs)
  ensures nofont: imp(!has(i.fontDatas, i.curr.fontName), err != nil)
  ensures kept: kept(i)
  ensures none: imp(err != nil, len(i.contenters) == old(len(i.contenters)))
  ensures one: imp(err == nil, len(i.contenters) == old(len(i.contenters)) + 1 && typeis(last(i), "*pdft.ContentText"))
  ensures text: imp(err == nil, ctok(i, asptr(last(i), "pdft.ContentText"), text, pageNum, x, y, w, h, align, fontColor))
  ensures font: imp(err == nil, asptr(last(i), "pdft.ContentText").pdfFontData == i.fontDatas[i.curr.fontName])
  ensures mapped: imp(err == nil, forall(j, 0, nrunes(text), has(chars(i).keyIndexs, rune_at(text, j))))
