# ---- what the inserted content puts on a page (C05, C06, C11) ----
func pdft.getConvertedStyle (s) (style)
  prop C06
  ensures val: style == ite(sindex(toupper(s), "B") >= 0, 2, 0) + ite(sindex(toupper(s), "I") >= 0, 1, 0) + ite(sindex(toupper(s), "U") >= 0, 4, 0)

func (*pdft.ContentLineStyle).toSteram (c) (r, err)
  prop C06
  ensures ok: err == nil && r != nil && fresh(r)
  ensures ops: str(r) == cat(ite(c.lineType == "dashed", "[5] 2 d\n", ite(c.lineType == "dotted", "[2 3] 11 d\n", "[] 0 d\n")), fmt("%.2f", c.width), " w\n")

func (*pdft.contentImgBase64).toSteram (c) (r, err)
  prop C06, C11
  requires c.refPdfimg != nil
  ensures ok: err == nil && r != nil && fresh(r)
  ensures ops: str(r) == cat("q ", f2(c.w), " 0 0 ", f2(c.h), " ", f2(c.x), " ", f2(c.pageHeight - (c.y + c.h)), " cm /", c.refPdfimg.xObjChar, itoa(c.refPdfimg.xObjIndex), " Do Q\n")

func (*pdft.contentImgBase64).page (c) (r)
  prop C06
  ensures val: r == c.pageNum

func (*pdft.ContentText).page (c) (r)
  prop C06
  ensures val: r == c.pageNum

func (*pdft.PDFt).pageHeight (i, pageNum) (r)
  prop C06
  requires i != nil && all(k, int, imp(has(i.pdf.pageSizes, k), len(i.pdf.pageSizes[k]) >= 4))
  ensures known: imp(has(i.pdf.pageSizes, pageNum-1), r == i.pdf.pageSizes[pageNum-1][3])
  ensures a4: imp(!has(i.pdf.pageSizes, pageNum-1), r == 841.89)

macro cfont(c) = c.pdfFontData.font
macro casc(c) = typo(c.pdfFontData.font.ttfp.typoAscender, c.pdfFontData.font.ttfp.unitsPerEm, c.fontSize)
macro cdesc(c) = typo(c.pdfFontData.font.ttfp.typoDescender, c.pdfFontData.font.ttfp.unitsPerEm, c.fontSize)
macro ctextx(c, tw) = ite(c.align & 2 == 2, c.x + c.w - tw, ite(c.align & 16 == 16, c.x + c.w/2 - tw/2, c.x))
macro ctexty(c) = ite(c.align & 1 == 1, c.pageHeight - c.y - c.h - cdesc(c), ite(c.align & 32 == 32, c.pageHeight - c.y - c.h/2 - (cdesc(c) + casc(c))/2, c.pageHeight - c.y - casc(c)))
macro black(c) = c.fontColor == nil || c.fontColor.R == 0 && c.fontColor.G == 0 && c.fontColor.B == 0
macro crgb(r, g, b) = ite(r == 0 && g == 0 && b == 0, "", cat(f2(toreal(r) * 0.00392156862745), " ", f2(toreal(g) * 0.00392156862745), " ", f2(toreal(b) * 0.00392156862745), " rg\n"))
macro ccolour(c) = ite(black(c), crgb(1, 1, 1), crgb(u8(c.fontColor.R), u8(c.fontColor.G), u8(c.fontColor.B)))
macro culine(c) = ite(c.fontStyle & 4 == 4, cat(f2(c.x), " ",
     f2(c.pageHeight - (c.y - toreal(c.pdfFontData.font.ttfp.underlinePosition) / toreal(c.pdfFontData.font.ttfp.unitsPerEm) * toreal(c.fontSize)) - toreal(c.fontSize) * 0.7), " ",
     f2(c.w), " -", f2(toreal(c.pdfFontData.font.ttfp.underlineThickness) / toreal(c.pdfFontData.font.ttfp.unitsPerEm) * toreal(c.fontSize)), " re f\n"), "")
macro cborder(c) = ite(c.lineWidth > 0, cat(
   line(c.x - c.lineWidth/2, c.pageHeight - c.y, c.x + c.w + c.lineWidth/2, c.pageHeight - c.y),
   line(c.x, c.pageHeight - c.y, c.x, c.pageHeight - c.y - c.h),
   line(c.x + c.w, c.pageHeight - c.y, c.x + c.w, c.pageHeight - c.y - c.h),
   line(c.x - c.lineWidth/2, c.pageHeight - c.y - c.h, c.x + c.w + c.lineWidth/2, c.pageHeight - c.y - c.h)), "")

func (*pdft.ContentText).toSteram (c) (r, err)
  prop C05, C06
  ghost g mapintint, wd mapintint, kn map2int, tr arrreal
  def all(k, int, imp(has(c.pdfFontData.font.CharacterToGlyphIndex.keyIndexs, k), g[k] == glyph_of(c.pdfFontData.font.CharacterToGlyphIndex, k)))
  def all(k, int, imp(has(c.pdfFontData.font.CharacterToGlyphIndex.keyIndexs, k), wd[k] == pdfw(c.pdfFontData.font, g[k])))
  def all(l, int, all(r, int, kn[l][r] == ite(c.pdfFontData.font.funcKernOverride != nil, callint(c.pdfFontData.font.funcKernOverride, l, r, g[l], g[r], 0), 0)))
  def all(k, int, tr[k] == callreal(c.pdfFontData.font.funcTextriseOverride, ite(k == 0, 0, rune_at(c.text, k-1)), rune_at(c.text, k), c.fontSize, c.text, k))
  opaque k1000, w1000
  requires c.pdfFontData != nil && font_ok(c.pdfFontData.font) && c.pdfFontData.font.ttfp.kern == nil
  ensures ok: iff(err == nil, forall(k, 0, nrunes(c.text), has(c.pdfFontData.font.CharacterToGlyphIndex.keyIndexs, rune_at(c.text, k))))
  ensures ops: imp(err == nil, str(r) == cat("BT\n",
       f2(ctextx(c, toreal(adv(c.text, wd, kn, c.pdfFontData.font.ttfFontOption.UseKerning, c.pdfFontData.font.ttfp.unitsPerEm, nrunes(c.text))) * toreal(c.fontSize) / 1000)), " ", f2(ctexty(c)), " TD\n/F",
       itoa(c.pdfFontData.fontindex), " ", itoa(c.fontSize), " Tf\n", ccolour(c),
       shown(c.text, g, kn, c.pdfFontData.font.ttfFontOption.UseKerning, c.pdfFontData.font.ttfp.unitsPerEm, c.pdfFontData.font.funcTextriseOverride != nil, tr, nrunes(c.text)), ">] TJ\n",
       "ET\n", culine(c), cborder(c), "\r\n"))
