# ---- images (C10, C11) ----
ufn inflate(str) str
ufn zlib_ok(str) bool

func gopdf.readBytes (f, n) (b, err)
  prop C10
  requires f != nil && n >= 0 && pos(f) >= 0
  modifies pos(f)
  ensures ok: iff(err == nil, n == 0 || old(pos(f)) + n <= len(src(f)))
  ensures pos: imp(err == nil, pos(f) == old(pos(f)) + n)
  ensures val: imp(err == nil, b != nil && len(b) == n && str(b) == sub(src(f), old(pos(f)), old(pos(f)) + n) && forall(i, 0, n, b[i] == at(src(f), old(pos(f)) + i)))
  ensures own: imp(err == nil, fresh(arr(b)))

func gopdf.readUInt (f) (v, err)
  prop C10
  requires f != nil && pos(f) >= 0
  modifies pos(f)
  ensures ok: iff(err == nil, old(pos(f)) + 4 <= len(src(f)))
  ensures pos: imp(err == nil, pos(f) == old(pos(f)) + 4)
  ensures val: imp(err == nil, v == u32at(src(f), old(pos(f))))

func gopdf.readInt (f) (v, err)
  prop C10
  requires f != nil && pos(f) >= 0
  modifies pos(f)
  ensures ok: iff(err == nil, old(pos(f)) + 4 <= len(src(f)))
  ensures pos: imp(err == nil, pos(f) == old(pos(f)) + 4)
  ensures val: imp(err == nil, v == u32at(src(f), old(pos(f))))

func gopdf.compareBytes (a, b) (r)
  prop C10
  ensures val: imp(a != nil && b != nil, iff(r, len(a) == len(b) && forall(j, 0, len(a), a[j] == b[j])))
  inv $i:phiint :: forall(j, 0, $i, a[j] == b[j]) && $i <= len(a)

func gopdf.compress (data) (r, err)
  prop C10
  ensures ok: err == nil
  ensures val: zlib_ok(str(r)) && inflate(str(r)) == str(data)
  ensures own: fresh(arr(r))

macro opt(c, s) = ite(c, s, "")
rec maskrow(T arrint, n int) str = ite(n <= 0, "", cat(maskrow(T, n-1), itoa(T[n-1]), " ", itoa(T[n-1]), " "))
macro imgprop(w, h, cs, npal, rgb, bpc, filter, dp, T, ntrns, nsm, sm) = cat("<</Type /XObject\n/Subtype /Image\n/Width ", itoa(w), "\n/Height ", itoa(h), "\n",
  ite(cs == "Indexed", cat("/ColorSpace [/Indexed /DeviceRGB ", itoa(npal/3-1), " ", itoa(rgb+1), " 0 R]\n"),
     cat("/ColorSpace /", cs, "\n", opt(cs == "DeviceCMYK", "/Decode [1 0 1 0 1 0 1 0]\n"))),
  "/BitsPerComponent ", bpc, "\n",
  opt(trimspace(filter) != "", cat("/Filter /", filter, "\n")),
  opt(trimspace(dp) != "", cat("/DecodeParms <<", dp, ">>\n")),
  opt(ntrns > 0, cat("/Mask [", maskrow(T, ntrns), "]\n")),
  opt(nsm > 0, cat("/SMask ", itoa(sm), " 0 R\n")))

macro infoprop(g, T) = imgprop(g.w, g.h, g.colspace, len(g.pal), g.deviceRGBObjID, g.bitsPerComponent, g.filter, g.decodeParms, T, len(g.trns), len(g.smask), g.smarkObjID)
macro trnsview(g, T) = forall(j, 0, len(g.trns), T[j] == g.trns[j])

func gopdf.buildImgProp (g) (r, err)
  prop C10, C11
  ghost T arrint
  def trnsview(g, T)
  ensures ok: err == nil
  ensures own: fresh(r)
  ensures val: str(r) == infoprop(g, T)
  inv $b:buf, $j:phiint :: str($b) == maskrow(T, $j)

macro objkey(k, n) = sub(md5(cat(k, chr(n % 256), chr(n / 256 % 256), chr(n / 65536), chr(0), chr(0))), 0, 10)
macro imgobj(g, T, data, body) = cat(infoprop(g, T), "/Length ", itoa(len(data)), "\n>>\nstream\n", body, "\nendstream\n")

func (*gopdf.ImageObj).build (i, id) (err)
  prop C10, C12
  ghost T arrint
  def trnsview((&i.imginfo), T)
  requires 0 <= id && id < 16777216
  requires arr(i.pdfProtection.encryptionKey) != arr(i.imginfo.data)
  requires arr(i.pdfProtection.encryptionKey) != arr(i.imginfo.trns)
  modifies i.buffer, elems(i.pdfProtection.encryptionKey)
  ensures plain: imp(i.pdfProtection == nil, err == nil && str(i.buffer) == cat(old(str(i.buffer)), imgobj((&i.imginfo), T, i.imginfo.data, str(i.imginfo.data))))
  ensures enc: imp(i.pdfProtection != nil && err == nil, str(i.buffer) == cat(old(str(i.buffer)), imgobj((&i.imginfo), T, i.imginfo.data, cat(rc4(objkey(old(str(i.pdfProtection.encryptionKey)), id), str(i.imginfo.data)), "\n"))))
  ensures key: str(i.pdfProtection.encryptionKey) == old(str(i.pdfProtection.encryptionKey))

func (*gopdf.SMask).build (i, id) (err)
  prop C10, C12
  ghost T arrint
  def trnsview((&i.imgInfo), T)
  requires 0 <= id && id < 16777216
  requires arr(i.pdfProtection.encryptionKey) != arr(i.data)
  requires arr(i.pdfProtection.encryptionKey) != arr(i.imgInfo.trns)
  modifies i.buffer, elems(i.pdfProtection.encryptionKey)
  ensures plain: imp(i.pdfProtection == nil, err == nil && str(i.buffer) == cat(old(str(i.buffer)), imgobj((&i.imgInfo), T, i.data, str(i.data))))
  ensures enc: imp(i.pdfProtection != nil && err == nil, str(i.buffer) == cat(old(str(i.buffer)), imgobj((&i.imgInfo), T, i.data, cat(rc4(objkey(old(str(i.pdfProtection.encryptionKey)), id), str(i.data)), "\n"))))
  ensures key: str(i.pdfProtection.encryptionKey) == old(str(i.pdfProtection.encryptionKey))

func (*gopdf.ImageObj).PaletteBuffer (i) (r)
  prop C10
  ensures none: imp(i.imginfo.colspace != "Indexed", r == nil)
  ensures val: imp(i.imginfo.colspace == "Indexed", fresh(r) && str(r) == cat("<<\n/Length ", itoa(len(i.imginfo.pal)), "\n>>\nstream\n", str(i.imginfo.pal), "\nendstream\n"))

func (*gopdf.ImageObj).createSMask (i) (r, err)
  prop C10
  ensures ok: err == nil && fresh(r)
  ensures size: r.w == i.imginfo.w && r.h == i.imginfo.h
  ensures data: str(r.data) == str(i.imginfo.smask)
  ensures form: r.colspace == "DeviceGray" && r.bitsPerComponent == "8" && r.filter == i.imginfo.filter && r.decodeParms == cat("/Predictor 15 /Colors 1 /BitsPerComponent 8 /Columns ", itoa(i.imginfo.w)) && len(r.trns) == 0 && len(r.smask) == 0

func (*gopdf.ImageObj).SetPaletteObjID (i, id)
  prop C10
  modifies i.imginfo.deviceRGBObjID
  ensures id: i.imginfo.deviceRGBObjID + 1 == id

# the chunks of a PNG from position p on
macro ctype(S, p, t) = sub(S, p+4, p+8) == t
macro cbody(S, p) = sub(S, p+8, p+8+u32at(S, p))
macro cnext(S, p) = p + 12 + u32at(S, p)
macro cend(S, p) = p < 0 || p + 8 > len(S) || ctype(S, p, "IEND")
rec pngdata(S str, p int) str = ite(cend(S, p), "", cat(ite(ctype(S, p, "IDAT"), cbody(S, p), ""), pngdata(S, cnext(S, p))))
rec pngpal(S str, p int, c str) str = ite(cend(S, p), c, pngpal(S, cnext(S, p), ite(ctype(S, p, "PLTE"), cbody(S, p), c)))
macro trnsval(b, ct, c) = ite(ct == 0, chr(at(b, 1)), ite(ct == 2, cat(chr(at(b, 1)), chr(at(b, 3)), chr(at(b, 5))), ite(sindex(b, "\x00") >= 0, chr(u8(sindex(b, "\x00"))), c)))
rec pngtrns(S str, p int, ct int, c str) str = ite(cend(S, p), c, pngtrns(S, cnext(S, p), ct, ite(ctype(S, p, "tRNS"), trnsval(cbody(S, p), ct, c), c)))

# separating colour from transparency: j bytes of a line that starts at p
rec gcol(D str, p int, j int) str = ite(j <= 1, "", cat(gcol(D, p, j-2), chr(at(D, p+j-2))))
rec galp(D str, p int, j int) str = ite(j <= 1, "", cat(galp(D, p, j-2), chr(at(D, p+j-1))))
rec ralp(D str, p int, j int) str = ite(j <= 3, "", cat(ralp(D, p, j-4), chr(at(D, p+j-1))))
# the first i lines (each with its filter byte)
rec gcols(D str, n int, i int) str = ite(i <= 0, "", cat(gcols(D, n, i-1), chr(at(D, (1+n)*(i-1))), gcol(D, (1+n)*(i-1)+1, n)))
rec galps(D str, n int, i int) str = ite(i <= 0, "", cat(galps(D, n, i-1), chr(at(D, (1+n)*(i-1))), galp(D, (1+n)*(i-1)+1, n)))
rec ralps(D str, n int, i int) str = ite(i <= 0, "", cat(ralps(D, n, i-1), chr(at(D, (1+n)*(i-1))), ralp(D, (1+n)*(i-1)+1, n)))

func gopdf.paesePng (f, info, cfg) (err)
  prop C10
  ghost S str, D str, w int, h int, ct int
  def S == src(f) && D == inflate(pngdata(src(f), 33))
  def w == u32at(src(f), 16) && h == u32at(src(f), 20) && ct == at(src(f), 25)
  requires f != nil && info != nil
  modifies pos(f), info.w, info.h, info.colspace, info.bitsPerComponent, info.filter, info.decodeParms, info.trns, info.pal, info.smask, info.data
  ensures head: imp(err == nil, sub(S, 12, 16) == "IHDR" && at(S, 24) <= 8 && (ct == 0 || ct == 2 || ct == 3 || ct == 4 || ct == 6) && at(S, 28) == 0)
  ensures size: imp(err == nil, info.w == w && info.h == h)
  ensures color: imp(err == nil, info.colspace == ite(ct == 0 || ct == 4, "DeviceGray", ite(ct == 3, "Indexed", "DeviceRGB")) && info.bitsPerComponent == itoa(at(S, 24)) && info.filter == "FlateDecode")
  ensures parms1: imp(err == nil && ct != 2 && ct != 6, info.decodeParms == cat("/Predictor 15 /Colors  1 /BitsPerComponent ", itoa(at(S, 24)), " /Columns ", itoa(w)))
  ensures parms3: imp(err == nil && (ct == 2 || ct == 6), info.decodeParms == cat("/Predictor 15 /Colors  3 /BitsPerComponent ", itoa(at(S, 24)), " /Columns ", itoa(w)))
  ensures pal: imp(err == nil, str(info.pal) == pngpal(S, 33, ""))
  ensures trns: imp(err == nil, str(info.trns) == pngtrns(S, 33, ct, ""))
  ensures data: imp(err == nil && ct < 4, str(info.data) == pngdata(S, 33))
  inv $d:bytes :: cat(str($d), pngdata(S, pos(f))) == pngdata(S, 33)
  inv $d:bytes :: pngpal(S, pos(f), str($d)) == pngpal(S, 33, "")
  inv $d:bytes :: pngtrns(S, pos(f), ct, str($d)) == pngtrns(S, 33, ct, "")
  inv pos(f) >= 33
  inv $p:bytes, $d:bytes :: $p == nil || arr($p) != arr($d)

# the two kinds of picture with transparency: colour and transparency are separated
func gopdf.paesePng@gray (f, info, cfg) (err)
  prop C10
  ghost S str, D str, w int, h int, ct int
  def S == src(f) && D == inflate(pngdata(src(f), 33))
  def w == u32at(src(f), 16) && h == u32at(src(f), 20) && ct == at(src(f), 25)
  requires f != nil && info != nil
  requires ct == 4
  modifies pos(f), info.w, info.h, info.colspace, info.bitsPerComponent, info.filter, info.decodeParms, info.trns, info.pal, info.smask, info.data
  ensures gray: imp(err == nil && ct == 4, inflate(str(info.data)) == gcols(D, 2*w, h) && inflate(str(info.smask)) == galps(D, 2*w, h))
  inv $d:bytes :: cat(str($d), pngdata(S, pos(f))) == pngdata(S, 33)
  inv pos(f) >= 33
  inv $p:bytes, $d:bytes :: $p == nil || arr($p) != arr($d)
  inv $c:bytes, $n:c:int, $i:phiint :: str($c) == gcols(D, $n, $i)
  inv $c:bytes, $n:c:int, $i:phiint :: str($c) == galps(D, $n, $i)
  inv $j:phiint :: $j % 2 == 0 && 0 <= $j && $j <= 2*w
  inv $c:bytes, $l:c:bytes, $j:phiint :: str($c) == cat(entry(str($c)), gcol(D, off($l), $j))
  inv $c:bytes, $l:c:bytes, $j:phiint :: str($c) == cat(entry(str($c)), galp(D, off($l), $j))

func gopdf.paesePng@rgb (f, info, cfg) (err)
  prop C10
  ghost S str, D str, w int, h int, ct int
  def S == src(f) && D == inflate(pngdata(src(f), 33))
  def w == u32at(src(f), 16) && h == u32at(src(f), 20) && ct == at(src(f), 25)
  requires f != nil && info != nil
  requires ct == 6
  modifies pos(f), info.w, info.h, info.colspace, info.bitsPerComponent, info.filter, info.decodeParms, info.trns, info.pal, info.smask, info.data
  ensures alpha: imp(err == nil && ct == 6, inflate(str(info.smask)) == ralps(D, 4*w, h))
  inv $d:bytes :: cat(str($d), pngdata(S, pos(f))) == pngdata(S, 33)
  inv pos(f) >= 33
  inv $p:bytes, $d:bytes :: $p == nil || arr($p) != arr($d)
  inv $c:bytes, $n:c:int, $i:phiint :: str($c) == ralps(D, $n, $i)
  inv $j:phiint :: $j % 4 == 0 && 0 <= $j && $j <= 4*w
  inv $c:bytes, $l:c:bytes, $j:phiint :: str($c) == cat(entry(str($c)), ralp(D, off($l), $j))
