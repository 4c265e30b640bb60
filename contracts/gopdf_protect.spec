# ---- protection (C12): the standard security handler, revision 2, as the PDF reference gives it ----
macro padding() = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"

func gopdf.padPassword (pass) (r)
  prop C12
  ensures val: str(r) == sub(cat(str(pass), padding()), 0, 32)
  ensures own: fresh(arr(r))

func (*gopdf.PDFProtection).createOValue (p, user, owner) (r, err)
  prop C12
  ensures ok: err == nil
  ensures val: str(r) == rc4(sub(md5(str(owner)), 0, 5), str(user))

macro filekey(user, o, prot) = sub(md5(cat(str(user), str(o), chr(u8(prot)), chr(255), chr(255), chr(255))), 0, 5)
func (*gopdf.PDFProtection).createUValue (p, user, o, prot) (r, err)
  prop C12
  modifies p.encryptionKey
  ensures ok: err == nil
  ensures key: str(p.encryptionKey) == old(filekey(user, o, prot))
  ensures val: str(r) == rc4(old(filekey(user, o, prot)), padding())

func gopdf.rc4Cip (key, src) (r, err)
  prop C12
  ensures bad: iff(err == nil, 1 <= len(key) && len(key) <= 256)
  ensures val: imp(err == nil, str(r) == rc4(str(key), str(src)))

func (*gopdf.PDFProtection).objectkey (p, n) (r)
  prop C12
  requires 0 <= n && n < 16777216
  modifies elems(p.encryptionKey)
  ensures key: str(p.encryptionKey) == old(str(p.encryptionKey))
  ensures val: str(r) == sub(md5(cat(old(str(p.encryptionKey)), chr(n % 256), chr(n / 256 % 256), chr(n / 65536), chr(0), chr(0))), 0, 10)

macro padded(pass) = sub(cat(str(pass), padding()), 0, 32)
macro ovalue(user, owner) = rc4(sub(md5(padded(owner)), 0, 5), padded(user))
macro skey(user, o, prot) = sub(md5(cat(padded(user), o, chr(u8(prot)), chr(255), chr(255), chr(255))), 0, 5)
macro protected(p, user, owner, prot) = str(p.oValue) == ovalue(user, owner) && str(p.encryptionKey) == skey(user, ovalue(user, owner), prot) && str(p.uValue) == rc4(skey(user, ovalue(user, owner), prot), padding())
func (*gopdf.PDFProtection).generateEncryptionKey (p, user, owner, prot) (err)
  prop C12
  requires 0 <= prot && prot <= 255
  modifies p.oValue, p.uValue, p.pValue, p.encryptionKey
  ensures ok: err == nil
  ensures vals: protected(p, user, owner, prot)
  ensures p: p.pValue == prot - 256

func (*gopdf.PDFProtection).setProtection (p, perms, user, owner) (err)
  prop C12
  requires 0 <= perms && perms <= 255
  requires len(owner) > 0
  modifies p.oValue, p.uValue, p.pValue, p.encryptionKey
  ensures ok: err == nil
  ensures vals: protected(p, user, owner, 192 | perms)
  ensures p: p.pValue == (192 | perms) - 256

func (*gopdf.PDFProtection).encryptionObj (p) (r)
  prop C12
  ensures own: r != nil && fresh(r)
  ensures vals: r.oValue == p.oValue && r.uValue == p.uValue && r.pValue == p.pValue && str(&r.buffer) == ""

# the bytes of a literal string that mean c
rec e1(c int) str = ite(c == 92, "\\\\", chr(c))
rec e2(c int) str = ite(c == 92, "\\\\", ite(c == 40, "\\(", chr(c)))
rec e3(c int) str = ite(c == 92, "\\\\", ite(c == 40, "\\(", ite(c == 41, "\\)", chr(c))))
rec e4(c int) str = ite(c == 92, "\\\\", ite(c == 40, "\\(", ite(c == 41, "\\)", ite(c == 13, "\\r", chr(c)))))
rec esc1(s str, n int) str = ite(n <= 0, "", cat(esc1(s, n-1), e1(at(s, n-1))))
rec esc2(s str, n int) str = ite(n <= 0, "", cat(esc2(s, n-1), e2(at(s, n-1))))
rec esc3(s str, n int) str = ite(n <= 0, "", cat(esc3(s, n-1), e3(at(s, n-1))))
rec esc(s str, n int) str = ite(n <= 0, "", cat(esc(s, n-1), e4(at(s, n-1))))
ind rp_pre(a str, b str, c int, w str, n int) by n = imp(n <= len(a), rp(cat(a, b), c, w, n) == rp(a, c, w, n)) trigger rp(cat(a, b), c, w, n)
ind rp_app(a str, b str, c int, w str, n int) by n = imp(0 <= n && n <= len(b), rp(cat(a, b), c, w, len(a) + n) == cat(rp(a, c, w, len(a)), rp(b, c, w, n))) trigger rp(cat(a, b), c, w, len(a) + n)
ind rp_cat(a str, b str, c int, w str, k int) = imp(k == len(a) + len(b), rp(cat(a, b), c, w, k) == cat(rp(a, c, w, len(a)), rp(b, c, w, len(b)))) trigger rp(cat(a, b), c, w, k)
ind e_2(c int) = imp(0 <= c && c < 256, rp(e1(c), 40, "\\(", len(e1(c))) == e2(c)) trigger rp(e1(c), 40, "\\(", len(e1(c)))
ind e_3(c int) = imp(0 <= c && c < 256, rp(e2(c), 41, "\\)", len(e2(c))) == e3(c)) trigger rp(e2(c), 41, "\\)", len(e2(c)))
ind e_4(c int) = imp(0 <= c && c < 256, rp(e3(c), 13, "\\r", len(e3(c))) == e4(c)) trigger rp(e3(c), 13, "\\r", len(e3(c)))
ind esc_1(s str, n int) by n = rp(s, 92, "\\\\", n) == esc1(s, n) trigger rp(s, 92, "\\\\", n)
ind esc_2(s str, n int) by n = imp(n <= len(s), rp(esc1(s, n), 40, "\\(", len(esc1(s, n))) == esc2(s, n)) trigger rp(esc1(s, n), 40, "\\(", len(esc1(s, n)))
ind esc_3(s str, n int) by n = imp(n <= len(s), rp(esc2(s, n), 41, "\\)", len(esc2(s, n))) == esc3(s, n)) trigger rp(esc2(s, n), 41, "\\)", len(esc2(s, n)))
ind esc_4(s str, n int) by n = imp(n <= len(s), rp(esc3(s, n), 13, "\\r", len(esc3(s, n))) == esc(s, n)) trigger rp(esc3(s, n), 13, "\\r", len(esc3(s, n)))

func (*gopdf.EncryptionObj).build (e, id) (err)
  prop C12
  modifies e.buffer
  ensures ok: err == nil
  ensures text: str(&e.buffer) == cat(old(str(&e.buffer)), "<<\n/Filter /Standard\n/V 1\n/R 2\n/O (", esc(str(e.oValue), len(e.oValue)), ")\n/U (", esc(str(e.uValue), len(e.uValue)), ")\n/P ", itoa(e.pValue), "\n>>\n")
