func (*pdft.PDFData).maxID (p) (r)
  prop C02
  ensures ge: forall(i, 0, len(p.objIDs), p.objIDs[i] <= r)
  ensures nn: r >= 0
  ensures wit: r == 0 || exists(i, 0, len(p.objIDs), p.objIDs[i] == r)
  inv $m:int, $i:int :: forall(j, 0, $i+1, p.objIDs[j] <= $m)
  inv $m:int, $i:int :: forall(j, 0, $i, p.objIDs[j] <= $m)
  inv $m:int, $i:int :: $m == 0 || exists(j, 0, $i+1, p.objIDs[j] == $m)
  inv $m:int, $i:int :: $m == 0 || exists(j, 0, $i, p.objIDs[j] == $m)

func (*pdft.PDFData).put (p, o)
  prop C02
  modifies p.objIDs, p.objs, elems(p.objIDs), elems(p.objs)
  ensures n: len(p.objIDs) == old(len(p.objIDs)) + 1
  ensures n2: len(p.objs) == old(len(p.objs)) + 1
  ensures keep: forall(i, 0, old(len(p.objIDs)), p.objIDs[i] == old(p.objIDs[i]))
  ensures keepo: forall(i, 0, old(len(p.objs)), same(p.objs[i]))
  ensures last: p.objIDs[old(len(p.objIDs))] == o.objID
  ensures lasto: p.objs[old(len(p.objs))] == o
  ensures own: (arr(p.objIDs) == old(arr(p.objIDs)) || fresh(arr(p.objIDs))) && (arr(p.objs) == old(arr(p.objs)) || fresh(arr(p.objs)))

func (*pdft.PDFData).putNewObject (p, o) (r)
  prop C02
  modifies p.objIDs, p.objs, elems(p.objIDs), elems(p.objs)
  ensures fresh: forall(i, 0, old(len(p.objIDs)), old(p.objIDs[i]) < r)
  ensures pos: r > 0
  ensures n: len(p.objIDs) == old(len(p.objIDs)) + 1
  ensures n2: len(p.objs) == old(len(p.objs)) + 1
  ensures keep: forall(i, 0, old(len(p.objIDs)), p.objIDs[i] == old(p.objIDs[i]))
  ensures keepo: forall(i, 0, old(len(p.objs)), same(p.objs[i]))
  ensures last: p.objIDs[old(len(p.objIDs))] == r
  ensures data: p.objs[old(len(p.objs))].data == o.data
  ensures lasto: p.objs[old(len(p.objs))].objID == r
  ensures distinct: imp(old(distinctids(p)), distinctids(p))
  ensures own: (arr(p.objIDs) == old(arr(p.objIDs)) || fresh(arr(p.objIDs))) && (arr(p.objs) == old(arr(p.objs)) || fresh(arr(p.objs)))

rec zeros(k int) str = ite(k <= 0, "", cat("0", zeros(k-1)))

func (*pdft.PDFt).formatXrefline (i, n) (r)
  prop C01
  requires n >= 0
  ensures val: r == cat(zeros(10 - len(itoa(n))), itoa(n))
  ensures len: imp(n < 10000000000, len(r) == 10)
  inv $s:str :: $s == cat(zeros(len($s) - len(itoa(n))), itoa(n)) && len($s) >= len(itoa(n)) && (len($s) <= 10 || $s == itoa(n))


macro pad10(n) = cat(zeros(10 - len(itoa(n))), itoa(n))
# next free object number in [k,hi), 0 if none
rec nf(dom setint, k int, hi int) int = ite(hi <= k, 0, ite(nf(dom, k, hi-1) != 0, nf(dom, k, hi-1), ite(dom[hi-1], 0, hi-1)))
ind nf_ge(dom setint, k int, hi int) by hi = imp(k >= 0, nf(dom, k, hi) >= 0) trigger nf(dom, k, hi)
macro isfree(dom, k) = k == 0 || !dom[k]
rec rows(dom setint, v mapintint, n int, size int) str =
  ite(n <= 0, "", cat(rows(dom, v, n-1, size),
     ite(isfree(dom, n-1), cat(pad10(nf(dom, n, size)), " 65535 f \n"), cat(pad10(v[n-1]), " 00000 n \n"))))

func (*pdft.PDFt).xref (i, linelens, buff, size, rootID, encID)
  prop C01
  requires size >= 0 && buff != nil && linelens != nil
  requires all(k, int, linelens[k] >= 0)
  modifies *buff
  ensures noenc: imp(i.pdfProtection == nil, str(buff) == cat(old(str(buff)), "\nxref\n", "0 ", itoa(size+1), "\r\n",
      rows(keys(linelens), vals(linelens), size+1, size+1),
      "trailer\n<<\n/Size ", itoa(size+1), "\n/Root ", itoa(rootID), " 0 R\n>>\nstartxref\n", itoa(old(len(str(buff)))), "\n%%EOF\n"))
  ensures enc: imp(i.pdfProtection != nil, str(buff) == cat(old(str(buff)), "\nxref\n", "0 ", itoa(size+1), "\r\n",
      rows(keys(linelens), vals(linelens), size+1, size+1),
      "trailer\n<<\n/Size ", itoa(size+1), "\n/Root ", itoa(rootID), " 0 R\n/Encrypt ", itoa(encID), " 0 R\n/ID [()()]\n>>\nstartxref\n", itoa(old(len(str(buff)))), "\n%%EOF\n"))
  inv $r:slice, $j:phiint :: len($r) == $j
  inv $r:slice, $j:phiint :: forall(k, 0, $j, imp(isfree(keys(linelens), k), $r[k].flag == "f" && $r[k].gen == "65535" && $r[k].offset == nf(keys(linelens), k+1, $j)))
  inv $r:slice, $j:phiint :: forall(k, 0, $j, imp(!isfree(keys(linelens), k), $r[k].flag == "n" && $r[k].gen == "00000" && $r[k].offset == linelens[k]))
  inv $l:phiint, $j:phiint :: 0 <= $l && $l < $j && isfree(keys(linelens), $l) && nf(keys(linelens), $l+1, $j) == 0 && forall(k, 0, $l, nf(keys(linelens), k+1, $j) != 0) && forall(k, $l+1, $j, !isfree(keys(linelens), k))
  inv $b:buf, $k:phiint :: $b == cat(entry($b), rows(keys(linelens), vals(linelens), $k+1, size+1))
  inv $b:buf, $k:phiint :: $b == cat(entry($b), rows(keys(linelens), vals(linelens), $k, size+1))

rec hdr(id int) str = cat("\n", itoa(id), " 0 obj\n")
macro objtext(id, d) = cat(hdr(id), trimspace(d), "\nendobj\n")
rec body(ids arrint, dat arrstr, o int, n int) str = ite(n <= 0, "%PDF-1.7\n\n", cat(body(ids, dat, o, n-1), objtext(ids[o+n-1], dat[n-1])))
rec offd(ids arrint, o int, n int) setint = ite(n <= 0, emptyset(), store(offd(ids, o, n-1), ids[o+n-1], true))
rec offv(ids arrint, dat arrstr, o int, n int) mapintint = ite(n <= 0, zeromap(), store(offv(ids, dat, o, n-1), ids[o+n-1], len(body(ids, dat, o, n-1))))
macro trailerNoEnc(out, pre, dom, v, size, root) = out == cat(pre, "\nxref\n", "0 ", itoa(size+1), "\r\n", rows(dom, v, size+1, size+1),
      "trailer\n<<\n/Size ", itoa(size+1), "\n/Root ", itoa(root), " 0 R\n>>\nstartxref\n", itoa(len(pre)), "\n%%EOF\n")

macro trailerEnc(out, pre, dom, v, size, root, enc) = out == cat(pre, "\nxref\n", "0 ", itoa(size+1), "\r\n", rows(dom, v, size+1, size+1),
      "trailer\n<<\n/Size ", itoa(size+1), "\n/Root ", itoa(root), " 0 R\n/Encrypt ", itoa(enc), " 0 R\n/ID [()()]\n>>\nstartxref\n", itoa(len(pre)), "\n%%EOF\n")
macro enctext(p) = cat("<<\n/Filter /Standard\n/V 1\n/R 2\n/O (", esc(str(p.oValue), len(p.oValue)), ")\n/U (", esc(str(p.uValue), len(p.uValue)), ")\n/P ", itoa(p.pValue), "\n>>\n")
ind off_ge(ids arrint, dat arrstr, o int, n int, k int) by n = offv(ids, dat, o, n)[k] >= 0 trigger offv(ids, dat, o, n)[k]
ind off_dom(ids arrint, o int, n int, k int) by n = imp(0 <= k && k < n, offd(ids, o, n)[ids[o+k]]) trigger offd(ids, o, n)[ids[o+k]]
ind off_in(ids arrint, dat arrstr, o int, n int, k int) by n = imp(0 <= k && k < n, offv(ids, dat, o, n)[ids[o+k]] + len(hdr(ids[o+k])) <= len(body(ids, dat, o, n))) trigger offv(ids, dat, o, n)[ids[o+k]]
func (*pdft.PDFt).toStream (i, newpdf, lastID) (r, err)
  prop C01, C12
  ghost ids arrint, dat arrstr, n int, m int
  def n == len(newpdf.objs) && m == n + ite(i.pdfProtection == nil, 0, 1)
  def forall(k, 0, len(newpdf.objs), ids[k] == newpdf.objs[k].objID && dat[k] == str(newpdf.objs[k].data))
  def imp(i.pdfProtection != nil, ids[n] == lastID + 1 && dat[n] == enctext(i.pdfProtection))
  requires lastID >= 0 && newpdf != nil
  modifies newpdf.objIDs, newpdf.objs, elems(newpdf.objIDs), elems(newpdf.objs)
  ensures ok: err == nil
  ensures plain: imp(i.pdfProtection == nil, trailerNoEnc(str(r), body(ids, dat, 0, n), offd(ids, 0, n), offv(ids, dat, 0, n), lastID, newpdf.trailer.rootObjID))
  ensures crypt: imp(i.pdfProtection != nil, trailerEnc(str(r), body(ids, dat, 0, m), offd(ids, 0, m), offv(ids, dat, 0, m), lastID+1, newpdf.trailer.rootObjID, lastID+1))
  inv $b:buf, $k:phiint :: $b == body(ids, dat, 0, $k+1)
  inv $m:map, $k:phiint :: vals($m) == offv(ids, dat, 0, $k+1) && keys($m) == offd(ids, 0, $k+1)
