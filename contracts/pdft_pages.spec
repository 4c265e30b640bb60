# ---- pages (C03) ----
ind dictrows_x(K arrstr, L arrstr, V arrstr, W arrstr, n int) by n = imp(forall(i, 0, n, K[i] == L[i] && V[i] == W[i]), dictrows(K, V, n) == dictrows(L, W, n)) trigger dictrows(K, V, n), dictrows(L, W, n)
ind refs_x(A arrint, B arrint, o int, n int) by n = imp(forall(i, 0, n, A[o+i] == B[o+i]), refs(A, o, n) == refs(B, o, n)) trigger refs(A, o, n), refs(B, o, n)

macro distinctids(p) = all(i, int, all(j, int, imp(0 <= i && i < j && j < len(p.objIDs), p.objIDs[i] != p.objIDs[j])))
macro datview(p, T) = forall(j, 0, len(p.objs), T[j] == str(p.objs[j].data))
# the page list of the document, in order: a function of the objects and the root's number
ufn page_n(arrint, arrstr, int, int) int
ufn page_ids(arrint, arrstr, int, int) arrint

func (*pdft.PDFData).getPageObjIDs (p) (r, err)
  prop C03
  trusted
  note the walk over the page tree (recursive closure) writes nothing and returns a new list that the objects determine; harness C03 checks which pages it finds
  ghost A arrint, T arrstr
  def idview(p, A)
  def datview(p, T)
  ensures ok: err == nil
  ensures own: r == nil || fresh(arr(r))
  ensures n: len(r) == page_n(A, T, len(p.objs), p.trailer.rootObjID)
  ensures ids: forall(j, 0, len(r), r[j] == page_ids(A, T, len(p.objs), p.trailer.rootObjID)[j])

func pdft.parseFloatSlice (s) (r, err)
  prop C06
  ensures own: r == nil || fresh(arr(r))
  inv $s:slice :: $s == nil || fresh(arr($s))

# index of the object that gives a page the entry k: the page itself or the nearest node above it
rec owner(A arrint, T arrstr, n int, id int, k str, f int) int =
  ite(f <= 0 || ifind(A, id, n) < 0, -1, ite(dhas(T[ifind(A, id, n)], k), ifind(A, id, n),
    ite(dhas(T[ifind(A, id, n)], "Parent"), owner(A, T, n, refid(dget(T[ifind(A, id, n)], "Parent")), k, f-1), -1)))
ind owner_r(A arrint, T arrstr, n int, id int, k str, f int) by f = owner(A, T, n, id, k, f) >= -1 && imp(n >= 0, owner(A, T, n, id, k, f) < n) trigger owner(A, T, n, id, k, f)
func pdft.inheritedProp (pdf, objID, key) (id, r, err)
  prop C03, C06, C11
  ghost A arrint, T arrstr, n int, w int
  def idview(pdf, A) && n == len(pdf.objs)
  def forall(j, 0, len(pdf.objs), T[j] == str(pdf.objs[j].data))
  def w == owner(A, T, n, objID, key, n+1)
  requires pdf != nil && len(pdf.objs) == len(pdf.objIDs)
  requires distinctids(pdf)
  ensures none: imp(err == nil, iff(r == nil, w < 0))
  ensures val: imp(r != nil && err == nil, id == A[w] && r.key == key && r.rawVal == dget(T[w], key))
  ensures own: r == nil || fresh(r)
  inv $o:acc, $d:ctr :: w == owner(A, T, n, $o, key, n+1-$d)

func pdft.parsePageSize (pdf) (err)
  prop C03, C06
  requires pdf != nil && len(pdf.objs) == len(pdf.objIDs)
  requires distinctids(pdf)
  modifies pdf.pageSizes
  ensures four: all(k, int, imp(has(pdf.pageSizes, k), len(pdf.pageSizes[k]) >= 4))
  inv all(k, int, imp(has(pdf.pageSizes, k), len(pdf.pageSizes[k]) >= 4))

macro pageskey(D) = refid(dget(D, "Pages"))
macro newkids(PD, L, o, n) = cat(dictrows(dict_key(PD), store(store(dict_val(PD), didx(PD, "Count"), itoa(n)), didx(PD, "Kids"), cat(refs(L, o, n), "]")), dict_n(PD)), ">>\n")
# a document whose root and page tree root can be read
macro pagetree(p, A, T, kr, kp) = kr >= 0 && dict_ok(T[kr]) && dhas(T[kr], "Pages") && kp >= 0 && dict_ok(T[kp]) && dhas(T[kp], "Count") && dhas(T[kp], "Kids")

func (*pdft.PDFt).setPages (i, pageObjIds) (err)
  prop C03
  ghost A arrint, T arrstr, L arrint, kr int, kp int
  def idview((&i.pdf), A)
  def datview((&i.pdf), T)
  def forall(j, 0, len(pageObjIds), L[j] == pageObjIds[j])
  def kr == ifind(A, i.pdf.trailer.rootObjID, len(i.pdf.objIDs))
  def kp == ifind(A, pageskey(T[kr]), len(i.pdf.objIDs))
  requires len(i.pdf.objs) == len(i.pdf.objIDs)
  requires distinctids((&i.pdf))
  requires pagetree((&i.pdf), A, T, kr, kp)
  modifies i.pdf.pageSizes, elems(i.pdf.objs)
  ensures ref: imp(!refok(dget(T[kr], "Pages")), err != nil)
  ensures kids: imp(refok(dget(T[kr], "Pages")), str(i.pdf.objs[kp].data) == newkids(T[kp], L, 0, len(pageObjIds)))
  ensures others: forall(j, 0, len(i.pdf.objs), imp(j != kp, str(i.pdf.objs[j].data) == T[j]))
  ensures ids: forall(j, 0, len(i.pdf.objs), i.pdf.objs[j].objID == old(i.pdf.objs[j].objID))

# what a changed page list leaves behind: the page tree's root lists L, nothing else changes
macro npages(i, A, T) = page_n(A, T, len(i.pdf.objs), i.pdf.trailer.rootObjID)
macro pageid(i, A, T, j) = page_ids(A, T, len(i.pdf.objs), i.pdf.trailer.rootObjID)[j]

func (*pdft.PDFt).RemovePage (i, target) (err)
  prop C03
  ghost A arrint, T arrstr, L arrint, kr int, kp int, n int
  def idview((&i.pdf), A)
  def datview((&i.pdf), T)
  def n == npages(i, A, T)
  def forall(j, 0, n-1, L[j] == pageid(i, A, T, ite(j < target - 1, j, j + 1)))
  def kr == ifind(A, i.pdf.trailer.rootObjID, len(i.pdf.objIDs))
  def kp == ifind(A, pageskey(T[kr]), len(i.pdf.objIDs))
  requires len(i.pdf.objs) == len(i.pdf.objIDs)
  requires distinctids((&i.pdf))
  requires pagetree((&i.pdf), A, T, kr, kp) && refok(dget(T[kr], "Pages"))
  modifies i.pdf.pageSizes, elems(i.pdf.objs)
  ensures range: imp(target < 1 || target > n, err != nil && forall(j, 0, len(i.pdf.objs), str(i.pdf.objs[j].data) == T[j]))
  ensures kids: imp(1 <= target && target <= n, str(i.pdf.objs[kp].data) == newkids(T[kp], L, 0, n-1))
  ensures others: forall(j, 0, len(i.pdf.objs), imp(j != kp, str(i.pdf.objs[j].data) == T[j]))

func (*pdft.PDFt).RemoveOtherPages (i, target) (err)
  prop C03
  ghost A arrint, T arrstr, L arrint, kr int, kp int, n int
  def idview((&i.pdf), A)
  def datview((&i.pdf), T)
  def n == npages(i, A, T)
  def L[0] == pageid(i, A, T, target - 1)
  def kr == ifind(A, i.pdf.trailer.rootObjID, len(i.pdf.objIDs))
  def kp == ifind(A, pageskey(T[kr]), len(i.pdf.objIDs))
  requires len(i.pdf.objs) == len(i.pdf.objIDs)
  requires distinctids((&i.pdf))
  requires pagetree((&i.pdf), A, T, kr, kp) && refok(dget(T[kr], "Pages"))
  modifies i.pdf.pageSizes, elems(i.pdf.objs)
  ensures range: imp(target < 1 || target > n, err != nil && forall(j, 0, len(i.pdf.objs), str(i.pdf.objs[j].data) == T[j]))
  ensures kids: imp(1 <= target && target <= n, str(i.pdf.objs[kp].data) == newkids(T[kp], L, 0, 1))
  ensures others: forall(j, 0, len(i.pdf.objs), imp(j != kp, str(i.pdf.objs[j].data) == T[j]))

func (*pdft.PDFt).GetNumberOfPage (i) (r)
  prop C03
  ghost A arrint, T arrstr
  def idview((&i.pdf), A)
  def datview((&i.pdf), T)
  ensures n: r == npages(i, A, T)

ind ifind_p(A arrint, B arrint, v int, n int, m int) by m = imp(n <= m && forall(j, 0, n, A[j] == B[j]) && ifind(A, v, n) >= 0, ifind(B, v, m) == ifind(A, v, n)) trigger ifind(A, v, n), ifind(B, v, m)
macro withcontents(PD, c) = cat(dictrows(dict_key(PD), store(dict_val(PD), didx(PD, "Contents"), cat(itoa(c), " 0 R")), dict_n(PD)), ">>\n")
func (*pdft.PDFt).DuplicatePageAfter (i, target, position) (err)
  prop C03
  ghost A arrint, T arrstr, L arrint, kr0 int, kp0 int, n int, N int, at int, kt int, kc int, pid int, PD str, ok bool
  def idview((&i.pdf), A)
  def datview((&i.pdf), T)
  def n == npages(i, A, T) && N == len(i.pdf.objs)
  def at == ite(position < 0, n + position, position)
  def kr0 == ifind(A, i.pdf.trailer.rootObjID, len(i.pdf.objIDs))
  def kp0 == ifind(A, pageskey(T[kr0]), len(i.pdf.objIDs))
  def kt == ifind(A, pageid(i, A, T, target - 1), len(i.pdf.objIDs))
  def PD == T[kt]
  def kc == ifind(A, refid(dget(PD, "Contents")), len(i.pdf.objIDs))
  def forall(j, 0, n+1, L[j] == ite(j == at + 1, pid, pageid(i, A, T, ite(j <= at, j, j - 1))))
  def ok == (1 <= target && target <= n && 0 <= at && at < n && dict_ok(PD) && dhas(PD, "Contents") && refok(dget(PD, "Contents")))
  requires len(i.pdf.objs) == len(i.pdf.objIDs)
  requires distinctids((&i.pdf))
  requires pagetree((&i.pdf), A, T, kr0, kp0) && refok(dget(T[kr0], "Pages"))
  requires imp(1 <= target && target <= n, kt >= 0)
  requires imp(ok, kc >= 0)
  modifies i.pdf.pageSizes, i.pdf.objIDs, i.pdf.objs, elems(i.pdf.objs), elems(i.pdf.objIDs)
  opaque refs, dictrows, ifind
  ensures bad: imp(!ok, err != nil && len(i.pdf.objs) == N && forall(j, 0, N, str(i.pdf.objs[j].data) == T[j]))
  ensures n: imp(ok, len(i.pdf.objs) == N + 2 && len(i.pdf.objIDs) == N + 2)
  ensures ids: imp(ok, i.pdf.objIDs[N] < i.pdf.objIDs[N+1] && forall(j, 0, N, i.pdf.objIDs[j] == A[j] && A[j] < i.pdf.objIDs[N]))
  ensures content: imp(ok, str(i.pdf.objs[N].data) == T[kc])
  ensures page: imp(ok, str(i.pdf.objs[N+1].data) == withcontents(PD, i.pdf.objIDs[N]))
  ensures kids: imp(ok && pid == i.pdf.objIDs[N+1], str(i.pdf.objs[kp0].data) == newkids(T[kp0], L, 0, n+1))
  ensures others: imp(ok, forall(j, 0, N, imp(j != kp0, str(i.pdf.objs[j].data) == T[j])))
