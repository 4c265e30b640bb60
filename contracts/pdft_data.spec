# ---- objects and dictionaries (C02, C03, C11, C13) ----
# What readProperties makes of the text of an object: whether it is a dictionary, and its entries.
ufn dict_ok(str) bool
ufn dict_n(str) int
ufn dict_key(str) arrstr
ufn dict_val(str) arrstr
ufn int_ok(str) bool
ufn atoiv(str) int
ufn split_n(str, str) int
ufn split_arr(str, str) arrstr

# index of the first of n keys that is k, -1 when there is none
rec kfind(K arrstr, k str, n int) int = ite(n <= 0, -1, ite(kfind(K, k, n-1) >= 0, kfind(K, k, n-1), ite(K[n-1] == k, n-1, -1)))
ind kfind_r(K arrstr, k str, n int) by n = imp(kfind(K, k, n) >= 0, kfind(K, k, n) < n && K[kfind(K, k, n)] == k) trigger kfind(K, k, n)
ind kfind_m(K arrstr, k str, n int, i int) by n = imp(0 <= i && i < n && K[i] == k, 0 <= kfind(K, k, n) && kfind(K, k, n) <= i) trigger kfind(K, k, n), K[i]
ind kfind_x(K arrstr, L arrstr, k str, n int) by n = imp(forall(i, 0, n, K[i] == L[i]), kfind(K, k, n) == kfind(L, k, n)) trigger kfind(K, k, n), kfind(L, k, n)
macro didx(D, k) = kfind(dict_key(D), k, dict_n(D))
macro dhas(D, k) = didx(D, k) >= 0
macro dget(D, k) = dict_val(D)[didx(D, k)]

func pdft.readProperties (rawObj, outProps) (err)
  prop C11, C13
  trusted
  note the dictionary reader (regular expressions, mutual recursion) is a function of the object's text; harness C11/C13 check what it returns
  requires rawObj != nil && outProps != nil
  modifies *outProps, elems(*outProps)
  ensures ok: iff(err == nil, dict_ok(str(*rawObj)))
  ensures n: imp(err == nil && old(len(*outProps)) == 0, len(*outProps) == dict_n(str(*rawObj)) && dict_n(str(*rawObj)) >= 0)
  ensures vals: imp(err == nil && old(len(*outProps)) == 0, forall(k, 0, len(*outProps), (*outProps)[k].key == dict_key(str(*rawObj))[k] && (*outProps)[k].rawVal == dict_val(str(*rawObj))[k]))
  ensures own: imp(old(len(*outProps)) == 0, *outProps == nil || fresh(arr(*outProps)))

func (*pdft.PDFObjPropertiesData).getPropByKey (p, key) (r)
  prop C11, C13
  ghost K arrstr
  def forall(i, 0, len(*p), K[i] == (*p)[i].key)
  ensures first: r == ite(kfind(K, key, len(*p)) < 0, nil, &(*p)[kfind(K, key, len(*p))])
  inv $i:int :: kfind(K, key, $i+1) < 0
  inv $i:int :: kfind(K, key, $i) < 0

func pdft.readProperty (rawObj, key) (r, err)
  prop C11, C13
  requires rawObj != nil
  ensures ok: iff(err == nil, dict_ok(str(*rawObj)))
  ensures none: iff(r == nil, err != nil || !dhas(str(*rawObj), key))
  ensures val: imp(r != nil, r.key == key && r.rawVal == dget(str(*rawObj), key))
  ensures own: r == nil || fresh(r)

func (*pdft.PDFObjData).readProperties (p) (r, err)
  prop C11, C13
  ensures ok: iff(err == nil, dict_ok(str(p.data))) && iff(r == nil, err != nil)
  ensures n: imp(r != nil, len(*r) == dict_n(str(p.data)) && fresh(r))
  ensures vals: imp(r != nil, forall(k, 0, len(*r), (*r)[k].key == dict_key(str(p.data))[k] && (*r)[k].rawVal == dict_val(str(p.data))[k]))
  ensures own: imp(r != nil, *r == nil || fresh(arr(*r)))

rec dictrows(K arrstr, V arrstr, n int) str = ite(n <= 0, "<<\n", cat(dictrows(K, V, n-1), "/", K[n-1], " ", V[n-1]))
func (*pdft.PDFObjData).setProperties (p, props)
  prop C03, C13
  ghost K arrstr, V arrstr
  def forall(i, 0, len(*props), K[i] == (*props)[i].key && V[i] == (*props)[i].rawVal)
  requires props != nil
  modifies p.data
  ensures text: str(p.data) == cat(dictrows(K, V, len(*props)), ">>\n")
  inv $b:buf, $i:int :: $b == dictrows(K, V, $i+1)
  inv $b:buf, $i:int :: $b == dictrows(K, V, $i)

func (*pdft.PDFObjPropertyData).setAsDictionary (p, value, revision)
  prop C03, C13
  modifies p.rawVal
  ensures text: p.rawVal == cat(itoa(value), " ", itoa(revision), " R")

rec refs(a arrint, o int, n int) str = ite(n <= 0, "[", cat(refs(a, o, n-1), itoa(a[o+n-1]), " 0 R "))
func (*pdft.PDFObjPropertyData).setAsDictionaryArr (p, values, revisions)
  prop C03, C13
  ghost L arrint
  def forall(i, 0, len(values), L[i] == values[i])
  requires revisions == nil
  modifies p.rawVal
  ensures text: p.rawVal == cat(refs(L, 0, len(values)), "]")
  inv $b:buf, $i:int :: $b == refs(L, 0, $i+1)
  inv $b:buf, $i:int :: $b == refs(L, 0, $i)
  inv $s:slice :: forall(i, 0, len(values), $s[i] == 0)

macro isobj(s) = len(trimspace(s)) > 2 && at(trimspace(s), 0) == 60 && at(trimspace(s), 1) == 60
macro isarr(s) = len(trimspace(s)) > 1 && at(trimspace(s), 0) == 91
macro isnum(s) = !isobj(s) && !isarr(s) && int_ok(trimspace(trimspace(s)))
macro isref(s) = !isobj(s) && !isarr(s) && !int_ok(trimspace(trimspace(s)))
func pdft.propertyType (raw) (r)
  prop C11, C13
  ensures obj: iff(r == "object", isobj(raw))
  ensures arr: iff(r == "array", isarr(raw))
  ensures num: iff(r == "number", isnum(raw))
  ensures ref: iff(r == "dictionary", isref(raw))

macro refok(s) = trimspace(s) != "" && split_n(trimspace(s), " ") == 3 && int_ok(trimspace(split_arr(trimspace(s), " ")[0]))
macro refid(s) = atoiv(trimspace(split_arr(trimspace(s), " ")[0]))
func pdft.readObjIDFromDictionary (s) (id, rev, err)
  prop C11, C13
  ensures ok: iff(err == nil, refok(s))
  ensures id: imp(err == nil, id == refid(s))

rec eol(s str) int = ite(len(s) >= 2 && at(s, 0) == 13 && at(s, 1) == 10, 2, ite(len(s) >= 1 && (at(s, 0) == 10 || at(s, 0) == 13), 1, 0))
func pdft.trimStreamEOL (b) (r)
  prop C12, C13
  ensures val: str(r) == sub(str(b), eol(str(b)), len(b))
  ensures same: arr(r) == arr(b) && off(r) == off(b) + eol(str(b)) && len(r) == len(b) - eol(str(b))

rec ifind(A arrint, v int, n int) int = ite(n <= 0, -1, ite(ifind(A, v, n-1) >= 0, ifind(A, v, n-1), ite(A[n-1] == v, n-1, -1)))
ind ifind_r(A arrint, v int, n int) by n = ifind(A, v, n) >= -1 && imp(ifind(A, v, n) >= 0, ifind(A, v, n) < n && A[ifind(A, v, n)] == v) trigger ifind(A, v, n)
ind ifind_m(A arrint, v int, n int, i int) by n = imp(0 <= i && i < n && A[i] == v, 0 <= ifind(A, v, n) && ifind(A, v, n) <= i) trigger ifind(A, v, n), A[i]
ind ifind_x(A arrint, B arrint, v int, n int) by n = imp(forall(i, 0, n, A[i] == B[i]), ifind(A, v, n) == ifind(B, v, n)) trigger ifind(A, v, n), ifind(B, v, n)
macro idview(p, A) = forall(i, 0, len(p.objIDs), A[i] == p.objIDs[i])
macro once(A, v, n) = all(i, int, all(j, int, imp(0 <= i && i < j && j < n && A[i] == v, A[j] != v)))

func (*pdft.PDFData).getObjByID (p, objID) (r)
  prop C02, C11
  ghost A arrint, k int
  def idview(p, A)
  def k == ifind(A, objID, len(p.objIDs))
  requires len(p.objs) == len(p.objIDs)
  requires imp(k >= 0, forall(j, k+1, len(p.objIDs), A[j] != objID))
  ensures found: r == ite(k < 0, nil, &p.objs[k])
  inv $s:slice, $i:int :: ite(ifind(A, objID, $i+1) < 0, len($s) == 0, len($s) == 1 && $s[0] == k)
  inv $s:slice, $i:int :: ite(ifind(A, objID, $i) < 0, len($s) == 0, len($s) == 1 && $s[0] == k)

func (*pdft.PDFData).removeObjByID (p, objID) (err)
  prop C02, C03
  ghost A arrint, k int
  def idview(p, A)
  def k == ifind(A, objID, len(p.objIDs))
  requires len(p.objs) == len(p.objIDs)
  modifies p.objIDs, p.objs, elems(p.objIDs), elems(p.objs)
  ensures none: iff(err != nil, k < 0)
  ensures keep: imp(err != nil, len(p.objIDs) == old(len(p.objIDs)) && forall(i, 0, len(p.objIDs), p.objIDs[i] == A[i]))
  ensures n: imp(err == nil, len(p.objIDs) == old(len(p.objIDs)) - 1 && len(p.objs) == old(len(p.objs)) - 1)
  ensures before: imp(err == nil, forall(i, 0, k, p.objIDs[i] == A[i] && p.objs[i].objID == old(p.objs[i].objID) && p.objs[i].data == old(p.objs[i].data)))
  ensures after: imp(err == nil, forall(i, k, len(p.objIDs), p.objIDs[i] == A[i+1] && p.objs[i].objID == old(p.objs[i+1].objID) && p.objs[i].data == old(p.objs[i+1].data)))
  inv $i:int :: ifind(A, objID, $i+1) < 0
  inv $i:int :: ifind(A, objID, $i) < 0

func pdft.streamLength (p, data) (r, err)
  prop C12, C13
  ghost A arrint, D str, L str, k int
  def idview(p, A)
  def D == str(*data) && L == ite(dhas(D, "Length"), dget(D, "Length"), dget(D, "Length1"))
  def k == ifind(A, refid(L), len(p.objIDs))
  requires p != nil && data != nil && len(p.objs) == len(p.objIDs)
  requires imp(k >= 0, forall(j, k+1, len(p.objIDs), A[j] != refid(L)))
  ensures none: imp(!dict_ok(D) || !(dhas(D, "Length") || dhas(D, "Length1")), err != nil)
  ensures direct: imp(dict_ok(D) && (dhas(D, "Length") || dhas(D, "Length1")) && isnum(L), iff(err == nil, int_ok(trimspace(L))) && imp(err == nil, r == atoiv(trimspace(L))))
  ensures indirect: imp(dict_ok(D) && (dhas(D, "Length") || dhas(D, "Length1")) && isref(L), iff(err == nil, refok(L) && k >= 0 && int_ok(trimspace(str(p.objs[k].data)))) && imp(err == nil, r == atoiv(trimspace(str(p.objs[k].data)))))
  ensures other: imp(isobj(L) || isarr(L), err != nil)

func pdft.extractStream (b, length, zip) (r, err)
  prop C13
  ghost D str, i int
  requires b != nil && !zip
  def D == str(*b)
  def i == sindex(D, "stream") + 6
  ensures bad: iff(err != nil, i < 6 || length < 0 || length > len(D) - i - eol(sub(D, i, len(D))))
  ensures val: imp(err == nil, str(r) == sub(D, i + eol(sub(D, i, len(D))), i + eol(sub(D, i, len(D))) + length))
  ensures own: r == nil || fresh(r)
