ufn trimspace(str) str
ufn md5(str) str
ufn rc4(str, str) str
ufn sindex(str, str) int
ufn slastindex(str, str) int
ufn toupper(str) str
ufn sreplace(str, str, str, int) str
# strings.ReplaceAll of the one byte c by w, over the first n bytes of s
rec rp(s str, c int, w str, n int) str = ite(n <= 0, "", cat(rp(s, c, w, n-1), ite(at(s, n-1) == c, w, chr(at(s, n-1)))))
