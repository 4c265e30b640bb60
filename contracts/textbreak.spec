rec join(a arrstr, o int, n int) str = ite(n <= 0, "", cat(join(a, o, n-1), a[o+n-1]))
rec uconv(s str, n int) str = ite(n <= 0, "", cat(uconv(s, n-1), rune_str(rune_at(s, n-1))))

func (textbreak.BasicTextbreak).BreakTextToToken (b, text) (r, err)
  prop C04
  ensures ok: err == nil
  ensures lossless: join(elems(r), off(r), len(r)) == uconv(text, nrunes(text))
  ensures exact: imp(valid_utf8(text), join(elems(r), off(r), len(r)) == text)
  inv $t:slice, $s:str, $k:iter :: cat(join(elems($t), off($t), len($t)), $s) == uconv(text, $k)
  inv $t:slice, $s:str, $k:iter :: imp(valid_utf8(text), cat(join(elems($t), off($t), len($t)), $s) == sub(text, 0, rune_off(text, $k)))

ind join_ext(a arrstr, b arrstr, o int, p int, n int) by n =
  imp(forall(k, 0, n, a[o+k] == b[p+k]), join(a, o, n) == join(b, p, n))
  trigger join(a, o, n), join(b, p, n)
