package main

// Models of readers, compression and encodings.
//
// zlib: inflate(z) is what a zlib stream z decodes to and zlib_ok(z) that it is
// one; a stream written by zlib.Writer is some z with inflate(z) equal to what
// was written. Until Close what has reached the destination is unspecified.

func ifTag(n string) *Term { return mkInt(int64(internName("type:" + n))) }

func errCond(st *State, c *Term) Value { return errIf(st, c) }

// readAllOf returns what is left to read from a reader of known dynamic type,
// whether reading it fails, and consumes it.
func (sc *site) readAllOf(st *State, v Value) (s *Term, bad *Term) {
	iv := v.(IfaceV)
	n, ok := constInt(iv.tag)
	if !ok {
		panic(unsupported("reader of unknown type"))
	}
	switch nameOfID(int(n)) {
	case "type:*bytes.Reader":
		T := sc.x.prog.namedType("bytes", "Reader")
		sc.nonNil(st, iv.val)
		rv := st.load(iv.val, T).(StructV)
		src, pos := rv.f[0].(*Term), rv.f[1].(*Term)
		p := mkIte(mkLe(pos, mkSlen(src)), pos, mkSlen(src))
		storePos(st, iv.val, T, mkIte(mkLe(pos, mkSlen(src)), mkSlen(src), pos))
		return mkSsub(src, p, mkSlen(src)), tFalse
	case "type:*bytes.Buffer":
		sc.nonNil(st, iv.val)
		c := sc.getBuf(st, iv.val)
		sc.setBuf(st, iv.val, tEmpty)
		return c, tFalse
	case "type:model.zlibreader":
		src := st.readComp("C:zlib.reader.src", SStr, iv.val)
		st.writeComp("C:zlib.reader.src", SStr, iv.val, mkFresh("zr", SStr))
		return mkApp("inflate", SStr, src), mkNot(mkApp("zlib_ok", SBool, src))
	case "type:model.b64decoder":
		src := st.readComp("C:base64.decoder.src", SStr, iv.val)
		st.writeComp("C:base64.decoder.src", SStr, iv.val, mkFresh("br", SStr))
		return mkApp("b64dec", SStr, src), mkNot(mkApp("b64_ok", SBool, src))
	}
	panic(unsupported("reader of type " + nameOfID(int(n))))
}

func newZlibWriter(sc *site, st *State, w Value) Value {
	iv := w.(IfaceV)
	n, ok := constInt(iv.tag)
	if !ok || nameOfID(int(n)) != "type:*bytes.Buffer" {
		panic(unsupported("zlib writer to an unknown writer"))
	}
	r := st.alloc()
	st.writeComp("C:zlib.writer.dst", SRef, r, iv.val)
	st.writeComp("C:zlib.writer.base", SStr, r, sc.getBuf(st, iv.val))
	st.writeComp("C:zlib.writer.cur", SStr, r, sc.getBuf(st, iv.val))
	st.writeComp("C:zlib.writer.acc", SStr, r, tEmpty)
	return r
}

func zlibDst(sc *site, st *State, p *Term) (dst, base, acc *Term) {
	sc.nonNil(st, p)
	dst = st.readComp("C:zlib.writer.dst", SRef, p)
	if sc.getBuf(st, dst) != st.readComp("C:zlib.writer.cur", SStr, p) {
		panic(unsupported("the destination of a zlib writer is written to in between"))
	}
	return dst, st.readComp("C:zlib.writer.base", SStr, p), st.readComp("C:zlib.writer.acc", SStr, p)
}

func zlibWrite(sc *site, st *State, p *Term, d *Term) {
	dst, base, acc := zlibDst(sc, st, p)
	st.writeComp("C:zlib.writer.acc", SStr, p, mkCat(acc, d))
	cur := mkCat(base, mkFresh("zpart", SStr))
	st.writeComp("C:zlib.writer.cur", SStr, p, cur)
	sc.setBuf(st, dst, cur)
}

func init() {
	readFull := func(sc *site, st *State, a []Value) []Value {
		iv := a[0].(IfaceV)
		n, ok := constInt(iv.tag)
		if !ok || nameOfID(int(n)) != "type:*bytes.Reader" {
			panic(unsupported("io.ReadFull from an unknown reader"))
		}
		b := a[1].(SliceV)
		p := iv.val
		sc.nonNil(st, p)
		T := sc.x.prog.namedType("bytes", "Reader")
		rv := st.load(p, T).(StructV)
		src, pos := rv.f[0].(*Term), rv.f[1].(*Term)
		rem := mkSub(mkSlen(src), pos)
		rem = mkIte(mkGe0(rem), rem, mkInt(0))
		full := mkLe(b.len, rem)
		cnt := mkIte(full, b.len, rem)
		if st.known(mkLe(mkAdd(pos, b.len), mkSlen(src))) {
			cnt, full = b.len, tTrue
		}
		srt := ArrS(SInt, SInt)
		st.writeComp("E:"+byteKey, srt, b.arr, mkAWrite(st.readComp("E:"+byteKey, srt, b.arr), b.off, mkArrOf(src), pos, cnt))
		storePos(st, p, T, mkAdd(pos, cnt))
		return []Value{cnt, errIf(st, mkNot(full))}
	}
	readAll := func(sc *site, st *State, a []Value) []Value {
		s, bad := sc.readAllOf(st, a[0])
		return []Value{st.newBytes(s), errIf(st, bad)}
	}
	add := map[string]modelFn{
		"io.ReadFull":       readFull,
		"io.ReadAll":        readAll,
		"io/ioutil.ReadAll": readAll,
		"compress/zlib.NewReader": func(sc *site, st *State, a []Value) []Value {
			s, bad := sc.readAllOf(st, a[0])
			if bad != tFalse {
				panic(unsupported("zlib reader over a failing reader"))
			}
			r := st.alloc()
			st.writeComp("C:zlib.reader.src", SStr, r, s)
			hdr := mkApp("zlib_hdr", SBool, s)
			st.assume(mkOr(hdr, mkNot(mkApp("zlib_ok", SBool, s))))
			return []Value{IfaceV{ifTag("model.zlibreader"), r}, errIf(st, mkNot(hdr))}
		},
		"io.Copy": func(sc *site, st *State, a []Value) []Value {
			s, bad := sc.readAllOf(st, a[1])
			d := mkIte(bad, mkFresh("partial", SStr), s)
			if !sc.writerWrite(st, a[0], d) {
				panic(unsupported("io.Copy to an unknown writer"))
			}
			return []Value{mkSlen(d), errIf(st, bad)}
		},
		"model.zlibreader.Close": func(sc *site, st *State, a []Value) []Value {
			return []Value{errIf(st, mkFresh("zc", SBool))}
		},
		"compress/zlib.NewWriter": func(sc *site, st *State, a []Value) []Value {
			return []Value{newZlibWriter(sc, st, a[0])}
		},
		"compress/zlib.NewWriterLevel": func(sc *site, st *State, a []Value) []Value {
			l := a[1].(*Term)
			bad := mkOr(mkLt(l, mkInt(-2)), mkGt(l, mkInt(9)))
			return []Value{newZlibWriter(sc, st, a[0]), errIf(st, bad)}
		},
		"(*compress/zlib.Writer).Write": func(sc *site, st *State, a []Value) []Value {
			zlibWrite(sc, st, a[0].(*Term), bytesOf(st, a[1]))
			return []Value{lenOf(a[1]), nilErr()}
		},
		"(*compress/zlib.Writer).Flush": func(sc *site, st *State, a []Value) []Value {
			zlibWrite(sc, st, a[0].(*Term), tEmpty)
			return []Value{nilErr()}
		},
		"(*compress/zlib.Writer).Close": func(sc *site, st *State, a []Value) []Value {
			p := a[0].(*Term)
			dst, base, acc := zlibDst(sc, st, p)
			z := mkApp("zdeflate", SStr, acc, mkFresh("zl", SInt))
			st.assume(mkEq(mkApp("inflate", SStr, z), acc))
			st.assume(mkApp("zlib_ok", SBool, z))
			sc.setBuf(st, dst, mkCat(base, z))
			st.writeComp("C:zlib.writer.cur", SStr, p, mkFresh("closed", SStr))
			return []Value{nilErr()}
		},
		"encoding/base64.NewDecoder": func(sc *site, st *State, a []Value) []Value {
			s, bad := sc.readAllOf(st, a[1])
			if bad != tFalse {
				panic(unsupported("base64 decoder over a failing reader"))
			}
			r := st.alloc()
			st.writeComp("C:base64.decoder.src", SStr, r, s)
			return []Value{IfaceV{ifTag("model.b64decoder"), r}}
		},
		// what the image package says about the bytes from the reader's position on
		"image.DecodeConfig": func(sc *site, st *State, a []Value) []Value {
			iv := a[0].(IfaceV)
			n, ok := constInt(iv.tag)
			if !ok || nameOfID(int(n)) != "type:*bytes.Reader" {
				panic(unsupported("image from an unknown reader"))
			}
			T := sc.x.prog.namedType("bytes", "Reader")
			sc.nonNil(st, iv.val)
			rv := st.load(iv.val, T).(StructV)
			src, pos := rv.f[0].(*Term), rv.f[1].(*Term)
			s := mkSsub(src, pos, mkSlen(src))
			np := mkFresh("imgpos", SInt)
			st.assume(mkGe(np, mkInt(0)))
			storePos(st, iv.val, T, np)
			cfg := StructV{[]Value{IfaceV{mkApp("img_cmtag", SInt, s), mkApp("img_cm", SRef, s)}, mkApp("img_w", SInt, s), mkApp("img_h", SInt, s)}}
			return []Value{cfg, mkApp("img_fmt", SStr, s), errIf(st, mkNot(mkApp("img_ok", SBool, s)))}
		},
	}
	for k, v := range add {
		models[k] = v
	}
}
