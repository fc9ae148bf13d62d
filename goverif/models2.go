package main

import (
	"go/types"
	"strings"
)

// Models (assumed contracts) of further library functions: hashes, writers that buffer, files, time, regexps.

// ghostObj allocates an object that is only known to the models; it is used through an interface.
func (c *CallCtx) ghostObj(kind string) *Term {
	return App("box_ghost:"+kind, SAny, c.ex.alloc(c.st, "ghost"))
}

func ghostKind(w *Term) string {
	if w.op == OApp && strings.HasPrefix(w.name, "box_ghost:") {
		return strings.TrimPrefix(w.name, "box_ghost:")
	}
	return ""
}

func (ex *Exec) setOut(st *State, w, text *Term) {
	st.set("O|out", Store(st.get("O|out", ArrSort(SAny, SStr)), w, text))
}
func (ex *Exec) getOut(st *State, w *Term) *Term {
	r := Select(st.get("O|out", ArrSort(SAny, SStr)), w)
	if r.op == OSelect && r.args[1] == w && isBuffer(w) && isFresh(w.args[0]) && r.args[0].op == OVar && r.args[0].initial {
		return Str("") // a zero buffer is empty
	}
	return r
}

func isBuffer(w *Term) bool { return isBoxOf(w, "*bytes.Buffer") || isBoxOf(w, "*strings.Builder") }

func isBoxOf(w *Term, typ string) bool { return w.op == OApp && w.name == "box_"+typ }

// sturdy: writes to w cannot fail (a buffer, a buffering writer whose failures are reported by Flush, or a writer
// that a precondition says is one).
func sturdy(w *Term) *Term {
	if isBuffer(w) || isBoxOf(w, "*bufio.Writer") {
		return TTrue
	}
	return App("sturdy", SBool, w)
}

// writeTo is a Write call on an arbitrary writer value.
func (ex *Exec) writeTo(st *State, w, text *Term) Val {
	okv := Val{Tup: []Val{{T: StrLen(text)}, {T: AnyNil}}}
	switch k := ghostKind(w); {
	case strings.HasPrefix(k, "hash:"):
		ex.emit(st, w, text)
		return okv
	case k == "multi":
		ws := Select(st.get("H|$multi|ws", ArrSort(SInt, SliceSort(SAny))), w.args[0])
		l := SLen(ws)
		if l.op != OInt {
			unsup("MultiWriter over an unknown number of writers")
		}
		err := AnyNil
		for i := l.n - 1; i >= 0; i-- {
			sub := SAt(ws, Int(i))
			if !strings.HasPrefix(ghostKind(sub), "hash:") {
				unsup("MultiWriter over writers that can fail")
			}
			ex.writeTo(st, sub, text)
		}
		return Val{Tup: []Val{{T: StrLen(text)}, {T: err}}}
	}
	if isBoxOf(w, "*text/tabwriter.Writer") {
		// writing a line may already write to the destination, and only this call reports its failure
		d := Select(st.get("H|$text/tabwriter.Writer|w", ArrSort(SInt, SAny)), w.args[0])
		o := ex.getOut(st, w)
		ex.emit(st, w, text)
		if isBuffer(d) {
			return okv
		}
		err := App("tabwriteerr", SAny, d, o)
		ex.noteFail(st, d, err)
		return Val{Tup: []Val{{T: App("writen", SInt, d, o)}, {T: err}}}
	}
	if isBuffer(w) || isBoxOf(w, "*bufio.Writer") {
		ex.emit(st, w, text)
		return okv
	}
	if ex.sturdy[w] {
		ex.emit(st, w, text)
		return okv
	}
	return ex.write(st, w, text)
}

// openFile returns the path of a file opened by os.Open, when that is known on this path.
func openFile(c *CallCtx, f *Term) *Term {
	if f.op == OApp && strings.HasPrefix(f.name, "box_") && strings.HasSuffix(f.name, "os.File") {
		r := f.args[0]
		if r.op == OIte && r.args[1].op == OInt && pcKnows(c.pc, Not(r.args[0])) {
			r = r.args[2]
		}
		if r.op == OApp && r.name == "seqlen" && r.args[0] == Str("file") {
			return r.args[1]
		}
	}
	return nil
}

func (c *CallCtx) retPtr(ref *Term) Val {
	t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
	return Val{T: ref, A: &Addr{k: aObj, ref: ref, typ: t}}
}

func fileLines(p *Term) *Term { return App("lines", SStrs, App("fileof", SAny, p)) }

func init() {
	M := modelTab
	for _, h := range []string{"sha1", "sha256", "md5"} {
		h := h
		M["crypto/"+h+".New"] = func(c *CallCtx) Val {
			o := c.ghostObj("hash:" + h)
			c.ex.setOut(c.st, o, Str(""))
			return Val{T: o}
		}
		M["ghost:hash:"+h+".Write"] = func(c *CallCtx) Val { return c.ex.writeTo(c.st, c.t(0), c.t(1)) }
		M["ghost:hash:"+h+".Sum"] = one(func(c *CallCtx) *Term {
			return Concat(c.t(1), App(h, SStr, c.ex.getOut(c.st, c.t(0))))
		})
		M["ghost:hash:"+h+".Reset"] = func(c *CallCtx) Val { c.ex.setOut(c.st, c.t(0), Str("")); return Val{} }
	}
	M["encoding/hex.EncodeToString"] = one(func(c *CallCtx) *Term { return App("hex", SStr, c.t(0)) })
	M["io.MultiWriter"] = func(c *CallCtx) Val {
		o := c.ghostObj("multi")
		k := "H|$multi|ws"
		c.st.set(k, Store(c.st.get(k, ArrSort(SInt, SliceSort(SAny))), o.args[0], c.t(0)))
		return Val{T: o}
	}
	M["ghost:multi.Write"] = func(c *CallCtx) Val { return c.ex.writeTo(c.st, c.t(0), c.t(1)) }
	M["io.Copy"] = func(c *CallCtx) Val {
		p := openFile(c, c.t(1))
		if p == nil {
			unsup("io.Copy from an unknown reader")
		}
		data := App("filedata", SStr, p)
		c.ex.writeTo(c.st, c.t(0), data)
		return Val{Tup: []Val{{T: StrLen(data)}, {T: App("readerr", SAny, p)}}}
	}
	M["io.ReadAll"] = func(c *CallCtx) Val {
		if p := openFile(c, c.t(0)); p != nil {
			return Val{Tup: []Val{{T: App("filedata", SStr, p)}, {T: App("readerr", SAny, p)}}}
		}
		r := c.t(0)
		return Val{Tup: []Val{{T: App("readerdata", SStr, r)}, {T: App("readererr", SAny, r)}}}
	}
	M["os.ReadFile"] = func(c *CallCtx) Val {
		p := c.t(0)
		return Val{Tup: []Val{{T: App("filedata", SStr, p)}, {T: Ite(App("openfails", SBool, p), mkErr(Str("open")), App("readerr", SAny, p))}}}
	}
	for _, n := range []string{"(io.Writer).Write", "io.WriteString"} {
		n := n
		M[n] = func(c *CallCtx) Val {
			if n[0] == '(' {
				c.npc = nonNilAny(c, 0)
			}
			return c.ex.writeTo(c.st, c.t(0), c.t(1))
		}
	}
	M["fmt.Fprintf"] = func(c *CallCtx) Val {
		s := c.ex.sprintf(c.st, c.t(1), c.t(2))
		return c.ex.writeTo(c.st, c.t(0), s)
	}
	M["fmt.Fprint"] = func(c *CallCtx) Val { return c.ex.writeTo(c.st, c.t(0), c.ex.sprint(c.st, c.t(1), "")) }
	M["fmt.Fprintln"] = func(c *CallCtx) Val {
		return c.ex.writeTo(c.st, c.t(0), Concat(c.ex.sprint(c.st, c.t(1), " "), Str("\n")))
	}

	// buffering writers: nothing reaches the destination before Flush; Flush reports any failure
	buffered := func(typ string, cfg func(c *CallCtx) *Term, render func(cfg, buf *Term) *Term) {
		sp := strings.TrimPrefix(typ, "*")
		wk, ck := "H|$"+sp+"|w", "H|$"+sp+"|cfg"
		box := func(ref *Term) *Term {
			boxTypes[typ] = nil
			return App("box_"+typ, SAny, ref)
		}
		pkg, nm := sp[:strings.LastIndex(sp, ".")], sp[strings.LastIndex(sp, ".")+1:]
		mk := func(c *CallCtx) Val {
			ref := c.ex.alloc(c.st, sp)
			c.st.set(wk, Store(c.st.get(wk, ArrSort(SInt, SAny)), ref, c.t(0)))
			c.st.set(ck, Store(c.st.get(ck, ArrSort(SInt, SInt)), ref, cfg(c)))
			t := c.sig.Results().At(0).Type()
			c.ex.setOut(c.st, c.ex.box(c.st, c.retPtr(ref), t), Str(""))
			return c.retPtr(ref)
		}
		M[pkg+".NewWriter"] = mk
		if pkg == "bufio" {
			M[pkg+".NewWriterSize"] = mk
		}
		_ = box
		recvBox := func(c *CallCtx) *Term { return c.ex.box(c.st, c.args[0], c.recvType(pkg, nm)) }
		M["(*"+pkg+"."+nm+").Write"] = func(c *CallCtx) Val { return c.ex.writeTo(c.st, recvBox(c), c.t(1)) }
		M["(*"+pkg+"."+nm+").WriteString"] = M["(*"+pkg+"."+nm+").Write"]
		M["(*"+pkg+"."+nm+").Flush"] = func(c *CallCtx) Val {
			b := recvBox(c)
			ref := c.t(0)
			w := Select(c.st.get(wk, ArrSort(SInt, SAny)), ref)
			cf := Select(c.st.get(ck, ArrSort(SInt, SInt)), ref)
			text := render(cf, c.ex.getOut(c.st, b))
			c.ex.setOut(c.st, b, Str(""))
			return c.ex.writeTo(c.st, w, text).Tup[1]
		}
	}
	buffered("*text/tabwriter.Writer", func(c *CallCtx) *Term {
		var as []*Term
		for i := 1; i < len(c.args); i++ {
			as = append(as, c.t(i))
		}
		return App("tabcfg", SInt, as...)
	}, func(cfg, buf *Term) *Term { return App("tabfmt", SStr, cfg, buf) })
	buffered("*bufio.Writer", func(c *CallCtx) *Term { return Int(0) }, func(cfg, buf *Term) *Term { return buf })

	for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
		b := b
		recv := func(c *CallCtx) *Term { return c.ex.box(c.st, c.args[0], c.sig.Recv().Type()) }
		M["(*"+b+").Write"] = func(c *CallCtx) Val { return c.ex.writeTo(c.st, recv(c), c.t(1)) }
		M["(*"+b+").WriteString"] = M["(*"+b+").Write"]
		M["(*"+b+").String"] = one(func(c *CallCtx) *Term { return c.ex.getOut(c.st, recv(c)) })
		M["(*"+b+").Bytes"] = M["(*"+b+").String"]
		M["(*"+b+").Len"] = one(func(c *CallCtx) *Term { return StrLen(c.ex.getOut(c.st, recv(c))) })
		M["(*"+b+").Reset"] = func(c *CallCtx) Val { c.ex.setOut(c.st, recv(c), Str("")); return Val{} }
	}
	M["(*bytes.Buffer).ReadFrom"] = func(c *CallCtx) Val {
		b := c.ex.box(c.st, c.args[0], c.sig.Recv().Type())
		r := c.t(1)
		c.ex.writeTo(c.st, b, App("readerdata", SStr, r))
		return Val{Tup: []Val{{T: StrLen(App("readerdata", SStr, r))}, {T: App("readererr", SAny, r)}}}
	}
	M["(*bytes.Buffer).WriteTo"] = func(c *CallCtx) Val {
		b := c.ex.box(c.st, c.args[0], c.sig.Recv().Type())
		t := c.ex.getOut(c.st, b)
		c.ex.setOut(c.st, b, Str(""))
		r := c.ex.writeTo(c.st, c.t(1), t)
		return Val{Tup: []Val{{T: StrLen(t)}, r.Tup[1]}}
	}

	// file information
	M["(io/fs.FileInfo).IsDir"] = one(func(c *CallCtx) *Term { return App("fi.IsDir", SBool, c.t(0)) })
	M["(io/fs.FileInfo).Mode"] = one(func(c *CallCtx) *Term { return App("fi.Mode", SInt, c.t(0)) })
	M["(io/fs.FileInfo).Name"] = one(func(c *CallCtx) *Term { return App("fi.Name", SStr, c.t(0)) })
	M["(io/fs.FileInfo).Size"] = one(func(c *CallCtx) *Term { return App("fi.Size", SInt, c.t(0)) })
	M["(io/fs.FileMode).IsRegular"] = one(func(c *CallCtx) *Term { return App("mode.IsRegular", SBool, c.t(0)) })
	M["(io/fs.FileMode).IsDir"] = one(func(c *CallCtx) *Term { return App("mode.IsDir", SBool, c.t(0)) })

	// time
	M["time.LoadLocation"] = func(c *CallCtx) Val {
		ref := App("location", SInt, c.t(0))
		return Val{Tup: []Val{c.retPtr(ref), {T: App("locerr", SAny, c.t(0))}}}
	}
	M["time.Now"] = one(func(c *CallCtx) *Term { return App("timeNow", c.ex.sortOf(c.sig.Results().At(0).Type())) })
	M["(time.Time).In"] = one(func(c *CallCtx) *Term { return App("timeIn", c.t(0).sort, c.t(0), c.t(1)) })
	M["(time.Time).UTC"] = one(func(c *CallCtx) *Term { return App("timeIn", c.t(0).sort, c.t(0), App("location", SInt, Str("UTC"))) })
	M["(time.Time).Format"] = one(func(c *CallCtx) *Term { return App("timefmt", SStr, c.t(0), c.t(1)) })

	// regular expressions: uninterpreted functions of the pattern and the text
	M["regexp.MustCompile"] = func(c *CallCtx) Val {
		if c.t(0).op != OStr {
			unsup("regexp.MustCompile of a computed pattern")
		}
		return c.retPtr(App("regexp", SInt, c.t(0)))
	}
	M["(*regexp.Regexp).ReplaceAllString"] = one(func(c *CallCtx) *Term { return App("rereplace", SStr, c.t(0), c.t(1), c.t(2)) })
	M["(*regexp.Regexp).MatchString"] = one(func(c *CallCtx) *Term { return App("rematch", SBool, c.t(0), c.t(1)) })
	M["(*regexp.Regexp).FindStringSubmatch"] = one(func(c *CallCtx) *Term { return App("refind", SStrs, c.t(0), c.t(1)) })

	redirectTab["path/filepath.Walk"] = "ZZWalk"
}

// redirectTab maps external functions to reference programs in verifspec.
var redirectTab = map[string]string{}

func (c *CallCtx) recvType(pkg, nm string) types.Type {
	if c.sig.Recv() != nil {
		return c.sig.Recv().Type()
	}
	unsup("receiver of %s.%s", pkg, nm)
	return nil
}
