-------------------------------- MODULE Gen --------------------------------
(* A random author of protospec programs, argument lists and values.         *)
(* Programs are built type-directed, so most of them elaborate; Elab decides. *)
(* Values walk a type the way decoding does, so counts and conditions see the *)
(* fields already chosen.  `dev` is the chance (in %) of a deliberate         *)
(* deviation (missing optional, wrong count, wrong variant, odd flag bits).   *)
EXTENDS Codec
CONSTANTS Focus,
          Wild      \* % of programs that are given ill-formed pieces

Rnd(lo, hi) == RandomElement(lo..hi)
Chance(p)   == RandomElement(1..100) <= p
Of(s)       == s[RandomElement(1..Len(s))]
Dig(n)      == <<"0","1","2","3","4","5","6","7","8","9","10","11","12","13","14","15","16","17","18","19","20">>[n + 1]
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)

\* ---------------------------------------------------------------- surface syntax
XInt(n, s)  == [k |-> "int", b |-> OfNat(n, 4), suf |-> IF s = "" THEN <<>> ELSE <<s>>]
XIntB(b, s) == [k |-> "int", b |-> b, suf |-> IF s = "" THEN <<>> ELSE <<s>>]
XBool(v)    == [k |-> "bool", v |-> v]
XStr(b)     == [k |-> "str", b |-> b]
XId(n)      == [k |-> "id", n |-> n]
XEv(e, v)   == [k |-> "ev", e |-> e, v |-> v]
XCall(f, a) == [k |-> "call", f |-> f, a |-> a]
XBin(op, l, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
XUn(op, x)  == [k |-> "un", op |-> op, x |-> x]
XCast(x, t) == [k |-> "cast", x |-> x, ty |-> t]
XTern(c, t, f) == [k |-> "tern", c |-> c, t |-> t, f |-> f]
XIdx(x, i)  == [k |-> "idx", x |-> x, i |-> i]
XMem(x, m)  == [k |-> "mem", x |-> x, m |-> m]

YSc(s, e)   == [k |-> "sc", s |-> s, e |-> e]
YF(w)       == [k |-> "f", w |-> w]
YBool       == [k |-> "bool"]
YArr(el, l) == [k |-> "arr", el |-> el, exp |-> FALSE, len |-> <<l>>]
YTerm(el, z) == [k |-> "arr", el |-> el, exp |-> TRUE, len |-> <<XStr(z)>>]
YExt(el)    == [k |-> "arr", el |-> el, exp |-> TRUE, len |-> <<>>]
YRef(n, a)  == [k |-> "ref", name |-> n, args |-> a]
YCont(l, tg, its) == [k |-> "cont", len |-> l, tagged |-> tg, items |-> its]

SField(t)   == [ty |-> t, calc |-> <<>>, cond |-> <<>>, xf |-> <<>>, flags |-> <<>>]
SItem(n, f) == [k |-> "f", name |-> n, f |-> f]
SPad(l)     == [k |-> "pad", len |-> l]
DType(n, args, f) == [k |-> "type", name |-> n, args |-> args, f |-> f]
DConst(n, t, v)   == [k |-> "const", name |-> n, ty |-> t, val |-> v]
DFfi(n, kd)       == [k |-> "ffi", name |-> n, kind |-> kd]
SArg(n, t, d)     == [name |-> n, ty |-> t, def |-> d]

Ffis == <<DFfi("utf8", "type"), DFfi("utf16", "type"), DFfi("blob", "type"), DFfi("odd8", "type"),
          DFfi("v8", "type"), DFfi("v16", "type"), DFfi("v32", "type"), DFfi("v64", "type"), DFfi("v128", "type"),
          DFfi("xadd", "transform"), DFfi("xxor", "transform"), DFfi("frame", "transform"),
          DFfi("pad", "function"), DFfi("sum", "function"), DFfi("bits", "function"), DFfi("fmix", "function"), DFfi("is_even", "function")>>

\* ---------------------------------------------------------------- scope: what an expression may mention
\* variable: n, ty (sc|bool|enum|bits|arr|vec), opt, calc ("none"|"plain"|"blen")
Var(n, ty, opt, calc) == [n |-> n, ty |-> ty, opt |-> opt, calc |-> calc]
VSc(s, e)   == [k |-> "sc", s |-> s, e |-> e]
VArr(el)    == [k |-> "arr", el |-> el]
VVec        == [k |-> "vec"]
VOther      == [k |-> "other"]

AllSc == <<"u8", "u8", "u8", "u16", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128">>
RECURSIVE RandB(_)
RandB(n) == IF n = 0 THEN <<>> ELSE <<Rnd(0, 255)>> \o RandB(n - 1)
\* a magnitude that fits s
Mag(s) ==
  LET w == W(s)
      m == Of(<<0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127>>)
      c == Rnd(1, 12) IN
  CASE c <= 9 -> OfNat(m, w)
    [] c = 10 -> (IF Sg(s) THEN <<127>> ELSE <<255>>) \o Fill(w - 1, 255)
    [] c = 11 -> LET b == RandB(w) IN IF Sg(s) THEN <<b[1] % 128>> \o Tail(b) ELSE b
    [] OTHER -> (IF Sg(s) THEN <<64>> ELSE <<128>>) \o Zeros(w - 1)
Lit(s) == XIntB(Mag(s), s)

RECURSIVE GenSc(_, _, _, _)
RECURSIVE GenBool(_, _, _)
\* something that may well be ill-formed where it is put
WildE(g, sc, d) ==
  LET c == Rnd(1, 24)
      anyv == IF sc = <<>> THEN XId("nope") ELSE XId(Of(sc).n)
      en == IF g.enums = <<>> THEN "E9" ELSE Of(g.enums).n
      bn == IF g.bits = <<>> THEN "B9" ELSE Of(g.bits).n
      s == Of(AllSc)
      sub == IF d <= 0 THEN Lit(s) ELSE IF Chance(50) THEN GenSc(g, sc, s, d - 1) ELSE GenBool(g, sc, d - 1)
  IN CASE c = 1 -> XInt(Of(<<127, 128, 255, 256, 32768, 65535, 65536>>), Of(<<"u8", "i8", "u16", "i16", "">>))
       [] c = 2 -> XInt(Rnd(0, 9), "")
       [] c = 3 -> XId(Of(<<"nope", "K1", "E1", "T1", "f1", "p1">>))
       [] c \in 4..7 -> anyv
       [] c = 8 -> XBool(Chance(50))
       [] c = 9 -> XStr(<<65, 66>>)
       [] c = 10 -> XEv(Of(<<en, bn, "E9", "T1", "R1">>), Of(<<"Va", "Vb", "fa", "Dz", "Vq">>))
       [] c = 11 -> XCall(Of(<<"bits", "fmix", "pad", "sum", "len", "is_even", "nofn", "xadd">>), Of(<<<<>>, <<sub>>, <<sub, XInt(1, "")>>, <<sub, sub, sub>>, <<anyv>>, <<sub, sub, sub, sub>>>>))
       [] c \in 12..13 -> XCast(sub, Of(<<YSc(s, "be"), YSc("u16", "le"), YBool, YRef(en, <<>>), YRef("v32", <<>>), YF(4), YF(8), YRef("nope", <<>>), YRef("T1", <<>>)>>))
       [] c \in 14..16 -> XBin(Of(<<"+", "-", "/", "&", "|", "<<", "==", "!=", "<", "&&", "||", "?:">>), sub, Of(<<sub, anyv, Lit(Of(AllSc)), XInt(3, "")>>))
       [] c = 17 -> XUn(Of(<<"!", "-", "~">>), Of(<<sub, anyv, XInt(3, "")>>))
       [] c = 18 -> XMem(anyv, Of(<<"fa", "fb", "fz">>))
       [] c = 19 -> XIdx(anyv, Of(<<XInt(0, ""), sub>>))
       [] c \in 20..21 -> XTern(Of(<<sub, XBool(TRUE)>>), sub, Of(<<sub, anyv, XInt(2, "")>>))
       [] c = 22 -> XBin("?:", anyv, Of(<<sub, XInt(1, "")>>))
       [] c = 23 -> Lit(s)
       [] OTHER -> XBin(Of(<<"==", "+", "<">>), XInt(1, ""), sub)
\* an expression for a scalar of type s
GenSc(g, sc, s, d) == IF g.wild > 0 /\ Chance(g.wild) THEN WildE(g, sc, d) ELSE
  LET vs == SelectSeq(sc, LAMBDA v : v.ty.k = "sc" /\ v.ty.s = s /\ v.ty.e = "be" /\ ~v.opt)
      nv == SelectSeq(sc, LAMBDA v : v.ty.k = "sc" /\ v.ty.e = "be" /\ ImplS(v.ty.s, s) /\ ~v.opt)
      as == SelectSeq(sc, LAMBDA v : v.ty.k = "sc" /\ ~v.opt)
      es == SelectSeq(sc, LAMBDA v : v.ty.k \in {"enum", "bits"} /\ ~v.opt)
      ar == SelectSeq(sc, LAMBDA v : v.ty.k = "arr" /\ ~v.opt /\ v.ty.el.k = "sc" /\ v.ty.el.s = s /\ v.ty.el.e = "be")
      an == SelectSeq(sc, LAMBDA v : v.ty.k = "arr" /\ ~v.opt /\ v.ty.el.k = "sc")
      ln == SelectSeq(sc, LAMBDA v : v.ty.k \in {"arr", "vec"} /\ ~v.opt)
      ov == SelectSeq(sc, LAMBDA v : v.ty.k = "sc" /\ v.opt /\ v.ty.s = s /\ v.calc = "none")
      ks == SelectSeq(g.consts, LAMBDA k : k.s = s)
      ss == SelectSeq([i \in 1..Len(g.enums) |-> [n |-> g.enums[i].n, s |-> g.enums[i].s, its |-> g.enums[i].vars]]
                      \o [i \in 1..Len(g.bits) |-> [n |-> g.bits[i].n, s |-> g.bits[i].s, its |-> g.bits[i].flags]], LAMBDA t : ImplS(t.s, s))
      c  == IF d <= 0 THEN Of(<<"lit", "var", "var", "const", "nar", "elvis">>)
            ELSE Of(<<"lit", "var", "var", "nar", "const", "castv", "cast", "caste", "arith", "arith", "bit", "bit",
                      "shift", "divm", "tern", "un", "idx", "len", "call", "elvis", "elvis">>)
      dflt == IF vs # <<>> /\ Chance(70) THEN XId(Of(vs).n) ELSE Lit(s)
  IN CASE c = "lit" -> Lit(s)
       [] c = "nar" -> IF nv = <<>> THEN dflt ELSE XId(Of(nv).n)
       [] c = "const" -> IF ks = <<>> THEN dflt ELSE XId(Of(ks).n)
       [] c = "elvis" -> IF ov = <<>> THEN dflt ELSE XBin("?:", XId(Of(ov).n), GenSc(g, sc, s, d - 1))
       [] c = "castv" -> IF as = <<>> THEN dflt ELSE XCast(XId(Of(as).n), YSc(s, "be"))
       [] c = "caste" -> IF es # <<>> /\ Chance(85) THEN XCast(XId(Of(es).n), YSc(s, "be"))
                         ELSE IF ss # <<>> THEN LET t == Of(ss) IN XCast(XEv(t.n, Of(t.its)), YSc(s, "be"))
                         ELSE dflt
       [] c = "cast" -> XCast(GenSc(g, sc, Of(AllSc), d - 1), YSc(s, "be"))
       [] c = "arith" -> XBin(Of(<<"+", "+", "-", "*">>), GenSc(g, sc, s, d - 1), GenSc(g, sc, s, d - 1))
       [] c = "bit" -> XBin(Of(<<"&", "|", "^">>), GenSc(g, sc, s, d - 1), GenSc(g, sc, s, d - 1))
       [] c = "shift" -> XBin(Of(<<"<<", ">>", ">>>">>), GenSc(g, sc, s, d - 1), XInt(Rnd(0, 8 * W(s) - 1), s))
       [] c = "divm" -> XBin(Of(<<"/", "%">>), GenSc(g, sc, s, d - 1), XInt(Rnd(1, 9), s))
       [] c = "tern" -> XTern(GenBool(g, sc, d - 1), GenSc(g, sc, s, d - 1), GenSc(g, sc, s, d - 1))
       [] c = "un" -> IF Sg(s) /\ Chance(60) THEN XUn("-", GenSc(g, sc, s, d - 1)) ELSE XUn("~", GenSc(g, sc, s, d - 1))
       [] c = "idx" -> IF ar = <<>> THEN dflt ELSE XIdx(XId(Of(ar).n), IF Chance(70) THEN XInt(0, "") ELSE GenSc(g, sc, "u64", d - 1))
       [] c = "len" -> LET e == IF ln # <<>> /\ Chance(80) THEN XCall("len", <<XId(Of(ln).n)>>)
                                ELSE IF as # <<>> THEN XCall("len", <<XId(Of(as).n)>>) ELSE XCall("len", <<Lit("u16")>>)
                       IN IF s = "u64" THEN e ELSE XCast(e, YSc(s, "be"))
       [] c = "call" ->
            LET e == CASE s = "u8" \/ Chance(20) -> XCall("bits", <<GenSc(g, sc, "u64", d - 1)>>)
                       [] an # <<>> /\ Chance(50) -> XCall("sum", <<XId(Of(an).n)>>)
                       [] Chance(40) -> XCall("pad", <<XInt(Rnd(0, 9), ""), GenSc(g, sc, "u64", d - 1)>>)
                       [] OTHER -> XCall("fmix", <<GenSc(g, sc, "u64", d - 1), GenSc(g, sc, "u64", d - 1)>> \o
                                                 (IF Chance(50) THEN <<GenSc(g, sc, "u64", d - 1)>> ELSE <<>>))
            IN IF s = "u8" \/ s = "u64" THEN e ELSE XCast(e, YSc(s, "be"))
       [] OTHER -> dflt

GenBool(g, sc, d) == IF g.wild > 0 /\ Chance(g.wild) THEN WildE(g, sc, d) ELSE
  LET bv == SelectSeq(sc, LAMBDA v : v.ty.k = "bool" /\ ~v.opt)
      ob == SelectSeq(sc, LAMBDA v : v.ty.k = "bool" /\ v.opt /\ v.calc = "none")
      ev == SelectSeq(sc, LAMBDA v : v.ty.k = "enum" /\ ~v.opt)
      fv == SelectSeq(sc, LAMBDA v : v.ty.k = "bits" /\ ~v.opt)
      sv == SelectSeq(sc, LAMBDA v : v.ty.k = "sc" /\ ~v.opt)
      stat == IF g.kb # <<>> /\ Chance(50) THEN XId(Of(g.kb))
              ELSE IF g.enums # <<>> /\ Chance(50) THEN LET t == Of(g.enums) IN XBin(Of(<<"==", "!=">>), XEv(t.n, Of(t.vars)), XEv(t.n, Of(t.vars)))
              ELSE IF g.bits # <<>> THEN LET t == Of(g.bits) IN IF Chance(70) THEN XMem(XEv(t.n, Of(t.flags)), Of(t.flags)) ELSE XBin(Of(<<"==", "!=">>), XEv(t.n, Of(t.flags)), XEv(t.n, Of(t.flags)))
              ELSE XBool(Chance(50))
      c  == IF d <= 0 THEN Of(<<"lit", "var", "var", "cmpv", "cmpv", "mem", "ev">>)
            ELSE Of(<<"var", "cmpv", "cmpv", "cmp", "cmp", "eq", "logic", "logic", "not", "mem", "mem", "ev", "ev", "even", "tern", "bit", "elvis", "fcmp">>)
      cmpv == IF sv = <<>> THEN stat
              ELSE LET v == Of(sv) IN XBin(Of(<<"<", ">", "<=", ">=", "==", "!=">>), XId(v.n), Lit(v.ty.s))
  IN CASE c = "lit" -> XBool(Chance(70))
       [] c = "var" -> IF bv = <<>> THEN cmpv ELSE XId(Of(bv).n)
       [] c = "cmp" -> LET s == Of(AllSc) IN XBin(Of(<<"<", ">", "<=", ">=">>), GenSc(g, sc, s, d - 1), GenSc(g, sc, s, d - 1))
       [] c = "eq" -> LET s == Of(AllSc) IN XBin(Of(<<"==", "!=">>), GenSc(g, sc, s, d - 1), GenSc(g, sc, s, d - 1))
       [] c = "logic" -> XBin(Of(<<"&&", "||">>), GenBool(g, sc, d - 1), GenBool(g, sc, d - 1))
       [] c = "bit" -> XBin(Of(<<"&", "|", "^", "==", "!=", "<", ">=">>), GenBool(g, sc, d - 1), GenBool(g, sc, d - 1))
       [] c = "not" -> XUn("!", GenBool(g, sc, d - 1))
       [] c = "mem" -> IF fv = <<>> THEN (IF bv = <<>> THEN cmpv ELSE XId(Of(bv).n))
                       ELSE LET v == Of(fv) IN XMem(XId(v.n), Of(v.ty.flags))
       [] c = "ev" -> IF ev = <<>> THEN cmpv ELSE LET v == Of(ev) IN XBin(Of(<<"==", "!=">>), XId(v.n), XEv(v.ty.n, Of(v.ty.vars)))
       [] c = "fcmp" -> IF fv = <<>> THEN cmpv ELSE LET v == Of(fv) IN XBin(Of(<<"==", "!=">>), XId(v.n), XEv(v.ty.n, Of(v.ty.flags)))
       [] c = "even" -> XCall("is_even", <<GenSc(g, sc, "u64", d - 1)>>)
       [] c = "tern" -> XTern(GenBool(g, sc, d - 1), GenBool(g, sc, d - 1), GenBool(g, sc, d - 1))
       [] c = "elvis" -> IF ob = <<>> THEN cmpv ELSE XBin("?:", XId(Of(ob).n), GenBool(g, sc, d - 1))
       [] OTHER -> cmpv

\* calculated fields may not lean on other calculated fields
NoCalc(sc) == SelectSeq(sc, LAMBDA v : v.calc = "none")
\* code may not lean on fields calculated from blen
Code(sc) == SelectSeq(sc, LAMBDA v : v.calc # "blen")

\* a small length
GenLen(g, sc0) ==
  LET sc == Code(sc0)
      uv == SelectSeq(sc, LAMBDA v : v.ty.k = "sc" /\ v.ty.e = "be" /\ ~Sg(v.ty.s) /\ W(v.ty.s) <= 8 /\ ~v.opt)
      av == SelectSeq(sc, LAMBDA v : v.ty.k = "sc" /\ ~v.opt)
      ks == SelectSeq(g.consts, LAMBDA k : ~Sg(k.s) /\ W(k.s) <= 8 /\ k.small)
      c  == Rnd(1, 12) IN
  CASE c <= 2 \/ (uv = <<>> /\ c < 9) -> XInt(Rnd(0, 3), IF Chance(20) THEN "u8" ELSE "")
    [] c <= 7 -> XId(Of(uv).n)
    [] c = 8 -> XBin("&", XId(Of(uv).n), XInt(3, ""))
    [] c = 9 -> IF ks = <<>> THEN XInt(2, "u64") ELSE XId(Of(ks).n)
    [] c = 10 -> IF av = <<>> THEN XInt(1, "") ELSE XBin("%", XCast(XId(Of(av).n), YSc("u64", "be")), XInt(4, "u64"))
    [] c = 11 -> IF uv = <<>> THEN XInt(1, "") ELSE XBin("+", XCast(XId(Of(uv).n), YSc("u64", "be")), XInt(1, "u64"))
    [] OTHER -> XBin("&", GenSc(g, sc, "u64", 1), XInt(3, "u64"))

\* ---------------------------------------------------------------- types
Mk(y, v, simple) == [y |-> y, v |-> v, simple |-> simple]
EVt(e) == [k |-> "enum", n |-> e.n, s |-> e.s, vars |-> e.vars]
BVt(b) == [k |-> "bits", n |-> b.n, s |-> b.s, flags |-> b.flags]
RandSc(d) == LET s == Of(AllSc) IN VSc(s, IF W(s) > 1 /\ Chance(30) THEN "le" ELSE "be")
Leaf(g, d) ==
  LET c == Of(CASE Focus = "enum" -> <<"enum", "enum", "enum", "bits", "bits", "bits", "sc">>
                [] Focus = "var"  -> <<"var", "var", "var", "odd", "sc">>
                [] OTHER -> <<"sc", "sc", "sc", "sc", "sc", "sc", "bool", "f", "enum", "bits", "var", "odd">>) IN
  CASE c = "bool" -> Mk(YBool, [k |-> "bool"], TRUE)
    [] c = "f" -> Mk(YF(Of(<<4, 8>>)), VOther, TRUE)
    [] c = "enum" /\ g.enums # <<>> -> LET e == Of(g.enums) IN Mk(YRef(e.n, <<>>), EVt(e), FALSE)
    [] c = "bits" /\ g.bits # <<>> -> LET b == Of(g.bits) IN Mk(YRef(b.n, <<>>), BVt(b), FALSE)
    [] c = "var" -> LET n == Of(<<"v8", "v16", "v32", "v64", "v128">>) IN Mk(YRef(n, <<>>), VSc(VarScalar(n), "be"), TRUE)
    [] c = "odd" -> Mk(YRef("odd8", <<>>), VSc("u8", "be"), TRUE)
    [] OTHER -> LET s == RandSc(d) IN Mk(YSc(s.s, s.e), s, TRUE)

\* arguments for a parametrised type
RECURSIVE GenArgs(_, _, _, _)
GenArgs(g, sc, as, i) ==
  IF i > Len(as) THEN <<>>
  ELSE IF as[i].o /\ Chance(40) THEN <<>>
  ELSE <<CASE as[i].v.k = "bool" -> GenBool(g, sc, 1)
           [] as[i].v.k = "enum" ->
                LET ev == SelectSeq(sc, LAMBDA x : x.ty.k = "enum" /\ x.ty.n = as[i].v.n /\ ~x.opt) IN
                IF ev # <<>> /\ Chance(80) THEN XId(Of(ev).n) ELSE XEv(as[i].v.n, Of(as[i].v.vars))
           [] OTHER ->
                LET vs == SelectSeq(sc, LAMBDA x : x.ty.k = "sc" /\ x.ty.e = "be" /\ ImplS(x.ty.s, as[i].v.s) /\ ~x.opt) IN
                IF vs # <<>> /\ Chance(60) THEN XId(Of(vs).n)
                ELSE IF Chance(60) THEN XInt(Rnd(0, 3), IF Chance(50) THEN as[i].v.s ELSE "")
                ELSE GenSc(g, sc, as[i].v.s, 1)>> \o GenArgs(g, sc, as, i + 1)

RECURSIVE GenTy(_, _, _, _)
GenTy(g, sc, d, open) ==
  LET ts == SelectSeq(g.structs, LAMBDA t : open \/ ~t.open)
      c == Of(CASE Focus = "arr"  -> <<"leaf", "fix", "fix", "fix", "term", "term", "ext", "ext", "ref">>
                [] Focus = "str"  -> <<"utf8", "utf8n", "utf16", "utf8", "blob", "leaf", "fix">>
                [] Focus = "var"  -> <<"leaf", "leaf", "fix", "utf8", "utf16", "term">>
                [] Focus = "args" -> <<"ref", "ref", "ref", "leaf", "fix", "blob">>
                [] Focus = "tag"  -> <<"ref", "ref", "leaf", "leaf", "fix">>
                [] Focus \in {"enum", "expr"} -> <<"leaf", "leaf", "leaf", "leaf", "fix", "ref">>
                [] OTHER -> <<"leaf", "leaf", "leaf", "leaf", "fix", "fix", "term", "ext", "ref", "ref", "utf8", "utf8n", "utf16", "blob">>)
      el == IF d > 0 /\ Chance(45) THEN GenTy(g, sc, d - 1, FALSE) ELSE Leaf(g, 0)
  IN CASE c = "fix" -> Mk(YArr(el.y, GenLen(g, sc)), VArr(el.v), el.simple)
       [] c = "ext" /\ open -> Mk(YExt(el.y), VArr(el.v), el.simple)
       [] c = "term" -> Mk(YTerm(el.y, Of(<<<<0>>, <<0>>, <<255>>, <<13, 10>>, <<0, 0>>, <<65>>, <<7, 8, 9>>>>)), VArr(el.v), FALSE)
       [] c = "utf8" -> Mk(YRef("utf8", <<GenLen(g, sc)>>), VVec, TRUE)
       [] c = "utf8n" -> Mk(YRef("utf8", <<>>), VVec, FALSE)
       [] c = "utf16" -> Mk(YRef("utf16", <<GenLen(g, sc)>>), VVec, TRUE)
       [] c = "blob" -> Mk(YRef("blob", <<GenLen(g, sc)>> \o (IF Chance(40) THEN <<GenSc(g, Code(sc), "u64", 1)>> ELSE <<>>)), VVec, TRUE)
       [] c = "ref" /\ ts # <<>> -> LET t == Of(ts) IN Mk(YRef(t.n, GenArgs(g, Code(sc), t.args, 1)), VOther, FALSE)
       [] OTHER -> Leaf(g, 0)

GenXf(g, sc, simple) ==
  LET n == Of(<<"xadd", "xadd", "xxor", "xxor", "frame", "frame">>)
      args == CASE n = "xadd" -> IF Chance(50) THEN <<>> ELSE <<GenSc(g, sc, "u8", 1)>>
                [] n = "xxor" -> <<GenSc(g, sc, "u8", 1)>>
                [] OTHER -> <<GenSc(g, sc, "u8", 0)>> \o (IF Chance(40) THEN <<GenSc(g, sc, "u8", 1)>> ELSE <<>>)
  IN [name |-> n, args |-> args, cond |-> IF simple /\ Chance(40) THEN <<GenBool(g, sc, 1)>> ELSE <<>>]
PXf == CASE Focus = "xf" -> 75 [] Focus = "all" -> 12 [] OTHER -> 5
GenXfs(g, sc, simple) ==
  IF ~Chance(PXf) THEN <<>>
  ELSE LET n == Of(<<1, 1, 1, 2, 2, 3>>) IN
       <<GenXf(g, sc, simple)>> \o (IF n > 1 THEN <<GenXf(g, sc, simple)>> ELSE <<>>) \o (IF n > 2 THEN <<GenXf(g, sc, simple)>> ELSE <<>>)
PCond == CASE Focus = "cond" -> 65 [] Focus \in {"all", "expr"} -> 20 [] OTHER -> 10

\* items of a container: [its, sc]
RECURSIVE GenItems(_, _, _, _, _, _, _, _)
GenItems(g, sc, pre, i, n, d, open, inC) ==
  IF i > n THEN <<>>
  ELSE
  LET last == i >= n
      nm == pre \o Dig(i)
      c == IF i = 1 /\ ~last /\ Chance(40) THEN Of(<<"len", "len", "leaf">>) ELSE
           Of(CASE Focus = "clen" -> <<"f", "f", "len", "clen", "clen", "clen", "blen", "cont">>
                [] Focus = "calc" -> <<"f", "len", "clenf", "clenf", "cexpr", "cexpr", "blen", "blen", "csum", "blen2", "cont">>
                [] Focus = "cond" -> <<"f", "f", "f", "f", "len", "cont", "cont">>
                [] Focus = "expr" -> <<"f", "f", "len", "cexpr", "cexpr", "cexpr">>
                [] Focus \in {"arr", "str", "var", "enum", "args", "tag"} -> <<"f", "f", "f", "len", "len", "cont">>
                [] OTHER -> <<"f", "f", "f", "f", "f", "f", "len", "len", "len", "cont", "clen", "clenf", "cexpr", "blen", "csum", "pad">>)
      next(its, vars) == its \o GenItems(g, sc \o vars, pre, i + Len(its), n, d, open, inC)
      cx == Code(sc)
      nc == NoCalc(sc)
      one(it, v) == next(<<it>>, <<v>>)
      cont(name, len, s2, op, cond) ==
        SItem(name, [SField(YCont(len, FALSE, GenItems(g, s2, name \o "x", 1, Rnd(1, 3), d - 1, op, inC \/ cond # <<>>)))
                     EXCEPT !.cond = cond, !.xf = GenXfs(g, cx, FALSE)])
      plain ==
        LET t == GenTy(g, sc, d, open /\ last)
            cond == IF Chance(PCond) THEN <<GenBool(g, cx, 2)>> ELSE <<>>
        IN one(SItem(nm, [SField(t.y) EXCEPT !.cond = cond, !.xf = GenXfs(g, cx, t.simple)]),
               Var(nm, t.v, cond # <<>>, "none"))
  IN CASE c = "len" -> LET s == Of(<<"u8", "u8", "u8", "u16", "u32", "u64">>) IN
                       one(SItem(nm, SField(YSc(s, "be"))), Var(nm, VSc(s, "be"), FALSE, "none"))
       [] c = "leaf" -> LET t == Leaf(g, 0) IN one(SItem(nm, SField(t.y)), Var(nm, t.v, FALSE, "none"))
       [] c = "pad" -> next(<<SPad(GenLen(g, sc))>>, <<>>)
       [] c = "cont" /\ d > 0 ->
            one(cont(nm, <<>>, sc, open /\ last, IF Chance(PCond) THEN <<GenBool(g, cx, 2)>> ELSE <<>>),
                Var(nm, VOther, FALSE, "none"))
       [] c = "clen" /\ d > 0 ->
            one(cont(nm, <<IF Chance(50) THEN XInt(Rnd(1, 6), "") ELSE GenLen(g, sc)>>, sc, TRUE,
                     IF Chance(PCond) THEN <<GenBool(g, cx, 1)>> ELSE <<>>), Var(nm, VOther, FALSE, "none"))
       [] c = "cexpr" ->
            LET s == Of(AllSc)  b == Chance(20)
                e == IF b THEN GenBool(g, nc, 2) ELSE GenSc(g, nc, s, IF Focus = "expr" THEN 3 ELSE 2)
            IN one(SItem(nm, [SField(IF b THEN YBool ELSE YSc(s, "be")) EXCEPT !.calc = <<e>>]),
                   Var(nm, IF b THEN [k |-> "bool"] ELSE VSc(s, "be"), FALSE, "plain"))
       [] c = "clenf" ->
            LET s == Of(<<"u8", "u16", "u32", "u64">>)
                nm2 == pre \o Dig(i + 1)
                el == Leaf(g, 0)
                y == Of(<<1, 1, 1, 2, 3>>)
                e == XCall("len", <<XId(nm2)>>)
                ty == CASE y = 1 -> YArr(el.y, XId(nm)) [] y = 2 -> YRef("utf8", <<XId(nm)>>) [] OTHER -> YRef("blob", <<XId(nm)>>)
            IN next(<<SItem(nm, [SField(YSc(s, Of(<<"be", "be", IF s = "u8" THEN "be" ELSE "le">>))) EXCEPT !.calc = <<IF s = "u64" THEN e ELSE XCast(e, YSc(s, "be"))>>]),
                      SItem(nm2, SField(ty))>>,
                    <<Var(nm, VSc(s, "be"), FALSE, "plain"), Var(nm2, IF y = 1 THEN VArr(el.v) ELSE VVec, FALSE, "none")>>)
       [] c = "csum" ->
            LET nm2 == pre \o Dig(i + 1)  s == RandSc(0)
                e == XCall("sum", <<XId(nm2)>>)
            IN next(<<SItem(nm, [SField(YSc("u32", "be")) EXCEPT !.calc = <<XCast(e, YSc("u32", "be"))>>]),
                      SItem(nm2, SField(YArr(YSc(s.s, s.e), GenLen(g, sc))))>>,
                    <<Var(nm, VSc("u32", "be"), FALSE, "plain"), Var(nm2, VArr(s), FALSE, "none")>>)
       [] c = "blen" /\ d > 0 ->
            LET s == Of(<<"u8", "u16", "u32", "u64">>)
                nm2 == pre \o Dig(i + 1)
                e0 == XCall("blen", <<XId(nm2)>>)
                off == Chance(30)
                e == IF off THEN XBin("+", e0, XInt(2, "u64")) ELSE e0
                v == Var(nm, VSc(s, "be"), FALSE, "blen")
                l0 == IF s = "u64" THEN XId(nm) ELSE XCast(XId(nm), YSc("u64", "be"))
            IN next(<<SItem(nm, [SField(YSc(s, IF s # "u8" /\ Chance(30) THEN "le" ELSE "be")) EXCEPT !.calc = <<IF s = "u64" THEN e ELSE XCast(e, YSc(s, "be"))>>]),
                      cont(nm2, <<IF off THEN XBin("-", l0, XInt(2, "u64")) ELSE l0>>, Append(sc, v), TRUE, <<>>)>>,
                    <<v, Var(nm2, VOther, FALSE, "none")>>)
       [] c = "blen2" /\ d > 0 ->
            LET n2 == pre \o Dig(i + 1)  n3 == pre \o Dig(i + 2)
                v == Var(nm, VSc("u16", "be"), FALSE, "blen")
                s2 == Append(sc, v)
            IN next(<<SItem(nm, [SField(YSc("u16", "be")) EXCEPT !.calc = <<XCast(XBin("+", XCall("blen", <<XId(n2)>>), XBin("*", XCall("blen", <<XId(n3)>>), XInt(16, "u64"))), YSc("u16", "be"))>>]),
                      cont(n2, <<XBin("%", XCast(XId(nm), YSc("u64", "be")), XInt(16, "u64"))>>, s2, TRUE, <<>>),
                      cont(n3, <<XBin("/", XCast(XId(nm), YSc("u64", "be")), XInt(16, "u64"))>>, s2, TRUE, <<>>)>>,
                    <<v, Var(n2, VOther, FALSE, "none"), Var(n3, VOther, FALSE, "none")>>)
       [] OTHER -> plain

\* ---------------------------------------------------------------- declarations
\* no subexpression of a constant traps (all of it is worked out when the program is compiled)
RECURSIVE Deep(_, _)
Deep(P, e) ==
  /\ Eval(P, Env(EmptyMap), e).k # "trap"
  /\ CASE e.k = "bin" -> Deep(P, e.l) /\ Deep(P, e.r)
       [] e.k \in {"cast", "un"} -> Deep(P, e.x)
       [] e.k = "mem" -> Deep(P, e.x) /\ Deep(P, e.m)
       [] e.k = "tern" -> Deep(P, e.c) /\ Deep(P, e.t) /\ Deep(P, e.f)
       [] e.k \in {"const", "ev"} -> Deep(P, e.e)
       [] OTHER -> TRUE
\* worked out by the compiler itself: no calls, no elements, no defaults
RECURSIVE NoCall(_)
NoCall(e) ==
  CASE e.k = "bin" -> e.op # "?:" /\ NoCall(e.l) /\ NoCall(e.r)
    [] e.k \in {"cast", "un"} -> NoCall(e.x)
    [] e.k = "mem" -> NoCall(e.x) /\ NoCall(e.m)
    [] e.k = "tern" -> NoCall(e.c) /\ NoCall(e.t) /\ NoCall(e.f)
    [] e.k \in {"const", "ev"} -> NoCall(e.e)
    [] e.k \in {"call", "idx", "elvis"} -> FALSE
    [] OTHER -> TRUE
FineItems(P, t) ==
  /\ \A i \in 1..Len(t.items) : ~t.items[i].dflt => NoCall(t.items[i].e) /\ Deep(P, t.items[i].e)
  /\ t.k = "enum" => LET is == Items(P, t) IN \A i, j \in 1..Len(is) : i < j /\ ~is[i].dflt /\ ~is[j].dflt => is[i].b # is[j].b
\* constants, enums and bitfields declared so far, typed
PC0 == [P0 EXCEPT !.funcs = FFuncs \cup {"len", "blen"}]
AddD(g, d) == LET r == TLCEval(Phase1(g.P, <<d>>, 1)) IN [g EXCEPT !.ds = Append(@, d), !.P = IF r.st = "ok" THEN r.P ELSE @]
RECURSIVE HasCall(_)
HasCall(e) ==
  CASE e.k = "call" -> TRUE
    [] e.k = "bin" -> HasCall(e.l) \/ HasCall(e.r)
    [] e.k \in {"un", "cast", "mem"} -> HasCall(e.x)
    [] e.k = "tern" -> HasCall(e.c) \/ HasCall(e.t) \/ HasCall(e.f)
    [] e.k = "idx" -> HasCall(e.x) \/ HasCall(e.i)
    [] OTHER -> FALSE
RichP == CASE Focus \in {"api", "expr"} -> 75 [] Focus = "enum" -> 45 [] OTHER -> 25
\* a constant expression of type s ("bool" or a scalar) and its worth: [e, v]
RichE(g, s, d) ==
  LET e == TLCEval(IF s = "bool" THEN GenBool(g, <<>>, d) ELSE GenSc(g, <<>>, s, d))
      c == IF HasCall(e) THEN Bad ELSE Conv(Ctx(g.P), e, IF s = "bool" THEN PType(TBool) ELSE PSome(s))
      ok == c.st = "ok" /\ Deep(g.P, c.e)
  IN [e |-> e, ok |-> ok, v |-> IF ok THEN Eval(g.P, Env(EmptyMap), c.e) ELSE TrapV]
\* distinct item values: small strictly increasing steps, sometimes implicit
RECURSIVE EnumIts(_, _, _, _, _)
EnumIts(g, s, i, n, at) ==
  IF i > n THEN <<>>
  ELSE LET step == Of(<<1, 1, 2, 5>>)
           v == at + step
           imp == i > 1 /\ Chance(40)
           ks == SelectSeq(g.consts, LAMBDA k : k.s = s /\ k.v > at /\ k.v < 100)
           useK == ks # <<>> /\ Chance(25)
           K == IF useK THEN Of(ks) ELSE <<>>
           now == IF imp THEN at + 1 ELSE IF useK THEN K.v ELSE v
           e == IF useK THEN XId(K.n) ELSE IF Chance(20) /\ v > 2 THEN XBin("+", XInt(v - 2, ""), XInt(2, "")) ELSE XInt(v, IF Chance(20) THEN s ELSE "")
       IN <<[name |-> "V" \o <<"a", "b", "c", "d", "e", "f">>[i], val |-> IF imp THEN <<>> ELSE <<e>>, dflt |-> FALSE]>>
          \o EnumIts(g, s, i + 1, n, now)
\* items worth arbitrary constant expressions
RECURSIVE RichIts(_, _, _, _, _)
RichIts(g, s, pre, i, n) ==
  IF i > n THEN <<>>
  ELSE LET imp == i > 1 /\ Chance(30)
           r == TLCEval(RichE(g, s, 2)) IN
       <<[name |-> pre \o <<"a", "b", "c", "d", "e", "f">>[i], val |-> IF imp THEN <<>> ELSE <<IF r.ok \/ g.wild > 0 THEN r.e ELSE Lit(s)>>, dflt |-> FALSE]>>
       \o RichIts(g, s, pre, i + 1, n)
FineD(g, d) == LET r == TLCEval(Phase1(g.P, <<d>>, 1)) IN r.st = "ok" /\ FineItems(r.P, r.P.types[r.P.tn[d.name]].f.ty)
GEnum(g, i) ==
  LET s == Of(<<"u8", "u8", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "u128">>)
      n == Rnd(1, 4)
      dz == IF Chance(30) THEN <<[name |-> "Dz", val |-> <<>>, dflt |-> TRUE]>> ELSE <<>>
      its0 == EnumIts(g, s, 1, n, Of(<<-1, -1, 0, 3, 90>>)) \o dz
      nm == "E" \o Dig(i)
      e == IF W(s) > 1 /\ Chance(30) THEN "le" ELSE "be"
      D(its, sc) == DType(nm, <<>>, SField([k |-> "enum", s |-> sc, e |-> IF W(sc) = 1 THEN "be" ELSE e, items |-> its]))
      s2 == Of(AllSc)
      rich == TLCEval(IF Chance(RichP) THEN D(RichIts(g, s2, "V", 1, n) \o dz, s2) ELSE D(its0, s))
      ok == g.wild > 0 \/ FineD(g, rich)
  IN [d |-> IF ok THEN rich ELSE TLCEval(D(its0, s)),
      r |-> [n |-> nm, s |-> IF ok THEN rich.f.ty.s ELSE s, vars |-> [j \in 1..n |-> its0[j].name]]]
RECURSIVE BitIts(_, _, _, _)
BitIts(s, i, n, p) ==
  IF i > n THEN <<>>
  ELSE LET imp == i > 1 /\ Chance(50)
           now == IF imp THEN p + 1 ELSE p + Of(<<1, 1, 2>>)
           v == IF Chance(25) THEN XBin("<<", XInt(1, ""), XInt(now, "")) ELSE XInt(Pow(now), "")
           \* a flag may also be a combination of bits
           v2 == IF ~imp /\ i > 1 /\ Chance(15) THEN XBin("|", XInt(Pow(now), ""), XInt(1, "")) ELSE v
       IN <<[name |-> "f" \o <<"a", "b", "Cd", "d", "Ee">>[i], val |-> IF imp THEN <<>> ELSE <<v2>>, dflt |-> FALSE]>> \o BitIts(s, i + 1, n, now)
GBits(g, i) ==
  LET s == Of(<<"u8", "u8", "u16", "u32", "u64">>)
      n == Rnd(1, 3)
      its0 == BitIts(s, 1, n, -1)
      nm == "B" \o Dig(i)
      e == IF W(s) > 1 /\ Chance(30) THEN "le" ELSE "be"
      D(its, sc) == DType(nm, <<>>, SField([k |-> "bits", s |-> sc, e |-> IF W(sc) = 1 THEN "be" ELSE e, items |-> its]))
      s2 == Of(AllSc)
      rich == TLCEval(IF Chance(RichP) THEN D(RichIts(g, s2, "f", 1, n), s2) ELSE D(its0, s))
      ok == g.wild > 0 \/ FineD(g, rich)
  IN [d |-> IF ok THEN rich ELSE TLCEval(D(its0, s)),
      r |-> [n |-> nm, s |-> IF ok THEN rich.f.ty.s ELSE s, flags |-> [j \in 1..n |-> its0[j].name]]]
GConst(g, i) ==
  LET s == Of(<<"u8", "u8", "u16", "u64", "i32", "u32">>)
      v == Rnd(0, 12)
      nm == "K" \o Dig(i)
      ks == SelectSeq(g.consts, LAMBDA k : k.s = s /\ k.v <= 100)
      K == IF ks # <<>> /\ Chance(40) THEN Of(ks) ELSE <<>>
      e == IF K # <<>> THEN XBin("+", XId(K.n), XInt(v, "")) ELSE IF Chance(30) THEN XBin("*", XInt(v, ""), XInt(1, "")) ELSE XInt(v, IF Chance(30) THEN s ELSE "")
      val == IF K # <<>> THEN K.v + v ELSE v
      s2 == IF Chance(20) THEN "bool" ELSE Of(AllSc)
      r2 == TLCEval(RichE(g, s2, 2))
  IN IF ~(Chance(RichP) /\ (r2.ok \/ g.wild > 0)) THEN [d |-> DConst(nm, YSc(s, "be"), e), r |-> [n |-> nm, s |-> s, v |-> val, small |-> val <= 4]]
     ELSE IF s2 = "bool" THEN [d |-> DConst(nm, YBool, r2.e), r |-> [n |-> nm, s |-> "bool", v |-> 101, small |-> FALSE]]
     ELSE [d |-> DConst(nm, YSc(s2, "be"), r2.e), r |-> [n |-> nm, s |-> s2, v |-> 101, small |-> r2.ok /\ NatOr(r2.v.b) <= 4]]

GArg(g, i, opt) ==
  LET c == Of(<<"u8", "u8", "u16", "u64", "bool", "enum", "i32">>)
      nm == "p" \o Dig(i)
      e == IF g.enums = <<>> THEN <<>> ELSE Of(g.enums)
      k == IF c = "enum" /\ e = <<>> THEN "u8" ELSE c
      v == CASE k = "bool" -> [k |-> "bool"] [] k = "enum" -> EVt(e) [] OTHER -> VSc(k, "be")
      y == CASE k = "bool" -> YBool [] k = "enum" -> YRef(e.n, <<>>) [] OTHER -> YSc(k, "be")
      df == CASE k = "bool" -> XBool(Chance(50)) [] k = "enum" -> XEv(e.n, Of(e.vars)) [] OTHER -> XInt(Rnd(0, 3), "")
  IN [a |-> SArg(nm, y, IF opt THEN <<df>> ELSE <<>>), r |-> [n |-> nm, v |-> v, o |-> opt]]
RECURSIVE GenArgDecls(_, _, _, _)
GenArgDecls(g, i, n, opt) ==
  IF i > n THEN <<>>
  ELSE LET o == opt \/ Chance(30)  a == GArg(g, i, o) IN <<a>> \o GenArgDecls(g, i + 1, n, o)
ArgVars(as) == [i \in 1..Len(as) |-> Var(as[i].n, as[i].v, FALSE, "none")]

RECURSIVE TagItems(_, _, _, _)
TagItems(g, sc, i, n) ==
  IF i > n THEN <<>>
  ELSE LET nm == "V" \o <<"a", "b", "c", "d", "e">>[i]
           un == i = n /\ Chance(40)
           cond == IF un THEN <<>>
                   ELSE LET v == sc[1] IN
                        <<IF Chance(35) THEN GenBool(g, sc, 2)
                          ELSE CASE v.ty.k = "enum" -> XBin("==", XId(v.n), XEv(v.ty.n, Of(v.ty.vars)))
                                 [] v.ty.k = "bool" -> IF Chance(50) THEN XId(v.n) ELSE XUn("!", XId(v.n))
                                 [] OTHER -> XBin(Of(<<"==", "==", ">", "<=">>), XId(v.n), XInt(Rnd(0, 3), v.ty.s))>>
           c == Rnd(1, 10)
           t == GenTy(g, sc, 1, FALSE)
           f == IF c <= 4 THEN SField(YCont(<<>>, FALSE, GenItems(g, sc, "s" \o Dig(i) \o "x", 1, Rnd(1, 3), 1, FALSE, FALSE)))
                ELSE SField(t.y)
       IN <<SItem(nm, [f EXCEPT !.cond = cond, !.xf = GenXfs(g, sc, FALSE)])>> \o TagItems(g, sc, i + 1, n)

\* one named type: [d, r]
GStruct(g, i, open) ==
  LET nm == (IF open THEN "R" ELSE "T") \o Dig(i)
      c == IF open THEN "cont"
           ELSE Of(CASE Focus = "tag" -> <<"tag", "tag", "tag", "cont">>
                     [] Focus = "args" -> <<"argc", "argc", "argc", "tag", "alias">>
                     [] Focus = "xf" -> <<"cont", "argc", "alias", "clen">>
                     [] OTHER -> <<"cont", "cont", "argc", "argc", "tag", "alias", "clen", "calias">>)
      na == CASE c \in {"argc", "tag"} -> Rnd(1, 3) [] c = "calias" -> 1 [] OTHER -> 0
      as == GenArgDecls(g, 1, na, FALSE)
      ar == [j \in 1..Len(as) |-> as[j].r]
      ad == [j \in 1..Len(as) |-> as[j].a]
      sc == ArgVars(ar)
      nit == Rnd(1, IF open THEN (IF Focus = "calc" THEN 4 ELSE 6) ELSE 3)
      t == GenTy(g, sc, 1, FALSE)
      f == CASE c = "tag" -> SField(YCont(<<>>, TRUE, TagItems(g, sc, 1, Rnd(1, 4))))
             [] c = "alias" -> SField(t.y)
             [] c = "calias" -> [SField(t.y) EXCEPT !.cond = <<GenBool(g, sc, 1)>>]
             [] c = "clen" -> SField(YCont(<<XInt(Rnd(1, 6), "")>>, FALSE, GenItems(g, sc, "f", 1, nit, 1, TRUE, FALSE)))
             [] OTHER -> SField(YCont(<<>>, FALSE, GenItems(g, sc, "f", 1, nit, IF open THEN 2 ELSE 1, open, FALSE)))
      f2 == IF c = "tag" \/ Chance(50) THEN [f EXCEPT !.xf = GenXfs(g, sc, FALSE)] ELSE f
  IN [d |-> DType(nm, ad, f2), r |-> [n |-> nm, args |-> ar, open |-> open]]

\* structural accidents and rearrangements
Drop(p, i) == SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p))
InsAt(p, i, x) == SubSeq(p, 1, i - 1) \o <<x>> \o SubSeq(p, i, Len(p))
Ren(d, n) == IF d.k = "import" THEN d ELSE [d EXCEPT !.name = n]
Mutate(p) ==
  LET n == Len(p)
      i == Rnd(Len(Ffis) + 1, n)  j == Rnd(1, n)  k == Rnd(Len(Ffis) + 1, n)
      c == Rnd(1, 13)
      isC == p[i].k = "type" /\ p[i].f.ty.k = "cont"
      its == p[i].f.ty.items
      a == Rnd(1, Len(its))  b == Rnd(1, Len(its))
  IN CASE c = 1 -> Drop(p, j)
       [] c = 2 -> InsAt(p, j, p[i])
       [] c \in 3..5 -> [p EXCEPT ![i] = p[k], ![k] = p[i]]
       [] c = 6 -> InsAt(Drop(p, i), 1, p[i])
       [] c = 7 -> [p EXCEPT ![i] = Ren(p[i], p[k].name)]
       [] c = 8 -> [p EXCEPT ![i] = Ren(p[i], Of(<<"utf8", "v8", "len", "Nx", "xadd">>))]
       [] c = 9 /\ isC -> [p EXCEPT ![i].f.ty.items[a] = IF its[a].k = "f" /\ its[b].k = "f" THEN [its[a] EXCEPT !.name = its[b].name] ELSE its[a]]
       [] c = 10 /\ isC -> [p EXCEPT ![i].f.ty.items = InsAt(its, a, its[b])]
       [] c = 11 /\ isC -> [p EXCEPT ![i].f.ty.items = [its EXCEPT ![a] = its[b], ![b] = its[a]]]
       [] c = 12 /\ isC -> [p EXCEPT ![i].f.ty.tagged = ~@]
       [] c = 13 /\ p[i].k = "type" -> [p EXCEPT ![i].f.flags = <<"auto">>]
       [] OTHER -> p
G0 == [P |-> PC0, kb |-> <<>>, wild |-> 0, consts |-> <<>>, enums |-> <<>>, bits |-> <<>>, structs |-> <<>>, ds |-> <<>>]
RECURSIVE AddConsts(_, _, _)
AddConsts(g, i, n) == IF i > n THEN g ELSE LET c == GConst(g, i) IN AddConsts(AddD(IF c.r.s = "bool" THEN [g EXCEPT !.kb = Append(@, c.r.n)] ELSE [g EXCEPT !.consts = Append(@, c.r)], c.d), i + 1, n)
RECURSIVE AddEnums(_, _, _)
AddEnums(g, i, n) == IF i > n THEN g ELSE LET c == GEnum(g, i) IN AddEnums(AddD([g EXCEPT !.enums = Append(@, c.r)], c.d), i + 1, n)
RECURSIVE AddBits(_, _, _)
AddBits(g, i, n) == IF i > n THEN g ELSE LET c == GBits(g, i) IN AddBits(AddD([g EXCEPT !.bits = Append(@, c.r)], c.d), i + 1, n)
RECURSIVE AddStructs(_, _, _)
AddStructs(g, i, n) == IF i > n THEN g ELSE LET c == GStruct(g, i, FALSE) IN AddStructs([g EXCEPT !.structs = Append(@, c.r), !.ds = Append(@, c.d)], i + 1, n)

Values(d) == LET g1 == AddConsts([G0 EXCEPT !.wild = IF Chance(Wild) THEN Of(<<0, 3, 6>>) ELSE 0], 1, Rnd(0, 2 + d - d))
                 g2 == AddEnums(g1, 1, Rnd(IF Focus \in {"enum", "args", "tag"} THEN 1 ELSE 0, 2))
                 g3 == AddBits(g2, 1, Rnd(0, 1)) IN
             IF Chance(RichP) THEN LET g4 == AddConsts(g3, 3, Rnd(3, 4)) IN IF Chance(50) THEN AddBits(AddEnums(g4, 3, Rnd(2, 3)), 2, Rnd(1, 2)) ELSE g4 ELSE g3
Helpers(d) == AddStructs(Values(d), 1, Rnd(1, 3))
\* (d takes part in the result so that TLC does not hold the author to one program: it evaluates
\* constant-level expressions under TLCEval once)
Author(d) ==
  LET g == IF d < 0 THEN G0 ELSE Helpers(d)
      r == GStruct(g, 1, TRUE)
      p == Ffis \o g.ds \o <<r.d>>
  IN IF Chance((Wild + 1) \div 2) THEN Mutate(p) ELSE p

---------------------------------------------------------------------------
\* ---------------------------------------------------------------- values
MaxN == 5
BigV == [k |-> "trap"]
RandScalar(s) ==
  LET c == Rnd(1, 20)  w == W(s) IN
  CASE c <= 13 -> OfNat(Of(<<0, 1, 1, 2, 2, 3, 3, 4>>), w)
    [] c = 14 -> Fill(w, 255)
    [] c = 15 -> <<128>> \o Zeros(w - 1)
    [] c = 16 -> <<127>> \o Fill(w - 1, 255)
    [] c = 17 -> OfNat(Rnd(0, 255), w)
    [] c = 18 -> OfNat(Of(<<127, 128, 129, 255>>), w)
    [] OTHER -> RandB(w)
RECURSIVE RandText(_)
RandText(n) == IF n = 0 THEN <<>> ELSE <<Of(<<65, 97, 97, 48, 32, 10, 233, 1234, 8364, 128512, 66304, 65535, 1>>)>> \o RandText(n - 1)
\* text whose UTF-8 length is n / whose UTF-16 length is n
RECURSIVE Text8(_)
Text8(n) == IF n <= 0 THEN <<>>
  ELSE LET c == Of(<<65, 97, 126, 10, 233, 1234, 8364, 128512>>)
           l == CASE c < 128 -> 1 [] c < 2048 -> 2 [] c < 65536 -> 3 [] OTHER -> 4
       IN IF l > n THEN <<65>> \o Text8(n - 1) ELSE <<c>> \o Text8(n - l)
RECURSIVE Text16(_)
Text16(n) == IF n <= 0 THEN <<>>
  ELSE LET c == Of(<<65, 0, 233, 8364, 55295, 57344, 128512, 65536, 1114111>>)
           l == IF c < 65536 THEN 1 ELSE 2
       IN IF l > n THEN <<66>> \o Text16(n - 1) ELSE <<c>> \o Text16(n - l)

RECURSIVE GenV(_, _, _, _)
RECURSIVE GenItemsV(_, _, _, _, _)
RECURSIVE GenTopV(_, _, _, _)
RECURSIVE GenN(_, _, _, _, _)
GenN(P, t, n, env, dev) == IF n = 0 THEN <<>> ELSE <<GenV(P, t, env, dev)>> \o GenN(P, t, n - 1, env, dev)
Seqd(s) == IF \E i \in 1..Len(s) : s[i].k = "trap" THEN TrapV ELSE VA(s)

GenForeignV(n, as, dev) ==
  CASE n \in VarNames -> VI(RandScalar(VarScalar(n)))
    [] n = "odd8" -> LET b == Rnd(0, 255) IN VI(<<IF Chance(dev) THEN b ELSE IF b % 2 = 0 THEN b + 1 ELSE b>>)
    [] n = "utf8" -> IF DOMAIN as = {} THEN VS(Utf8Of(RandText(Rnd(0, 4))))
                     ELSE LET L == NatOr(as["length"].b) + (IF Chance(dev) THEN Rnd(0, 2) ELSE 0) IN
                          IF L > 12 THEN TrapV ELSE VS(Utf8Of(Text8(L)))
    [] n = "utf16" -> LET L == NatOr(as["length"].b) + (IF Chance(dev) THEN Rnd(0, 2) ELSE 0) IN
                      IF L > 12 THEN TrapV ELSE VS(Utf8Of(Text16(L)))
    [] n = "blob" -> LET L == NatOr(as["len"].b) + (IF Chance(dev) THEN Rnd(0, 2) ELSE 0) IN
                     IF L > 12 THEN TrapV ELSE VA(BytesV(RandB(L)))

GenEnumV(P, t, dev) ==
  LET is == Items(P, t)  i == Rnd(1, Len(is)) IN
  IF is[i].dflt THEN LET b == RandScalar(t.s)
                         hit == \E j \in 1..Len(is) : ~is[j].dflt /\ is[j].b = b
                     IN IF hit /\ ~Chance(dev) THEN VE(is[1].name, is[1].b) ELSE VE(is[i].name, b)
  ELSE VE(is[i].name, is[i].b)
RECURSIVE RandBits(_, _, _)
RandBits(is, i, acc) == IF i > Len(is) THEN acc ELSE RandBits(is, i + 1, IF Chance(50) THEN OrB(acc, is[i].b) ELSE acc)
GenBitsV(P, t, dev) == VBf(IF Chance(dev) THEN RandScalar(t.s) ELSE RandBits(Items(P, t), 1, Zeros(W(t.s))))

GenV(P, t, env, dev) ==
  CASE t.k = "sc" -> VI(RandScalar(t.s))
    [] t.k = "f" -> VF(IF Chance(70) THEN RandB(t.w) ELSE Zeros(t.w))
    [] t.k = "bool" -> VB(Chance(50))
    [] t.k = "arr" ->
         (IF t.mode = "fix" THEN
            LET L == Eval(P, env, t.len[1]) IN
            IF L.k = "trap" \/ NatOr(L.b) > MaxN THEN TrapV
            ELSE LET n == NatOr(L.b) + (IF Chance(dev) THEN Of(<<-1, 1, 2>>) ELSE 0) IN
                 Seqd(GenN(P, t.el, IF n < 0 THEN 0 ELSE n, env, dev))
          ELSE Seqd(GenN(P, t.el, Of(<<0, 1, 1, 2, 2, 3>>), env, dev)))
    [] t.k = "ref" ->
         LET vs == EvArgs(P, env, t.args) IN
         IF AnyTrap(vs) THEN TrapV
         ELSE LET as == BindArgs(P, P.types[t.name].args, vs, 1, EmptyMap) IN
              IF MapTraps(as) THEN TrapV ELSE GenTopV(P, t.name, as, dev)
    [] OTHER -> TrapV

Cond(P, env, f) == IF f.cond = <<>> THEN VB(TRUE) ELSE Eval(P, env, f.cond[1])

\* TrapV, or the environment after the items
GenItemsV(P, items, i, env, dev) ==
  IF i > Len(items) THEN [k |-> "env", e |-> env]
  ELSE LET it == items[i] IN
  IF it.k = "pad" THEN GenItemsV(P, items, i + 1, env, dev)
  ELSE LET c0 == Cond(P, env, it.f) IN
  IF c0.k = "trap" THEN TrapV
  ELSE LET on == IF it.f.cond # <<>> /\ Chance(dev) THEN ~c0.v ELSE c0.v
           opt == it.f.cond # <<>> IN
  IF it.f.ty.k = "cont" THEN
    (IF ~on THEN GenItemsV(P, items, i + 1, [env EXCEPT !.f = NoneOf(it.f.ty) @@ @], dev)
     ELSE LET r == GenItemsV(P, it.f.ty.items, 1, env, dev) IN
          IF r.k = "trap" THEN r
          ELSE GenItemsV(P, items, i + 1, [env EXCEPT !.f = (IF opt THEN WrapOpt(it.f.ty, r.e.f) ELSE r.e.f) @@ @], dev))
  ELSE IF ~on THEN GenItemsV(P, items, i + 1, [env EXCEPT !.f = (it.name :> None) @@ @], dev)
  ELSE LET v == GenV(P, it.f.ty, env, dev) IN
       IF v.k = "trap" THEN v
       ELSE GenItemsV(P, items, i + 1, [env EXCEPT !.f = (it.name :> IF opt THEN Some(v) ELSE v) @@ @], dev)

GenContV(P, t, as, dev) ==
  LET r == GenItemsV(P, t.items, 1, Env(as), dev) IN IF r.k = "trap" THEN r ELSE VSt(r.e.f)

GenTopV(P, name, as, dev) ==
  LET f == P.types[name].f  t == f.ty IN
  CASE t.k = "foreign" -> GenForeignV(t.n, as, dev)
    [] t.k = "enum" -> GenEnumV(P, t, dev)
    [] t.k = "bits" -> GenBitsV(P, t, dev)
    [] t.k = "cont" /\ t.tagged ->
         LET i0 == Pick(P, t.items, 1, Env(as)) IN
         IF i0 = -1 THEN TrapV
         ELSE LET i == IF i0 = 0 \/ Chance(dev) THEN Rnd(1, Len(t.items)) ELSE i0
                  it == t.items[i]
                  x == IF it.f.ty.k = "cont" THEN GenContV(P, it.f.ty, as, dev) ELSE GenV(P, it.f.ty, Env(as), dev)
              IN IF x.k = "trap" THEN x ELSE VTg(it.name, x)
    [] t.k = "cont" -> GenContV(P, t, as, dev)
    [] OTHER ->
         LET c == Cond(P, Env(as), f) IN
         IF c.k = "trap" THEN c
         ELSE IF f.cond # <<>> /\ (IF Chance(dev) THEN c.v ELSE ~c.v) THEN None
         ELSE LET v == GenV(P, t, Env(as), dev) IN IF v.k = "trap" \/ f.cond = <<>> THEN v ELSE Some(v)

\* arguments for a top-level call: a sequence of given values / None for an omitted optional
GenTopArg(P, a) ==
  LET t == Res(P, a.t[1]) IN
  CASE t.k = "bool" -> VB(Chance(50))
    [] t.k = "enum" -> GenEnumV(P, t, 0)
    [] t.k = "bits" -> GenBitsV(P, t, 0)
    [] t.k = "sc" -> VI(OfNat(Rnd(0, 3), W(t.s)))
    [] OTHER -> TrapV
RECURSIVE GenTopArgs(_, _, _)
GenTopArgs(P, as, i) ==
  IF i > Len(as) THEN <<>>
  ELSE <<IF as[i].o /\ Chance(40) THEN None ELSE IF as[i].o THEN Some(GenTopArg(P, as[i])) ELSE GenTopArg(P, as[i])>> \o GenTopArgs(P, as, i + 1)
\* bind what a caller passes: optionals may be absent individually
RECURSIVE BindTop(_, _, _, _, _)
BindTop(P, spec, vs, i, m) ==
  IF i > Len(spec) THEN m
  ELSE LET v == vs[i]
           x == IF ~spec[i].o THEN v ELSE IF v.s # <<>> THEN v.s[1] ELSE Eval(P, Env(m), spec[i].def[1])
       IN BindTop(P, spec, vs, i + 1, (spec[i].n :> x) @@ m)

\* ---------------------------------------------------------------- screens
ConstsFine(P) == \A n \in DOMAIN P.consts : Deep(P, P.consts[n].e)
ItemsFine(P) == ConstsFine(P) /\ \A n \in DOMAIN P.types : P.types[n].f.ty.k \in {"enum", "bits"} => FineItems(P, P.types[n].f.ty)
UserTypes(prog) == SelectSeq(prog, LAMBDA d : d.k = "type")
=============================================================================
