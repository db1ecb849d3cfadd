------------------------------- MODULE Types -------------------------------
(* The typing judgement: from a parsed program to its typed core, or a       *)
(* rejection.  Expressions are elaborated against an expected (partial)      *)
(* type; implicit widening is made explicit by inserting casts.              *)
EXTENDS Bytes, SequencesExt, FiniteSetsExt

W(s)  == CASE s \in {"u8", "i8"} -> 1 [] s \in {"u16", "i16"} -> 2 [] s \in {"u32", "i32"} -> 4
           [] s \in {"u64", "i64"} -> 8 [] s \in {"u128", "i128"} -> 16
Sg(s) == s \in {"i8", "i16", "i32", "i64", "i128"}
ScalarNames == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}

TBool   == [k |-> "bool"]
TSc(s)  == [k |-> "sc", s |-> s, e |-> "be"]
TArr(t) == [k |-> "arr", el |-> t, mode |-> "any", len |-> <<>>]

\* ---------------------------------------------------------------- foreign objects
VarScalar(n) == CASE n = "v8" -> "i8" [] n = "v16" -> "i16" [] n = "v32" -> "i32" [] n = "v64" -> "i64" [] n = "v128" -> "i128"
VarNames == {"v8", "v16", "v32", "v64", "v128"}
FTypes   == VarNames \cup {"utf8", "utf16", "blob", "odd8"}
FXforms  == {"xadd", "xxor", "frame"}
FFuncs   == {"pad", "sum", "bits", "fmix", "is_even"}
Arg(n, t, o) == [n |-> n, t |-> t, o |-> o]      \* t = <<>> : any type; o : optional
FArgs(n) ==
  CASE n = "utf8"  -> <<Arg("length", <<TSc("u64")>>, TRUE)>>
    [] n = "utf16" -> <<Arg("length", <<TSc("u64")>>, FALSE)>>
    [] n = "blob"  -> <<Arg("len", <<TSc("u64")>>, FALSE), Arg("mask", <<TSc("u64")>>, TRUE)>>
    [] n = "xadd"  -> <<Arg("k", <<TSc("u8")>>, TRUE)>>
    [] n = "xxor"  -> <<Arg("k", <<TSc("u8")>>, FALSE)>>
    [] n = "frame" -> <<Arg("tag", <<TSc("u8")>>, FALSE), Arg("mask", <<TSc("u8")>>, TRUE)>>
    [] n = "pad"   -> <<Arg("pad", <<TSc("u64")>>, FALSE), Arg("base", <<TSc("u64")>>, FALSE)>>
    [] n \in {"sum", "len", "blen"} -> <<Arg("x", <<>>, FALSE)>>
    [] n \in {"bits", "is_even"} -> <<Arg("a", <<TSc("u64")>>, FALSE)>>
    [] n = "fmix"  -> <<Arg("a", <<TSc("u64")>>, FALSE), Arg("b", <<TSc("u64")>>, FALSE), Arg("c", <<TSc("u64")>>, TRUE)>>
    [] OTHER -> <<>>
FRet(n) == CASE n = "bits" -> TSc("u8") [] n = "is_even" -> TBool [] OTHER -> TSc("u64")

\* ---------------------------------------------------------------- types
\* P = [types : name -> [args, ty, ...], consts : name -> [ty, e], funcs, xfs : sets of names]
RECURSIVE Res(_, _)
Res(P, t) == IF t.k = "ref" /\ t.name \in DOMAIN P.types THEN Res(P, P.types[t.name].f.ty) ELSE t

\* partial types
PAny       == [k |-> "any"]
PNone      == [k |-> "none"]
PSome(s)   == [k |-> "some", s |-> s]
PType(t)   == [k |-> "type", t |-> t]
PArr(p)    == [k |-> "parr", el |-> p]
RECURSIVE Part(_, _)
Part(P, t) == CASE t.k = "ref" -> Part(P, P.types[t.name].f.ty)
                [] t.k = "sc"  -> PSome(t.s)
                [] t.k = "arr" -> PArr(Part(P, t.el))
                [] OTHER -> PType(t)

ImplS(a, b) == Sg(a) = Sg(b) /\ W(a) <= W(b)

RECURSIVE AssignT(_, _, _)
\* a value of type b may stand where type a is wanted
AssignT(P, a0, b0) ==
  LET a == Res(P, a0)  b == Res(P, b0) IN
  CASE b.k = "foreign" /\ b.n \in VarNames -> AssignT(P, a, TSc(VarScalar(b.n)))
    [] b.k = "foreign" /\ b.n = "utf8"  -> a.k = "arr" /\ AssignT(P, TSc("u8"), a.el)
    [] b.k = "foreign" /\ b.n = "utf16" -> a.k = "arr" /\ AssignT(P, TSc("u16"), a.el)
    [] b.k = "foreign" /\ b.n = "odd8"  -> AssignT(P, a, TSc("u8"))
    [] b.k = "foreign" -> FALSE
    [] a.k = "foreign" /\ a.n \in VarNames -> AssignT(P, TSc(VarScalar(a.n)), b)
    [] a.k = "foreign" /\ a.n = "utf8"  -> b.k = "arr" /\ AssignT(P, TSc("u8"), b.el)
    [] a.k = "foreign" /\ a.n = "utf16" -> b.k = "arr" /\ AssignT(P, TSc("u16"), b.el)
    [] a.k = "foreign" /\ a.n = "odd8"  -> AssignT(P, TSc("u8"), b)
    [] a.k = "foreign" -> FALSE
    [] a.k \in {"enum", "bits"} -> b.k = a.k /\ a.n = b.n
    [] a.k = "sc" -> b.k = "sc" /\ a.s = b.s /\ a.e = b.e
    [] a.k = "bool" -> b.k = "bool"
    [] a.k = "f" -> b.k = "f" /\ a.w = b.w
    [] OTHER -> FALSE

Coercible(P, b0, a0) ==
  LET a == Res(P, a0)  b == Res(P, b0) IN
  CASE b.k \in {"enum", "bits", "sc"} /\ a.k = "sc" -> ImplS(b.s, a.s)
    [] b.k = "sc" /\ a.k \in {"enum", "bits"} -> ImplS(b.s, a.s)
    [] b.k = "f" /\ a.k = "f" -> b.w = 4 /\ a.w = 8
    [] OTHER -> FALSE

RECURSIVE AssignP(_, _, _)
AssignP(P, x, t0) ==
  LET t == Res(P, t0) IN
  CASE t.k = "foreign" ->
         (CASE x.k = "any" -> TRUE
            [] x.k = "some" -> AssignT(P, TSc(x.s), t)
            [] x.k = "defs" -> t.n \in VarNames \/ AssignT(P, TSc(x.s), t)
            [] x.k = "none" -> t.n \in VarNames
            [] x.k = "type" -> AssignT(P, x.t, t)
            [] OTHER -> FALSE)
    [] x.k = "type" -> AssignT(P, x.t, t)
    [] x.k \in {"some", "defs"} -> t.k = "sc" /\ t.s = x.s /\ t.e = "be"
    [] x.k \in {"none", "any"} -> TRUE
    [] x.k = "parr" -> t.k = "arr" /\ AssignP(P, x.el, t.el)
    [] OTHER -> FALSE

CoerceP(P, x, t) ==
  CASE x.k \in {"some", "defs"} -> Coercible(P, t, TSc(x.s))
    [] x.k = "type" -> Coercible(P, t, x.t)
    [] OTHER -> FALSE
IntoType(x) == IF x.k = "type" THEN x.t ELSE TSc(x.s)

CanCast(P, from, to) ==
  LET f == Res(P, from)  t == Res(P, to) IN
  \/ AssignT(P, t, f)
  \/ Coercible(P, t, f)
  \/ f.k \in {"sc", "f"} /\ t.k \in {"sc", "f"} /\ ~(f.k = "f" /\ t.k = "f" /\ f.w = t.w)

\* ---------------------------------------------------------------- expressions
Bad    == [st |-> "err"]
Unsup  == [st |-> "unsup"]
Ok(e)  == [st |-> "ok", e |-> e]

CmpOps   == {"<", ">", "<=", ">="}
EqOps    == {"==", "!="}
LogicOps == {"||", "&&"}
BoolOps  == CmpOps \cup EqOps \cup LogicOps

\* does an unsigned magnitude (minimal bytes) fit the scalar
RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ Head(b) = 0 THEN Strip(Tail(b)) ELSE b
FitsInt(s, b0) == LET b == Strip(b0) IN Len(b) < W(s) \/ (Len(b) = W(s) /\ (Sg(s) => b[1] < 128))
IntOf(s, b) == LET c == Strip(b) IN Zeros(W(s) - Len(c)) \o c

\* scope: P, flds : name -> [ty, opt, calc], inps : name -> type
IsAlias(P, t) == t.k = "ref" /\ P.types[t.name].f.ty.k \notin {"enum", "bits", "foreign", "cont"}

RECURSIVE Conv(_, _, _)
RECURSIVE ConvArgs(_, _, _, _)
RECURSIVE ConvTy(_, _, _)

\* arguments against a list of <<>> / <<type>> expectations; any error wins over unsup
ConvArgs(cx, as, want, i) ==
  IF i > Len(as) THEN [st |-> "ok", es |-> <<>>]
  ELSE LET r == Conv(cx, as[i], IF want[i] = <<>> THEN PAny ELSE Part(cx.P, want[i][1]))
       IN IF r.st # "ok" THEN r
          ELSE LET rest == ConvArgs(cx, as, want, i + 1)
               IN IF rest.st # "ok" THEN rest ELSE [st |-> "ok", es |-> <<r.e>> \o rest.es]

\* arity: optional parameters may be left out (they come last)
ArgSpec(P, d) == d.args                 \* [n, t, o]
ConvCall(cx, as, spec) ==
  LET min == Len(SelectSeq(spec, LAMBDA a : ~a.o)) IN
  IF Len(as) < min \/ Len(as) > Len(spec) THEN Bad
  ELSE IF Len(as) > min /\ \E i \in 1..min : spec[i].o THEN Bad
  ELSE ConvArgs(cx, as, [i \in 1..Len(spec) |-> spec[i].t], 1)

ConvRaw(cx, e, x) ==
  LET P == cx.P IN
  CASE e.k = "int" ->
         LET s == IF e.suf # <<>> THEN e.suf[1] ELSE IF x.k \in {"some", "defs"} THEN x.s ELSE "" IN
         IF s = "" THEN Bad ELSE IF ~FitsInt(s, e.b) THEN Bad
         ELSE Ok([k |-> "lit", b |-> IntOf(s, e.b), ty |-> TSc(s)])
    [] e.k = "bool" -> Ok([k |-> "bool", v |-> e.v, ty |-> TBool])
    [] e.k = "str"  -> Ok([k |-> "str", b |-> e.b, ty |-> TArr(TSc("u8"))])
    [] e.k = "id" ->
         (CASE e.n \in DOMAIN cx.flds ->
                 LET d == cx.flds[e.n] IN
                 IF IsAlias(P, d.ty) THEN Unsup
                 ELSE Ok([k |-> "fld", n |-> e.n, ty |-> d.ty, opt |-> d.opt, calc |-> d.calc])
            [] e.n \in DOMAIN cx.inps ->
                 IF IsAlias(P, cx.inps[e.n]) THEN Unsup
                 ELSE Ok([k |-> "inp", n |-> e.n, ty |-> cx.inps[e.n]])
            [] e.n \in DOMAIN P.consts ->
                 IF IsAlias(P, P.consts[e.n].ty) THEN Unsup
                 ELSE Ok([k |-> "const", n |-> e.n, e |-> P.consts[e.n].e, ty |-> P.consts[e.n].ty])
            [] OTHER -> Bad)
    [] e.k = "ev" ->
         IF e.e \notin DOMAIN P.tn THEN Bad
         ELSE LET t == P.types[P.tn[e.e]].f.ty IN
              IF t.k \notin {"enum", "bits"} THEN Bad
              ELSE LET is == SelectSeq(t.items, LAMBDA i : i.name = e.v) IN
                   IF is = <<>> \/ is[1].dflt THEN Bad
                   ELSE Ok([k |-> "ev", n |-> P.tn[e.e], v |-> e.v, e |-> is[1].e, ty |-> t])
    [] e.k = "call" ->
         IF e.f \notin P.funcs THEN Bad
         ELSE LET r == ConvCall(cx, e.a, FArgs(e.f)) IN
              IF r.st # "ok" THEN r ELSE Ok([k |-> "call", f |-> e.f, a |-> r.es, ty |-> FRet(e.f)])
    [] e.k = "cast" ->
         IF e.ty.k \in {"cont", "enum", "bits"} THEN Bad
         ELSE LET t == ConvTy(cx, e.ty, "expr") IN
              IF t.st # "ok" THEN t
              ELSE LET r == Conv(cx, e.x, PAny) IN
                   IF r.st # "ok" THEN r
                   ELSE IF Res(P, t.t).k = "arr" \/ IsAlias(P, t.t) THEN Unsup
                   ELSE IF ~CanCast(P, r.e.ty, t.t) THEN Bad
                   ELSE Ok([k |-> "cast", x |-> r.e, ty |-> t.t])
    [] e.k = "tern" ->
         LET c == Conv(cx, e.c, PType(TBool)) IN
         IF c.st # "ok" THEN c
         ELSE LET t == Conv(cx, e.t, x) IN
         IF t.st # "ok" THEN t
         ELSE LET f == Conv(cx, e.f, IF x.k = "any" THEN Part(P, t.e.ty) ELSE x) IN
         IF f.st # "ok" THEN f
         ELSE Ok([k |-> "tern", c |-> c.e, t |-> t.e, f |-> f.e, ty |-> t.e.ty])
    [] e.k = "idx" ->
         LET a == Conv(cx, e.x, PArr(x)) IN
         IF a.st # "ok" THEN a
         ELSE LET i == Conv(cx, e.i, PSome("u64")) IN
         IF i.st # "ok" THEN i
         ELSE IF a.e.ty.k # "arr" THEN Unsup
         ELSE Ok([k |-> "idx", x |-> a.e, i |-> i.e, ty |-> a.e.ty.el])
    [] e.k = "mem" ->
         LET r == Conv(cx, e.x, PAny) IN
         IF r.st # "ok" THEN r
         ELSE LET t == Res(P, r.e.ty) IN
              IF t.k # "bits" THEN Bad
              ELSE LET is == SelectSeq(t.items, LAMBDA i : i.name = e.m) IN
                   IF is = <<>> THEN Bad
                   ELSE Ok([k |-> "mem", x |-> r.e, m |-> is[1].e, ty |-> TBool])
    [] e.k = "un" ->
         LET r == Conv(cx, e.x, x) IN
         IF r.st # "ok" THEN r
         ELSE LET t == r.e.ty IN
         IF e.op = "!" THEN (IF ~AssignP(P, x, TBool) THEN Bad ELSE Ok([k |-> "un", op |-> e.op, x |-> r.e, ty |-> t]))
         ELSE IF ~AssignP(P, PNone, t) THEN Bad
         ELSE IF e.op = "-" /\ t.k = "sc" /\ ~Sg(t.s) THEN Bad
         ELSE Ok([k |-> "un", op |-> e.op, x |-> r.e, ty |-> t])
    [] e.k = "bin" ->
         IF e.op \in BoolOps /\ ~AssignP(P, x, TBool) THEN Bad
         ELSE
         LET init == CASE e.op \in CmpOps -> PNone [] e.op \in EqOps -> PAny
                       [] e.op \in LogicOps -> PType(TBool) [] OTHER -> x
             l == Conv(cx, e.l, init)
             mk(a, b) == Ok([k |-> "bin", op |-> e.op, l |-> a, r |-> b,
                             ty |-> IF e.op \in BoolOps THEN TBool ELSE a.ty])
         IN CASE l.st = "unsup" -> l
              [] l.st = "ok" ->
                   LET r == Conv(cx, e.r, Part(P, l.e.ty)) IN IF r.st # "ok" THEN r ELSE mk(l.e, r.e)
              [] OTHER ->
                   LET r == Conv(cx, e.r, init) IN
                   IF r.st # "ok" THEN r
                   ELSE LET l2 == Conv(cx, e.l, Part(P, r.e.ty)) IN
                        IF l2.st # "ok" THEN l2 ELSE mk(l2.e, r.e)
    [] OTHER -> Bad

Conv(cx, e, x) ==
  LET r == ConvRaw(cx, e, x) IN
  IF r.st # "ok" THEN r
  ELSE IF AssignP(cx.P, x, r.e.ty) THEN r
  ELSE IF CoerceP(cx.P, x, r.e.ty) THEN Ok([k |-> "cast", x |-> r.e, ty |-> IntoType(x)])
  ELSE Bad

\* ---------------------------------------------------------------- types in context
OkT(t) == [st |-> "ok", t |-> t]

RECURSIVE ConvItems(_, _, _, _, _, _)
RECURSIVE ConvField(_, _, _)

ConvLen(cx, t) ==
  IF t.len = <<>> THEN [st |-> "ok", e |-> <<>>]
  ELSE LET r == Conv(cx, t.len[1], IF t.exp THEN PArr(PSome("u8")) ELSE PSome("u64"))
       IN IF r.st # "ok" THEN r ELSE [st |-> "ok", e |-> <<r.e>>]

RECURSIVE ConvXfs(_, _, _)
ConvXfs(cx, xs, i) ==
  IF i > Len(xs) THEN [st |-> "ok", xs |-> <<>>]
  ELSE LET x == xs[i] IN
  IF x.name \notin DOMAIN cx.P.xfs THEN Bad
  ELSE LET a == ConvCall(cx, x.args, FArgs(cx.P.xfs[x.name])) IN
  IF a.st # "ok" THEN a
  ELSE LET c == IF x.cond = <<>> THEN [st |-> "ok", e |-> TRUE] ELSE Conv(cx, x.cond[1], PType(TBool)) IN
  IF c.st # "ok" THEN c
  ELSE LET rest == ConvXfs(cx, xs, i + 1) IN
  IF rest.st # "ok" THEN rest
  ELSE [st |-> "ok", xs |-> <<[n |-> cx.P.xfs[x.name], args |-> a.es, cond |-> IF x.cond = <<>> THEN <<>> ELSE <<c.e>>]>> \o rest.xs]

\* where: "top:<name>" for declarations, else "arr" | "field" | "expr" | "const"
ConvTy(cx, t, where) ==
  CASE t.k = "sc" -> OkT([k |-> "sc", s |-> t.s, e |-> t.e])
    [] t.k = "f" -> OkT(t)
    [] t.k = "bool" -> OkT(TBool)
    [] t.k = "arr" ->
         LET l == ConvLen(cx, t) IN
         IF l.st # "ok" THEN l
         ELSE LET el == ConvTy(cx, t.el, "arr") IN
         IF el.st # "ok" THEN el
         ELSE OkT([k |-> "arr", el |-> el.t, len |-> l.e,
                   mode |-> IF t.exp THEN (IF t.len = <<>> THEN "ext" ELSE "term") ELSE "fix"])
    [] t.k = "ref" ->
         IF t.name \notin DOMAIN cx.P.tn THEN Bad
         ELSE LET c == cx.P.tn[t.name]
                  a == ConvCall(cx, t.args, cx.P.types[c].args) IN
              IF a.st # "ok" THEN a ELSE OkT([k |-> "ref", name |-> c, args |-> a.es])
    [] t.k \in {"enum", "bits"} -> Bad           \* only as declarations, handled there
    [] t.k = "cont" ->
         IF where = "arr" THEN Bad
         ELSE LET l == IF t.len = <<>> THEN [st |-> "ok", e |-> TRUE] ELSE Conv(cx, t.len[1], [k |-> "defs", s |-> "u64"]) IN
         IF l.st # "ok" THEN l
         ELSE IF t.tagged /\ where # "top" THEN Bad
         ELSE LET its == ConvItems(cx, t, 1, <<>>, {}, FALSE) IN
         IF its.st # "ok" THEN its
         ELSE OkT([k |-> "cont", len |-> IF t.len = <<>> THEN <<>> ELSE <<l.e>>, tagged |-> t.tagged, items |-> its.its])
    [] OTHER -> Bad

\* one field: type, condition, transforms (no calculation yet)
ConvField(cx, f, where) ==
  LET t == ConvTy(cx, f.ty, where) IN
  IF t.st # "ok" THEN t
  ELSE LET c == IF f.cond = <<>> THEN [st |-> "ok", e |-> TRUE] ELSE Conv(cx, f.cond[1], PType(TBool)) IN
  IF c.st # "ok" THEN c
  ELSE LET x == ConvXfs(cx, f.xf, 1) IN
  IF x.st # "ok" THEN x
  ELSE IF f.flags # <<>> THEN Bad
  ELSE [st |-> "ok", f |-> [ty |-> t.t, cond |-> IF f.cond = <<>> THEN <<>> ELSE <<c.e>>, xf |-> x.xs, calc |-> <<>>]]

RECURSIVE CallsBlen(_)      \* surface expressions
CallsBlen(e) ==
  CASE e.k = "call" -> e.f = "blen" \/ \E i \in 1..Len(e.a) : CallsBlen(e.a[i])
    [] e.k = "bin" -> CallsBlen(e.l) \/ CallsBlen(e.r)
    [] e.k \in {"un", "cast", "mem"} -> CallsBlen(e.x)
    [] e.k = "tern" -> CallsBlen(e.c) \/ CallsBlen(e.t) \/ CallsBlen(e.f)
    [] e.k = "idx" -> CallsBlen(e.x) \/ CallsBlen(e.i)
    [] OTHER -> FALSE
CalcKind(c) == IF c = <<>> THEN "none" ELSE IF CallsBlen(c[1]) THEN "blen" ELSE "plain"
Declare(cx, name, f, calc) ==
  [cx EXCEPT !.flds = (name :> [ty |-> f.ty, opt |-> f.cond # <<>>, calc |-> calc]) @@ @]

RECURSIVE ConvCalcs(_, _, _, _)
ConvCalcs(cx, t, its, i) ==
  IF i > Len(its) THEN [st |-> "ok", its |-> its]
  ELSE IF its[i].k = "pad" \/ t.items[i].f.calc = <<>> THEN ConvCalcs(cx, t, its, i + 1)
  ELSE LET r == Conv(cx, t.items[i].f.calc[1], Part(cx.P, its[i].f.ty)) IN
       IF r.st # "ok" THEN r
       ELSE ConvCalcs(cx, t, [its EXCEPT ![i].f.calc = <<r.e>>], i + 1)

ConvItems(cx, t, i, acc, seen, uncond) ==
  IF i > Len(t.items) THEN ConvCalcs(cx, t, acc, 1)
  ELSE LET it == t.items[i] IN
  IF it.k = "pad" THEN
    IF t.tagged THEN Bad
    ELSE LET l == Conv(cx, it.len, PSome("u64")) IN
         IF l.st # "ok" THEN l
         ELSE ConvItems(cx, t, i + 1, Append(acc, [k |-> "pad", len |-> l.e]), seen, uncond)
  ELSE IF it.name \in seen THEN Bad
  ELSE LET f == ConvField(cx, it.f, "field") IN
  IF f.st # "ok" THEN f
  ELSE IF t.tagged /\ uncond THEN Bad
  ELSE ConvItems(Declare(cx, it.name, f.f, CalcKind(it.f.calc)), t, i + 1,
                 Append(acc, [k |-> "f", name |-> it.name, f |-> f.f]), seen \cup {it.name},
                 uncond \/ it.f.cond = <<>>)

\* ---------------------------------------------------------------- declarations
NoFlds == <<>>
Ctx(P) == [P |-> P, flds |-> [x \in {} |-> 0], inps |-> [x \in {} |-> 0]]

RECURSIVE EnumItems(_, _, _, _, _, _, _)
\* last : <<>> or <<core expr of the last explicit value>>; n : items since
EnumItems(cx, t, i, acc, last, n, had) ==
  IF i > Len(t.items) THEN [st |-> "ok", its |-> acc]
  ELSE LET it == t.items[i]
           dup == \E j \in 1..(i - 1) : t.items[j].name = it.name
       IN IF dup \/ (t.k = "enum" /\ had) THEN Bad
          ELSE IF it.dflt THEN EnumItems(cx, t, i + 1, Append(acc, [name |-> it.name, dflt |-> TRUE]), last, n + 1, TRUE)
          ELSE IF it.val # <<>> THEN
            LET r == Conv(cx, it.val[1], PSome(t.s)) IN
            IF r.st # "ok" THEN r
            ELSE EnumItems(cx, t, i + 1, Append(acc, [name |-> it.name, dflt |-> FALSE, e |-> r.e]), <<r.e>>, 1, had)
          ELSE IF last = <<>> THEN Unsup
          ELSE IF ~FitsInt(t.s, OfNat(n, 2)) THEN Bad
          ELSE LET e == [k |-> "bin", op |-> IF t.k = "enum" THEN "+" ELSE "<<", l |-> last[1],
                         r |-> [k |-> "lit", b |-> IntOf(t.s, OfNat(n, 2)), ty |-> TSc(t.s)], ty |-> TSc(t.s)]
               IN EnumItems(cx, t, i + 1, Append(acc, [name |-> it.name, dflt |-> FALSE, e |-> e]), last, n + 1, had)

RECURSIVE ConvTypeArgs(_, _, _, _)
ConvTypeArgs(cx, as, i, acc) ==
  IF i > Len(as) THEN [st |-> "ok", args |-> acc, cx |-> cx]
  ELSE LET a == as[i]
           t == ConvTy(cx, a.ty, "expr") IN
  IF t.st # "ok" THEN t
  ELSE LET cx2 == [cx EXCEPT !.inps = (a.name :> t.t) @@ @]
           d == IF a.def = <<>> THEN [st |-> "ok", e |-> TRUE] ELSE Conv(cx2, a.def[1], Part(cx.P, t.t)) IN
  IF d.st # "ok" THEN d
  ELSE ConvTypeArgs(cx2, as, i + 1,
         Append(acc, [n |-> a.name, t |-> <<t.t>>, o |-> a.def # <<>>, def |-> IF a.def = <<>> THEN <<>> ELSE <<d.e>>]))

\* the rest of a declaration, once its name and arguments are known
DeclBody(cx, d, f0) ==
  IF f0.st # "ok" THEN f0
  ELSE IF d.f.calc = <<>> THEN f0
  ELSE LET r == Conv(cx, d.f.calc[1], Part(cx.P, f0.f.ty)) IN
       IF r.st # "ok" THEN r ELSE [f0 EXCEPT !.f.calc = <<r.e>>]

Placeholder == [ty |-> TBool, cond |-> <<>>, xf |-> <<>>, calc |-> <<>>]
\* what a declaration is called beyond its module (foreign types are the same everywhere)
Canon(P, name) == IF P.home = "" THEN name ELSE name \o "@" \o P.home
AddType(P, name, args, f) ==
  LET c == IF f.ty.k = "foreign" THEN f.ty.n ELSE Canon(P, name) IN
  [P EXCEPT !.types = (c :> [args |-> args, f |-> f, own |-> name, home |-> P.home]) @@ @, !.tn = (name :> c) @@ @]
IsPhase1(d) == d.k = "const" \/ (d.k = "type" /\ d.f.ty.k \in {"enum", "bits"})

\* types by canonical name; tn : names in scope -> canonical names; constants and transforms by the name in scope
P0 == [home |-> "", types |-> [x \in {} |-> 0], tn |-> [x \in {} |-> ""], consts |-> [x \in {} |-> 0], funcs |-> {"len", "blen"}, xfs |-> [x \in {} |-> ""]]
OkP(P) == [st |-> "ok", P |-> P]

RECURSIVE FfiPhase(_, _, _)
FfiPhase(P, prog, i) ==
  IF i > Len(prog) THEN OkP(P)
  ELSE LET d == prog[i] IN
  IF d.k # "ffi" THEN FfiPhase(P, prog, i + 1)
  ELSE CASE d.kind = "type" ->
              IF d.name \notin FTypes \/ d.name \in DOMAIN P.tn THEN Bad
              ELSE FfiPhase(AddType(P, d.name, FArgs(d.name),
                                    [Placeholder EXCEPT !.ty = [k |-> "foreign", n |-> d.name]]), prog, i + 1)
         [] d.kind = "transform" ->
              IF d.name \notin FXforms \/ d.name \in DOMAIN P.xfs THEN Bad
              ELSE FfiPhase([P EXCEPT !.xfs = (d.name :> d.name) @@ @], prog, i + 1)
         [] OTHER ->
              IF d.name \notin (FFuncs \cup {"len", "blen"}) \/ d.name \in P.funcs THEN Bad
              ELSE FfiPhase([P EXCEPT !.funcs = @ \cup {d.name}], prog, i + 1)

\* constants, enums and bitfields see only what is declared before them
RECURSIVE Phase1(_, _, _)
Phase1(P, prog, i) ==
  IF i > Len(prog) THEN OkP(P)
  ELSE LET d == prog[i] IN
  IF ~IsPhase1(d) THEN Phase1(P, prog, i + 1)
  ELSE IF d.k = "const" THEN
    IF d.name \in DOMAIN P.consts THEN Bad
    ELSE IF d.ty.k \in {"cont", "enum", "bits"} THEN Bad
    ELSE LET t == ConvTy(Ctx(P), d.ty, "const") IN
    IF t.st # "ok" THEN t
    ELSE LET e == Conv(Ctx(P), d.val, Part(P, t.t)) IN
    IF e.st # "ok" THEN e
    ELSE Phase1([P EXCEPT !.consts = (d.name :> [ty |-> t.t, e |-> e.e, id |-> Canon(P, d.name)]) @@ @], prog, i + 1)
  ELSE
    IF d.name \in DOMAIN P.tn THEN Bad
    ELSE IF d.args # <<>> \/ d.f.cond # <<>> \/ d.f.calc # <<>> THEN Unsup
    ELSE LET P1 == AddType(P, d.name, <<>>, Placeholder)
             t == d.f.ty
             its == EnumItems(Ctx(P1), t, 1, <<>>, <<>>, 0, FALSE) IN
    IF its.st # "ok" THEN its
    ELSE LET ct == [k |-> t.k, n |-> Canon(P, d.name), s |-> t.s, e |-> t.e, items |-> its.its]
             x == ConvXfs(Ctx(P1), d.f.xf, 1) IN
    IF x.st # "ok" THEN x
    ELSE IF d.f.flags # <<>> THEN Bad
    ELSE Phase1(AddType(P1, d.name, <<>>, [Placeholder EXCEPT !.ty = ct, !.xf = x.xs]), prog, i + 1)

Rest(prog) == SelectSeq(prog, LAMBDA d : d.k = "type" /\ ~IsPhase1(d))

RECURSIVE Phase2(_, _, _)
Phase2(P, ds, i) ==           \* names
  IF i > Len(ds) THEN OkP(P)
  ELSE IF ds[i].name \in DOMAIN P.tn THEN Bad
  ELSE Phase2(AddType(P, ds[i].name, <<>>, Placeholder), ds, i + 1)

RECURSIVE Phase3(_, _, _, _)
Phase3(P, ds, i, cxs) ==      \* parameters
  IF i > Len(ds) THEN [st |-> "ok", P |-> P, cxs |-> cxs]
  ELSE LET r == ConvTypeArgs(Ctx(P), ds[i].args, 1, <<>>) IN
       IF r.st # "ok" THEN r
       ELSE Phase3([P EXCEPT !.types[Canon(P, ds[i].name)].args = r.args], ds, i + 1, Append(cxs, r.cx.inps))

RECURSIVE Phase4(_, _, _, _)
Phase4(P, ds, i, cxs) ==      \* bodies
  IF i > Len(ds) THEN OkP(P)
  ELSE LET cx == [P |-> P, flds |-> [x \in {} |-> 0], inps |-> cxs[i]]
           r == DeclBody(cx, ds[i], ConvField(cx, ds[i].f, "top")) IN
       IF r.st # "ok" THEN r
       ELSE Phase4([P EXCEPT !.types[Canon(P, ds[i].name)].f = r.f], ds, i + 1, cxs)

\* ---------------------------------------------------------------- modules
\* an import brings a declaration of another module into scope, under its own name or another; a name in
\* scope stands for one declaration
RECURSIVE Norm(_)        \* the harness' resolver takes leading "./" off
Norm(f) == IF Len(f) >= 2 /\ SubSeq(f, 1, 2) = "./" THEN Norm(SubSeq(f, 3, Len(f))) ELSE f
RECURSIVE ImpItems(_, _, _, _)
ImpItems(P, Q, is, i) ==
  IF i > Len(is) THEN OkP(P)
  ELSE LET n == is[i].name  as == IF is[i].as = <<>> THEN n ELSE is[i].as[1] IN
  IF n \in DOMAIN Q.tn
  THEN (IF as \in DOMAIN P.tn /\ P.tn[as] # Q.tn[n] THEN Bad
        ELSE ImpItems([P EXCEPT !.types = @ @@ Q.types, !.tn = (as :> Q.tn[n]) @@ @], Q, is, i + 1))
  ELSE IF n \in DOMAIN Q.consts
  THEN (IF as \in DOMAIN P.consts /\ P.consts[as].id # Q.consts[n].id THEN Bad
        ELSE ImpItems([P EXCEPT !.types = @ @@ Q.types, !.consts = (as :> Q.consts[n]) @@ @], Q, is, i + 1))
  ELSE IF n \in DOMAIN Q.xfs
  THEN (IF as \in DOMAIN P.xfs /\ P.xfs[as] # Q.xfs[n] THEN Bad
        ELSE ImpItems([P EXCEPT !.xfs = (as :> Q.xfs[n]) @@ @], Q, is, i + 1))
  ELSE Bad
RECURSIVE ImpPhase(_, _, _, _)
ImpPhase(P, prog, i, ld) ==
  IF i > Len(prog) THEN OkP(P)
  ELSE IF prog[i].k # "import" THEN ImpPhase(P, prog, i + 1, ld)
  ELSE LET r == ImpItems(P, ld[Norm(prog[i].from)], prog[i].items, 1) IN
       IF r.st # "ok" THEN r ELSE ImpPhase(r.P, prog, i + 1, ld)

NoMods == [x \in {} |-> 0]
\* ld : the modules imported, elaborated
ElabFrom(P, prog, ld) ==
  LET a == FfiPhase(P, prog, 1) IN
  IF a.st # "ok" THEN a ELSE
  LET i == ImpPhase(a.P, prog, 1, ld) IN
  IF i.st # "ok" THEN i ELSE
  LET b == Phase1(i.P, prog, 1) IN
  IF b.st # "ok" THEN b ELSE
  LET ds == Rest(prog)
      c == Phase2(b.P, ds, 1) IN
  IF c.st # "ok" THEN c ELSE
  LET d == Phase3(c.P, ds, 1, <<>>) IN
  IF d.st # "ok" THEN d ELSE Phase4(d.P, ds, 1, d.cxs)
Elab(prog) == ElabFrom(P0, prog, NoMods)

\* every module in reach is loaded once, those it imports first; none may import itself, however indirectly
RECURSIVE LoadAll(_, _, _, _, _)
LoadAll(mods, prog, i, stack, ld) ==
  IF i > Len(prog) THEN [st |-> "ok", ld |-> ld]
  ELSE IF prog[i].k # "import" THEN LoadAll(mods, prog, i + 1, stack, ld)
  ELSE LET m == Norm(prog[i].from) IN
  IF m \in DOMAIN ld THEN LoadAll(mods, prog, i + 1, stack, ld)
  ELSE IF m \in stack \/ m \notin DOMAIN mods THEN Bad
  ELSE LET r == LoadAll(mods, mods[m], 1, stack \cup {m}, ld) IN
  IF r.st # "ok" THEN r
  ELSE LET e == ElabFrom([P0 EXCEPT !.home = m], mods[m], r.ld) IN
  IF e.st # "ok" THEN e ELSE LoadAll(mods, prog, i + 1, stack, (m :> e.P) @@ r.ld)

\* the types that core expressions and types mention
RECURSIVE MenE(_)
RECURSIVE MenT(_)
MenEs(es) == UNION {MenE(es[i]) : i \in 1..Len(es)}
MenE(e) ==
  CASE e.k = "ev" -> {e.n}
    [] e.k = "const" -> MenE(e.e)
    [] e.k = "call" -> MenEs(e.a)
    [] e.k = "cast" -> MenE(e.x) \cup MenT(e.ty)
    [] e.k = "tern" -> MenE(e.c) \cup MenE(e.t) \cup MenE(e.f)
    [] e.k = "idx" -> MenE(e.x) \cup MenE(e.i)
    [] e.k = "mem" -> MenE(e.x)
    [] e.k = "un" -> MenE(e.x)
    [] e.k = "bin" -> MenE(e.l) \cup MenE(e.r)
    [] OTHER -> {}
MenF(f) == MenT(f.ty) \cup MenEs(f.cond) \cup MenEs(f.calc) \cup UNION {MenEs(f.xf[i].args) \cup MenEs(f.xf[i].cond) : i \in 1..Len(f.xf)}
MenT(t) ==
  CASE t.k = "arr" -> MenT(t.el) \cup MenEs(t.len)
    [] t.k = "ref" -> {t.name} \cup MenEs(t.args)
    [] t.k = "cont" -> MenEs(t.len) \cup UNION {IF t.items[i].k = "pad" THEN MenE(t.items[i].len) ELSE MenF(t.items[i].f) : i \in 1..Len(t.items)}
    [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(P, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET new == UNION {MenF(P.types[c].f) \cup UNION {IF a.t = <<>> THEN {} ELSE MenT(a.t[1]) \cup (IF "def" \in DOMAIN a THEN MenEs(a.def) ELSE {}) : a \in ToSet(P.types[c].args)} : c \in todo}
       IN Reach(P, new \ (seen \cup todo), seen \cup todo)
\* the types code is made for: what the main module has in scope, by the names there, and what those lean on, by their own;
\* no name may stand for two of them
Native(P, c) == P.types[c].f.ty.k # "foreign"
Made(P) == LET all == Reach(P, {P.tn[n] : n \in DOMAIN P.tn}, {}) IN
  {<<n, P.tn[n]>> : n \in DOMAIN P.tn} \cup {<<P.types[c].own, c>> : c \in {x \in all : Native(P, x)}}
ElabMods(prog, mods) ==
  LET l == LoadAll(mods, prog, 1, {}, NoMods) IN
  IF l.st # "ok" THEN l
  ELSE LET r == ElabFrom(P0, prog, l.ld) IN
  IF r.st # "ok" THEN r
  ELSE LET made == Made(r.P) IN
  IF \E x, y \in made : x[1] = y[1] /\ x[2] # y[2] THEN Bad
  ELSE [st |-> "ok", P |-> r.P, ld |-> l.ld, made |-> {x \in made : Native(r.P, x[2])}]
---------------------------------------------------------------------------
(* Which accepted programs the generated Rust is expected to build for.  The *)
(* constructs left out here are recorded limitations (see known findings).   *)
ScalLike(P, t0) == LET t == Res(P, t0) IN
  t.k = "sc" \/ (t.k = "foreign" /\ t.n \in VarNames \cup {"odd8"})
SameRust(P, a0, b0) == LET a == Res(P, a0)  b == Res(P, b0) IN
  IF a.k = "foreign" THEN (b.k = "foreign" /\ a.n = b.n) \/ (b.k = "sc" /\ a.n \in VarNames /\ VarScalar(a.n) = b.s) \/ (b.k = "sc" /\ a.n = "odd8" /\ b.s = "u8")
  ELSE IF b.k = "foreign" THEN (a.k = "sc" /\ b.n \in VarNames /\ VarScalar(b.n) = a.s) \/ (a.k = "sc" /\ b.n = "odd8" /\ a.s = "u8")
  ELSE IF a.k # b.k THEN FALSE
  ELSE CASE a.k = "sc" -> a.s = b.s [] a.k \in {"enum", "bits"} -> a.n = b.n [] a.k = "bool" -> TRUE [] OTHER -> FALSE
Copyish(P, t0) == LET t == Res(P, t0) IN ScalLike(P, t) \/ t.k \in {"bool", "enum", "bits"}

\* ok : which calculated fields may be referred to at this place
RECURSIVE SupE(_, _, _)
SupE(P, ok, e) ==
  CASE e.k \in {"lit", "bool"} -> TRUE
    [] e.k = "str" -> FALSE
    [] e.k = "fld" -> ~e.opt /\ e.calc \in ok /\ Copyish(P, e.ty)
    [] e.k = "inp" -> Copyish(P, e.ty)
    [] e.k = "const" -> Copyish(P, e.ty) /\ SupE(P, ok, e.e)
    [] e.k = "ev" -> TRUE
    [] e.k = "call" ->
         (CASE e.f = "blen" -> e.a[1].k = "fld" /\ e.a[1].ty.k = "cont"
            [] e.f = "len" -> LET x == e.a[1]  t == Res(P, x.ty) IN
                 IF x.k = "fld" /\ (t.k = "arr" \/ (t.k = "foreign" /\ t.n \in {"utf8", "utf16", "blob"})) THEN ~x.opt /\ x.calc \in ok
                 ELSE SupE(P, ok, x) /\ t.k \in {"sc", "enum", "bits", "bool"}
            [] e.f = "sum" -> LET x == e.a[1] IN x.k = "fld" /\ ~x.opt /\ x.calc \in ok /\ x.ty.k = "arr" /\ x.ty.el.k = "sc"
            [] OTHER -> \A i \in 1..Len(e.a) : SupE(P, ok, e.a[i]) /\ Copyish(P, e.a[i].ty))
    [] e.k = "cast" -> SupE(P, ok, e.x) /\ LET f == Res(P, e.x.ty)  t == Res(P, e.ty) IN
         \/ t.k = "sc" /\ (f.k \in {"sc", "enum", "bits"} \/ ScalLike(P, f))
         \/ t.k = "bool" /\ f.k = "bool"
    [] e.k = "tern" -> SupE(P, ok, e.c) /\ SupE(P, ok, e.t) /\ SupE(P, ok, e.f) /\ SameRust(P, e.t.ty, e.f.ty) /\ Copyish(P, e.ty)
    [] e.k = "idx" -> e.x.k = "fld" /\ ~e.x.opt /\ e.x.calc \in ok /\ Copyish(P, e.ty) /\ SupE(P, ok, e.i)
    [] e.k = "mem" -> SupE(P, ok, e.x)
    [] e.k = "un" -> SupE(P, ok, e.x) /\
         (IF e.op = "!" THEN Res(P, e.x.ty).k = "bool" \/ ScalLike(P, e.x.ty) ELSE ScalLike(P, e.x.ty))
    [] e.k = "bin" ->
         IF e.op = "?:" THEN e.l.k = "fld" /\ e.l.opt /\ e.l.calc = "none" /\ Copyish(P, e.l.ty) /\ SupE(P, ok, e.r) /\ SameRust(P, e.l.ty, e.r.ty)
         ELSE /\ SupE(P, ok, e.l) /\ SupE(P, ok, e.r) /\ SameRust(P, e.l.ty, e.r.ty)
              /\ LET k == Res(P, e.l.ty).k IN
                 CASE e.op \in LogicOps -> k = "bool"
                   [] e.op \in EqOps -> Copyish(P, e.l.ty)
                   [] e.op \in CmpOps -> ScalLike(P, e.l.ty) \/ k = "bool"
                   [] e.op \in {"&", "|", "^"} -> ScalLike(P, e.l.ty) \/ k = "bool"
                   [] OTHER -> ScalLike(P, e.l.ty)
    [] OTHER -> FALSE

InCalc == {"none"}
InCode == {"none", "plain"}
InCLen == {"none", "plain", "blen"}
SupAll(P, ok, es) == \A i \in 1..Len(es) : SupE(P, ok, es[i])

\* does reading the type need look-ahead (not available under a conditional transform)
RECURSIVE NeedsAhead(_, _)
NeedsAhead(P, t) ==
  CASE t.k = "arr" -> t.mode = "term" \/ NeedsAhead(P, t.el)
    [] t.k = "ref" -> ~(P.types[t.name].f.ty.k = "foreign" /\ ~(P.types[t.name].f.ty.n = "utf8" /\ t.args = <<>>))
    [] t.k = "cont" -> TRUE
    [] OTHER -> FALSE

RECURSIVE SupT(_, _)
SupT(P, t) ==
  CASE t.k = "arr" -> /\ SupT(P, t.el)
                      /\ t.mode = "term" => t.len[1].k = "str" /\ Len(t.len[1].b) > 0
                      /\ t.mode = "fix" => SupAll(P, InCode, t.len)
    [] t.k = "ref" -> SupAll(P, InCode, t.args)
    [] OTHER -> TRUE
SupX(P, f) == \A i \in 1..Len(f.xf) :
  /\ SupAll(P, InCode, f.xf[i].args) /\ SupAll(P, InCode, f.xf[i].cond)
  /\ f.xf[i].cond # <<>> => ~NeedsAhead(P, f.ty)

RECURSIVE NamesIn(_)
NamesIn(items) == IF items = <<>> THEN <<>>
  ELSE LET it == Head(items) IN
       (IF it.k = "pad" THEN <<>> ELSE IF it.f.ty.k = "cont" THEN <<it.name>> \o NamesIn(it.f.ty.items) ELSE <<it.name>>)
       \o NamesIn(Tail(items))
NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

\* fields an expression reads
RECURSIVE Reads(_)
Reads(e) ==
  CASE e.k = "fld" -> {e.n}
    [] e.k = "call" /\ e.f # "blen" -> UNION {Reads(e.a[i]) : i \in 1..Len(e.a)}
    [] e.k = "bin" -> Reads(e.l) \cup Reads(e.r)
    [] e.k \in {"un", "cast", "mem"} -> Reads(e.x)
    [] e.k = "tern" -> Reads(e.c) \cup Reads(e.t) \cup Reads(e.f)
    [] e.k = "idx" -> Reads(e.x) \cup Reads(e.i)
    [] OTHER -> {}

\* hid: the fields of the conditional containers around (their struct members are options)
RECURSIVE SupC(_, _, _, _)
SupC(P, t, inside, hid0) ==
  LET hid == IF inside THEN hid0 \cup ToSet(NamesIn(t.items)) ELSE hid0 IN
  /\ SupAll(P, InCLen, t.len)
  /\ \A i \in 1..Len(t.items) :
       LET it == t.items[i] IN
       IF it.k = "pad" THEN SupE(P, InCode, it.len)
       ELSE /\ SupAll(P, InCode, it.f.cond)
            /\ SupX(P, it.f)
            /\ SupAll(P, InCalc, it.f.calc)
            /\ it.f.calc # <<>> => Reads(it.f.calc[1]) \cap hid = {}
            /\ it.f.calc # <<>> => Copyish(P, it.f.ty)
            /\ IF it.f.ty.k = "cont"
               THEN /\ it.f.ty.items # <<>>
                    /\ SupC(P, it.f.ty, inside \/ it.f.cond # <<>>, hid)
               ELSE SupT(P, it.f.ty)

\* constructs whose limits are recorded elsewhere are left out of "builds"
Supported(P) ==
  \A n \in DOMAIN P.types :
    LET d == P.types[n]  f == d.f  t == f.ty IN
    /\ \A i \in 1..Len(d.args) : t.k # "foreign" =>
          /\ Copyish(P, d.args[i].t[1])
          /\ SupAll(P, InCode, d.args[i].def)
          /\ d.args[i].o => \A j \in i..Len(d.args) : d.args[j].o
    /\ SupAll(P, InCode, f.cond)
    /\ f.calc = <<>>
    /\ SupX(P, f)
    /\ CASE t.k \in {"enum", "bits"} ->
              /\ f.cond = <<>>
              /\ \A i \in 1..Len(t.items) : ~t.items[i].dflt => SupE(P, InCode, t.items[i].e)
              /\ \A i \in 1..Len(t.items) : t.items[i].dflt => i = Len(t.items)
         [] t.k = "cont" -> f.cond = <<>> /\ t.items # <<>> /\ SupC(P, t, FALSE, {}) /\ NoDup(NamesIn(t.items))
         [] OTHER -> SupT(P, t)
=============================================================================
