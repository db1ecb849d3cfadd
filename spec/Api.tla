-------------------------------- MODULE Api ---------------------------------
(* The life of values in a user's hands: what the generated Rust items of     *)
(* enums, bitfields and containers let a user do with a value, without any    *)
(* bytes going over a wire.                                                   *)
(*   author -> take (a type) -> (act)* -> author ...                          *)
(* A bitfield value is a set of bits; an enum value is one of its variants.   *)
(* Every finished walk goes to Out with what is to be observed after each     *)
(* step; so do the values that containers start out with.                     *)
EXTENDS Gen, CSV, Json
CONSTANTS Out, PerProg
VARIABLES ph, prog, el, ty, v, was, log, n, id
vars == <<ph, prog, el, ty, v, was, log, n, id>>

Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, Out)
Steps == 14
NoTy == [n |-> "", k |-> ""]
Init == ph = "author" /\ prog = <<>> /\ el = [st |-> "none"] /\ ty = NoTy /\ v = <<>> /\ was = <<>> /\ log = <<>> /\ n = 0 /\ id = 0

---------------------------------------------------------------------------
\* what a type starts out with
RECURSIVE DefT(_, _)
RECURSIVE DefTop(_, _)
DefItems(P, t) ==
  LET fs == Fields(t) IN VSt([x \in {fs[i].name : i \in 1..Len(fs)} |->
     LET f == fs[CHOOSE i \in 1..Len(fs) : fs[i].name = x] IN IF f.opt THEN None ELSE DefT(P, f.f.ty)])
DefT(P, t) ==
  CASE t.k = "sc" -> VI(Zeros(W(t.s)))
    [] t.k = "f" -> VF(Zeros(t.w))
    [] t.k = "bool" -> VB(FALSE)
    [] t.k = "arr" -> VA(<<>>)
    [] t.k = "ref" -> DefTop(P, t.name)
DefTop(P, name) ==
  LET f == P.types[name].f  t == f.ty IN
  CASE t.k = "foreign" -> (CASE t.n \in VarNames -> VI(Zeros(W(VarScalar(t.n)))) [] t.n = "odd8" -> VI(<<0>>)
                             [] t.n = "blob" -> VA(<<>>) [] OTHER -> VS(<<>>))
    [] t.k = "enum" -> LET i == Items(P, t)[1] IN VE(i.name, IF i.dflt THEN Zeros(W(t.s)) ELSE i.b)
    [] t.k = "bits" -> VBf(Zeros(W(t.s)))
    [] t.k = "cont" /\ t.tagged -> LET i == t.items[1] IN VTg(i.name, IF i.f.ty.k = "cont" THEN DefItems(P, i.f.ty) ELSE DefT(P, i.f.ty))
    [] t.k = "cont" -> DefItems(P, t)
    [] OTHER -> IF f.cond # <<>> THEN None ELSE DefT(P, t)

---------------------------------------------------------------------------
Names(p, ks) == LET s == SelectSeq(p, LAMBDA d : d.k = "type" /\ d.f.ty.k \in ks) IN [i \in 1..Len(s) |-> s[i].name]
Valued(p) == Names(p, {"enum", "bits"})
Usable(e) == e.st = "ok" /\ Supported(e.P) /\ ItemsFine(e.P)
ApiProg(d) ==
  LET g1 == AddEnums(AddConsts([G0 EXCEPT !.wild = d - d], 1, Rnd(0, 2)), 1, 1)
      g2 == AddBits(g1, 1, Rnd(1, 2))
      g3 == AddConsts(g2, 3, Rnd(3, 5))
      g4 == AddBits(AddEnums(g3, 2, Rnd(2, 3)), 3, Rnd(3, 4))
      g5 == AddStructs(g4, 1, Rnd(1, 3))
  IN Ffis \o g5.ds
Author1 ==
  /\ ph = "author"
  /\ prog' = TLCEval(ApiProg(id))
  /\ el' = TLCEval(Elab(prog'))
  /\ id' = id + 1 /\ n' = 0 /\ ty' = NoTy /\ v' = <<>> /\ was' = <<>> /\ log' = <<>>
  /\ LET r == [p |-> id', k |-> "prog", prog |-> prog', st |-> el'.st] IN
     IF Usable(el')
     THEN /\ ph' = "take"
          /\ Emit(r @@ [sup |-> TRUE])
          /\ \A i \in 1..Len(UserTypes(prog')) : LET t == UserTypes(prog')[i].name IN
               Emit([p |-> id', k |-> "default", t |-> t, st |-> "ok", v |-> DefTop(el'.P, el'.P.tn[t])])
     ELSE ph' = "author" /\ Emit(r @@ [sup |-> FALSE])

Start(P, nm) == LET t == P.types[P.tn[nm]].f.ty IN
  [n |-> nm, k |-> t.k, s |-> t.s, its |-> Items(P, t), mask |-> IF t.k = "bits" THEN Mask(P, t) ELSE <<>>]
Take ==
  /\ ph = "take"
  /\ ty' = TLCEval(Start(el.P, Valued(prog)[(n % Len(Valued(prog))) + 1]))
  /\ v' = (IF ty'.k = "bits" THEN VBf(Zeros(W(ty'.s))) ELSE VE(ty'.its[1].name, IF ty'.its[1].dflt THEN Zeros(W(ty'.s)) ELSE ty'.its[1].b))
  /\ was' = v' /\ log' = <<>> /\ ph' = "act"
  /\ UNCHANGED <<prog, el, n, id>>

\* one thing done to the value at hand: [op, f, b, st, v]
St(op, f, b, st, x) == [op |-> op, f |-> f, b |-> b, st |-> st, v |-> x]
BitsStep(t, x) ==
  LET w == W(t.s)
      i == Rnd(1, Len(t.its))  f == t.its[i]
      b == LET c == Rnd(1, 6) IN CASE c <= 2 -> f.b [] c = 3 -> RandB(w) [] c = 4 -> t.mask [] c = 5 -> AndB(RandB(w), t.mask) [] OTHER -> RandScalar(t.s)
      c == Of(<<"zero", "all", "default", "flag", "flag", "raw", "repr", "repr", "repr", "set", "set", "set", "or", "and", "xor", "ora", "anda", "xora", "not">>) IN
  CASE c \in {"zero", "default"} -> St(c, "", b, "ok", VBf(Zeros(w)))
    [] c = "all" -> St(c, "", b, "ok", VBf(t.mask))
    [] c = "flag" -> St(c, f.name, b, "ok", VBf(f.b))
    [] c = "raw" -> St(c, "", b, "ok", VBf(b))
    [] c = "repr" -> IF IsZero(AndB(b, NotB(t.mask))) THEN St(c, "", b, "ok", VBf(b)) ELSE St(c, "", b, "err", x)
    [] c = "set" -> St(c, f.name, b, "ok", VBf(OrB(x.b, f.b)))
    [] c \in {"or", "ora"} -> St(c, "", b, "ok", VBf(OrB(x.b, b)))
    [] c \in {"and", "anda"} -> St(c, "", b, "ok", VBf(AndB(x.b, b)))
    [] c \in {"xor", "xora"} -> St(c, "", b, "ok", VBf(XorB(x.b, b)))
    [] OTHER -> St(c, "", b, "ok", VBf(NotB(x.b)))
ByRepr(t, b) == LET hs == SelectSeq(t.its, LAMBDA i : i.dflt \/ i.b = b) IN
  IF hs = <<>> THEN <<>> ELSE <<VE(hs[1].name, b)>>
EnumStep(t, x) ==
  LET w == W(t.s)
      i == Rnd(1, Len(t.its))  f == t.its[i]
      b == LET c == Rnd(1, 4) IN IF f.dflt \/ c = 4 THEN RandScalar(t.s) ELSE IF c = 3 THEN XorB(f.b, Zeros(w - 1) \o <<Of(<<1, 2, 128>>)>>) ELSE f.b
      c == Of(<<"default", "variant", "variant", "repr", "repr", "repr">>)
      r == ByRepr(t, b) IN
  CASE c = "default" -> LET z == t.its[1] IN St(c, "", b, "ok", VE(z.name, IF z.dflt THEN Zeros(w) ELSE z.b))
    [] c = "variant" -> LET y == VE(f.name, IF f.dflt THEN b ELSE f.b) IN St(c, "", b, "ok", y)
    [] OTHER -> IF r = <<>> THEN St(c, "", b, "err", x) ELSE St(c, "", b, "ok", r[1])
Has(x, f) == ~IsZero(AndB(x.b, f.b))
Seen(s) == [op |-> s.op, f |-> s.f, b |-> s.b, st |-> s.st, v |-> s.v, same |-> s.v = v,
            x |-> IF s.op = "variant" THEN <<s.v>> ELSE <<>>,
            has |-> IF ty.k = "bits" THEN [i \in 1..Len(ty.its) |-> Has(s.v, ty.its[i])] ELSE <<>>]
Act ==
  /\ ph = "act" /\ Len(log) < Steps
  /\ log' = TLCEval(Append(log, Seen(TLCEval(IF ty.k = "bits" THEN BitsStep(ty, v) ELSE EnumStep(ty, v)))))
  /\ v' = log'[Len(log')].v
  /\ was' = v /\ UNCHANGED <<ph, prog, el, ty, n, id>>
Finish ==
  /\ ph = "act" /\ Len(log) = Steps
  /\ Emit([p |-> id, k |-> "api", t |-> ty.n, st |-> "ok", ty |-> ty.k, steps |-> log])
  /\ n' = n + 1 /\ ph' = IF n' >= PerProg /\ n' >= Len(Valued(prog)) THEN "author" ELSE "take"
  /\ ty' = NoTy /\ log' = <<>>
  /\ UNCHANGED <<prog, el, v, was, id>>
Next == Author1 \/ Take \/ Act \/ Finish
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Did == log[Len(log)]
Doing == ph = "act" /\ log # <<>>
\* a value accepted by from_repr is made of known flags / is a variant; a refusal changes nothing
Known == (Doing /\ Did.op = "repr") => (IF Did.st = "err" THEN v = was ELSE ty.k = "enum" \/ IsZero(AndB(v.b, NotB(ty.mask))))
\* setting a flag makes it seen, clears nothing, and setting it again changes nothing
Sets == (Doing /\ Did.op = "set") =>
  \A i \in 1..Len(ty.its) :
    /\ Has(was, ty.its[i]) => Has(v, ty.its[i])
    /\ ty.its[i].name = Did.f => (Has(v, ty.its[i]) \/ IsZero(ty.its[i].b)) /\ OrB(v.b, ty.its[i].b) = v.b
\* what is unknown is exactly what from_repr refuses
Whole1 == (Doing /\ ty.k = "bits" /\ Did.op = "not") => XorB(v.b, was.b) = Fill(W(ty.s), 255)
\* an enum value's number leads back to it, unless a default variant was given a named number
Back == (Doing /\ ty.k = "enum") => (LET r == ByRepr(ty, v.b) IN r # <<>> /\ (r[1] = v \/ \E i \in 1..Len(ty.its) : ty.its[i].name = v.v /\ ty.its[i].dflt))
=============================================================================
