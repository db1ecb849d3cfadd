------------------------------- MODULE Codec -------------------------------
(* The meaning of a protospec type: Enc maps a value to its wire bytes, Dec  *)
(* maps an input prefix to a value.  Dec is a three-valued function of a     *)
(* prefix: decided ("ok" / "err") or "need" more input; eof says whether the *)
(* end of the input is known to be the end of the prefix.                    *)
(*                                                                           *)
(* Values: i (integer, big-endian bytes) b (bool) f (float, raw) e (enum     *)
(* variant + repr) bf (bitfield) a (sequence) s (string, UTF-8) o (optional) *)
(* st (struct: flattened field name -> value) tg (tagged enum).              *)
EXTENDS Types

VI(b)   == [k |-> "i", b |-> b]
VB(x)   == [k |-> "b", v |-> x]
VF(b)   == [k |-> "f", b |-> b]
VA(s)   == [k |-> "a", s |-> s]
VS(b)   == [k |-> "s", b |-> b]
VE(n,b) == [k |-> "e", v |-> n, b |-> b]
VBf(b)  == [k |-> "bf", b |-> b]
VSt(m)  == [k |-> "st", m |-> m]
VTg(n,x) == [k |-> "tg", v |-> n, x |-> x]
Some(v) == [k |-> "o", s |-> <<v>>]
None    == [k |-> "o", s |-> <<>>]
TrapV   == [k |-> "trap"]
U64(n)  == VI(OfNat(n, 8))
BytesV(s) == TLCEval([i \in 1..Len(s) |-> VI(<<s[i]>>)])

EmptyMap == [x \in {} |-> 0]
PadMax == 4096     \* longer paddings are written by no test
Env(as)  == [f |-> EmptyMap, a |-> as, c |-> EmptyMap]

\* the scalar behind a type, where it has one
Scal(P, t0) == LET t == Res(P, t0) IN
  CASE t.k = "sc" -> t.s
    [] t.k \in {"enum", "bits"} -> t.s
    [] t.k = "foreign" /\ t.n \in VarNames -> VarScalar(t.n)
    [] t.k = "foreign" /\ t.n = "odd8" -> "u8"
    [] OTHER -> ""

RECURSIVE Eval(_, _, _)
RECURSIVE Enc(_, _, _, _)
RECURSIVE EncItems(_, _, _, _, _, _)
RECURSIVE EncTop(_, _, _, _)
RECURSIVE EncContent(_, _, _, _)

ArithB(op, sg, a, b) ==
  CASE op = "+" -> Add(sg, a, b) [] op = "-" -> Sub(sg, a, b) [] op = "*" -> Mul(sg, a, b)
    [] op = "/" -> Div(sg, a, b) [] op = "%" -> Rem(sg, a, b)
    [] op = "<<" -> Shl(sg, a, b) [] op \in {">>", ">>>"} -> Shr(sg, a, b)
    [] op = "&" -> AndB(a, b) [] op = "|" -> OrB(a, b) [] op = "^" -> XorB(a, b)

Num(v) == IF v.k = "b" THEN <<IF v.v THEN 1 ELSE 0>> ELSE v.b

RECURSIVE SumU(_, _, _, _)
SumU(sg, s, i, acc) == IF i > Len(s) THEN acc
  ELSE LET r == Add(FALSE, acc, Resize(sg, s[i].b, 8)) IN IF r = Trap THEN Trap ELSE SumU(sg, s, i + 1, r)

Call(P, env, e) ==
  IF e.f = "blen" THEN
    LET n == e.a[1].n
        r == EncContent(P, env.c[n].ty, env, env.in[n])
    IN IF r.st = "ok" THEN U64(Len(r.b)) ELSE TrapV
  ELSE
  LET vs == [i \in 1..Len(e.a) |-> Eval(P, env, e.a[i])] IN
  IF \E i \in 1..Len(vs) : vs[i].k = "trap" THEN TrapV
  ELSE CASE e.f = "len" ->
              LET v == vs[1] IN
              U64(CASE v.k = "a" -> Len(v.s) [] v.k = "s" -> Len(v.b) [] v.k = "b" -> 1 [] OTHER -> Len(v.b))
         [] e.f = "sum" -> LET r == SumU(Sg(Scal(P, e.a[1].ty.el)), vs[1].s, 1, Zeros(8)) IN IF r = Trap THEN TrapV ELSE VI(r)
         [] e.f = "bits" -> VI(<<PopCount(vs[1].b)>>)
         [] e.f = "is_even" -> VB(vs[1].b[8] % 2 = 0)
         [] e.f = "fmix" -> VI(RawAdd(XorB(vs[1].b, vs[2].b), IF Len(vs) = 3 THEN vs[3].b ELSE OfNat(5, 8))[2])
         [] e.f = "pad" ->
              IF IsZero(vs[1].b) THEN VI(Zeros(8))
              ELSE LET r == Rem(FALSE, vs[2].b, vs[1].b) IN IF IsZero(r) THEN VI(r) ELSE VI(Sub(FALSE, vs[1].b, r))

Eval(P, env, e) ==
  CASE e.k = "lit"   -> VI(e.b)
    [] e.k = "bool"  -> VB(e.v)
    [] e.k = "str"   -> VA(BytesV(e.b))
    [] e.k = "fld"   -> IF e.n \in DOMAIN env.f THEN env.f[e.n] ELSE TrapV
    [] e.k = "inp"   -> env.a[e.n]
    [] e.k = "const" -> Eval(P, env, e.e)
    [] e.k = "ev"    -> LET v == Eval(P, env, e.e) IN
                        IF v.k = "trap" THEN v ELSE IF e.ty.k = "enum" THEN VE(e.v, v.b) ELSE VBf(v.b)
    [] e.k = "cast"  ->
         LET v == Eval(P, env, e.x)  s == Scal(P, e.x.ty)  t == Res(P, e.ty) IN
         IF v.k = "trap" THEN v
         ELSE IF t.k = "sc" /\ s # "" THEN VI(Resize(Sg(s), v.b, W(t.s)))
         ELSE v
    [] e.k = "tern"  ->
         LET c == Eval(P, env, e.c) IN
         IF c.k = "trap" THEN c ELSE IF c.v THEN Eval(P, env, e.t) ELSE Eval(P, env, e.f)
    [] e.k = "idx"   ->
         LET a == Eval(P, env, e.x)  i == Eval(P, env, e.i) IN
         IF a.k = "trap" \/ i.k = "trap" THEN TrapV
         ELSE IF NatOr(i.b) >= Len(a.s) THEN TrapV ELSE a.s[NatOr(i.b) + 1]
    [] e.k = "mem"   ->
         LET v == Eval(P, env, e.x)  m == Eval(P, env, e.m) IN
         IF v.k = "trap" \/ m.k = "trap" THEN TrapV ELSE VB(~IsZero(AndB(v.b, m.b)))
    [] e.k = "call"  -> Call(P, env, e)
    [] e.k = "un"    ->
         LET v == Eval(P, env, e.x) IN
         IF v.k = "trap" THEN v
         ELSE IF e.op = "-" THEN (LET r == NegC(v.b) IN IF r = Trap THEN TrapV ELSE VI(r))
         ELSE IF v.k = "b" THEN VB(~v.v) ELSE VI(NotB(v.b))
    [] e.k = "bin"   ->
         LET l == Eval(P, env, e.l) IN
         IF l.k = "trap" THEN l
         ELSE IF e.op = "?:" THEN (IF l.k # "o" THEN TrapV ELSE IF l.s = <<>> THEN Eval(P, env, e.r) ELSE l.s[1])
         ELSE IF e.op = "&&" /\ ~l.v THEN l
         ELSE IF e.op = "||" /\ l.v THEN l
         ELSE LET r == Eval(P, env, e.r) IN
         IF r.k = "trap" \/ e.op \in LogicOps THEN r
         ELSE LET sg == Sg(Scal(P, e.l.ty)) IN
         CASE e.op = "==" -> VB(IF l.k = "e" THEN l.v = r.v /\ l.b = r.b ELSE Num(l) = Num(r))
           [] e.op = "!=" -> VB(IF l.k = "e" THEN ~(l.v = r.v /\ l.b = r.b) ELSE Num(l) # Num(r))
           [] e.op = "<"  -> VB(Cmp(sg, Num(l), Num(r)) < 0)
           [] e.op = ">"  -> VB(Cmp(sg, Num(l), Num(r)) > 0)
           [] e.op = "<=" -> VB(Cmp(sg, Num(l), Num(r)) <= 0)
           [] e.op = ">=" -> VB(Cmp(sg, Num(l), Num(r)) >= 0)
           [] l.k = "b"   -> VB(ArithB(e.op, FALSE, Num(l), Num(r)) = <<1>>)
           [] OTHER -> LET x == ArithB(e.op, sg, l.b, r.b) IN IF x = Trap THEN TrapV ELSE VI(x)

EvArgs(P, env, es) == TLCEval([i \in 1..Len(es) |-> Eval(P, env, es[i])])
AnyTrap(vs) == \E i \in 1..Len(vs) : vs[i].k = "trap"

\* enum variants / bitfield flags with their numbers: seq of [name, dflt, b]
Items(P, t) == TLCEval([i \in 1..Len(t.items) |->
  IF t.items[i].dflt THEN [name |-> t.items[i].name, dflt |-> TRUE, b |-> <<>>]
  ELSE LET v == Eval(P, Env(EmptyMap), t.items[i].e)
       IN [name |-> t.items[i].name, dflt |-> FALSE, b |-> IF v.k = "trap" THEN <<>> ELSE v.b]])
Mask(P, t) == FoldLeft(LAMBDA acc, it : OrB(acc, it.b), Zeros(W(t.s)), Items(P, t))

---------------------------------------------------------------------------
\* encoding: [st : ok|err|trap, b]
OkB(b) == [st |-> "ok", b |-> b]
ErrB   == [st |-> "err"]
TrapB  == [st |-> "trap"]
End(t, b) == IF t.e = "le" THEN RevSeq(b) ELSE b

\* all leaf fields of a container in flattened order: seq of [name, f, cond : enclosing conditional?]
RECURSIVE Flat(_, _, _, _)
Flat(items, i, cond, acc) ==
  IF i > Len(items) THEN acc
  ELSE LET it == items[i] IN
  IF it.k = "pad" THEN Flat(items, i + 1, cond, acc)
  ELSE IF it.f.ty.k = "cont" THEN Flat(items, i + 1, cond, Flat(it.f.ty.items, 1, cond \/ it.f.cond # <<>>, acc))
  ELSE Flat(items, i + 1, cond, Append(acc, [name |-> it.name, f |-> it.f, opt |-> cond \/ it.f.cond # <<>>]))
Fields(t) == Flat(t.items, 1, FALSE, <<>>)

\* inline containers by name, and whether each lies in a conditional part
RECURSIVE Conts(_, _, _)
Conts(items, i, cond) ==
  IF i > Len(items) THEN <<>>
  ELSE LET it == items[i]  rest == Conts(items, i + 1, cond) IN
  IF it.k = "pad" \/ it.f.ty.k # "cont" THEN rest
  ELSE LET c == cond \/ it.f.cond # <<>> IN
       <<[name |-> it.name, f |-> it.f, cond |-> c]>> \o Conts(it.f.ty.items, 1, c) \o rest
ContMap(t) == LET cs == Conts(t.items, 1, FALSE) IN
  [n \in {cs[i].name : i \in 1..Len(cs)} |-> CHOOSE c \in {cs[i] : i \in 1..Len(cs)} : c.name = n]

RECURSIVE HasBlen(_)
HasBlen(e) ==
  CASE e.k = "call" -> e.f = "blen" \/ \E i \in 1..Len(e.a) : HasBlen(e.a[i])
    [] e.k = "bin" -> HasBlen(e.l) \/ HasBlen(e.r)
    [] e.k \in {"un", "cast", "mem"} -> HasBlen(e.x)
    [] e.k = "tern" -> HasBlen(e.c) \/ HasBlen(e.t) \/ HasBlen(e.f)
    [] e.k = "idx" -> HasBlen(e.x) \/ HasBlen(e.i)
    [] OTHER -> FALSE

\* calculated fields replace whatever the value says; <<"trap">>-free or the field is TrapV
RECURSIVE Calcs(_, _, _, _)
Calcs(P, fs, i, env) ==
  IF i > Len(fs) THEN env
  ELSE IF fs[i].f.calc = <<>> \/ HasBlen(fs[i].f.calc[1]) THEN Calcs(P, fs, i + 1, env)
  ELSE LET v == Eval(P, env, fs[i].f.calc[1]) IN
       Calcs(P, fs, i + 1, [env EXCEPT !.f = (fs[i].name :> v) @@ @])
StructEnv(P, t, m, as) ==
  LET fs == Fields(t)
      cm == ContMap(t)
      e0 == [f |-> m, a |-> as, c |-> [n \in DOMAIN cm |-> cm[n].f], in |-> [n \in DOMAIN cm |-> cm[n].cond]]
  IN Calcs(P, fs, 1, e0)
EnvTraps(env) == \E n \in DOMAIN env.f : env.f[n].k = "trap"

\* transforms, applied left to right
XfBytes(n, vs, b) ==
  CASE n = "xadd" -> LET k == IF vs = <<>> THEN 1 ELSE vs[1].b[1] IN OkB(TLCEval([i \in 1..Len(b) |-> (b[i] + k) % 256]))
    [] n = "xxor" -> OkB(TLCEval([i \in 1..Len(b) |-> b[i] ^^ vs[1].b[1]]))
    [] n = "frame" -> LET m == IF Len(vs) = 2 THEN vs[2].b[1] ELSE 0 IN
         IF Len(b) > 255 THEN ErrB ELSE OkB(<<vs[1].b[1], Len(b)>> \o TLCEval([i \in 1..Len(b) |-> b[i] ^^ m]))
RECURSIVE XfEnc(_, _, _, _, _)
XfEnc(P, env, xf, i, b) ==
  IF i > Len(xf) THEN OkB(b)
  ELSE LET c == IF xf[i].cond = <<>> THEN VB(TRUE) ELSE Eval(P, env, xf[i].cond[1]) IN
  IF c.k = "trap" THEN TrapB
  ELSE IF ~c.v THEN XfEnc(P, env, xf, i + 1, b)
  ELSE LET vs == EvArgs(P, env, xf[i].args) IN
  IF AnyTrap(vs) THEN TrapB
  ELSE LET r == XfBytes(xf[i].n, vs, b) IN IF r.st # "ok" THEN r ELSE XfEnc(P, env, xf, i + 1, r.b)

RECURSIVE EncEach(_, _, _, _, _, _)
EncEach(P, t, s, i, env, acc) ==
  IF i > Len(s) THEN OkB(acc)
  ELSE LET r == Enc(P, t, s[i], env) IN IF r.st # "ok" THEN r ELSE EncEach(P, t, s, i + 1, env, acc \o r.b)

\* named arguments of a reference: given ones, then defaults in the target's own scope
RECURSIVE BindArgs(_, _, _, _, _)
BindArgs(P, spec, vs, i, m) ==
  IF i > Len(spec) THEN m
  ELSE IF i <= Len(vs) THEN BindArgs(P, spec, vs, i + 1, (spec[i].n :> vs[i]) @@ m)
  ELSE IF "def" \notin DOMAIN spec[i] THEN m          \* foreign: absent
  ELSE BindArgs(P, spec, vs, i + 1, (spec[i].n :> Eval(P, Env(m), spec[i].def[1])) @@ m)
MapTraps(m) == \E n \in DOMAIN m : m[n].k = "trap"

EncForeign(n, v, as) ==
  CASE n \in VarNames ->
         LET RECURSIVE go(_, _)
             go(b, acc) == IF IsSmall(b) /\ ToNat(b) < 128 THEN Append(acc, ToNat(b))
                           ELSE go(ShrF(b, 7, 0), Append(acc, 128 + (b[Len(b)] % 128)))
         IN OkB(go(v.b, <<>>))
    [] n = "utf8"  -> OkB(IF DOMAIN as = {} THEN Append(v.b, 0) ELSE v.b)
    [] n = "utf16" -> OkB(Utf16Of(CodePoints(v.b)))
    [] n = "blob"  -> LET m == IF "mask" \in DOMAIN as THEN as["mask"].b[8] ELSE 0 IN
                      OkB(TLCEval([i \in 1..Len(v.s) |-> v.s[i].b[1] ^^ m]))
    [] n = "odd8"  -> IF v.b[1] % 2 = 0 THEN ErrB ELSE OkB(v.b)

\* a value at a type (no condition, no transforms)
Enc(P, t, v, env) ==
  CASE t.k = "sc" -> OkB(End(t, v.b))
    [] t.k = "f"  -> OkB(v.b)
    [] t.k = "bool" -> OkB(<<IF v.v THEN 1 ELSE 0>>)
    [] t.k = "enum" -> OkB(End(t, v.b))
    [] t.k = "bits" -> OkB(End(t, v.b))
    [] t.k = "arr" ->
         (CASE t.mode = "ext" -> EncEach(P, t.el, v.s, 1, env, <<>>)
            [] t.mode = "fix" ->
                 LET n == Eval(P, env, t.len[1]) IN
                 IF n.k = "trap" THEN TrapB
                 ELSE IF NatOr(n.b) # Len(v.s) THEN ErrB ELSE EncEach(P, t.el, v.s, 1, env, <<>>)
            [] OTHER ->
                 LET r == EncEach(P, t.el, v.s, 1, env, <<>>)  z == Eval(P, env, t.len[1]) IN
                 IF r.st # "ok" THEN r ELSE IF z.k = "trap" THEN TrapB
                 ELSE OkB(r.b \o TLCEval([i \in 1..Len(z.s) |-> z.s[i].b[1]])))
    [] t.k = "ref" ->
         LET vs == EvArgs(P, env, t.args) IN
         IF AnyTrap(vs) THEN TrapB
         ELSE LET as == BindArgs(P, P.types[t.name].args, vs, 1, EmptyMap) IN
              IF MapTraps(as) THEN TrapB ELSE EncTop(P, t.name, v, as)

\* the content of an inline container; inside: under a conditional container
EncContent(P, t, env, inside) ==
  LET un == {it \in {t.items[i] : i \in 1..Len(t.items)} :
               it.k = "f" /\ it.f.ty.k # "cont" /\ it.f.calc = <<>> /\ it.f.cond = <<>>}
      nms == {it.name : it \in un}
      raw(n) == env.f[n]
  IN IF ~inside THEN EncItems(P, t.items, 1, env, FALSE, <<>>)
     ELSE IF \E n \in nms : raw(n).s = <<>> THEN ErrB
     ELSE EncItems(P, t.items, 1, [env EXCEPT !.f = [n \in nms |-> raw(n).s[1]] @@ @], TRUE, <<>>)

\* conditions and arguments of transforms are evaluated before anything is written
XfTraps(P, env, xf) == \E i \in 1..Len(xf) :
  LET c == IF xf[i].cond = <<>> THEN VB(TRUE) ELSE Eval(P, env, xf[i].cond[1]) IN
  c.k = "trap" \/ (c.v /\ AnyTrap(EvArgs(P, env, xf[i].args)))
\* one field with its condition and transforms
EncField(P, f, v, env, inside) ==
  LET c == IF f.cond = <<>> THEN VB(TRUE) ELSE Eval(P, env, f.cond[1]) IN
  IF c.k = "trap" THEN TrapB
  ELSE IF ~c.v THEN OkB(<<>>)
  ELSE IF XfTraps(P, env, f.xf) THEN TrapB
  ELSE IF f.ty.k = "cont" THEN
    LET L == IF f.ty.len = <<>> THEN VB(TRUE) ELSE Eval(P, env, f.ty.len[1])
        r == EncContent(P, f.ty, env, inside \/ f.cond # <<>>)
    IN IF L.k = "trap" THEN TrapB ELSE IF r.st # "ok" THEN r
       ELSE XfEnc(P, env, f.xf, 1, r.b)
  ELSE IF f.cond # <<>> /\ f.calc = <<>> /\ v.s = <<>> THEN ErrB
  ELSE LET r == Enc(P, f.ty, IF f.cond # <<>> /\ f.calc = <<>> THEN v.s[1] ELSE v, env) IN
       IF r.st # "ok" THEN r ELSE XfEnc(P, env, f.xf, 1, r.b)

EncItems(P, items, i, env, inside, acc) ==
  IF i > Len(items) THEN OkB(acc)
  ELSE LET it == items[i] IN
  IF it.k = "pad" THEN
    LET n == Eval(P, env, it.len) IN
    IF n.k = "trap" \/ NatOr(n.b) > PadMax THEN TrapB
    ELSE EncItems(P, items, i + 1, env, inside, acc \o Zeros(NatOr(n.b)))
  ELSE
    LET env2 == IF it.f.calc # <<>> /\ HasBlen(it.f.calc[1])
                THEN [env EXCEPT !.f = (it.name :> Eval(P, env, it.f.calc[1])) @@ @] ELSE env
        v == IF it.f.ty.k = "cont" THEN None ELSE env2.f[it.name]
    IN IF v.k = "trap" THEN TrapB
       ELSE LET r == EncField(P, it.f, v, env2, inside) IN
            IF r.st # "ok" THEN r ELSE EncItems(P, items, i + 1, env2, inside, acc \o r.b)

\* the first alternative whose condition holds
RECURSIVE Pick(_, _, _, _)
Pick(P, items, i, env) ==
  IF i > Len(items) THEN 0
  ELSE IF items[i].f.cond = <<>> THEN i
  ELSE LET c == Eval(P, env, items[i].f.cond[1]) IN
       IF c.k = "trap" THEN -1 ELSE IF c.v THEN i ELSE Pick(P, items, i + 1, env)

\* a named type
EncTop(P, name, v, as) ==
  LET f == P.types[name].f  t == f.ty  env == Env(as) IN
  CASE XfTraps(P, env, f.xf) -> TrapB
    [] t.k = "foreign" -> EncForeign(t.n, v, as)
    [] t.k = "cont" /\ t.tagged ->
         LET i == Pick(P, t.items, 1, env) IN
         IF i = -1 THEN TrapB ELSE IF i = 0 THEN ErrB
         ELSE LET it == t.items[i] IN
         IF v.v # it.name THEN ErrB
         ELSE LET L == IF t.len = <<>> THEN VB(TRUE) ELSE Eval(P, env, t.len[1]) IN
         IF L.k = "trap" THEN TrapB
         ELSE LET r == IF it.f.ty.k = "cont"
                       THEN LET e2 == StructEnv(P, it.f.ty, v.x.m, as) IN
                            IF EnvTraps(e2) THEN TrapB ELSE EncField(P, [it.f EXCEPT !.cond = <<>>], None, e2, FALSE)
                       ELSE EncField(P, [it.f EXCEPT !.cond = <<>>], v.x, env, FALSE)
              IN IF r.st # "ok" THEN r ELSE XfEnc(P, env, f.xf, 1, r.b)
    [] t.k = "cont" ->
         LET e2 == StructEnv(P, t, v.m, as) IN
         IF EnvTraps(e2) THEN TrapB
         ELSE LET L == IF t.len = <<>> THEN VB(TRUE) ELSE Eval(P, e2, t.len[1])
                  r == EncContent(P, t, e2, FALSE)
              IN IF L.k = "trap" THEN TrapB ELSE IF r.st # "ok" THEN r
                 ELSE XfEnc(P, env, f.xf, 1, r.b)
    [] OTHER -> EncField(P, f, v, env, FALSE)

---------------------------------------------------------------------------
\* decoding: [st : ok|err|need|trap, v, n]
OkD(v, n) == [st |-> "ok", v |-> v, n |-> n]
ErrD  == [st |-> "err"]
NeedD == [st |-> "need"]
TrapD == [st |-> "trap"]
Short(eof) == IF eof THEN ErrD ELSE NeedD
Bump(r, n) == IF r.st = "ok" THEN [r EXCEPT !.n = @ + n] ELSE r
From(s, n) == SubSeq(s, n + 1, Len(s))
Pre(s, n)  == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)

RECURSIVE Dec(_, _, _, _, _)
RECURSIVE DecTop(_, _, _, _, _)
RECURSIVE DecItems(_, _, _, _, _, _, _)
RECURSIVE DecX(_, _, _, _, _, _)

DecVar(s, inp, eof) ==
  LET w == W(s)
      top == (8 * w + 6) \div 7
      RECURSIVE go(_, _)
      go(i, acc) ==
        IF Len(inp) <= i THEN Short(eof)
        ELSE LET x == inp[i + 1]
                 a == OrB(acc, ShlB(Zeros(w - 1) \o <<x % 128>>, 7 * i))
             IN IF x < 128 \/ i + 1 >= top THEN OkD(VI(a), i + 1) ELSE go(i + 1, a)
  IN go(0, Zeros(w))

DecForeign(n, as, inp, eof) ==
  CASE n \in VarNames -> DecVar(VarScalar(n), inp, eof)
    [] n = "utf8" ->
         IF DOMAIN as = {} THEN
           LET z == {i \in 1..Len(inp) : inp[i] = 0} IN
           IF z = {} /\ ~eof THEN NeedD
           ELSE LET m == IF z = {} THEN Len(inp) + 1 ELSE Min(z)
                    b == Pre(inp, m - 1)
                IN IF Utf8Ok(b) THEN OkD(VS(b), IF z = {} THEN Len(inp) ELSE m) ELSE ErrD
         ELSE LET L == NatOr(as["length"].b) IN
              IF Len(inp) < L THEN Short(eof)
              ELSE IF Utf8Ok(Pre(inp, L)) THEN OkD(VS(Pre(inp, L)), L) ELSE ErrD
    [] n = "utf16" ->
         LET L == 2 * NatOr(as["length"].b) IN
         IF Len(inp) < L THEN Short(eof)
         ELSE LET c == Utf16From(Pre(inp, L), 1, <<>>) IN
              IF c = <<-1>> THEN ErrD ELSE OkD(VS(Utf8Of(c)), L)
    [] n = "blob" ->
         LET L == NatOr(as["len"].b)  m == IF "mask" \in DOMAIN as THEN as["mask"].b[8] ELSE 0 IN
         IF Len(inp) < L THEN Short(eof)
         ELSE OkD(VA(TLCEval([i \in 1..L |-> VI(<<inp[i] ^^ m>>)])), L)
    [] n = "odd8" -> IF inp = <<>> THEN Short(eof) ELSE IF inp[1] % 2 = 0 THEN ErrD ELSE OkD(VI(<<inp[1]>>), 1)

\* elements until `stop` (a count, or -1 : end of input, or -2 : terminator z)
RECURSIVE DecEach(_, _, _, _, _, _, _, _, _)
DecEach(P, t, stop, z, inp, n, env, eof, acc) ==
  LET rest == From(inp, n) IN
  IF stop >= 0 /\ Len(acc) >= stop THEN OkD(VA(acc), n)
  ELSE IF stop = -1 /\ rest = <<>> THEN (IF eof THEN OkD(VA(acc), n) ELSE NeedD)
  ELSE IF stop = -2 /\ Len(rest) < Len(z) /\ ~eof THEN NeedD
  ELSE IF stop = -2 /\ (rest = <<>> \/ Pre(rest, Len(z)) = z) THEN OkD(VA(acc), n + (IF rest = <<>> THEN 0 ELSE Len(z)))
  ELSE LET r == Dec(P, t, rest, env, eof) IN
       IF r.st # "ok" THEN r
       ELSE IF r.n = 0 /\ (stop < 0 \/ stop > 99) THEN TrapD      \* elements of no width: the array has no (near) end
       ELSE DecEach(P, t, stop, z, inp, n + r.n, env, eof, Append(acc, r.v))

DecNum(w, inp, eof) == IF Len(inp) < w THEN Short(eof) ELSE OkD(Pre(inp, w), w)

Dec(P, t, inp, env, eof) ==
  CASE t.k = "sc" -> IF Len(inp) < W(t.s) THEN Short(eof) ELSE OkD(VI(End(t, Pre(inp, W(t.s)))), W(t.s))
    [] t.k = "f"  -> IF Len(inp) < t.w THEN Short(eof) ELSE OkD(VF(Pre(inp, t.w)), t.w)
    [] t.k = "bool" -> IF inp = <<>> THEN Short(eof) ELSE OkD(VB(inp[1] # 0), 1)
    [] t.k = "enum" ->
         IF Len(inp) < W(t.s) THEN Short(eof)
         ELSE LET b == End(t, Pre(inp, W(t.s)))
                  is == Items(P, t)
                  hit == {i \in 1..Len(is) : ~is[i].dflt /\ is[i].b = b}
                  df == {i \in 1..Len(is) : is[i].dflt}
              IN IF hit # {} THEN OkD(VE(is[Min(hit)].name, b), W(t.s))
                 ELSE IF df # {} THEN OkD(VE(is[Min(df)].name, b), W(t.s)) ELSE ErrD
    [] t.k = "bits" ->
         IF Len(inp) < W(t.s) THEN Short(eof)
         ELSE LET b == End(t, Pre(inp, W(t.s))) IN
              IF AndB(b, Mask(P, t)) = b THEN OkD(VBf(b), W(t.s)) ELSE ErrD
    [] t.k = "arr" ->
         (CASE t.mode = "ext" -> DecEach(P, t.el, -1, <<>>, inp, 0, env, eof, <<>>)
            [] t.mode = "fix" ->
                 LET n == Eval(P, env, t.len[1]) IN
                 IF n.k = "trap" THEN TrapD ELSE DecEach(P, t.el, NatOr(n.b), <<>>, inp, 0, env, eof, <<>>)
            [] OTHER ->
                 LET z == Eval(P, env, t.len[1]) IN
                 IF z.k = "trap" THEN TrapD
                 ELSE DecEach(P, t.el, -2, TLCEval([i \in 1..Len(z.s) |-> z.s[i].b[1]]), inp, 0, env, eof, <<>>))
    [] t.k = "ref" ->
         LET vs == EvArgs(P, env, t.args) IN
         IF AnyTrap(vs) THEN TrapD
         ELSE LET as == BindArgs(P, P.types[t.name].args, vs, 1, EmptyMap) IN
              IF MapTraps(as) THEN TrapD ELSE DecTop(P, t.name, as, inp, eof)

\* undo transforms j..1, then decode; for containers the value is the environment they leave
DecBody(P, f, inp, env, eof) ==
  IF f.ty.k # "cont" THEN Dec(P, f.ty, inp, env, eof)
  ELSE IF f.ty.len = <<>> THEN DecItems(P, f.ty.items, 1, inp, 0, env, eof)
  ELSE LET L == Eval(P, env, f.ty.len[1]) IN
       IF L.k = "trap" THEN TrapD
       ELSE LET n == NatOr(L.b) IN
            IF Len(inp) >= n THEN DecItems(P, f.ty.items, 1, Pre(inp, n), 0, env, TRUE)
            ELSE DecItems(P, f.ty.items, 1, inp, 0, env, eof)
DecX(P, f, j, inp, env, eof) ==
  IF j = 0 THEN DecBody(P, f, inp, env, eof)
  ELSE LET x == f.xf[j]
           c == IF x.cond = <<>> THEN VB(TRUE) ELSE Eval(P, env, x.cond[1]) IN
  IF c.k = "trap" THEN TrapD
  ELSE IF ~c.v THEN DecX(P, f, j - 1, inp, env, eof)
  ELSE LET vs == EvArgs(P, env, x.args) IN
  IF AnyTrap(vs) THEN TrapD
  ELSE CASE x.n = "xadd" ->
              LET k == IF vs = <<>> THEN 1 ELSE vs[1].b[1] IN
              DecX(P, f, j - 1, TLCEval([i \in 1..Len(inp) |-> (inp[i] + 256 - k) % 256]), env, eof)
         [] x.n = "xxor" ->
              DecX(P, f, j - 1, TLCEval([i \in 1..Len(inp) |-> inp[i] ^^ vs[1].b[1]]), env, eof)
         [] OTHER ->
              LET m == IF Len(vs) = 2 THEN vs[2].b[1] ELSE 0 IN
              IF Len(inp) < 2 THEN Short(eof)
              ELSE IF inp[1] # vs[1].b[1] THEN ErrD
              ELSE IF Len(inp) < 2 + inp[2] THEN Short(eof)
              ELSE LET r == DecX(P, f, j - 1, TLCEval([i \in 1..inp[2] |-> inp[2 + i] ^^ m]), env, TRUE)
                   IN IF r.st = "ok" THEN [r EXCEPT !.n = 2 + inp[2]] ELSE r

\* fields of a container that was skipped: all absent
NoneOf(t) == LET fs == Fields(t) IN [n \in {fs[i].name : i \in 1..Len(fs)} |-> None]
WrapOpt(t, m) == LET fs == Fields(t) IN
  [n \in {fs[i].name : i \in 1..Len(fs)} |->
     IF \E i \in 1..Len(fs) : fs[i].name = n /\ fs[i].opt THEN m[n] ELSE Some(m[n])]

\* result value: the environment's field map
DecItems(P, items, i, inp, n, env, eof) ==
  IF i > Len(items) THEN OkD(env.f, n)
  ELSE LET it == items[i]  rest == From(inp, n) IN
  IF it.k = "pad" THEN
    LET L == Eval(P, env, it.len) IN
    IF L.k = "trap" THEN TrapD
    ELSE IF Len(rest) < NatOr(L.b) THEN Short(eof)
    ELSE DecItems(P, items, i + 1, inp, n + NatOr(L.b), env, eof)
  ELSE
    LET c == IF it.f.cond = <<>> THEN VB(TRUE) ELSE Eval(P, env, it.f.cond[1]) IN
    IF c.k = "trap" THEN TrapD
    ELSE IF ~c.v THEN
      DecItems(P, items, i + 1, inp, n,
        [env EXCEPT !.f = (IF it.f.ty.k = "cont" THEN NoneOf(it.f.ty) ELSE (it.name :> None)) @@ @], eof)
    ELSE LET r == DecX(P, it.f, Len(it.f.xf), rest, env, eof) IN
    IF r.st # "ok" THEN r
    ELSE DecItems(P, items, i + 1, inp, n + r.n,
           [env EXCEPT !.f = (IF it.f.ty.k = "cont"
                              THEN (IF it.f.cond # <<>> THEN WrapOpt(it.f.ty, r.v) ELSE r.v)
                              ELSE (it.name :> IF it.f.cond # <<>> THEN Some(r.v) ELSE r.v)) @@ @], eof)

DecTop(P, name, as, inp, eof) ==
  LET f == P.types[name].f  t == f.ty  env == Env(as) IN
  CASE XfTraps(P, env, f.xf) -> TrapD
    [] t.k = "foreign" -> DecForeign(t.n, as, inp, eof)
    [] t.k = "cont" /\ t.tagged ->
         LET i == Pick(P, t.items, 1, env) IN
         IF i = -1 THEN TrapD ELSE IF i = 0 THEN ErrD
         ELSE LET it == t.items[i]
                  \* the alternative, seen as the one item of the outer container
                  g == [f EXCEPT !.ty = [t EXCEPT !.tagged = FALSE, !.items = <<[it EXCEPT !.f.cond = <<>>]>>]]
                  r == DecX(P, g, Len(f.xf), inp, env, eof)
              IN IF r.st # "ok" THEN r
                 ELSE [r EXCEPT !.v = VTg(it.name, IF it.f.ty.k = "cont" THEN VSt(r.v) ELSE r.v[it.name])]
    [] t.k = "cont" ->
         LET r == DecX(P, f, Len(f.xf), inp, env, eof) IN
         IF r.st # "ok" THEN r ELSE [r EXCEPT !.v = VSt(r.v)]
    [] OTHER ->
         LET c == IF f.cond = <<>> THEN VB(TRUE) ELSE Eval(P, env, f.cond[1]) IN
         IF c.k = "trap" THEN TrapD
         ELSE IF ~c.v THEN OkD(None, 0)
         ELSE LET r == DecX(P, f, Len(f.xf), inp, env, eof) IN
              IF r.st # "ok" \/ f.cond = <<>> THEN r ELSE [r EXCEPT !.v = Some(r.v)]
=============================================================================
